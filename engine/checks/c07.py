"""C07: deduced number sets are sound.

`determine_numeric_set` is evaluated abstractly on every expression kind, with the sets of its operands enumerated. The
deduced set must contain the value of the expression for every combination of sample values of the operand sets (an
independent oracle: complex arithmetic on points that exercise signs, zeros, poles and branch cuts of each function)."""
import cmath, itertools, math
from wfa.program import load_core, AnalysisBroken
from wfa.vg import *
from wfa import algebra
from wfa.nodes import build, ctors, variadic, sexpr, bexpr
from wfa.shapes import instances, wrapper_of, NODES
from wfa.report import Check

NS = "wf::number_set"
SETS = ["real_positive", "real_non_negative", "real", "complex", "unknown"]
POS = [0.25, 1.0, 1.5707963267948966, 2.0, 3.5]
NEG = [-0.25, -1.0, -1.5707963267948966, -2.0, -3.5]
CPX = [1j, -1j, 1.5707963267948966j, 1 + 2j, -0.5 - 0.75j, 2.5 - 1j]
OUT = "outside"                                   # infinity, undefined
GAMMA = {"real_positive": POS, "real_non_negative": [0.0] + POS, "real": [0.0] + POS + NEG,
         "complex": [0.0] + POS + NEG + CPX, "unknown": [0.0] + POS + NEG + CPX + [OUT]}


def inside(v, s):
    if s == "unknown":
        return True
    if v is OUT:
        return False
    v = complex(v)
    if math.isnan(v.real) or math.isnan(v.imag) or abs(v) > 1e14:
        return False
    if s == "complex":
        return True
    if abs(v.imag) > 1e-9 * max(1, abs(v)):
        return False
    return s == "real" or (v.real >= 0 if s == "real_non_negative" else v.real > 0)


def lift(f):
    def g(*xs):
        if any(x is OUT for x in xs):
            return OUT
        try:
            return f(*[complex(x) for x in xs])
        except (ValueError, ZeroDivisionError, OverflowError):
            return OUT
    return g


def power_(b, e):
    if e == 0:
        return 1
    if b == 0:
        if e.real > 0 and e.imag == 0:
            return 0
        raise ZeroDivisionError
    if e.imag == 0 and e.real == int(e.real):
        return b ** int(e.real)
    return cmath.exp(e * cmath.log(b))


def tan_(x):
    if abs(cmath.cos(x)) < 1e-12:
        raise ZeroDivisionError
    return cmath.tan(x)


def atan2_(y, x):
    if y == 0 and x == 0:
        raise ZeroDivisionError
    if y.imag or x.imag:
        return -1j * cmath.log((x + 1j * y) / cmath.sqrt(x * x + y * y))
    return math.atan2(y.real, x.real)


FUN = {"cos": cmath.cos, "sin": cmath.sin, "tan": tan_, "arccos": cmath.acos, "arcsin": cmath.asin, "arctan": cmath.atan,
       "cosh": cmath.cosh, "sinh": cmath.sinh, "tanh": cmath.tanh, "arccosh": cmath.acosh, "arcsinh": cmath.asinh,
       "arctanh": cmath.atanh, "log": cmath.log, "exp": cmath.exp, "abs": abs, "arctan2": atan2_,
       "signum": lambda x: 0 if x == 0 else x / abs(x), "floor": lambda x: complex(math.floor(x.real), math.floor(x.imag))}


class Sets:
    def __init__(self, p):
        self.p = p
        self.vals = dict((n, x) for n, x in p.enum(NS)["vals"])
        if sorted(self.vals) != sorted(SETS):
            raise AnalysisBroken("number_set has alternatives %s" % sorted(self.vals))
        fs = [f for f in p.named("wf::determine_numeric_set") if f.body is not None]
        if len(fs) != 1:
            raise AnalysisBroken("determine_numeric_set not found")
        self.fn = fs[0]
        self.inlined = set()
        self.env = {}
        # the step applied to each kind of node: call operators that take a node and give a set
        self.steps = {}
        for f in p.fns.values():
            if f.name == "operator()" and f.body is not None and f.rt and len(f.params) == 1 and bare(f.ret) == NS and bare(f.params[0]["t"])[4:] in NODES:
                self.steps.setdefault(f.rt, {})[bare(f.params[0]["t"])] = f
        if not self.steps:
            raise AnalysisBroken("no visitor deducing number sets")
        self.visitor = max(self.steps, key=lambda r: len(self.steps[r]))
        self.steps = self.steps[self.visitor]

    def enum(self, s):
        return enumc("%s::%s" % (NS, s), self.vals[s])

    def hook(self, ev, st, fr, f, o, al):
        if f.id == self.fn.id:
            v = ev.argval(st, al[0])
            s = self.env.get(v)
            if s is not None:
                return self.enum(s)
            if v.op == "obj" and v.a[0] in self.steps:
                return self.step(v)
            if v.op == "ite":
                return None
            raise AnalysisBroken("set of an operand %s" % show(v)[:80])
        return None

    def step(self, node):
        f = self.steps.get(node.a[0])
        if f is None:
            raise AnalysisBroken("no step for " + node.a[0])
        pr = {k: v for k, v in algebra.PRIMS.items() if k != "wf::determine_numeric_set"}
        ev = Ev(self.p, pr, hook=self.hook, budget=300000)
        s = ev.summarize(f, args=[node])
        self.inlined |= set(ev.inlined)
        if s.val is None or any(e.guard is TRUE for e in s.throws):
            return mk("sym", "raises", "")
        return s.val

    def of(self, node, env):
        """set deduced for `node` when its operands' sets are `env`"""
        self.env = env
        v = self.step(node)
        if v.op == "sym" and v.a[0] == "raises":
            return "raises"
        if v is not None and v.op == "enum":
            return v.a[0].rsplit("::", 1)[-1]
        raise AnalysisBroken("set of %s is %s" % (show(node)[:60], show(v)[:120] if v is not None else None))


def run(tier):
    ck = Check("C07", tier, __doc__)
    p = load_core()
    S = Sets(p)
    unread, total = [], [0]

    def decide(rule, label, node, kids, values):
        """values(points of the kids) -> value of the node; kids: [(term, set)]"""
        total[0] += 1
        try:
            r = S.of(node, {t: s for t, s in kids})
        except AnalysisBroken as e:
            unread.append((label, str(e)[:140]))
            return
        if r == "raises":
            ck.ok(rule, label)                     # no claim is made
            return
        bad = None
        for pt in itertools.product(*[GAMMA[s] for t, s in kids]):
            v = values(*pt)
            if not inside(v, r):
                bad = (pt, v)
                break
        where = S.fn.loc
        ck.check(bad is None, rule, label, where, lambda: "deduced %s, but operands %s give %s" % (
            r, ", ".join(str(x) for x in bad[0]), bad[1]), key="%s=%s" % (label, r))

    def X(i):
        return obj("wf::variable", {"name": mk("sym", "x%d" % i, "")})   # not a constant: constants are listed apart

    ns = (2, 3)
    for rt, f in (("wf::addition", lambda a, b: a + b), ("wf::multiplication", lambda a, b: a * b)):
        for n in ns:
            for ss in itertools.product(SETS, repeat=n):
                if n == 3 and tier == "quick" and ss.count("unknown") > 1:
                    continue
                kids = [(X(i), s) for i, s in enumerate(ss)]

                def val(*xs):
                    o = xs[0]
                    for x in xs[1:]:
                        o = lift(f)(o, x)
                    return o
                decide(rt[4:], "%s(%s)" % (rt[4:], ", ".join(ss)), variadic(p, rt, [k for k, s in kids]), kids, val)
    # powers
    for a, b in itertools.product(SETS, repeat=2):
        kids = [(X(0), a), (X(1), b)]
        decide("power", "power(%s, %s)" % (a, b), build(p, "wf::power", [X(0), X(1)]), kids, lift(power_))
    ci = lambda n: build(p, "wf::checked_int", [C(n)])
    consts = [("integer", n, build(p, "wf::integer_constant", [ci(n)])) for n in (-3, -2, -1, 0, 1, 2, 3, 4, 7)]
    consts += [("rational", n / d, build(p, "wf::rational_constant", [ci(n), ci(d)])) for n, d in ((1, 2), (-1, 2), (3, 2), (-5, 3), (2, 3))]
    consts += [("float", x, build(p, "wf::float_constant", [C(x)])) for x in (0.0, 2.0, 2.5, -1.5)]
    for k, v, c in consts:
        decide("constant", "%s %s" % (k, v), c, [], lambda v=v: v)
        if v == 0:
            continue
        for a in SETS:
            decide("power", "power(%s, %s %.3g)" % (a, k, v), build(p, "wf::power", [X(0), c]), [(X(0), a)], lambda x, v=v: lift(power_)(x, v))
            decide("power", "power(%s %.3g, %s)" % (k, v, a), build(p, "wf::power", [c, X(0)]), [(X(0), a)], lambda x, v=v: lift(power_)(v, x))
    # functions
    e = p.enum("wf::built_in_function")
    for n, v in e["vals"]:
        if n not in FUN:
            ck.notes.append("undecided: built-in function %s is unknown to the oracle" % n)
            continue
        ar = 2 if n == "arctan2" else 1
        for ss in itertools.product(SETS, repeat=ar):
            kids = [(X(i), s) for i, s in enumerate(ss)]
            try:
                node = build(p, "wf::built_in_function_invocation", [enumc("wf::built_in_function::" + n, v)] + [k for k, t in kids])
            except AnalysisBroken as ex:
                unread.append((n, str(ex)[:140]))
                continue
            decide("function", "%s(%s)" % (n, ", ".join(ss)), node, kids, lift(FUN[n]))
    # branches and wrappers
    for a, b in itertools.product(SETS, repeat=2):
        cond = build(p, "wf::conditional", [bexpr("c"), X(0), X(1)])
        kids = [(X(0), a), (X(1), b)]
        decide("conditional", "conditional(%s, %s) true" % (a, b), cond, kids, lambda x, y: x)
        decide("conditional", "conditional(%s, %s) false" % (a, b), cond, kids, lambda x, y: y)
    for rt in ("stop_derivative", "unevaluated"):
        for a in SETS:
            decide(rt, "%s(%s)" % (rt, a), build(p, "wf::" + rt, [X(0)]), [(X(0), a)], lambda x: x)
    e = p.enum("wf::symbolic_constant_enum")
    for n, v in e["vals"]:
        val = {"euler": math.e, "pi": math.pi}.get(n)
        if val is not None:
            decide("constant", n, build(p, "wf::symbolic_constant", [enumc("wf::symbolic_constant_enum::" + n, v)]), [], lambda val=val: val)
    decide("constant", "imaginary_unit", obj("wf::imaginary_unit", {}), [], lambda: 1j)
    decide("constant", "complex_infinity", obj("wf::complex_infinity", {}), [], lambda: OUT)
    decide("constant", "undefined", obj("wf::undefined", {}), [], lambda: OUT)
    # kinds whose value the library knows nothing about, and 0/1-valued kinds
    for rt, vals in (("derivative", [OUT]), ("substitution", [OUT]), ("symbolic_function_invocation", [OUT]), ("iverson_bracket", [0, 1]),
                     ("relational", [0, 1]), ("function_argument_variable", [0.0, -1.0, 1.0]), ("compound_expression_element", [0.0, -1.0, 1.0])):
        for i in instances(p, "wf::" + rt):
            for v in vals:
                if wrapper_of(p, "wf::" + rt)[0] != "wf::scalar_expr":
                    continue
                ks = [k for k in i.kids if len(k.a) > 1 and k.a[1] == "wf::scalar_expr"]
                for s_ in SETS if ks else SETS[:1]:
                    # whatever is known about the operands, nothing follows for the value
                    decide("opaque", "%s of %s = %s" % (i.label, s_, v), i.node, [(k, s_) for k in ks], lambda *_, v=v: v)
    # symbols belong to the set they were created with
    for rt in ("variable", "unique_variable"):
        for s in SETS:
            cs = [c for c in ctors(p, "wf::" + rt) if any(bare(x["t"]) == NS for x in c.params)]
            if not cs:
                raise AnalysisBroken("no constructor of %s with a number set" % rt)
            args = [S.enum(s) if bare(x["t"]) == NS else mk("sym", x["n"] or "n", bare(x["t"])) for x in cs[0].params]
            total[0] += 1
            try:
                r = S.of(build(p, "wf::" + rt, args, lambda c: c is cs[0]), {})
            except AnalysisBroken as ex:
                unread.append((rt, str(ex)[:140]))
                continue
            ck.check(SETS.index(r) >= SETS.index(s) if r in SETS else False, "symbol", "%s in %s" % (rt, s), S.fn.loc, "deduced %s" % r)
    ck.analysed(sorted(S.inlined))
    for label, why in unread[:12]:
        ck.notes.append("undecided: %s (%s)" % (label, why))
    if len(unread) > total[0] // 2:
        raise AnalysisBroken("number-set deduction could not be read: %s" % (unread[0],))
    ck.notes.append("%d of %d cases undecided" % (len(unread), total[0]))
    ck.assumptions.append("0**0 counts as 1; opaque fields of custom types and external results are real numbers, as the library documents")
    for g, m in (("addition", 25), ("multiplication", 25), ("power", 60), ("function", 80)):
        ck.require(g, m)
    return ck.finish(p)
