"""C05: exact integer arithmetic never wraps or truncates silently.

Value-graph summaries (result and raising condition as formulas over the operands) of every arithmetic operator on
exact integers and rationals are decided at the corner points of the 64-bit range: where the function does not raise,
every intermediate machine operation is in range and the result is exact; it raises only on overflow or an undefined
division.  A taint analysis then shows that no other code computes on the raw 64-bit value of an exact constant, and
that every conversion from floating point, or to a narrower type, is dominated by tests that make it exact."""
import collections, itertools, math
from fractions import Fraction
from wfa.program import load_core, AnalysisBroken, walk, rel
from wfa.vg import *
from wfa.report import Check

MIN, MAX = -2**63, 2**63 - 1
INTS = sorted({0, 1, 2, 3, 7, 10, 2**31 - 1, 2**31, 2**32, 3037000499, 3037000500, 2**62, 2**62 + 1, MAX - 1, MAX,
               -1, -2, -3, -7, -10, -2**31, -2**32, -3037000499, -3037000500, -2**62, MIN + 1, MIN})
CI, RC, IC, FC = "wf::checked_int", "wf::rational_constant", "wf::integer_constant", "wf::float_constant"
OPS = {"operator+": lambda a, b: a + b, "operator-": lambda a, b: a - b, "operator*": lambda a, b: a * b,
       "operator/": lambda a, b: a / b}
CMP = {"operator<": lambda a, b: a < b, "operator>": lambda a, b: a > b, "operator==": lambda a, b: a == b,
       "operator!=": lambda a, b: a != b, "operator<=": lambda a, b: a <= b, "operator>=": lambda a, b: a >= b}


class Poison(Exception):
    pass


class Undecided(Exception):
    pass


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


class Arith:
    """decides a term at one point of the operands; Poison: the machine operation is undefined there"""

    def __init__(self, env):
        self.env, self.memo = env, {}

    def ev(self, t):
        if t in self.memo:
            r = self.memo[t]
        else:
            try:
                r = self.go(t)
            except Poison as e:
                r = e
            self.memo[t] = r
        if isinstance(r, Poison):
            raise r
        return r

    def fit(self, v, what):
        if isinstance(v, int) and not isinstance(v, bool) and not MIN <= v <= MAX:
            raise Poison("%s leaves the 64-bit range" % what)
        return v

    def logic(self, xs, stop):
        bad = None
        for x in xs:
            try:
                if bool(self.ev(x)) == stop:
                    return stop
            except Poison as e:
                bad = e
        if bad:
            raise bad
        return not stop

    def go(self, t):
        if t in self.env:
            return self.env[t]
        o = t.op
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if o == "c":
            return t.a[0]
        if o == "enum":
            return t
        if o == "null":
            return None
        if o == "ite":
            return self.ev(t.a[1] if self.ev(t.a[0]) else t.a[2])
        if o == "not":
            return not self.ev(t.a[0])
        if o == "and":
            return self.logic(t.a, False)
        if o == "or":
            return self.logic(t.a, True)
        if o == "eq":
            return self.ev(t.a[0]) == self.ev(t.a[1])
        if o == "lt":
            return self.ev(t.a[0]) < self.ev(t.a[1])
        if o == "neg":
            return self.fit(-self.ev(t.a[0]), "negation")
        if o == "abs":
            return abs(self.ev(t.a[0]))
        if o == "tofloat":
            return float(self.ev(t.a[0]))
        if o in ("toint", "trunc"):
            v = self.ev(t.a[0])
            if isinstance(v, float):
                if v != v or not -2.0**63 <= v < 2.0**63:
                    raise Poison("conversion of %r to an integer" % v)
                v = int(v)
            return v
        if o in ("isnan", "isfinite", "isinf"):
            return {"isnan": math.isnan, "isfinite": math.isfinite, "isinf": math.isinf}[o](self.ev(t.a[0]))
        if o == "bin":
            op, xs = t.a[0], [self.ev(x) for x in t.a[1:]]
            r = xs[0]
            for y in xs[1:]:
                if any(isinstance(v, float) for v in (r, y)):
                    r = {"+": lambda: r + y, "-": lambda: r - y, "*": lambda: r * y, "/": lambda: r / y if y else math.copysign(math.inf, r)}[op]()
                    continue
                if op in ("/", "%") and (y == 0 or (y == -1 and r == MIN)):
                    raise Poison("%d %s %d" % (r, op, y))
                if op not in ("+", "-", "*", "/", "%", "&", "|", "<<", ">>"):
                    raise Undecided(t)
                r = self.fit({"+": lambda: r + y, "-": lambda: r - y, "*": lambda: r * y, "/": lambda: tdiv(r, y),
                              "%": lambda: r - tdiv(r, y) * y, "&": lambda: r & y, "|": lambda: r | y,
                              "<<": lambda: r << y, ">>": lambda: r >> y}[op](), "%d %s %d" % (r, op, y))
            return r
        if o == "obj":
            return Obj(t.a[0], dict(zip(t.a[1], [self.part(x) for x in t.a[2:]])))
        if o == "call":
            q = t.a[0]
            n = q.rsplit("::", 1)[-1]
            if "numeric_limits<long" in q:
                return {"max": MAX, "min": MIN, "lowest": MIN}[n]
            if "numeric_limits<int>" in q:
                return {"max": 2**31 - 1, "min": -2**31, "lowest": -2**31}[n]
            if n == "gcd":
                return wrap(math.gcd(*[self.ev(x) for x in t.a[2:]]))
            if n in ("abs", "fabs"):
                return self.fit(abs(self.ev(t.a[2])), "absolute value")
            if n in ("floor", "trunc"):
                v = self.ev(t.a[2])
                return float(math.floor(v) if n == "floor" else math.trunc(v)) if math.isfinite(v) else v
            if n == "swap" or len(t.a) < 3:
                raise Undecided(t)
        if o == "floor":
            v = self.ev(t.a[0])
            return float(math.floor(v)) if math.isfinite(v) else v
        if o == "field":
            b = self.ev(t.a[0])
            if isinstance(b, Obj) and t.a[1] in b.f:
                v = b.f[t.a[1]]
                if isinstance(v, Poison):
                    raise v
                return v
        if o == "upd":
            b = self.ev(t.a[0])
            if isinstance(b, Obj):
                return Obj(b.rt, dict(b.f, **{t.a[1]: self.part(t.a[2])}))
        raise Undecided(t)

    def part(self, x):
        try:
            return self.ev(x)
        except Poison as e:
            return e


def wrap(v):
    return v if v <= MAX else v - 2**64


class Obj:
    def __init__(self, rt, f):
        self.rt, self.f = rt, f

    def __eq__(self, o):
        return isinstance(o, Obj) and self.f == o.f

    def __hash__(self):
        return 0


def operand(p, i, t):
    """(env builder, points) for one operand of type t; a point is (environment, exact value)"""
    s = mk("sym", "a%d" % i, t)
    b = bare(t)
    fld = lambda x, rt, k: mk("field", x, p.rec(rt)["fields"][k]["n"])
    if b == CI:
        v = fld(s, CI, 0)
        return s, [({v: x, s: Obj(CI, {p.rec(CI)["fields"][0]["n"]: x})}, x) for x in INTS]
    if b == IC:
        w = fld(s, IC, 0)
        ci, ic = [p.rec(x)["fields"][0]["n"] for x in (CI, IC)]
        return s, [({fld(w, CI, 0): x, w: Obj(CI, {ci: x}), s: Obj(IC, {ic: Obj(CI, {ci: x})})}, x) for x in INTS]
    if b == RC:
        n, d = fld(s, RC, 0), fld(s, RC, 1)
        pts = [(x, y) for x in (0, 1, -1, 2, -3, 7, 2**31 - 1, -2**32, MAX, MIN + 1, MIN) for y in (1, 2, 3, 5, 2**31, MAX)
               if math.gcd(x, y) == 1]
        return s, [({fld(n, CI, 0): x, fld(d, CI, 0): y}, Fraction(x, y)) for x, y in pts]
    if b in ("double", "float"):
        fs = [0.0, 1.0, -1.0, 0.5, -0.5, 2.0**31, 2.0**53, 2.0**62, 2.0**63, -2.0**63, math.nextafter(2.0**63, 0), math.nextafter(-2.0**63, -math.inf),
              math.nextafter(2.0**63, math.inf), 1e300, -1e300, math.inf, -math.inf, math.nan, 2.5, -2.5, 1e18, -1e18, float(2**31), 2147483646.5]
        return s, [({s: x}, x) for x in fs]
    if b in ("long", "long long"):
        return s, [({s: x}, x) for x in INTS]
    if b == "int":
        return s, [({s: x}, x) for x in INTS if abs(x) <= 2**31 - 1 or x == -2**31]
    if b in ("unsigned long", "unsigned long long"):
        return s, [({s: x}, x) for x in (0, 1, 2, 2**31, 2**63 - 1, 2**63, 2**64 - 1)]
    return None


def number(v):
    """exact value of a result, None when it is not a number; the second component says it is canonical"""
    if isinstance(v, Poison):
        raise v
    if isinstance(v, Obj):
        if v.rt == RC:
            n, d = [number(x)[0] for x in v.f.values()]
            if d == 0:
                return "a rational with denominator zero", False
            return Fraction(n, d), d > 0 and math.gcd(n, d) == 1
        if len(v.f) == 1:
            return number(list(v.f.values())[0])
        return None, False
    if isinstance(v, (int, float)):
        return v, True
    return None, False


class Operators:
    def __init__(self, ck, p):
        self.ck, self.p, self.undecided = ck, p, []

    def summary(self, f):
        ops = [operand(self.p, i, x["t"]) for i, x in enumerate(f.params)]
        this = None
        if f.rt and not f.static and not f.ctor:
            o = operand(self.p, 9, f.rt)
            if o is None:
                return None
            ops = [o] + ops
            this = o[0]
        if any(o is None for o in ops):
            return None
        ev = Ev(self.p, {})
        s = ev.summarize(f, this=this, args=[o[0] for o in (ops[1:] if this is not None else ops)])
        self.ck.analysed(ev.inlined)
        return ops, s

    def decide(self, f, want, group, label=None, may_raise=None):
        """want(*exact operands) -> exact result or None where the operation is undefined"""
        nm = label or "%s(%s)" % (f.q.replace("wf::", ""), ", ".join(bare(x["t"]).replace("wf::", "") for x in f.params))
        try:
            r = self.summary(f)
        except (AnalysisBroken, RecursionError) as e:
            self.undecided.append((nm, str(e)[:80]))
            return
        if r is None:
            return
        ops, s = r
        first = None
        n = 0
        for pts in itertools.product(*[o[1] for o in ops]):
            env, vals = {}, []
            for e, v in pts:
                env.update(e)
                vals.append(v)
            a = Arith(env)
            try:
                msg = self.point(a, f, s, vals, want, may_raise)
            except Undecided as u:
                self.undecided.append((nm, show(u.args[0])[:80]))
                return
            n += 1
            if msg:
                first = "for (%s): %s" % (", ".join(map(str, vals)), msg)
                break
        self.ck.check(first is None, group, "%s [%d corner points]" % (nm, n) if first is None else nm, f.loc, lambda: first, key="%s/%s" % (group, nm))

    def point(self, a, f, s, vals, want, may_raise):
        exp = want(*vals)
        raised = None
        for e in s.throws:
            try:
                if a.ev(e.guard):
                    raised = e
                    break
            except Poison as x:
                return "while deciding whether to raise, %s" % x
        if raised is not None:
            if not any(k in (show(raised.val) + str(raised.kind)) for k in ("arithmetic_error", "domain_error", "assert")):
                return "raises %s" % show(raised.val)[:60]
            small = all(isinstance(v, (int, Fraction)) and abs(v) <= 10 and Fraction(v).denominator <= 10 for v in vals)
            exact = exp is not None and isinstance(exp, int) and may_raise == "overflow" and MIN <= exp <= MAX
            if callable(exp) or isinstance(exp, int) and not MIN <= exp <= MAX:
                return None
            if exp is not None and (small or exact):
                return "raises although the result %s is representable" % (exp,)
            return None
        try:
            v = a.ev(s.val)
        except Poison as x:
            return "%s is not detected" % x
        if exp is None:
            return "gives %s where the operation is undefined" % (self.shown(v),)
        if isinstance(exp, bool):
            return None if bool(v) == exp else "gives %s" % v
        if isinstance(exp, str):
            return None if isinstance(v, T) and v.op == "enum" and show(v).endswith(exp) else "gives %s instead of %s" % (self.shown(v), exp)
        if callable(exp):
            return exp(v)
        try:
            got, canon = number(v)
        except Poison as x:
            return "%s is not detected" % x
        if got != exp:
            return "gives %s instead of %s" % (got, exp)
        if not canon:
            return "gives %s in a form that is not canonical" % got
        return None

    def shown(self, v):
        return show(v) if isinstance(v, T) else number(v)[0] if isinstance(v, Obj) else v


def run(tier):
    ck = Check("C05", tier, __doc__)
    p = load_core()
    D = Operators(ck, p)
    exact = lambda t: bare(t) in (CI, RC, IC)
    for f in sorted(p.fns.values(), key=lambda f: (f.file, f.line, f.id)):
        if f.implicit or f.defaulted or "/expressions/numeric_expressions.h" not in f.file and "/checked_int.h" not in f.file and "/integer_utils.h" not in f.file:
            continue
        ts = [bare(x["t"]) for x in f.params]
        own = bare(f.rt) if f.rt and not f.static else None
        if not own and len(ts) == 2 and any(exact(t) for t in ts) and all(t in (CI, RC, IC, "int", "long") for t in ts):
            both = all(t in (CI, IC, "int", "long") for t in ts)
            ret = bare(f.ret)
            if f.name in ("operator+", "operator-", "operator*"):
                D.decide(f, OPS[f.name], "operator", may_raise="overflow" if both else None)
            elif f.name == "operator/":
                D.decide(f, (lambda a, b: None if b == 0 else tdiv(a, b)) if both else (lambda a, b: None if b == 0 else Fraction(a) / b) if False else
                         (lambda a, b: (lambda v: None) if b == 0 else Fraction(a) / b), "operator", may_raise="overflow" if both else None)
            elif f.name == "operator%" and both:
                D.decide(f, lambda a, b: None if b == 0 else a - tdiv(a, b) * b, "operator")
            elif f.name in CMP:
                D.decide(f, lambda a, b, n=f.name: CMP[n](a, b), "comparison")
            elif f.name == "gcd":
                D.decide(f, lambda a, b: math.gcd(a, b), "operator")
        elif own in (CI, IC) and f.name == "operator-" and not ts:
            D.decide(f, lambda a: -a, "operator", may_raise="overflow")
        elif own in (CI, IC) and f.name in ("operator+=", "operator-=", "operator*=", "operator/=") and ts == [CI]:
            assigned(D, f)
        elif f.name == "abs" and not own and ts in ([CI], [IC]) or own in (IC,) and f.name == "abs" and not ts:
            D.decide(f, lambda a: abs(a), "operator", may_raise="overflow")
        elif own == CI and f.conv and bare(f.ret) in ("unsigned long", "unsigned long long"):
            D.decide(f, lambda a: a if a >= 0 else None, "conversion")
        elif f.name == "from_unsigned_long_long":
            D.decide(f, lambda a: a if a <= MAX else None, "conversion")
        elif own == CI and f.conv and bare(f.ret) == "long" or own == CI and f.name == "value":
            D.decide(f, lambda a: a, "conversion", label="%s to %s" % (f.q.replace("wf::", ""), bare(f.ret)))
        elif own == RC and f.name == "is_integer":
            D.decide(f, lambda a: a.denominator == 1, "rational")
        elif own == RC and f.name == "is_proper":
            D.decide(f, lambda a: abs(a) < 1, "rational")
        elif own == RC and f.name == "try_convert_to_integer":
            D.decide(f, lambda a: (lambda v: None if v is None and a.denominator != 1 else None if v is not None and number(v)[0] == a else "gives %s" % (v if v is None else number(v)[0])), "rational")
        elif own == RC and f.name == "normalized":
            D.decide(f, lambda a: (lambda v: parts(v, a)), "rational")
        elif own == RC and f.name in ("is_zero", "is_one", "is_positive", "is_negative"):
            D.decide(f, lambda a, n=f.name: {"is_zero": a == 0, "is_one": a == 1, "is_positive": a > 0, "is_negative": a < 0}[n], "rational")
        elif own == IC and f.name in ("is_zero", "is_one", "is_positive", "is_negative", "is_even"):
            D.decide(f, lambda a, n=f.name: {"is_zero": a == 0, "is_one": a == 1, "is_positive": a > 0, "is_negative": a < 0, "is_even": a % 2 == 0}[n], "rational")
        elif f.ctor and f.rt == RC and ts == [CI, CI]:
            reduced(D, f)
        elif f.name == "mod_pi_rational" and ts == [RC]:
            D.decide(f, lambda a: wrapped(a), "rational")
        elif f.name == "compare_int_float":
            D.decide(f, lambda i, x: (lambda v: None if v is None else "gives %s" % show(v)) if x != x else
                     "less_than" if i < x else "greater_than" if i > x else "equal", "float comparison",
                     label="compare_int_float<%s>" % ts[0])
    powers(ck, p, D)
    for a, b in D.undecided:
        ck.notes.append("undecided %s: %s" % (a, b))
    ck.require("operator", 12)
    ck.require("comparison", 6)
    Taint(ck, p).run()
    ck.analysed([f.id for f in p.fns.values() if not f.implicit])
    ck.require("raw arithmetic", 3)
    ck.assumptions = ["conversion from an exact integer to floating point may round (documented)",
                      "std::gcd of the most negative integer yields its unsigned value (libstdc++)"]
    return ck.finish(p)


def wrapped(a):
    r = a - 2 * math.floor(a / 2)      # [0, 2)
    return r - 2 if r > 1 else r


def parts(v, a):
    if not isinstance(v, Obj) or len(v.f) != 2:
        return "does not give two parts"
    try:
        i, fr = [number(x)[0] for x in v.f.values()]
    except Poison as x:
        return "%s is not detected" % x
    if i + fr != a or abs(fr) >= 1 or fr * a < 0 or Fraction(i).denominator != 1:
        return "gives %s + %s" % (i, fr)
    return None


def assigned(D, f):
    """compound assignment: leaves the exact result in the object"""
    p, ck = D.p, D.ck
    nm = f.q.replace("wf::", "")
    try:
        o, b = operand(p, 9, f.rt), operand(p, 0, f.params[0]["t"])
        s = Ev(p, {}).summarize(f, this=o[0], args=[b[0]])
    except (AnalysisBroken, RecursionError) as e:
        D.undecided.append((nm, str(e)[:80]))
        return
    op = f.name[:-1]
    bad = None
    for (e1, x), (e2, y) in itertools.product(o[1], b[1]):
        a = Arith({**e1, **e2})
        exp = None if op == "operator/" and y == 0 else tdiv(x, y) if op == "operator/" else OPS[op](x, y)

        class S:
            throws, val = s.throws, s.this
        try:
            m = D.point(a, f, S, [x, y], lambda *_: exp, "overflow")
        except Undecided as u:
            D.undecided.append((nm, show(u.args[0])[:80]))
            return
        if m:
            bad = "for (%d, %d): %s" % (x, y, m)
            break
    ck.check(bad is None, "operator", nm, f.loc, lambda: bad)


def reduced(D, f):
    """the constructor from numerator and denominator reduces to canonical form or raises"""
    p = D.p
    o, b = operand(p, 0, CI), operand(p, 1, CI)
    try:
        s = Ev(p, {}).summarize(f, this=mk("sym", "self", RC), args=[o[0], b[0]])
    except (AnalysisBroken, RecursionError) as e:
        D.undecided.append(("rational_constant(n, d)", str(e)[:80]))
        return
    bad = None
    for (e1, x), (e2, y) in itertools.product(o[1], b[1]):
        if y == 0:
            continue
        a = Arith({**e1, **e2})

        class S:
            throws, val = s.throws, s.this
        try:
            m = D.point(a, f, S, [x, y], lambda *_: Fraction(x, y), None)
        except Undecided as u:
            D.undecided.append(("rational_constant(n, d)", show(u.args[0])[:80]))
            return
        if m:
            bad = "for (%d, %d): %s" % (x, y, m)
            break
    D.ck.check(bad is None, "operator", "rational_constant(n, d)", f.loc, lambda: bad)


def powers(ck, p, D):
    """integer_power by repeated squaring, unrolled for every exponent up to 40"""
    for f in p.named("wf::integer_power"):
        if bare(f.params[1]["t"]) != "unsigned long":
            continue
        bad, n = None, 0
        for e in range(0, 41):
            s_, pts = operand(p, 0, CI)
            try:
                s = Ev(p, {}).summarize(f, args=[s_, mk("c", e)])
            except (AnalysisBroken, RecursionError) as x:
                D.undecided.append(("integer_power", str(x)[:80]))
                return
            for env, v in pts:
                a = Arith(env)

                class S:
                    throws, val = s.throws, s.val
                try:
                    m = D.point(a, f, S, [v], lambda *_: v ** e, "overflow")
                except Undecided as u:
                    D.undecided.append(("integer_power", show(u.args[0])[:80]))
                    return
                n += 1
                if m:
                    bad = bad or "for (%d, %d): %s" % (v, e, m)
        ck.check(bad is None, "operator", "integer_power, exponents 0..40", f.loc, lambda: bad)


LONG = ("long", "long long", "const long", "const long long")


class Taint:
    """Where does the raw value of an exact constant flow, and what is computed on it?"""

    def __init__(self, ck, p):
        self.ck, self.p = ck, p
        self.ret = {}
        self.par = set()

    def source(self, n):
        return n.get("k") == "Call" and n.get("rt") == CI and bare(n.get("t")) in ("long", "long long", "unsigned long", "unsigned long long") \
            and (n.get("fn", "").endswith("::value") or "operator " in n.get("fn", "")) \
            or n.get("k") == "Member" and n.get("rt") == CI

    def tainted(self, f, e, loc):
        if not isinstance(e, dict):
            return False
        if self.source(e):
            return True
        k = e.get("k")
        if k == "Ref":
            if e.get("pi") is not None and (f.id, e["pi"]) in self.par:
                return True
            return e.get("id") in loc
        if k == "Cast":
            return bare(e.get("t")) not in ("double", "float", "bool") and self.tainted(f, e.get("e"), loc)
        if k in ("Copy", "Move", "Paren"):
            return self.tainted(f, e.get("e"), loc)
        if k == "Construct" and len(e.get("a") or ()) == 1 and e.get("rt") == CI:
            return False
        if k == "Bin" and e.get("op") in "+-*/%":
            return self.tainted(f, e["x"], loc) or self.tainted(f, e["y"], loc)
        if k == "Un":
            return e.get("op") in ("-", "+") and self.tainted(f, e.get("e") or e.get("x"), loc)
        if k == "Cond":
            return any(self.tainted(f, e.get(x), loc) for x in ("x", "y", "then", "else", "a", "b"))
        if k == "Call" and (e.get("fn") or "").rsplit("::", 1)[-1] in ("abs", "labs", "llabs", "gcd", "lcm", "min", "max", "move", "forward"):
            return any(self.tainted(f, a, loc) for a in e.get("a") or ())
        return False

    def locals(self, f):
        loc = set()
        for _ in range(3):
            for n in walk(f.body):
                if n.get("k") == "Var" and n.get("i") is not None and bare(n.get("t")) in ("long", "long long", "int", "unsigned long", "unsigned long long", "unsigned int") \
                        and self.tainted(f, n["i"], loc):
                    loc.add(n["id"])
                if n.get("k") == "Assign" or n.get("k") == "Bin" and n.get("op") in ("=", "+=", "-=", "*="):
                    x, y = n.get("x") or n.get("l_"), n.get("y")
                    if isinstance(x, dict) and x.get("k") == "Ref" and self.tainted(f, y, loc) and bare(x.get("t")) in ("long", "int", "long long", "unsigned long"):
                        loc.add(x["id"])
        return loc

    def lit(self, e):
        while isinstance(e, dict) and e.get("k") in ("Cast", "Paren") and isinstance(e.get("e"), dict):
            e = e["e"]
        if isinstance(e, dict) and e.get("k") == "Int":
            return int(e["v"])
        return None

    def run(self):
        core = [f for f in self.p.fns.values() if not f.implicit]
        for _ in range(4):
            n0 = len(self.par)
            for f in core:
                loc = None
                for part in [f.body] + [i.get("e") for i in f.inits]:
                    for n in walk(part):
                        if n.get("k") in ("Call", "Construct") and n.get("id") in self.p.fns:
                            g = self.p.fns[n["id"]]
                            for i, a in enumerate(n.get("a") or ()):
                                if i < len(g.params) and bare(g.params[i]["t"]) in ("long", "long long", "int", "unsigned long", "unsigned long long", "unsigned int") \
                                        and g.rt != CI:
                                    loc = self.locals(f) if loc is None else loc
                                    if self.tainted(f, a, loc):
                                        self.par.add((g.id, i))
            if len(self.par) == n0:
                break
        seen = set()
        for f in core:
            if f.file.endswith("/checked_int.h"):
                continue        # decided operator by operator above
            loc = self.locals(f)
            for part in [f.body] + [i.get("e") for i in f.inits]:
                for n in walk(part):
                    self.node(f, n, loc, seen)

    def node(self, f, n, loc, seen):
        k, op = n.get("k"), n.get("op")
        where = "%s:%s" % (rel(f.file), n.get("l"))
        nm = f.q.split("(")[0].replace("wf::", "")
        if k == "Bin" and op in ("+", "-", "*", "/", "%", "<<", "+=", "-=", "*=", "/=", "%=", "<<=") or k == "Assign" and op in ("+=", "-=", "*=", "/=", "%="):
            x, y = n.get("x"), n.get("y")
            t = bare(n.get("t"))
            if t not in ("long", "long long", "int"):
                return
            tx, ty = self.tainted(f, x, loc), self.tainted(f, y, loc)
            raw = tx or ty
            lx, ly = self.lit(x), self.lit(y)
            base = op[0] if op != "<<=" else "<<"
            prod = base == "*" and t in ("long", "long long") and lx is None and ly is None and not self.constant(f, x, y)
            if not raw and not prod:
                return
            if (where, nm) in seen:
                return
            seen.add((where, nm))
            fine = base in "/%" and (not ty or ly not in (None, 0, -1)) and (ly is None or ly not in (0, -1))
            self.ck.check(fine, "raw arithmetic", "%s: %s" % (nm, op), where,
                          "unchecked 64-bit %s%s" % (op, " on the value of an exact constant" if raw else " of two variables"), key="raw/%s/%s" % (nm, op))
        if k == "Un" and op == "-" and bare(n.get("t")) in ("long", "int", "long long"):
            if self.tainted(f, n.get("e") or n.get("x"), loc):
                self.ck.bad("raw arithmetic", "%s: negation" % nm, where, "unchecked negation of the value of an exact constant")
        if k == "Call" and (n.get("fn") or "") in ("std::abs", "abs", "labs", "llabs", "std::lcm", "std::pow") and any(self.tainted(f, a, loc) for a in n.get("a") or ()) and bare(n.get("t")) in ("long", "int", "long long"):
            self.ck.bad("raw arithmetic", "%s: %s" % (nm, n["fn"]), where, "%s of the raw value of an exact constant can overflow" % n["fn"])
        if k == "Cast":
            src, dst = bare((n.get("e") or {}).get("t")), bare(n.get("t"))
            if n.get("ck") == "FloatingToIntegral":
                self.float_cast(f, n, where, nm, seen)
            elif n.get("ck") == "IntegralCast" and dst in ("int", "unsigned int", "short", "unsigned char", "signed char", "char", "unsigned long", "unsigned long long", "unsigned short") \
                    and src in ("long", "long long", "unsigned long", "unsigned long long") and self.tainted(f, n["e"], loc):
                key = (where, "narrow")
                if key in seen:
                    return
                seen.add(key)
                ok = self.guarded_narrow(f, n)
                self.ck.check(ok, "narrowing", "%s: %s to %s" % (nm, src, dst), where, "the value of an exact constant is truncated to %s without a check" % dst)

    def constant(self, f, x, y):
        for e in (x, y):
            while isinstance(e, dict) and e.get("k") in ("Cast", "Paren"):
                e = e.get("e")
            if isinstance(e, dict) and (e.get("k") == "Call" and "numeric_limits" in (e.get("fn") or "") or e.get("k") == "Global"):
                return True
        return f.file.endswith("span.h") or "/runtime/" in f.file

    def guarded_narrow(self, f, n):
        # converted under, or after, a comparison of the same value
        return any(m.get("k") == "If" and any(c.get("k") in ("Bin", "Call") and c.get("op") in ("<", ">", "<=", ">=", "==", "!=") for c in walk(m.get("cond"))) for m in walk(f.body))

    def float_cast(self, f, n, where, nm, seen):
        key = (where, "float")
        if key in seen:
            return
        seen.add(key)
        g = Guards(self.p, f, n)
        v = g.verdict()
        if v == "bounded" or v is None:
            self.ck.ok("float to integer", nm, where)
        elif v == "unknown":
            self.ck.notes.append("undecided float conversion in %s at %s" % (nm, where))
        else:
            self.ck.bad("float to integer", nm, where, "a float that is not representable (%s) reaches the conversion" % v)


class Guards:
    """conditions that hold at a node: enclosing branches and earlier branches that leave the function"""
    POINTS = [math.nan, math.inf, -math.inf, 1e300, -1e300, 2.0**63, math.nextafter(-2.0**63, -math.inf), math.nextafter(2.0**63, math.inf), 2.0**64, -2.0**64]
    GOOD = [0.0, 1.5, -1.5, 1e9, -1e9, 2.0**62, -2.0**63]

    def __init__(self, p, f, node):
        self.p, self.f, self.node = p, f, node
        self.conds = []
        self.vars = {}
        for n in walk(f.body):
            if n.get("k") == "Var" and n.get("i") is not None:
                self.vars[n["id"]] = n["i"]
        self.find(f.body, [])
        self.key = self.subject(node["e"])

    def subject(self, e, depth=6):
        while isinstance(e, dict) and depth:
            depth -= 1
            if e.get("k") in ("Cast", "Paren", "Copy", "Move"):
                e = e["e"]
            elif e.get("k") == "Ref" and e.get("id") in self.vars:
                e = self.vars[e["id"]]
            elif e.get("k") == "Call" and (e.get("fn") or "").rsplit("::", 1)[-1] in ("floor", "trunc", "round", "ceil") and e.get("a"):
                e = e["a"][0]
            else:
                break
        return self.ident(e)

    def ident(self, e):
        while isinstance(e, dict) and e.get("k") in ("Cast", "Paren", "Copy", "Move"):
            e = e["e"]
        if not isinstance(e, dict):
            return None
        if e.get("k") == "Ref":
            return ("ref", e.get("id"))
        if e.get("k") == "Call":
            return ("call", e.get("fn"), self.ident(e.get("obj")), tuple(self.ident(a) for a in e.get("a") or ()))
        if e.get("k") == "Member":
            return ("member", e.get("n"), self.ident(e.get("e")))
        return (e.get("k"),)

    def contains(self, s):
        return any(n is self.node for n in walk(s))

    def leaves(self, s):
        if not isinstance(s, dict):
            return False
        k = s.get("k")
        if k in ("Return", "Throw", "Continue", "Break"):
            return True
        if k == "Block":
            return any(self.leaves(c) for c in s.get("c") or ())
        if k == "If":
            return self.leaves(s.get("then")) and self.leaves(s.get("else"))
        if k == "Do":
            return self.leaves(s.get("body"))
        return False

    def find(self, s, acc):
        if not isinstance(s, dict) or not self.contains(s):
            return
        k = s.get("k")
        if k == "Block":
            acc = list(acc)
            for c in s.get("c") or ():
                if self.contains(c):
                    self.find(c, acc)
                    return
                for i in self.ifs(c):
                    t, e = i.get("then"), i.get("else")
                    if self.leaves(t) and not self.leaves(e):
                        acc.append((i.get("cond"), False))
                    elif self.leaves(e) and not self.leaves(t):
                        acc.append((i.get("cond"), True))
            return
        if k == "If":
            if self.contains(s.get("then")):
                self.find(s["then"], acc + [(s.get("cond"), True)])
                return
            if self.contains(s.get("else")):
                self.find(s["else"], acc + [(s.get("cond"), False)])
                return
        if k == "Cond":
            kids = [(x, v) for x, v in (("x", True), ("then", True), ("y", False), ("else", False)) if isinstance(s.get(x), dict)]
            for x, v in kids:
                if self.contains(s[x]):
                    self.find(s[x], acc + [(s.get("cond") or s.get("c"), v)])
                    return
        for v in s.values():
            for w in (v if isinstance(v, list) else [v]):
                if isinstance(w, dict) and self.contains(w):
                    self.find(w, acc)
                    return
        self.conds = acc

    def ifs(self, c):
        if c.get("k") == "If":
            return [c]
        if c.get("k") == "Do":      # WF_ASSERT
            b = c.get("body") or {}
            return [x for x in b.get("c") or () if x.get("k") == "If"]
        return []

    def verdict(self):
        if self.key and self.key[0] == "call" and self.key[1] == "wf::double_from_symbolic_constant":
            return "bounded"        # a table of mathematical constants
        if any(n.get("k") == "Float" for n in [self.node["e"]]):
            return "bounded"
        self.unknown = False
        for v in self.POINTS:
            hold = True
            for c, want in self.conds:
                r = self.value(c, v)
                if r is None:
                    if self.mentions(c):
                        self.unknown = True
                    continue
                if bool(r) != want:
                    hold = False
                    break
            if hold:
                return "unknown" if self.unknown else repr(v)
        return "bounded"

    def mentions(self, c):
        return any(self.subject(n) == self.key for n in walk(c) if n.get("k") in ("Ref", "Call"))

    def value(self, e, v):
        """three-valued evaluation of a condition with the converted value set to v"""
        if not isinstance(e, dict):
            return None
        k = e.get("k")
        if k in ("Ref", "Call", "Member") and e.get("op") is None and bare(e.get("t")) in ("double", "float") and self.subject(e) == self.key:
            if k == "Ref" and e.get("id") in self.vars:
                return self.value(self.vars[e["id"]], v)
            if k == "Call" and (e.get("fn") or "").rsplit("::", 1)[-1] in ("floor", "trunc", "round", "ceil"):
                x = self.value(e["a"][0], v)
                return None if x is None else x if not math.isfinite(x) else float(math.floor(x))
            return v
        if k in ("Cast", "Paren", "Copy", "Move"):
            r = self.value(e.get("e"), v)
            if r is not None and bare(e.get("t")) in ("double", "float"):
                return float(r)
            return r
        if k == "Int":
            return int(e["v"])
        if k == "Float":
            return float(e["v"])
        if k == "Bool":
            return bool(int(e["v"]))
        if k == "Ref" and e.get("id") in self.vars:
            return self.value(self.vars[e["id"]], v)
        if k == "Call":
            fn = e.get("fn") or ""
            n = fn.rsplit("::", 1)[-1]
            if "numeric_limits<" in fn:
                ty = fn.split("numeric_limits<")[1].split(">")[0]
                lim = {"long": (MIN, MAX), "int": (-2**31, 2**31 - 1), "double": (-1.7976931348623157e308, 1.7976931348623157e308)}.get(ty)
                if n == "infinity":
                    return math.inf
                return None if lim is None else lim[1] if n == "max" else lim[0] if n == "lowest" or ty != "double" else 2.2250738585072014e-308
            if n in ("max", "min") and e.get("rt") == CI:
                return MAX if n == "max" else MIN
            a = [self.value(x, v) for x in e.get("a") or ()]
            if n in ("isnan", "isfinite", "isinf") and a and a[0] is not None:
                return getattr(math, n)(a[0])
            if n == "is_nan":
                o = self.ident(e.get("obj"))
                if self.key and self.key[0] == "call" and self.key[2] == o:
                    return v != v
                return None
            if n in ("abs", "fabs") and a and a[0] is not None:
                return abs(a[0])
            if n in ("floor", "trunc", "ceil", "round") and a and a[0] is not None:
                return a[0] if not math.isfinite(a[0]) else float(math.floor(a[0]))
            g = self.p.fns.get(e.get("id"))
            if g is not None and g.body and len(g.body.get("c") or ()) == 1 and g.body["c"][0].get("k") == "Return" and len(g.params) == 1 and a and a[0] is not None and not g.rt:
                return Sub(self.p, g, a[0]).value(g.body["c"][0]["e"], None)
            return None
        if k == "Un":
            r = self.value(e.get("e") or e.get("x"), v)
            return None if r is None else (not r) if e.get("op") == "!" else -r if e.get("op") == "-" else r
        if k == "Bin":
            op = e["op"]
            x, y = self.value(e["x"], v), self.value(e["y"], v)
            if op == "&&":
                return False if x is False or y is False else None if x is None or y is None else bool(x and y)
            if op == "||":
                return True if x is True or y is True else None if x is None or y is None else bool(x or y)
            if x is None or y is None:
                return None
            try:
                return {"<": lambda: x < y, ">": lambda: x > y, "<=": lambda: x <= y, ">=": lambda: x >= y, "==": lambda: x == y, "!=": lambda: x != y,
                        "+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y if isinstance(x, float) or isinstance(y, float) else tdiv(x, y)}[op]()
            except (KeyError, ZeroDivisionError, OverflowError):
                return None
        return None


class Sub(Guards):
    def __init__(self, p, g, arg):
        self.p, self.f, self.arg = p, g, arg
        self.vars, self.key, self.conds = {}, None, []

    def value(self, e, v):
        if isinstance(e, dict) and e.get("k") == "Ref" and e.get("pi") == 0:
            return self.arg
        return Guards.value(self, e, v)
