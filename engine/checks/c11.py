"""C11: derivative rules.

The rule each handler of `derivative_visitor` applies is read off the source as a closed formula (value graph
over the expression API, helpers inlined, guards resolved per scenario) and compared with an independent table
of derivatives, computed by sympy from the function's own definition."""
import itertools
import sympy as sp
from wfa.program import load_core, AnalysisBroken
from wfa.vg import *
from wfa import algebra
from wfa.algebra import Unknown
from wfa.interp import Interp, equal_at
from wfa.nodes import build, variadic, sexpr, bexpr
from wfa.spans import SPAN_PRIMS, span_hook
from wfa.report import Check

V = "wf::derivative_visitor"
FN = {"cos": sp.cos, "sin": sp.sin, "tan": sp.tan, "arccos": sp.acos, "arcsin": sp.asin, "arctan": sp.atan,
      "cosh": sp.cosh, "sinh": sp.sinh, "tanh": sp.tanh, "arccosh": sp.acosh, "arcsinh": sp.asinh,
      "arctanh": sp.atanh, "log": sp.log, "exp": sp.exp, "abs": sp.Abs, "signum": sp.sign, "floor": sp.floor,
      "arctan2": sp.atan2}
Deriv = sp.Function("Deriv")
X = sp.symbols("x0:4")
D = sp.symbols("d0:4")
TT = sp.Symbol("t")
R = sp.Rational


def true_partial(name, i):
    """independent oracle: partial derivative of the function in its i-th argument, on the reals"""
    if name == "abs":
        return X[0] / sp.Abs(X[0])
    if name in ("signum", "floor"):
        return None
    if name == "arctan2":
        y, x = X[0], X[1]
        return [x, -y][i] / (x ** 2 + y ** 2)
    return sp.diff(FN[name](X[0]), X[0])


def points(name):
    base = [R(3, 7), R(-5, 11), R(2, 13), R(-7, 17)]
    if name == "arccosh":
        base = [R(10, 7), R(16, 11), R(28, 13), R(57, 17)]
    if name == "log":
        base = [abs(b) for b in base]
    ds = [R(11, 19), R(-13, 23), R(9, 29)]
    out = []
    for k in range(4):
        m = {X[i]: base[(k + i) % 4] for i in range(4)}
        m.update({D[i]: ds[(k + i) % 3] for i in range(4)})
        out.append(m)
    return out


def scenario(argterms, ds, extra=None, behav=None):
    """derivative of symbol i is ds[i]; differentiating any formula of the symbols is its total derivative"""
    env = {t: X[i] for i, t in enumerate(argterms)}
    if extra:
        env.update(extra)

    def calls(I, t):
        if t.op != "call":
            return None
        q = t.a[0]
        if q == V + "::operator()" and len(t.a) >= 4:
            f = I.formula(t.a[3])
            return sum((sp.diff(f, X[i]) * d for i, d in enumerate(ds)), sp.Integer(0))
        if q == "wf::derivative::create":
            n = t.a[4] if len(t.a) > 4 else C(1)
            return Deriv(I.formula(t.a[2]), I.formula(t.a[3]), I.formula(n))
        return None

    def truths(I, c):
        if behav is not None and c.op in ("eq",):
            a = c.a
            for x, y in (a, a[::-1]):
                if y.op == "enum" and y.a[0].startswith("wf::non_differentiable_behavior"):
                    return y.a[0].endswith("::" + behav)
        return None
    return Interp(env, calls, truths)


def handler(p, ty):
    hs = [f for f in p.method(V, "operator()") if f.params and f.params[0]["t"].replace("const ", "").rstrip(" &") in ("wf::" + ty, ty)]
    if not hs:
        hs = [f for f in p.method(V, "operator()") if f.params and ("::" + ty + " ") in (" ::" + f.params[0]["t"]).replace("wf::", "::")]
    if len(hs) != 1:
        raise AnalysisBroken("derivative_visitor has %d handlers for %s" % (len(hs), ty))
    return hs[0]


def this_term(p, behav):
    t = mk("sym", "this", V)
    b = p.enum("wf::non_differentiable_behavior")
    v = dict((n, x) for n, x in b["vals"])
    t = upd(t, "argument_", ARG)
    return upd(t, "non_diff_behavior_", enumc("wf::non_differentiable_behavior::" + behav, v[behav]))


ARG = mk("sym", "argument", "wf::scalar_expr")


class Run:
    def __init__(self, p, ck):
        self.p, self.ck = p, ck
        self.prims = dict(algebra.PRIMS)

    def summ(self, fn, args, behav="constant", extra=None):
        pr = dict(self.prims)
        # the recursive entry point stays uninterpreted; handlers themselves are inlined
        rec = [f for f in self.p.method(V, "operator()") if len(f.params) == 1 and f.params[0]["t"].replace("const ", "").rstrip(" &") in ("wf::scalar_expr", "scalar_expr")]
        if len(rec) != 1:
            raise AnalysisBroken("derivative_visitor has no single recursive entry point")
        rid = rec[0].id

        def hook(ev, st, fr, f, objlv, al):
            if f.id == rid:
                return mk("call", V + "::operator()", "", ev.read(st, objlv) if objlv else NULL, *[ev.argval(st, a) for a in al])
            return None
        ev = Ev(self.p, pr, hook=hook)
        s = ev.summarize(fn, this=this_term(self.p, behav), args=args)
        self.ck.analysed(ev.inlined)
        return s

    def judge(self, group, inst, fn, s, I, expected, pts, accept=None):
        """every feasible leaf of the handler equals the expected formula"""
        def go(I):
            for e in s.throws:
                if I.truth(e.guard):
                    return ("throw", e)
            if s.val is None:
                return ("throw", None)
            return ("val", I.formula(s.val))
        res = I.cases(go)
        bad = None
        for a, r in res:
            if isinstance(r, Unknown):
                self.ck.notes.append("%s/%s: outcome not readable as a formula: %s" % (group, inst, r))
                bad = bad or ("?", "the result is not a formula of the arguments and their derivatives: %s" % r, a)
                continue
            if r[0] == "throw":
                bad = ("throw", "raises an error instead of producing a derivative", a)
                break
            ok = equal_at(r[1], expected, pts) or (accept and accept(r[1]))
            if not ok:
                bad = ("formula", "rule gives %s, the derivative is %s" % (r[1], expected), a)
                break
        if bad and bad[0] == "?":
            raise AnalysisBroken("C11 %s/%s: %s" % (group, inst, bad[1]))
        self.ck.check(bad is None, group, inst, fn.loc, lambda: bad[1] + (" when " + " and ".join(("" if v else "not ") + show(c, 4) for c, v in bad[2].items()) if bad[2] else ""))


def run(tier):
    ck = Check("C11", tier, __doc__)
    p = load_core()
    r = Run(p, ck)
    f = handler(p, "built_in_function_invocation")
    enum = p.enum("wf::built_in_function")
    names = dict((n, v) for n, v in enum["vals"])
    for n in names:
        if n not in FN:
            raise AnalysisBroken("no oracle for built-in function " + n)
    for name, val in names.items():
        nargs = 2 if name == "arctan2" else 1
        xs = [mk("sym", "x%d" % i, "wf::scalar_expr") for i in range(nargs)]
        func = build(p, "wf::built_in_function_invocation", [enumc("wf::built_in_function::" + name, val)] + xs)
        fabs = mk("sym", "func_abstract", "wf::scalar_expr")
        for behav in ("constant", "abstract"):
            s = r.summ(f, [func, fabs], behav)
            for zero in itertools.product((0, 1), repeat=nargs):
                ds = [sp.Integer(0) if z else D[i] for i, z in enumerate(zero)]
                extra = {fabs: FN[name](*X[:nargs]), ARG: TT}
                I = scenario(xs, ds, extra)
                inst = "%s/%s%s" % (name, behav, "".join("/d%d=0" % i for i, z in enumerate(zero) if z))
                parts = [true_partial(name, i) for i in range(nargs)]
                if all(zero):
                    exp = sp.Integer(0)
                elif None in parts:
                    exp = Deriv(FN[name](X[0]), TT, sp.Integer(1)) if behav == "abstract" else sp.Integer(0)
                else:
                    exp = sum(q * d for q, d in zip(parts, ds))
                r.judge("built-in", inst, f, s, I, exp, points(name))
    ck.require("built-in", 2 * len(names))

    # power: base and exponent both may depend on the variable
    f = handler(p, "power")
    xs = [mk("sym", "base", "wf::scalar_expr"), mk("sym", "exp", "wf::scalar_expr")]
    pw = build(p, "wf::power", xs)
    s = r.summ(f, [pw])
    for zero in itertools.product((0, 1), repeat=2):
        ds = [sp.Integer(0) if z else D[i] for i, z in enumerate(zero)]
        b, e = X[0], X[1]
        exp = e * b ** (e - 1) * ds[0] + b ** e * sp.log(b) * ds[1]
        pts = [{k: abs(v) for k, v in m.items()} for m in points("log")]
        r.judge("power", "".join("d%d=%s " % (i, d) for i, d in enumerate(ds)).strip(), f, s, scenario(xs, ds, {ARG: TT}), exp, pts)

    # sums and products
    for ty, fold in (("addition", sp.Add), ("multiplication", sp.Mul)):
        f = handler(p, ty)
        for n in (2, 3, 4) if tier == "thorough" else (2, 3):
            xs = [mk("sym", "x%d" % i, "wf::scalar_expr") for i in range(n)]
            v = variadic(p, "wf::" + ty, xs)
            s = r.summ(f, [v])
            for zero in itertools.product((0, 1), repeat=n):
                ds = [sp.Integer(0) if z else D[i] for i, z in enumerate(zero)]
                exp = sum((sp.diff(fold(*X[:n]), X[i]) * d for i, d in enumerate(ds)), sp.Integer(0))
                r.judge(ty, "%d operands, %s" % (n, "".join("0" if z else "d" for z in zero)), f, s, scenario(xs, ds, {ARG: TT}), exp, points(""))

    # conditional: branches are differentiated, the condition is kept
    f = handler(p, "conditional")
    xs = [mk("sym", "if_branch", "wf::scalar_expr"), mk("sym", "else_branch", "wf::scalar_expr")]
    cc = mk("sym", "condition", "wf::boolean_expr")
    c = build(p, "wf::conditional", [cc] + xs)
    s = r.summ(f, [c])
    COND = sp.Symbol("cond")
    for zero in itertools.product((0, 1), repeat=2):
        ds = [sp.Integer(0) if z else D[i] for i, z in enumerate(zero)]
        exp = sp.Function("Where")(COND, ds[0], ds[1])
        r.judge("conditional", "".join("0" if z else "d" for z in zero), f, s, scenario(xs, ds, {ARG: TT, cc: COND}), exp, points(""),
                accept=(lambda e: e == 0) if all(zero) else None)

    # leaves that do not depend on anything
    for ty in ("symbolic_constant", "complex_infinity", "imaginary_unit", "integer_constant", "float_constant", "rational_constant", "stop_derivative"):
        f = handler(p, ty)
        s = r.summ(f, None)
        r.judge("constant", ty, f, s, scenario([], [], {ARG: TT}), sp.Integer(0), points(""))
    # variables: one when it is the variable of differentiation, zero otherwise
    for ty in ("variable", "function_argument_variable", "unique_variable"):
        f = handler(p, ty)
        leaf_rule(ck, r, f, ty)
    # non-differentiable leaves
    f = handler(p, "iverson_bracket")
    for behav in ("abstract", "constant"):
        s = r.summ(f, None, behav)
        E = mk("sym", f.params[1]["n"] or "arg1", "wf::scalar_expr")
        exp = Deriv(X[0], TT, sp.Integer(1)) if behav == "abstract" else sp.Integer(0)
        r.judge("iverson bracket", behav, f, s, scenario([E], [], {ARG: TT}), exp, points(""))
    more_nodes(ck, r, p, tier)
    drivers(ck, r, p, tier)
    return ck.finish(p)


def leaf_rule(ck, r, f, ty):
    """value must be one exactly under a guard that compares the whole variable with the argument"""
    s = r.summ(f, None)
    nfields = len(r.p.rec("wf::" + ty)["fields"])
    for same_ in (True, False):
        def truths(I, c, same_=same_):
            if c.op == "istype":
                return True
            if c.op == "eq" and NULL in c.a:
                return None
            if c.op == "call" and ("identical" in c.a[0] or "operator==" in c.a[0]):
                return same_
            if c.op in ("eq", "call"):
                seen.setdefault(c, True)
                return True if same_ else None
            return None
        seen = {}
        I = Interp({ARG: TT}, None, truths)
        exp = sp.Integer(1 if same_ else 0)
        if not same_:
            # another variable differs in at least one field: a guard made of field comparisons that are all true
            # and that covers every field is infeasible
            def acc(val, I=I):
                t = [c for c, v in I.assume.items() if v and c.op in ("eq", "call")]
                flds = {x.a[1] for c in t for x in walk_terms(c) if x.op == "field" and x.a[0].op in ("as", "sym")}
                return len(flds) >= nfields and all(v for v in I.assume.values())
            r.judge("variable", "%s another" % ty, f, s, I, exp, points(""), accept=acc)
        else:
            r.judge("variable", "%s itself" % ty, f, s, I, exp, points(""))


F_ = sp.Function("F")
Subst = sp.Function("Subst")
Diff = sp.Function("Diff")
U = sp.Symbol("u_unique")


def rich(argterms, ds, extra, behav="constant", more=None, flags=None):
    """scenario that also reads substitutions, unique variables and symbolic invocations"""
    I0 = scenario(argterms, ds, extra, behav)
    base_calls, base_truths = I0.calls, I0.truths

    def calls(I, t):
        if more:
            q = more(I, t)
            if q is not None:
                return q
        if t.op == "call":
            if t.a[0] == "wf::make_unique_variable_symbol":
                return U
            if t.a[0] == "wf::substitution::create":
                return Subst(*[I.formula(x) for x in t.a[2:5]])
            if t.a[0].endswith("::diff"):
                xs = [I.formula(x) for x in t.a[2:5]][:3]
                return Diff(*xs, sp.Symbol(behav_of(t)))
        if t.op == "obj" and t.a[0] == "wf::symbolic_function_invocation":
            xs = None
            for x in t.a[2:]:
                try:
                    xs = [I.formula(y) for y in I.items(x)]
                    break
                except Unknown:
                    continue
            if xs is not None:
                return F_(*xs)
        return base_calls(I, t)

    def truths(I, c):
        if flags:
            q = flags(I, c)
            if q is not None:
                return q
        return base_truths(I, c)
    I0.calls, I0.truths = calls, truths
    return I0


def behav_of(t):
    for x in walk_terms(t):
        if x.op == "enum" and x.a[0].startswith("wf::non_differentiable_behavior::"):
            return x.a[0].rsplit("::", 1)[-1]
    return "default"


def more_nodes(ck, r, p, tier):
    E = mk("sym", "abstract_expr", "wf::scalar_expr")
    ES = sp.Symbol("E")
    one = sp.Integer(1)
    # symbolic function chain rule
    f = handler(p, "symbolic_function_invocation")
    ctor = [c for c in p.by_rt["wf::symbolic_function_invocation"] if c.ctor and len(c.params) == 2][0]
    for n in (1, 2, 3) if tier == "thorough" else (1, 2):
        xs = [sexpr("x%d" % i) for i in range(n)]
        fsym = mk("sym", "function", "wf::symbolic_function")
        func = build(p, "wf::symbolic_function_invocation", [fsym, mk("list", *xs)])
        s = r.summ(f, [func, E])
        for kinds in itertools.product((sp.Integer(0), one, "d"), repeat=n):
            ds = [D[i] if k == "d" else k for i, k in enumerate(kinds)]

            def flags(I, c):
                if c.op == "istype":
                    return False
                return None
            I = rich(xs, ds, {ARG: TT, E: ES}, flags=flags)
            exp = sp.Integer(0)
            for i in range(n):
                args = [U if j == i else X[j] for j in range(n)]
                exp += ds[i] * Subst(Deriv(F_(*args), U, one), U, X[i])
            whole = Deriv(ES, TT, one)
            r.judge("symbolic function", "%d arguments, %s" % (n, kinds), f, s, I, exp, points(""),
                    accept=(lambda v, whole=whole, ds=ds: v == whole and any(d != 0 for d in ds)))

        def flags2(I, c):
            if c.op == "istype":
                return True
            if c.op == "call" and "identical" in c.a[0]:
                return True
            return None
        I = rich(xs, [sp.Integer(0)] * n, {ARG: TT, E: ES}, flags=flags2)
        r.judge("symbolic function", "with respect to itself, %d arguments" % n, f, s, I, one, points(""))

    # compound expression element
    f = handler(p, "compound_expression_element")
    for behav in ("abstract", "constant"):
        s = r.summ(f, [None, E], behav)
        for same_ in (True, False):
            def flags(I, c, same_=same_):
                if c.op == "istype":
                    return same_
                if c.op == "call" and "identical" in c.a[0]:
                    return same_
                return None
            exp = one if same_ else (Deriv(ES, TT, one) if behav == "abstract" else sp.Integer(0))
            r.judge("compound element", "%s/%s" % (behav, "itself" if same_ else "another"), f, s, rich([], [], {ARG: TT, E: ES}, behav, flags=flags), exp, points(""))

    # derivative of an abstract derivative
    f = handler(p, "derivative")
    x0 = sexpr("differentiand")
    dn = build(p, "wf::derivative", [x0, sexpr("wrt"), mk("sym", "order", "int")])
    s = r.summ(f, [dn, E])
    for case, exp in (("itself", one), ("independent", sp.Integer(0)), ("differentiand is the variable", sp.Integer(0)), ("dependent", Deriv(ES, TT, one)),
                      ("dependent on an inner function", Deriv(ES, TT, one)), ("dependent on another derivative", Deriv(ES, TT, one))):
        def flags(I, c, case=case):
            if c.op == "istype":
                return {"itself": "derivative" in c.a[1], "differentiand is the variable": "symbolic_function_invocation" in c.a[1],
                        "dependent on an inner function": "symbolic_function_invocation" in c.a[1], "dependent on another derivative": "::derivative" in c.a[1]}.get(case, False)
            if c.op == "call" and "is_function_of" in c.a[0]:
                return case != "independent"
            if c.op == "call" and "identical" in c.a[0]:
                if case == "itself":
                    return x0 not in c.a
                return case == "differentiand is the variable" and x0 in c.a
            return None
        r.judge("derivative node", case, f, s, rich([], [], {ARG: TT, E: ES}, flags=flags), exp, points(""))

    # substitution: multivariable chain rule
    f = handler(p, "substitution")
    inp, tgt, rep = sexpr("input"), sexpr("target"), sexpr("replacement")
    sn = build(p, "wf::substitution", [inp, tgt, rep])
    TG = sp.Symbol("target")
    K = sp.Symbol("partial_in_target")
    for behav in ("abstract", "constant"):
        s = r.summ(f, [sn, E], behav)
        for z0, z1 in itertools.product((0, 1), repeat=2):
            for tvar, rvar, tdep in ((1, 0, 0), (0, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0)):
                ds = [sp.Integer(0) if z0 else D[0], sp.Integer(0) if z1 else D[1]]

                def flags(I, c, tvar=tvar, rvar=rvar, tdep=tdep):
                    if c.op == "istype":
                        if c.a[0] is tgt:
                            return bool(tvar) and c.a[1].rsplit("::", 1)[-1] == "variable"
                        if c.a[0] is rep:
                            return bool(rvar) and c.a[1].rsplit("::", 1)[-1] == "variable"
                    if c.op == "call" and "is_function_of" in c.a[0] and tgt in c.a:
                        return bool(tdep)
                    return None
                I = rich([inp, rep], ds, {ARG: TT, E: ES, tgt: TG}, behav, flags=flags)
                exp = (Deriv(ES, TT, one) if tdep else
                       Subst(ds[0], TG, X[1]) + ds[1] * K)
                # the three ways of writing the partial derivative with respect to the target
                ways = [Subst(Deriv(Subst(X[0], TG, U), U, one), U, X[1])]
                if tvar:
                    ways += [Subst(Diff(X[0], TG, one, sp.Symbol(behav)), TG, X[1])]
                if rvar and z0:
                    ways += [Deriv(ES, X[1], one)]

                def acc(v, exp=exp, ways=ways, tdep=tdep, ds=ds, rvar=rvar):
                    if tdep:
                        return False
                    zero = {Subst(sp.Integer(0), TG, X[1]): sp.Integer(0)}
                    for w in ways:
                        if sp.expand((v - exp.subs(K, w)).subs(zero)) == 0:
                            return True
                    # the total derivative with respect to the variable that replaces the target
                    return bool(rvar) and v in (Deriv(ES, TT, one), ds[1] * Deriv(ES, X[1], one))
                r.judge("substitution", "%s d_input=%s d_replacement=%s%s%s%s" % (behav, ds[0], ds[1], " target-variable" if tvar else "", " replacement-variable" if rvar else "", " target-dependent" if tdep else ""),
                        f, s, I, exp, points(""), accept=acc)


def drivers(ck, r, p, tier):
    """diff() and jacobian(): which derivative ends up where"""
    V1 = V + "::operator()"
    rid = [f for f in p.method(V, "operator()") if len(f.params) == 1 and f.params[0]["t"].replace("const ", "").rstrip(" &") in ("wf::scalar_expr", "scalar_expr")][0].id
    DD = sp.Function("DD")

    def hook(ev, st, fr, f, objlv, al):
        if f.id == rid:
            vis = obj(V, {n: ev.read(st, (objlv[0], objlv[1] + (("f", n),))) for n in ("argument_", "non_diff_behavior_")})
            return mk("call", V1, "", vis, *[ev.argval(st, a) for a in al])
        return span_hook(ev, st, fr, f, objlv, al)
    beh = enumc("wf::non_differentiable_behavior::abstract", dict(p.enum("wf::non_differentiable_behavior")["vals"])["abstract"])

    def calls(I, t):
        if t.op == "call" and t.a[0] == V1:
            vis = t.a[2]
            return DD(I.formula(t.a[3]), I.formula(field_like(vis, "argument_")), sp.Symbol(behav_of(field_like(vis, "non_diff_behavior_"))))
        return None

    def field_like(o, n):
        return field(o, n)
    fx, vx = sexpr("function"), sexpr("var")
    A = sp.Symbol("abstract")
    fd = [f for f in p.named("wf::diff") if len(f.params) == 4 and "scalar_expr" in f.params[0]["t"]][0]
    for n in range(0, 5 if tier == "thorough" else 4):
        ev = Ev(p, dict(algebra.PRIMS), hook=hook)
        s = ev.summarize(fd, args=[fx, vx, C(n), beh])
        ck.analysed(ev.inlined)
        exp = X[0]
        for _ in range(n):
            exp = DD(exp, TT, A)
        I = Interp({fx: X[0], vx: TT}, calls, lambda I, c: (True if "variable" in c.a[1] else False) if c.op == "istype" else None)
        r.judge("diff", "order %d" % n, fd, s, I, exp, points(""))
    fj = [f for f in p.named("wf::jacobian") if len(f.params) == 3 and "Span" in f.params[0]["t"]]
    if len(fj) != 1:
        raise AnalysisBroken("wf::jacobian not found")
    fj = fj[0]
    rows, cols = 2, 3
    fs, vs = [sexpr("f%d" % i) for i in range(rows)], [sexpr("v%d" % i) for i in range(cols)]
    ev = Ev(p, dict(algebra.PRIMS, **{"wf::matrix_expr::create": PURE}, **SPAN_PRIMS), hook=hook)
    s = ev.summarize(fj, args=[mk("list", *fs), mk("list", *vs), beh])
    ck.analysed(ev.inlined)
    env = {f: sp.Symbol("f%d" % i) for i, f in enumerate(fs)}
    env.update({v: sp.Symbol("v%d" % i) for i, v in enumerate(vs)})
    M = sp.Function("Mat")

    def calls2(I, t):
        q = calls(I, t)
        if q is not None:
            return q
        if t.op == "call" and t.a[0] == "wf::matrix_expr::create" and len(t.a) == 5:
            return M(I.formula(t.a[2]), I.formula(t.a[3]), *[I.formula(x) for x in I.items(t.a[4])])
        return None
    I = Interp(env, calls2, lambda I, c: (c.a[1].endswith("::variable")) if c.op == "istype" else None)
    exp = M(rows, cols, *[DD(sp.Symbol("f%d" % i), sp.Symbol("v%d" % j), A) for i in range(rows) for j in range(cols)])
    r.judge("jacobian", "2 functions, 3 variables", fj, s, I, exp, points(""))
