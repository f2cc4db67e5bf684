"""Sample expressions of every node kind and operand-type combination, converted by the repository's own conversion
steps, with the formula each one stands for."""
import itertools
import sympy as sp
from .vg import *
from . import ir
from .lower import Lower, parts, numeric, strip, fields, NUM, IFV
from .interp import Interp
from .algebra import Unknown
from .nodes import build, variadic
from .emit import en, scalar_type, matrix_type, custom_type, external_function, argument, impl, Rejected, Unread
from .program import AnalysisBroken

FN = {"cos": sp.cos, "sin": sp.sin, "tan": sp.tan, "arccos": sp.acos, "arcsin": sp.asin, "arctan": sp.atan, "cosh": sp.cosh,
      "sinh": sp.sinh, "tanh": sp.tanh, "arccosh": sp.acosh, "arcsinh": sp.asinh, "arctanh": sp.atanh, "log": sp.log, "exp": sp.exp,
      "abs": sp.Abs, "signum": sp.sign, "floor": sp.floor, "arctan2": sp.atan2}
STDFN = {"cos": sp.cos, "sin": sp.sin, "tan": sp.tan, "acos": sp.acos, "asin": sp.asin, "atan": sp.atan, "cosh": sp.cosh,
         "sinh": sp.sinh, "tanh": sp.tanh, "acosh": sp.acosh, "asinh": sp.asinh, "atanh": sp.atanh, "log": sp.log, "exp": sp.exp,
         "abs": sp.Abs, "signum": sp.sign, "floor": sp.floor, "atan2": sp.atan2, "sqrt": sp.sqrt, "powi": sp.Pow, "powf": sp.Pow}
SYM = {"pi": sp.pi, "euler": sp.E}
F, I, B = "floating_point", "integral", "boolean"
Where, Iver, Trunc = sp.Function("Where"), sp.Function("Iverson"), sp.Function("Trunc")
SHORT = {F: "F", I: "I", B: "B"}


class Case:
    pass


class Maker:
    def __init__(self, p):
        self.p = p
        self.L = Lower(p)
        self.env = {}
        self.valf = {}
        self.numbers = set()     # leaf values that stand for a number, whatever their type
        self.L.on_expr = self.derived

    # ---- expressions
    def reg(self, t, f):
        self.env[t] = f
        return t

    def var(self, n, ty=F, kind="wf::scalar_expr"):
        """an arbitrary sub-expression of numeric type ty"""
        names = ("id",)
        t = mk("obj", "wf::variable", names, mk("sym", n, "identifier")) if kind == "wf::scalar_expr" else mk("sym", n, kind)
        f = sp.Symbol(n, positive=True)
        v = self.L.leaf(t, ty)
        self.valf[v] = f
        if kind == "wf::scalar_expr":
            self.numbers.add(v)
        return self.reg(t, f)

    def integer(self, n):
        return self.reg(self.L.integer(n), sp.Integer(n))

    def rational(self, n, d):
        return self.reg(self.L.rational(n, d), sp.Rational(n, d))

    def real(self, x):
        return self.reg(build(self.p, "wf::float_constant", [C(x)]), sp.nsimplify(x))

    def power(self, b, e):
        return self.reg(build(self.p, "wf::power", [b, e]), self.env[b] ** self.env[e])

    def product(self, *xs):
        return self.reg(variadic(self.p, "wf::multiplication", xs), sp.Mul(*[self.env[x] for x in xs]))

    def total(self, *xs):
        return self.reg(variadic(self.p, "wf::addition", xs), sp.Add(*[self.env[x] for x in xs]))

    def derived(self, e):
        """an expression the conversion itself builds (a reciprocal power, ...)"""
        try:
            f = Interp(self.env).formula(e)
        except Exception as u:
            raise Unread("expression built during conversion: %s" % str(u)[:100])
        ty = I if f.is_Integer else F
        v = self.L.leaf(e, ty)
        self.valf[v] = f
        self.env[e] = f
        return v

    # ---- values
    def number(self, o):
        """formula of a constant node"""
        if o in self.env:
            return self.env[o]
        k = o.a[0][4:]
        if k == "symbolic_constant":
            n = o.a[2]
            if n.op == "enum" and n.a[0].rsplit("::", 1)[-1] in SYM:
                return SYM[n.a[0].rsplit("::", 1)[-1]]
        if k == "integer_constant":
            while o.op == "obj":
                o = o.a[2]
            return sp.Integer(o.a[0])
        if k == "boolean_constant":
            return sp.Symbol("true" if o.a[2] in (TRUE,) or (o.a[2].op == "c" and o.a[2].a[0]) else "false")
        raise Unread("constant %s" % show(o, 4)[:80])

    def formula(self, v):
        v = strip(v)
        if v in self.valf:
            return self.valf[v]
        k, o, ops, ty = parts(v)
        xs = [self.formula(x) for x in ops]
        if k == "load":
            c = o.a[2]
            while c.op == "obj" and c.a[0].startswith("std::variant"):
                c = c.a[2]
            if c.op == "obj":
                return self.number(c)
            raise Unread("load of %s" % show(c, 4)[:80])
        if k == "add":
            return sp.Add(*xs)
        if k == "mul":
            return sp.Mul(*xs)
        if k == "neg":
            return -xs[0]
        if k == "div":
            return xs[0] / xs[1]
        if k == "cast":
            src, dst = numeric(parts(ops[0])[3]), numeric(ty)
            if src == B and dst != B:
                return xs[0] if ops[0] in self.numbers else Iver(xs[0])
            if src == F and dst == I:
                return Trunc(xs[0])
            return xs[0]
        if k == "call_std_function":
            n = o.a[2].a[0].rsplit("::", 1)[-1]
            if n not in STDFN:
                raise Unread("library function " + n)
            try:
                return STDFN[n](*xs)
            except TypeError:
                return sp.Function("bad_" + n)(*xs)
        if k == "compare":
            return sp.Function("Rel_" + o.a[2].a[0].rsplit("::", 1)[-1])(*xs)
        if k == "cond":
            return Where(*xs)
        if k == "get":
            return sp.Function("Get")(sp.Integer(o.a[2].a[0]), *xs)
        if k == "construct":
            return sp.Function("Construct_" + str(abs(hash(show(o.a[2], 9)))))(*xs)
        if k == "call_external_function":
            return sp.Function("Call_" + str(abs(hash(show(o.a[2], 9)))))(*xs)
        raise Unread("operation " + k)


def con(o, xs):
    return sp.Function("Construct_" + str(abs(hash(show(o, 9)))))(*xs)


def conv(f, have, want):
    """a real value given where an integer is declared is truncated"""
    return Trunc(f) if have == F and want == I else f


def ext(o, xs):
    return sp.Function("Call_" + str(abs(hash(show(o, 9)))))(*xs)


def cases(p, tier):
    """yields Case(kind, label, fn, value, problem, formula, expected, maker, want) lazily"""
    deep = tier == "thorough"

    def case(m, kind, label, expr, expected, want=None):
        c = Case()
        c.kind, c.label, c.m, c.expected, c.want, c.expr = kind, label, m, expected, want, expr
        c.fn = m.L.handler("wf::" + kind)
        c.value, c.problem = None, None
        try:
            v = m.L.run(c.fn, [expr] if len(c.fn.params) < 2 else [expr, expr])
            if v is None or v.op in ("void", "bottom", "unreachable"):
                c.problem = ("rejected", "no value is produced")
            else:
                c.value = strip(v)
                parts(c.value)
        except Rejected as e:
            c.problem = ("rejected", str(e))
        except Unread as e:
            c.problem = ("unread", str(e))
        return c

    for n in (2, 3, 4) if deep else (2, 3):
        for tys in itertools.product((F, I, B) if n == 2 or deep else (F, I), repeat=n):
            for kind in ("addition", "multiplication"):
                m = Maker(p)
                xs = [m.var("x%d" % i, t) for i, t in enumerate(tys)]
                e = m.total(*xs) if kind == "addition" else m.product(*xs)
                yield case(m, kind, "".join(SHORT[t] for t in tys), e, m.env[e])
    # products with constants and powers among their operands
    def operand_sets(m, x, y):
        out = {"3*x": [m.integer(3), x], "-3*x": [m.integer(-3), x], "-1*x": [m.integer(-1), x], "-2*x*y": [m.integer(-2), x, y],
               "3/4*x": [m.rational(3, 4), x], "-3/4*x": [m.rational(-3, 4), x], "2.5*x": [m.real(2.5), x], "-2.5*x": [m.real(-2.5), x]}
        for a, b in ((2, 1), (3, 1), (16, 1), (17, 1), (-1, 1), (-2, 1), (1, 2), (3, 2), (15, 2), (17, 2), (-1, 2), (-3, 2), (1, 3), (2, 3), (5, 4)):
            q = m.integer(a) if b == 1 else m.rational(a, b)
            pw = m.power(x, q)
            nm = str(a) if b == 1 else "(%d/%d)" % (a, b)
            out["x^%s*y" % nm] = [pw, y]
            out["5*x^%s" % nm] = [m.integer(5), pw]
            out["-5*y*x^%s" % nm] = [m.integer(-5), y, pw]
        out["x^2*y^3"] = [m.power(x, m.integer(2)), m.power(y, m.integer(3))]
        out["x^y*y"] = [m.power(x, y), y]
        return out
    for tx, ty in ((F, F), (I, F), (F, I), (I, I)):
        m = Maker(p)
        for nm in operand_sets(m, m.var("x", tx), m.var("y", ty)):
            m = Maker(p)
            xs = operand_sets(m, m.var("x", tx), m.var("y", ty))[nm]
            e = m.product(*xs)
            yield case(m, "multiplication", "%s %s%s" % (nm, SHORT[tx], SHORT[ty]), e, m.env[e])
    # powers
    exps = [(n, 1) for n in (list(range(1, 41)) if deep else list(range(1, 18)) + [31, 32])] + [(-1, 1), (-2, 1), (-7, 1), (-16, 1), (-17, 1)]
    exps += [(n, 2) for n in (1, 3, 5, 7, 15, 17, -1, -3, -15)] + [(1, 3), (2, 3), (4, 3), (-1, 3), (1, 4), (3, 4), (-3, 4), (5, 6)]
    for t in (F, I):
        for a, b in exps:
            m = Maker(p)
            x = m.var("x", t)
            e = m.power(x, m.integer(a) if b == 1 else m.rational(a, b))
            yield case(m, "power", "x^%s %s" % (a if b == 1 else "(%d/%d)" % (a, b), SHORT[t]), e, m.env[e])
        for v in (2.0, 2.5, -2.5, 0.5, -1.0):
            m = Maker(p)
            e = m.power(m.var("x", t), m.real(v))
            yield case(m, "power", "x^%s %s" % (v, SHORT[t]), e, m.env[e])
        for u in (F, I):
            for nm, k in (("y", None), ("-y", -1), ("-2y", -2), ("3y", 3), ("-1/2y", (-1, 2))):
                m = Maker(p)
                x, y = m.var("x", t), m.var("y", u)
                ex = y if k is None else m.product(m.integer(k) if type(k) is int else m.rational(*k), y)
                if k is not None:
                    m.valf[m.L.leaf(ex, u if type(k) is int else F)] = m.env[ex]
                e = m.power(x, ex)
                yield case(m, "power", "x^%s %s%s" % (nm, SHORT[t], SHORT[u]), e, m.env[e])
    # conditionals and comparisons
    for ta, tb in itertools.product((F, I, B), repeat=2):
        m = Maker(p)
        c, a, b = m.var("c", B, "wf::boolean_expr"), m.var("a", ta), m.var("b", tb)
        e = m.reg(build(p, "wf::conditional", [c, a, b]), Where(m.env[c], m.env[a], m.env[b]))
        yield case(m, "conditional", SHORT[ta] + SHORT[tb], e, m.env[e])
        for n, val in p.enum("wf::relational_operation")["vals"]:
            m = Maker(p)
            a, b = m.var("a", ta), m.var("b", tb)
            e = m.reg(build(p, "wf::relational", [enumc("wf::relational_operation::" + n, val), a, b]), sp.Function("Rel_" + n)(m.env[a], m.env[b]))
            yield case(m, "relational", "%s %s%s" % (n, SHORT[ta], SHORT[tb]), e, m.env[e])
    m = Maker(p)
    c = m.var("c", B, "wf::boolean_expr")
    e = m.reg(build(p, "wf::iverson_bracket", [c]), Iver(m.env[c]))
    yield case(m, "iverson_bracket", "B", e, m.env[e])
    # built-in functions
    for n, val in p.enum("wf::built_in_function")["vals"]:
        if n not in FN:
            raise AnalysisBroken("no meaning known for built-in function " + n)
        k = 2 if n == "arctan2" else 1
        for tys in itertools.product((F, I, B), repeat=k):
            m = Maker(p)
            xs = [m.var("x%d" % i, t) for i, t in enumerate(tys)]
            e = m.reg(build(p, "wf::built_in_function_invocation", [enumc("wf::built_in_function::" + n, val)] + xs), FN[n](*[m.env[x] for x in xs]))
            yield case(m, "built_in_function_invocation", "%s %s" % (n, "".join(SHORT[t] for t in tys)), e, m.env[e])
    # leaves
    m = Maker(p)
    for v in (0, 1, -1, 2, 7, -12):
        e = m.integer(v)
        yield case(m, "integer_constant", str(v), e, m.env[e], I)
    for a, b in ((1, 2), (-3, 4), (22, 7)):
        e = m.rational(a, b)
        yield case(m, "rational_constant", "%d/%d" % (a, b), e, m.env[e], F)
    for v in (0.5, -2.25, 3.0):
        e = m.real(v)
        yield case(m, "float_constant", str(v), e, m.env[e], F)
    for n, val in p.enum("wf::symbolic_constant_enum")["vals"]:
        if n not in SYM:
            raise AnalysisBroken("no meaning known for symbolic constant " + n)
        e = m.reg(build(p, "wf::symbolic_constant", [enumc("wf::symbolic_constant_enum::" + n, val)]), SYM[n])
        yield case(m, "symbolic_constant", n, e, m.env[e], F)
    for v in (TRUE, FALSE):
        e = build(p, "wf::boolean_constant", [v])
        m.reg(e, sp.Symbol("true" if v is TRUE else "false"))
        yield case(m, "boolean_constant", show(v), e, m.env[e], B)
    # transparent wrappers
    for kind in ("unevaluated", "stop_derivative"):
        for t in (F, I):
            m = Maker(p)
            x = m.var("x", t)
            e = m.reg(build(p, "wf::" + kind, [x]), m.env[x])
            yield case(m, kind, SHORT[t], e, m.env[e], t)
    # variables
    m = Maker(p)
    nm = obj("wf::variable", {f["n"]: mk("sym", "v_" + f["n"], f["t"]) for f in p.rec("wf::variable")["fields"]})
    m.reg(nm, sp.Symbol("v"))
    yield case(m, "variable", "named", nm, sp.Symbol("v"), F)
    for t in NUM:
        a = build(p, "wf::function_argument_variable", [mk("sym", "argname", "std::string"), scalar_type(p, t), C(0)])
        m = Maker(p)
        m.reg(a, sp.Symbol("arg"))
        yield case(m, "function_argument_variable", SHORT[t], a, sp.Symbol("arg"), t)
    a = build(p, "wf::function_argument_variable", [mk("sym", "argname", "std::string"), matrix_type(p, 2, 3), C(4)])
    m = Maker(p)
    m.reg(a, sp.Symbol("arg"))
    yield case(m, "function_argument_variable", "matrix element", a, sp.Symbol("arg"), F)
    # aggregates
    for r, c_ in ((1, 1), (2, 1), (1, 3), (2, 3), (2, 2)):
        tys = [(F, I, B)[k % 3] for k in range(r * c_)]
        m = Maker(p)
        xs = [m.var("x%d" % i, t) for i, t in enumerate(tys)]
        e = build(p, "wf::matrix", [C(r), C(c_), mk("list", *xs)])
        yield case(m, "matrix", "%dx%d" % (r, c_), e, con(matrix_type(p, r, c_), [m.env[x] for x in xs]), matrix_type(p, r, c_))

    def sfield(n, ty):
        return obj("wf::struct_field", {f["n"]: (mk("str", n) if f["n"] == "name_" else ty if f["n"] == "type_" else mk("sym", "acc", f["t"])) for f in p.rec("wf::struct_field")["fields"]})
    inner = custom_type(p, mk("str", "Inner"), [sfield("u", scalar_type(p, I)), sfield("w", scalar_type(p, F))])
    shapes = {"F": [(scalar_type(p, F), [F])], "FI": [(scalar_type(p, F), [F]), (scalar_type(p, I), [I])],
              "IMF": [(scalar_type(p, I), [I]), (matrix_type(p, 2, 2), [F] * 4), (scalar_type(p, F), [F])],
              "B(I F)F": [(scalar_type(p, B), [B]), (inner, [I, F]), (scalar_type(p, F), [F])]}
    for nm, fs in shapes.items():
        ct = custom_type(p, mk("str", "Point"), [sfield("f%d" % i, t) for i, (t, _) in enumerate(fs)])
        want = [t for _, ts in fs for t in ts]
        for given in (want, [I if t == F else t for t in want], [F for t in want]):
            m = Maker(p)
            xs = [m.var("x%d" % i, t) for i, t in enumerate(given)]
            e = build(p, "wf::custom_type_construction", [ct, mk("list", *xs)])
            c = case(m, "custom_type_construction", "%s from %s" % (nm, "".join(SHORT[t] for t in given)), e, con(ct, [conv(m.env[x], h, w) for x, h, w in zip(xs, given, want)]), ct)
            c.members = want
            yield c
        for k, t in enumerate(want):
            m = Maker(p)
            pv = m.var("compound", ct, "wf::compound_expr")
            e = build(p, "wf::compound_expression_element", [pv, C(k)])
            yield case(m, "compound_expression_element", "%s[%d]" % (nm, k), e, sp.Function("Get")(sp.Integer(k), m.env[pv]), t)
    for ty, w in ((matrix_type(p, 2, 3), F),):
        m = Maker(p)
        pv = m.var("compound", ty, "wf::compound_expr")
        e = build(p, "wf::compound_expression_element", [pv, C(4)])
        yield case(m, "compound_expression_element", "matrix[4]", e, sp.Function("Get")(sp.Integer(4), m.env[pv]), w)
    for t in (F, I):
        m = Maker(p)
        pv = m.var("compound", t, "wf::compound_expr")
        e = build(p, "wf::compound_expression_element", [pv, C(0)])
        yield case(m, "compound_expression_element", "scalar %s" % SHORT[t], e, m.env[pv], t)
    # external functions
    M23, CT = matrix_type(p, 2, 3), custom_type(p, mk("str", "Point"), [sfield("f0", scalar_type(p, F))])
    kinds = {"F": (scalar_type(p, F), "wf::scalar_expr"), "I": (scalar_type(p, I), "wf::scalar_expr"), "M": (M23, "wf::matrix_expr"), "C": (CT, "wf::compound_expr")}
    for sig in ("F", "I", "FI", "IF", "FM", "MF", "CF", "FCMI", "II"):
        for ret in ("F", "I", "M", "C"):
            if len(sig) > 1 and ret not in ("F", "C") and not deep:
                continue
            for sc in (F, I, B):
                m = Maker(p)
                args = [argument(p, mk("sym", "a%d" % i, "std::string"), kinds[s][0], "input", i) for i, s in enumerate(sig)]
                fn = external_function(p, mk("sym", "ext", "std::string"), args, kinds[ret][0])
                xs = []
                for i, s in enumerate(sig):
                    ty = sc if s in "FI" else kinds[s][0]
                    xs.append(m.var("x%d" % i, ty, kinds[s][1]))
                e = build(p, "wf::external_function_invocation", [fn, mk("list", *xs)])
                c = case(m, "external_function_invocation", "%s(%s) given %s" % (ret, sig, SHORT[sc]), e, ext(fn, [conv(m.env[x], sc, I if s == "I" else None) for x, s in zip(xs, sig)]), kinds[ret][0])
                c.members = [kinds[s][0] for s in sig]
                yield c
