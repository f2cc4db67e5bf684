"""Reads value-graph terms over the symbolic-expression API as mathematical formulas (sympy)."""
import sympy as sp
from .vg import *
from .vg import PURE, Exit, split_targs
from .stdmodel import istype, as_type, make_object
from .program import AnalysisBroken

ONE = {"wf::constants::zero": 0, "wf::constants::one": 1, "wf::constants::negative_one": -1}
GLOB = {"wf::constants::pi": sp.pi, "wf::constants::euler": sp.E, "wf::constants::imaginary_unit": sp.I,
        "wf::constants::undefined": sp.Symbol("undefined"), "wf::constants::complex_infinity": sp.Symbol("zoo")}
FN1 = {"sin": sp.sin, "cos": sp.cos, "tan": sp.tan, "asin": sp.asin, "acos": sp.acos, "atan": sp.atan, "sinh": sp.sinh,
       "cosh": sp.cosh, "tanh": sp.tanh, "asinh": sp.asinh, "acosh": sp.acosh, "atanh": sp.atanh, "exp": sp.exp,
       "log": sp.log, "sqrt": sp.sqrt, "abs": sp.Abs, "signum": sp.sign, "floor": sp.floor}

#: functions of the expression API that stay uninterpreted (their meaning is mathematical)
API = ["operator+", "operator-", "operator*", "operator/", "pow", "atan2", "where", "max", "min", "is_zero", "is_one", "is_negative_one"] + list(FN1)
PRIMS = {"wf::" + n: PURE for n in API}
PRIMS.update({"wf::scalar_expr::operator-": PURE, "wf::scalar_expr::from_int": PURE, "wf::scalar_expr::from_float": PURE,
              "wf::scalar_expr::from_complex": PURE,
              "wf::power::create": PURE, "wf::multiplication::from_operands": PURE, "wf::addition::from_operands": PURE,
              "wf::multiplication::from_two_operands": PURE, "wf::derivative::create": PURE, "wf::conditional::create": PURE,
              "wf::substitution::create": PURE, "wf::built_in_function_invocation::create": PURE,
              "wf::make_unique_variable_symbol": PURE, "wf::determine_numeric_set": PURE, "wf::is_function_of": PURE,
              "wf::are_identical": PURE, "wf::scalar_expr::diff": PURE, "wf::diff": PURE, "wf::expression_base<wf::scalar_expr, wf::scalar_meta_type>::is_identical_to": PURE,
              "wf::is_identical_to": PURE})

EB = ("wf::scalar_expr", "wf::matrix_expr", "wf::boolean_expr", "wf::compound_expr")


def _types_of(e):
    out = []
    for x in e.get("ta") or []:
        x = x.strip()
        out += split_targs(x) if x.startswith("<") else [x]
    return [bare(x) for x in out]


def p_is_type(ev, st, fr, e, fid, objlv, al):
    v = ev.read(st, objlv)
    return ev.simp(st, b_or(*[istype(v, t) for t in _types_of(e)]))


def p_get_if(ev, st, fr, e, fid, objlv, al):
    v, ty = ev.argval(st, al[0]), _types_of(e)[0]
    return ite(ev.simp(st, istype(v, ty)), as_type(v, ty), NULL)


def p_get_unchecked(ev, st, fr, e, fid, objlv, al):
    return as_type(ev.argval(st, al[0]), _types_of(e)[0])


def p_get(ev, st, fr, e, fid, objlv, al):
    v, ty = ev.argval(st, al[0]), _types_of(e)[0]
    ist = ev.simp(st, istype(v, ty))
    if ist is not TRUE:
        ev.throws[-1].append(Exit(b_and(*(st.path + (b_not(ist),))), "throw", mk("thrown", "wf::type_error"), None, e["l"]))
    return as_type(v, ty)


def p_make_expr(ev, st, fr, e, fid, objlv, al):
    return make_object(ev, st, fr, _types_of(e)[0], al, e["l"], held=len(al) == 1 and bare(e["a"][0].get("t", "")) in EB)


def c_expr(ev, st, fr, e):
    """an expression handle is identified with the node it holds"""
    a = e["a"]
    if not a:
        return None
    t0 = bare(a[0].get("t", ""))
    if t0.startswith("std::in_place_type_t<"):
        return make_object(ev, st, fr, split_targs(t0)[0], [("lv", ev.lv(x, st, fr)) for x in a[1:]], e["l"],
                           held=len(a) == 2 and bare(a[1].get("t", "")) in EB)
    if len(a) == 1:
        if t0 in EB or t0.startswith("wf::expression_base<"):
            return ev.val(a[0], st, fr)
        r = ev.p.recs.get(t0)
        if r is not None and t0.startswith("wf::") and t0 != "wf::checked_int" and "expression_variant" not in t0:
            return ev.val(a[0], st, fr)
    return None


for _b in ("wf::scalar_expr, wf::scalar_meta_type", "wf::matrix_expr, wf::matrix_meta_type", "wf::boolean_expr, wf::boolean_meta_type", "wf::compound_expr, wf::compound_meta_type"):
    PRIMS["wf::expression_base<%s>::is_type" % _b] = p_is_type
    PRIMS["wf::expression_base<%s>::is_identical_to" % _b] = PURE
PRIMS.update({"wf::get_if": p_get_if, "wf::get_unchecked": p_get_unchecked, "wf::get": p_get, "wf::make_expr": p_make_expr})
for _b in EB:
    PRIMS["ctor:" + _b] = c_expr


class Unknown(Exception):
    def __init__(self, t):
        self.t = t
        Exception.__init__(self, show(t, 6))


def to_sympy(t, env):
    """env: T -> sympy expression"""
    if t in env:
        return env[t]
    if t.op == "c":
        if type(t.a[0]) is int:
            return sp.Integer(t.a[0])
        if type(t.a[0]) is float:
            return sp.nsimplify(t.a[0])
    if t.op == "glob":
        q = t.a[0]
        if q in ONE:
            return sp.Integer(ONE[q])
        if q in GLOB:
            return GLOB[q]
    if t.op == "obj" and t.a[0] == "wf::checked_int":
        return to_sympy(t.a[2], env)
    if t.op == "obj" and len(t.a) == 3:
        return to_sympy(t.a[2], env)
    if t.op == "new" and len(t.a) == 2:
        return to_sympy(t.a[1], env)
    if t.op == "call":
        q, args = t.a[0], t.a[2:]
        n = q.rsplit("::", 1)[-1]
        if q in ("wf::scalar_expr::from_int", "wf::scalar_expr::from_float"):
            return to_sympy(args[0], env)
        if n == "operator-" and len(args) == 1:
            return -to_sympy(args[0], env)
        if n in ("operator+", "operator-", "operator*", "operator/") and len(args) == 2:
            x, y = to_sympy(args[0], env), to_sympy(args[1], env)
            return x + y if n == "operator+" else x - y if n == "operator-" else x * y if n == "operator*" else x / y
        if q in ("wf::pow", "wf::power::create"):
            return sp.Pow(to_sympy(args[0], env), to_sympy(args[1], env))
        if q == "wf::atan2":
            return sp.atan2(to_sympy(args[0], env), to_sympy(args[1], env))
        if q == "wf::multiplication::from_two_operands":
            return to_sympy(args[0], env) * to_sympy(args[1], env)
        if q in ("wf::multiplication::from_operands", "wf::addition::from_operands") and args[0].op == "list":
            xs = [to_sympy(x, env) for x in args[0].a]
            return sp.Mul(*xs) if "multiplication" in q else sp.Add(*xs)
        if q.startswith("wf::") and n in FN1 and len(args) == 1:
            return FN1[n](to_sympy(args[0], env))
    raise Unknown(t)


_PTS = [(sp.Rational(3, 7), sp.Rational(5, 11), sp.Rational(2, 13), sp.Rational(7, 17), sp.Rational(11, 19), sp.Rational(13, 23)),
        (sp.Rational(1, 5), sp.Rational(9, 13), sp.Rational(4, 7), sp.Rational(3, 19), sp.Rational(2, 3), sp.Rational(5, 29))]


def same(x, y, base=0):
    """identity of two closed formulas in the generic symbols they share"""
    d = sp.together(x - y)
    if d == 0:
        return True
    syms = sorted(d.free_symbols, key=lambda s: s.name)
    for pt in _PTS:
        v = d.subs({s: pt[i % len(pt)] + base + i // len(pt) for i, s in enumerate(syms)})
        try:
            n = complex(v.evalf(40))
        except Exception:
            n = None
        if n is None or abs(n) > 1e-25:
            return False
    return True
