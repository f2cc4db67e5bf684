"""What each target language must say for each kind of syntax element: the expected text (with alternatives), written
from the languages' own rules, against which the text read out of the generators is compared as a parsed tree."""
from .vg import *
from . import emit
from .emit import element, argument, scalar_type, matrix_type, custom_type, external_function, ast_element, en
from .lang import parse_expr, parse_stmts, ParseError, tokens

DIRS = ("input", "output", "optional_output")
UNARY_FN = ["cos", "sin", "tan", "acos", "asin", "atan", "cosh", "sinh", "tanh", "acosh", "asinh", "atanh", "log", "exp", "sqrt", "abs"]
PY_FN = {"acos": "arccos", "asin": "arcsin", "atan": "arctan", "acosh": "arccosh", "asinh": "arcsinh", "atanh": "arctanh",
         "signum": "sign", "atan2": "arctan2", "powi": "power", "powf": "power"}
PY_ALT = {"acos": ["acos"], "asin": ["asin"], "atan": ["atan"], "acosh": ["acosh"], "asinh": ["asinh"], "atanh": ["atanh"],
          "atan2": ["atan2"], "powi": ["pow", "float_power"], "powf": ["pow", "float_power"], "abs": ["absolute"]}
# names each module really has
PY_HAS = {"numpy": {"power", "float_power", "pow", "arccos", "arcsin", "arctan", "arccosh", "arcsinh", "arctanh", "arctan2", "sign", "abs", "absolute",
                    "acos", "asin", "atan", "acosh", "asinh", "atanh", "atan2"},
          "pytorch": {"pow", "float_power", "arccos", "arcsin", "arctan", "arccosh", "arcsinh", "arctanh", "arctan2", "acos", "asin", "atan", "acosh",
                      "asinh", "atanh", "atan2", "sign", "abs", "absolute"},
          "jax": {"power", "float_power", "pow", "arccos", "arcsin", "arctan", "arccosh", "arcsinh", "arctanh", "arctan2", "sign", "abs", "absolute",
                  "acos", "asin", "atan", "acosh", "asinh", "atanh", "atan2"}}
PY_MOD = {"numpy": "np", "pytorch": "th", "jax": "jnp"}
PY_ARR = {"numpy": "np.ndarray", "pytorch": "th.Tensor", "jax": "jnp.ndarray"}
NUM = ("boolean", "integral", "floating_point")
CPP_T = {"boolean": "bool", "integral": "std::int64_t", "floating_point": "Scalar"}
RUST_T = {"boolean": "bool", "integral": "i64", "floating_point": "f64"}
PY_T = {"boolean": "bool", "integral": "int", "floating_point": "float"}


class Case:
    """kind: expr | stmt | tokens | reject"""

    def __init__(self, elem, label, ob, kind, alts, tag=()):
        self.elem, self.label, self.ob, self.kind, self.alts, self.tag = elem, label, ob, kind, alts, set(tag)


def py_dtype(g, t):
    return {"boolean": ["bool"], "integral": ["int32", "int64"], "floating_point": [g.width]}[t]


def py_cast(g, t, x):
    m = PY_MOD[g.target]
    out = []
    for d in py_dtype(g, t):
        if g.target == "pytorch":
            out.append("%s.asarray(%s, dtype=%s.%s)" % (m, x, m, d))
        else:
            out.append("%s.%s(%s)" % (m, d, x))
    return out


def py_array(g, xs, r, c):
    m = PY_MOD[g.target]
    return "%s.%s([%s]).reshape(%d, %d)" % (m, "stack" if g.target == "pytorch" else "array", ", ".join(xs), r, c)


def fcall(g, f, a):
    """expected texts of math function f applied to argument texts a"""
    if g.lang == "cpp":
        if f == "signum":
            return ["(static_cast<Scalar>(0) < %s) - (%s < static_cast<Scalar>(0))" % (a[0], a[0])]
        if f == "floor":
            return ["static_cast<std::int64_t>(std::floor(%s))" % a[0]]
        return ["std::%s(%s)" % ({"powi": "pow", "powf": "pow"}.get(f, f), ", ".join(a))]
    if g.lang == "rust":
        if f == "signum":
            return ["(0.0f64 < %s) as i64 - (%s < 0.0f64) as i64" % (a[0], a[0])]
        if f == "floor":
            return ["(%s).floor() as i64" % a[0]]
        if f == "powi":
            return ["(%s).powf((%s) as f64)" % (a[0], a[1]), "(%s).powi((%s) as i32)" % (a[0], a[1])]
        return ["(%s).%s(%s)" % (a[0], {"log": "ln"}.get(f, f), ", ".join(a[1:]))]
    names = [PY_FN.get(f, f)] + PY_ALT.get(f, [])
    has = PY_HAS[g.target]
    return ["%s.%s(%s)" % (PY_MOD[g.target], n, ", ".join(a)) for n in names if n in has or n == f]


def lit(g, what, v):
    if what == "float":
        return {"cpp": ["static_cast<Scalar>(%s)" % v, "Scalar(%s)" % v], "rust": ["%sf64" % v]}.get(g.lang) or \
            ([v] + py_cast(g, "floating_point", v) if g.target == "pytorch" else py_cast(g, "floating_point", v))
    if what == "int":
        return {"cpp": [v], "rust": ["%si64" % v], "py": [v]}[g.lang]
    if what == "bool":
        return {"cpp": [v], "rust": [v], "py": [v.capitalize()]}[g.lang]


def constant(g, n):
    if g.lang == "cpp":
        m = {"euler": ["M_E", "std::numbers::e"], "pi": ["M_PI", "std::numbers::pi"]}[n]
        return ["static_cast<Scalar>(%s)" % x for x in m]
    if g.lang == "rust":
        return ["std::f64::consts::%s" % {"euler": "E", "pi": "PI"}[n], "core::f64::consts::%s" % {"euler": "E", "pi": "PI"}[n]]
    c = "%s.%s" % (PY_MOD[g.target], {"euler": "e", "pi": "pi"}[n])
    return py_cast(g, "floating_point", c) + ([c] if g.target == "pytorch" else [])


def stmt(g, s):
    return s if g.lang == "py" else s + ";"


def lines(g, xs):
    return "\n".join(xs)


def block(g, xs, ind=2):
    i = " " * (g.ind if g.lang == "py" else 2)
    return "".join(i + x + "\n" for x in xs)


SHAPES = ((2, 3), (3, 2), (1, 1), (1, 4), (4, 1), (3, 3))
MORE_SHAPES = ((2, 2), (2, 5), (5, 2), (1, 7), (7, 1), (4, 4), (6, 3), (3, 6))


def cases(p, g, tier="quick"):
    """every element kind with opaque children"""
    L = g.lang
    deep = tier == "thorough"
    kids = {n: g.child(n) for n in "abcdefghijklmnopqrstuvwx"}
    T = {n: kids[n][0] for n in kids}
    X = {n: kids[n][1] for n in kids}
    nt, n = g.name("n")
    tt, t_ = g.name("T")
    span = g.label == "cpp/generic_span"
    CT = custom_type(p, tt)
    st = lambda t: scalar_type(p, t)
    M = matrix_type(p, 2, 3)
    F = "floating_point"
    ref = lambda nm: (ast_element(p, element(p, "variable_ref", name=g.name(nm)[0])), g.name(nm)[1])
    arg_of = lambda a: ast_element(p, element(p, "get_argument", arg=a))
    out = []

    def add(elem, label, ob, alts, kind="expr", tag=()):
        out.append(Case(elem, label, ob, kind, alts, tag))
    # -- operators
    for k, op in (("add", "+"), ("multiply", "*")):
        for m in (2, 3, 4, 5, 6, 9) if deep else (2, 3, 4, 5):
            ns = "abcdefghi"[:m]
            add(k, "%d operands" % m, element(p, k, args=mk("list", *[T[x] for x in ns])), [(" %s " % op).join(X[x] for x in ns)])
    add("divide", "left, right", element(p, "divide", left=T["a"], right=T["b"]), ["%s / %s" % (X["a"], X["b"])])
    add("negate", "operand", element(p, "negate", arg=T["a"]), ["-" + X["a"]])
    add("parenthetical", "contents", element(p, "parenthetical", contents=T["a"]), ["(%s)" % X["a"]])
    for o, s in (("less_than", "<"), ("less_than_or_equal", "<="), ("equal", "==")):
        add("compare", o, element(p, "compare", operation=en(p, "wf::relational_operation", o), left=T["a"], right=T["b"]),
            ["%s %s %s" % (X["a"], s, X["b"])] + (["%s %s %s" % (X["b"], {"<": ">", "<=": ">=", "==": "=="}[s], X["a"])]))
    add("ternary", "condition, left, right", element(p, "ternary", condition=T["a"], left=T["b"], right=T["c"]),
        {"cpp": ["%s ? %s : %s"], "rust": ["if %s { %s } else { %s }"], "py": ["%s.where(%%s, %%s, %%s)" % PY_MOD.get(getattr(g, "target", None), "")]}[L][0:1]
        and [{"cpp": "%s ? %s : %s", "rust": "if %s { %s } else { %s }", "py": PY_MOD.get(getattr(g, "target", ""), "") + ".where(%s, %s, %s)"}[L]
             % (X["a"], X["b"], X["c"])])
    for a in NUM:
        for b in NUM:
            if L == "rust" and b == "boolean":
                continue    # no such conversion is ever produced
            alts = {"cpp": ["static_cast<%s>(%s)" % (CPP_T[b], X["a"])], "rust": ["(%s) as %s" % (X["a"], RUST_T[b])]}.get(L) or py_cast(g, b, X["a"])
            add("cast", "%s to %s" % (a, b), element(p, "cast", destination_type=en(p, "wf::numeric_primitive_type", b),
                                                      source_type=en(p, "wf::numeric_primitive_type", a), arg=T["a"]), alts)
    # -- functions
    for f, v in p.enum("wf::std_math_function")["vals"]:
        m = 2 if f in ("atan2", "powi", "powf") else 1
        vs = [ref("v%s" % x) for x in "ab"[:m]]
        add("call_std_function", f, element(p, "call_std_function", function=en(p, "wf::std_math_function", f), args=mk("list", *[v_[0] for v_ in vs])),
            fcall(g, f, [v_[1] for v_ in vs]), tag=("fn",))
    # -- literals and constants
    v = mk("sym", "v", "long")
    add("integer_literal", "value", element(p, "integer_literal", value=v), lit(g, "int", g.ch(v)))
    v = mk("sym", "w", "double")
    add("float_literal", "value", element(p, "float_literal", value=v), lit(g, "float", g.ch(v)))
    for b in (True, False):
        add("boolean_literal", str(b), element(p, "boolean_literal", value=C(b)), lit(g, "bool", str(b).lower()))
    for c, _ in p.enum("wf::symbolic_constant_enum")["vals"]:
        add("special_constant", c, element(p, "special_constant", value=en(p, "wf::symbolic_constant_enum", c)), constant(g, c), tag=("fn",))
    # -- references
    add("variable_ref", "name", element(p, "variable_ref", name=nt), [n])
    for ty, tn in ((st(F), "scalar"), (M, "matrix"), (CT, "custom")):
        for d in DIRS:
            if d != "input":
                continue
            add("get_argument", tn, element(p, "get_argument", arg=argument(p, nt, ty, d, 3)), ["_" + n if span and tn == "matrix" else n], tag=("decl",))
    ft, f_ = g.name("fld")
    add("get_field", "object, field", element(p, "get_field", arg=T["a"], type=CT, field=ft), ["%s.%s" % (X["a"], f_)])
    rt, r_ = ref("var")
    acc = {"cpp": "%s(%d, %d)", "rust": "%s[(%d, %d)]", "py": "%s[%d, %d]"}[L]
    for (mr, mc), r, c in [((2, 3), 1, 2), ((2, 3), 0, 0), ((3, 2), 2, 1), ((4, 1), 3, 0), ((1, 4), 0, 3), ((1, 1), 0, 0), ((6, 6), 5, 2)]:
        Mi = matrix_type(p, mr, mc)
        at_ = " (%d, %d) of %dx%d" % (r, c, mr, mc) if (mr, mc, r) != (2, 3, 1) else ""
        add("get_matrix_element", "of a variable" + at_, element(p, "get_matrix_element", arg=rt, row=C(r), col=C(c)), [acc % (r_, r, c)])
        ga = arg_of(argument(p, nt, Mi, "input", 3))
        add("get_matrix_element", "of an argument" + at_, element(p, "get_matrix_element", arg=ga, row=C(r), col=C(c)),
            ["%s.get(%d, %d)" % (n, r, c)] if L == "rust" else [acc % ("_" + n if span else n, r, c)], tag=("decl",))
    # -- external functions
    aT = [argument(p, g.name("p%d" % i)[0], ty, "input", i) for i, ty in enumerate((st(F), M, CT, st("integral")))]
    rets = [(st(F), "real"), (st("integral"), "integer"), (st("boolean"), "boolean"), (M, "matrix"), (CT, "custom")]
    for ret, rn in rets:
        for names in ("real",), ("real", "matrix", "custom", "integer"):
            args = [ref("x%d" % i) for i in range(len(names))]
            xs = [("&" if L == "rust" and nm in ("matrix", "custom") else "") + a[1] for nm, a in zip(names, args)]
            base = "%s(%s)" % (n, ", ".join(xs))
            alts = [base]
            tn = {"real": F, "integer": "integral", "boolean": "boolean"}.get(rn)
            if tn and L == "cpp":
                alts.append("static_cast<%s>(%s)" % (CPP_T[tn], base))
            if tn and L == "rust":
                alts.append("%s as %s" % (base, RUST_T[tn]))
            if rn == "matrix" and L == "py":
                m = PY_MOD[g.target]
                alts = ["%s.asarray(%s, dtype=%s.%s).reshape(2, 3)" % (m, base, m, g.width)]
            add("call_external_function", "%s(%s)" % (rn, ", ".join(names)),
                element(p, "call_external_function", function=external_function(p, nt, aT[:len(names)], ret), args=mk("list", *[a[0] for a in args])), alts)
    if L == "rust":
        a0 = argument(p, g.name("q")[0], CT, "input", 0)
        add("call_external_function", "argument passed on", element(p, "call_external_function", function=external_function(p, nt, [aT[2]], st(F)),
                                                                   args=mk("list", arg_of(a0))),
            ["%s(%s)" % (n, g.name("q")[1]), "%s(%s) as f64" % (n, g.name("q")[1])])
    # -- aggregates
    mats = []
    for mr, mc in SHAPES + (MORE_SHAPES if deep else ()):
        ms = [g.child("m%d" % i) for i in range(mr * mc)]
        cm = element(p, "construct_matrix", type=matrix_type(p, mr, mc), args=mk("list", *[m[0] for m in ms]))
        mats.append((mr, mc, ms, cm))
        if g.label == "cpp/eigen":
            add("construct_matrix", "%dx%d" % (mr, mc), cm, ["(Eigen::Matrix<Scalar, %d, %d>() << %s).finished()" % (mr, mc, ", ".join(m[1] for m in ms))])
        elif L == "py":
            add("construct_matrix", "%dx%d" % (mr, mc), cm, [py_array(g, [m[1] for m in ms], mr, mc)])
        else:
            add("construct_matrix", "%dx%d" % (mr, mc), cm, [], "reject")
    for k in (1, 2, 3, 5, 8) if deep else (1, 2, 3, 5):
        fs = [g.name("f%d" % i) for i in range(k)]
        ns = "abcdefgh"[:k]
        cc = element(p, "construct_custom_type", type=CT, field_values=mk("list", *[mk("list", f[0], T[x]) for f, x in zip(fs, ns)]))
        body = {"cpp": "%s{%s}" % (t_, ", ".join(X[x] for x in ns)), "rust": "%s {%s}" % (t_, ", ".join("%s: %s" % (f[1], X[x]) for f, x in zip(fs, ns))),
                "py": "%s(%s)" % (t_, ", ".join("%s=%s" % (f[1], X[x]) for f, x in zip(fs, ns)))}[L]
        add("construct_custom_type", "%d fields" % k, cc, [body])
        if k == 2:
            cc2, cc2_ = cc, body
    # -- statements
    add("assign_temporary", "left, right", element(p, "assign_temporary", left=nt, right=T["a"]), [stmt(g, "%s = %s" % (n, X["a"]))], "stmt")
    for d in DIRS[1:]:
        opt = d == "optional_output"
        for sty in NUM:
            star = {"cpp": "*" if opt else "", "rust": "*", "py": ""}[L]
            add("assign_output_scalar", "%s %s" % (d, sty), element(p, "assign_output_scalar", arg=argument(p, nt, st(sty), d, 3), value=T["a"]),
                [stmt(g, "%s%s = %s" % (star, n, X["a"]))], "stmt", tag=("out",))
        add("assign_output_struct", d, element(p, "assign_output_struct", arg=argument(p, nt, CT, d, 3), value=cc2),
            [stmt(g, "%s%s = %s" % (star, n, cc2_))], "stmt", tag=("out",))
        for mr, mc, ms, cm in mats:
            if L == "cpp":
                tgt = "_%s(%d, %d)" if span else ("%s->operator()(%d, %d)" if opt else "%s(%d, %d)")
                alts = ["\n".join(tgt % (n, i // mc, i % mc) + " = %s;" % ms[i][1] for i in range(mr * mc))]
            elif L == "rust":
                alts = ["\n".join("%s.set(%d, %d, %s);" % (n, i // mc, i % mc, ms[i][1]) for i in range(mr * mc))]
            else:
                arr = py_array(g, [m[1] for m in ms], mr, mc)
                alts = ["%s.reshape(%d, %d)[:] = %s" % (n, mr, mc, arr), "%s[:] = %s" % (n, arr)][:1] if g.use_out else ["%s = %s" % (n, arr)]
            add("assign_output_matrix", d + (" %dx%d" % (mr, mc) if (mr, mc) != (2, 3) else ""),
                element(p, "assign_output_matrix", arg=argument(p, nt, matrix_type(p, mr, mc), d, 3), value=cm), alts, "stmt", tag=("out",))
    for na, nb in ((1, 0), (2, 0), (5, 0), (1, 1), (2, 1), (1, 2), (2, 3), (1, 6), (6, 1), (5, 5)) + (((1, 11), (11, 1), (9, 0)) if deep else ()):
        A, B = "bcdefghijkl"[:na], "mnopqrstuvw"[:nb]
        if L == "py":
            s = "if %s:\n%s" % (X["a"], block(g, [X[x] for x in A])) + ("else:\n" + block(g, [X[x] for x in B]) if nb else "")
        else:
            s = ("if (%s) {\n" if L == "cpp" else "if %s {\n") % X["a"] + block(g, [X[x] for x in A]) + "}" + (" else {\n" + block(g, [X[x] for x in B]) + "}" if nb else "")
        add("branch", "%d+%d statements" % (na, nb), element(p, "branch", condition=T["a"], if_branch=mk("list", *[T[x] for x in A]),
                                                            else_branch=mk("list", *[T[x] for x in B])), [s], "stmt")
    for ty, tn in ((st("boolean"), "boolean"), (st("integral"), "integral"), (st(F), F), (CT, "custom"), (M, "matrix")):
        cpp = CPP_T.get(tn, t_ if tn == "custom" else "Eigen::Matrix<Scalar, 2, 3>")
        rs = RUST_T.get(tn, t_)
        for val in (True, False):
            ob = element(p, "declaration", name=nt, type=ty, value=T["a"] if val else NULL)
            if tn == "matrix" and (span or L == "rust"):
                add("declaration", "%s%s" % (tn, " with value" if val else ""), ob, [], "reject")
                continue
            if L == "cpp":
                alts = ["const %s %s = %s;" % (cpp, n, X["a"])] if val else ["%s %s;" % (cpp, n)]
            elif L == "rust":
                alts = ["let %s: %s = %s;" % (n, rs, X["a"])] if val else ["let %s: %s;" % (n, rs)]
            else:
                alts = ["%s = %s" % (n, X["a"])] if val else ["%s = None" % n]
            add("declaration", "%s%s" % (tn, " with value" if val else ""), ob, alts, "stmt")
    for ty, tn in ((st(F), "scalar"), (CT, "custom"), (M, "matrix")):
        ob = element(p, "optional_output_branch", arg=argument(p, nt, ty, "optional_output", 3), statements=mk("list", T["a"], T["b"]))
        body = block(g, [X["a"], X["b"]])
        if L == "cpp":
            alts = ["if (static_cast<bool>(%s%s)) {\n%s}" % ("_" if span and tn == "matrix" else "", n, body)]
            if not (span and tn == "matrix"):
                alts += ["if (%s) {\n%s}" % (n, body), "if (%s != nullptr) {\n%s}" % (n, body)]
        elif L == "rust":
            alts = ["if let Some(%s) = %s {\n%s}" % (n, n, body)]
        elif g.use_out:
            alts = ["if %s is not None:\n%s%s" % (n, (" " * g.ind + "assert x\n") if tn == "matrix" else "", body)]
        else:
            alts = ["if compute_%s:\n%selse:\n%s%s = None" % (n, body, " " * g.ind, n)]
        add("optional_output_branch", tn, ob, alts, "stmt", tag=("out",))
    if L == "py":
        add("return_object", "value", element(p, "return_object", value=T["a"]), [], "reject")
    else:
        add("return_object", "value", element(p, "return_object", value=T["a"]), ["return %s;" % X["a"]] if L == "cpp" else [X["a"], "return %s;" % X["a"]], "stmt" if L == "cpp" else "return")
    l2, l3 = g.name("line0"), g.name("line1")
    add("comment", "2 lines", element(p, "comment", content=mk("list", l2[0], l3[0])), [("# %s\n# %s" if L == "py" else "// %s\n// %s\n") % (l2[1], l3[1])], "comment")
    return out


# ---- trees --------------------------------------------------------------------------------------
CMPFLIP = {">": "<", ">=": "<="}


def norm(t):
    """drop differences of spelling that never change meaning"""
    if type(t) is not tuple:
        return t
    t = tuple(norm(x) for x in t)
    if t and t[0] == "bin" and t[1] in CMPFLIP:
        return ("bin", CMPFLIP[t[1]], t[3], t[2])
    if t and t[0] == "bin" and t[1] == "==" and repr(t[2]) > repr(t[3]):
        return ("bin", "==", t[3], t[2])
    if t and t[0] == "num":
        v = t[1]
        for s in ("f64", "i64"):
            if v.endswith(s):
                return ("num", v[:-3], s)
        return t
    if t and t[0] == "assert":
        return ("assert",)
    return t


def flatten(t):
    """a + (b + c) and (a + b) + c differ only in rounding; written order is kept"""
    return t


def parsed(text, kind, lang):
    if kind == "comment":
        pre = "#" if lang == "py" else "//"
        out = []
        for l in text.split("\n"):
            l = l.strip()
            if not l:
                continue
            if not l.startswith(pre):
                raise ParseError("text %r outside the comment" % l)
            out.append(l[len(pre):].strip())
        return tuple(out)
    if kind == "expr":
        return norm(parse_expr(text, lang))
    if kind == "return":
        s = parse_stmts(text, lang)
        return norm(s)
    return norm(parse_stmts(text, lang))


def callee_free(t):
    """the tree with every called name and type name forgotten"""
    if type(t) is not tuple or not t:
        return t
    if t[0] == "call":
        if t[1][0] == "member" and not (t[1][1][0] == "name" and t[1][1][1] in ("np", "th", "jnp")):
            return ("F", callee_free(t[1][1])) + tuple(callee_free(x) for x in t[2:])
        return ("F",) + tuple(callee_free(x) for x in t[2:])
    if t[0] == "cast":
        return ("cast", "T", callee_free(t[2]))
    return tuple(callee_free(x) for x in t)
