"""G02: every operand of a generated statement is emitted once, in its place.

(1) Every generator's handler for every kind of syntax element is evaluated on an element with opaque pieces; its text,
parsed by the target language's grammar, must be the statement the language requires with every piece in its role
(called names and type names are left to G01).  (2) Every operation of the value graph is carried through the conversion
to syntax elements on distinct operands; (3) aggregates, member accesses and output statements likewise."""
from wfa.program import load_core, AnalysisBroken
from wfa.vg import *
from wfa import ir
from wfa.emit import generators, en, scalar_type, matrix_type, impl, argument, contents, Rejected, Unread, external_function
from wfa.compose import Maker, Pipe, F, I, B
from wfa.gen import rendered
from wfa.target import callee_free, norm, fcall, lit, constant, py_cast, py_array, PY_MOD, CPP_T, RUST_T, parsed
from wfa.nodes import build
from wfa.lang import ParseError
from wfa.report import Check


def run(tier):
    ck = Check("G02", tier, __doc__)
    p = load_core()
    PROG[:] = [p]
    for o in rendered(p, ck, tier):
        if o.c.kind == "reject" or o.status == "unread":
            continue
        if o.status == "rejected":
            ck.bad("element", o.inst, o.where, "raises %s instead of emitting the element" % o.why)
            continue
        if o.status == "garbled":
            ck.bad("element", o.inst, o.where, "emits %r, which is not in the language: %s" % (o.shown(), o.why))
            continue
        t = callee_free(o.tree)
        ck.check(any(t == callee_free(a) for a in o.alts), "element", o.inst, o.where,
                 lambda: "emits %r where the language requires %s" % (o.shown(), o.wanted()))
    ck.require("element", 1000)
    gs = [g for g in generators(p, False) if g.label in ("cpp/eigen", "rust") or g.label.startswith("python/numpy/float64/ind")]
    for g in gs:
        operations(ck, p, g)
    aggregates(ck, p)
    ck.require("operation", 120)
    return ck.finish(p)


def expect(g, label, x):
    """texts of an operation over operand texts x"""
    k = label.split()[0].split("(")[0]
    if k in ("add", "mul"):
        return [(" + " if k == "add" else " * ").join(x)]
    if k == "neg":
        return ["-" + x[0]]
    if k == "div":
        return ["%s / %s" % tuple(x)]
    if k == "cond":
        return [{"cpp": "%s ? %s : %s", "rust": "if %s { %s } else { %s }", "py": PY_MOD.get(getattr(g, "target", ""), "") + ".where(%s, %s, %s)"}[g.lang] % tuple(x)]
    if k == "compare":
        return ["%s %s %s" % (x[0], {"less_than": "<", "less_than_or_equal": "<=", "equal": "=="}[label.split()[1]], x[1])]
    if k == "cast":
        t = label.split()[-1]
        return {"cpp": ["static_cast<%s>(%s)" % (CPP_T[t], x[0])], "rust": ["(%s) as %s" % (x[0], RUST_T[t])]}.get(g.lang) or py_cast(g, t, x[0])
    if k == "call":
        base = "%s(%s)" % (g.name("ext")[1], ", ".join(x))
        t = label.split()[-1]
        return [base] + ({"cpp": ["static_cast<%s>(%s)" % (CPP_T[t], base)], "rust": ["%s as %s" % (base, RUST_T[t])]}.get(g.lang) or [])
    return fcall(g, k, x)


def operations(ck, p, g):
    m, pi = Maker(p, g), Pipe(p, g)
    for pl, (ts, make) in m.parents().items():
        leaves = [m.var("x%d" % i, t) for i, t in enumerate(ts)]
        xs = [g.name("x%d" % i)[1] for i in range(len(ts))]
        inst = "%s: %s" % (g.label, pl)
        where = "components/core/wf/code_generation/ast_conversion.cc"
        try:
            e = pi.element(make(leaves))
            got = callee_free(norm(parsed(pi.text(e), "expr", g.lang)))
        except Rejected as x:
            ck.bad("operation", inst, where, "raises %s" % x)
            continue
        except (Unread, ParseError) as x:
            ck.notes.append("undecided: %s: %s" % (inst, x))
            continue
        al = expect(g, pl, xs)
        ck.check(any(got == callee_free(parsed(a, "expr", g.lang)) for a in al), "operation", inst, where,
                 lambda: "emits %r, expected %r" % (pi.text(e), al))
    ck.analysed(pi.inlined)


# ---- aggregates, on syntax elements -----------------------------------------------------------------
def getter(o, q, name):
    """what method `name` of o returns"""
    f = [x for x in PROG[0].method(q, name) if not x.params]
    if len(f) != 1:
        raise AnalysisBroken("%s::%s not found" % (q, name))
    v = Ev(PROG[0], {}).summarize(f[0], this=o).val
    if v is None:
        raise Unread("%s of %s" % (name, q))
    return v


PROG = []


def tree_of(e):
    """nested description of a syntax element: kind, then its parts by what they are"""
    ob = contents(e) if e.op == "obj" and e.a[0] != "wf::ast::construct_matrix" else e
    if ob is None or ob.op != "obj":
        raise Unread("element %s" % show(e, 3)[:100])
    k = ob.a[0].rsplit("::", 1)[-1]
    d = dict(zip(ob.a[1], ob.a[2:]))

    def strv(t):
        if t.op == "c":
            return t.a[0]
        if t.op == "str" and len(t.a) == 1:
            h = t.a[0]
            while isinstance(h, T) and h.op == "hole":
                h = h.a[0]
            return h.a[0] if isinstance(h, T) else h
        raise Unread("name %s" % show(t, 4)[:100])

    def num(t):
        if t.op == "c":
            return t.a[0]
        raise Unread("index %s" % show(t, 4)[:100])
    if k == "get_argument":
        return ("arg", strv(getter(d["arg"], "wf::argument", "name")))
    if k == "variable_ref":
        return ("var", strv(d["name"]))
    if k == "get_matrix_element":
        return ("elem", tree_of(d["arg"]), num(d["row"]), num(d["col"]))
    if k == "get_field":
        return ("field", tree_of(d["arg"]), strv(d["field"]))
    if k == "construct_matrix":
        return ("mat", tuple(tree_of(x) for x in items(d["args"])))
    if k == "construct_custom_type":
        out = []
        for x in items(d["field_values"]):
            parts = items(x)
            out.append((strv(parts[0]), tree_of(parts[1])))
        return ("new", type_name(d["type"]), tuple(out))
    if k == "return_object":
        return ("return", tree_of(d["value"]))
    if k.startswith("assign_output"):
        return (k, strv(getter(d["arg"], "wf::argument", "name")), tree_of(d["value"]))
    if k == "assign_temporary":
        return (k, strv(d["left"]), tree_of(d["right"]))
    if k == "declaration":
        return (k, strv(d["name"]), None if d["value"].op == "null" else tree_of(d["value"]))
    if k == "optional_output_branch":
        return (k, strv(getter(d["arg"], "wf::argument", "name")), tuple(tree_of(x) for x in items(d["statements"])))
    if k == "branch":
        return (k, tree_of(d["condition"]), tuple(tree_of(x) for x in items(d["if_branch"])), tuple(tree_of(x) for x in items(d["else_branch"])))
    raise Unread("element kind " + k)


def items(t):
    if t.op == "list":
        return list(t.a)
    if t.op == "obj":
        return list(t.a[2:])
    if t.op == "new":
        return list(t.a[1:])
    raise Unread("sequence %s" % show(t, 4)[:100])


def type_name(t):
    return getter(t, "wf::custom_type", "name").a[0]


def struct_type(p, name, fields):
    """custom type with known fields [(name, type)]"""
    fs = []
    rt = "wf::struct_field"
    for n, ty in fields:
        d = {}
        for f in p.rec(rt)["fields"]:
            d[f["n"]] = C(n) if "string" in f["t"] else ty if "variant" in f["t"] else mk("sym", f["n"], f["t"])
        fs.append(obj(rt, d))
    d = {"name": C(name), "fields": mk("list", *fs), "hash": mk("sym", "hash", "unsigned long"), "underlying_type": mk("sym", "ut_" + name, "")}
    return impl(p, "wf::custom_type", **d)


def layout(fields, base):
    """scalar elements of an aggregate, in order"""
    out = []
    for n, ty in fields:
        a = ("field", base, n)
        if ty[0] == "s":
            out.append(a)
        elif ty[0] == "m":
            out += [("elem", a, r, c) for r in range(ty[1]) for c in range(ty[2])]
        else:
            out += layout(ty[1], a)
    return out


def to_type(p, name, ty):
    if ty[0] == "s":
        return scalar_type(p, ty[1])
    if ty[0] == "m":
        return matrix_type(p, ty[1], ty[2])
    return struct_type(p, name, [(n, to_type(p, name + "_" + n, t)) for n, t in ty[1]])


LAYOUTS = {
    "scalars": ("c", [("a", ("s", F)), ("b", ("s", I)), ("c", ("s", F))]),
    "matrix first": ("c", [("m", ("m", 2, 3)), ("a", ("s", F))]),
    "nested": ("c", [("a", ("s", F)), ("in1", ("c", [("x", ("s", F)), ("m", ("m", 3, 2))])), ("z", ("s", F)), ("in2", ("c", [("y", ("s", F)), ("w", ("s", F))]))]),
}


def aggregates(ck, p):
    g = generators(p, False)[0]
    m, pi = Maker(p, g), Pipe(p, g)
    W = "components/core/wf/code_generation/ast_conversion.cc"

    def judge(group, inst, make, want):
        try:
            got = make()
        except Rejected as x:
            ck.bad(group, inst, W, "raises %s" % x)
            return
        except Unread as x:
            ck.notes.append("undecided: %s: %s" % (inst, x))
            return
        ck.check(got == want, group, inst, W, lambda: "produces %r, expected %r" % (got, want))

    def signature(args, ret=None):
        return build(p, "wf::ast::function_signature", [C("fn"), ret or NULL, mk("list", *args)])
    # member of a matrix or structure value
    for r, c in ((2, 3), (3, 2), (1, 4), (4, 1)):
        ty = matrix_type(p, r, c)
        x = m.load(sym_variable(p, g, "x"), ty)
        arg = argument(p, C("in0"), ty, "input", 0)
        for i in range(r * c):
            want = (i // c, i % c)
            v = m.val(m.op("get", C(i)), [x], F)
            judge("member", "element %d of %dx%d value" % (i, r, c), lambda: tree_of(pi.element(v)), ("elem", ("var", "x")) + want)
            fa = m.load(build(p, "wf::function_argument_variable", [C("in0"), ty, C(i)]), F)
            vis = ir.visitor(p, signature=signature([arg]))
            judge("argument", "element %d of %dx%d argument" % (i, r, c), lambda: tree_of(pi.element(fa, vis)), ("elem", ("arg", "in0")) + want)
        xs = [m.var("e%d" % i) for i in range(r * c)]
        v = m.val(m.op("construct", ty), xs, ty)
        judge("construct", "%dx%d matrix" % (r, c), lambda: tree_of(pi.element(v)), ("mat", tuple(("var", "e%d" % i) for i in range(r * c))))
    for nm, spec in LAYOUTS.items():
        ty = to_type(p, "T", spec)
        x = m.load(sym_variable(p, g, "x"), ty)
        arg = argument(p, C("in0"), ty, "input", 0)
        other = argument(p, C("in1"), scalar_type(p, F), "input", 1)
        for i, want in enumerate(layout(spec[1], ("var", "x"))):
            v = m.val(m.op("get", C(i)), [x], F)
            judge("member", "%s: element %d" % (nm, i), lambda: tree_of(pi.element(v)), want)
        for i, want in enumerate(layout(spec[1], ("arg", "in0"))):
            fa = m.load(build(p, "wf::function_argument_variable", [C("in0"), ty, C(i)]), F)
            vis = ir.visitor(p, signature=signature([other, arg]))
            judge("argument", "%s: element %d" % (nm, i), lambda: tree_of(pi.element(fa, vis)), want)
        count = [0]

        def want_new(name, t):
            if t[0] == "s":
                count[0] += 1
                return ("var", "e%d" % (count[0] - 1))
            if t[0] == "m":
                return ("mat", tuple(want_new("", ("s", F)) for _ in range(t[1] * t[2])))
            return ("new", name, tuple((n, want_new(name + "_" + n, q)) for n, q in t[1]))
        w = want_new("T", spec)
        xs = [m.var("e%d" % i) for i in range(count[0])]
        v = m.val(m.op("construct", ty), xs, ty)
        judge("construct", nm, lambda: tree_of(pi.element(v)), w)
    # scalar argument and whole-structure argument
    arg = argument(p, C("in0"), scalar_type(p, F), "input", 0)
    oth = argument(p, C("in1"), scalar_type(p, F), "input", 1)
    vis = ir.visitor(p, signature=signature([oth, arg]))
    fa = m.load(build(p, "wf::function_argument_variable", [C("in0"), scalar_type(p, F), C(0)]), F)
    judge("argument", "scalar", lambda: tree_of(pi.element(fa, vis)), ("arg", "in0"))
    ty = to_type(p, "T", LAYOUTS["scalars"])
    vis = ir.visitor(p, signature=signature([oth, argument(p, C("in0"), ty, "input", 1)]))
    ca = m.load(build(p, "wf::custom_type_argument", [C("in0"), ty]), ty)
    judge("argument", "structure", lambda: tree_of(pi.element(ca, vis)), ("arg", "in0"))
    v = m.val(m.op("copy"), [m.var("x0")], F)
    judge("construct", "copy", lambda: tree_of(pi.element(v)), ("var", "x0"))
    ck.analysed(pi.inlined)
    ck.require("member", 15)
    ck.require("argument", 15)
    ck.require("construct", 5)


def sym_variable(p, g, nm):
    return obj("wf::variable", {f["n"]: (g.name(nm)[0] if "string" in f["t"] else mk("sym", f["n"], f["t"])) for f in p.rec("wf::variable")["fields"]})
