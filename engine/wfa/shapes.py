"""Instances of every symbolic node kind, built through the repository's constructors from named symbols: which
symbols are sub-expressions, which are other content, and the list of constructor arguments."""
from .vg import *
from .nodes import build, ctors, sexpr, bexpr
from .program import AnalysisBroken

SCALAR, BOOL, MATRIX, COMPOUND = "wf::scalar_expr", "wf::boolean_expr", "wf::matrix_expr", "wf::compound_expr"
EXPR = (SCALAR, BOOL, MATRIX, COMPOUND)


class Inst:
    def __init__(self, rt, label, node, args, kids, content):
        self.rt, self.label, self.node, self.args, self.kids, self.content = rt, label, node, args, kids, content


def keyed(p, tmpl):
    """types with an explicit specialisation of wf::<tmpl> -> its call operator"""
    out = {}
    pre = "wf::%s<" % tmpl
    for f in p.fns.values():
        if f.rt and f.rt.startswith(pre) and f.q.endswith("::operator()") and f.body is not None:
            out[f.rt[len(pre):-1].rsplit(", void", 1)[0]] = f
    return out


NODES = ["addition", "boolean_constant", "built_in_function_invocation", "complex_infinity",
         "compound_expression_element", "conditional", "custom_type_argument", "custom_type_construction", "derivative",
         "external_function_invocation", "float_constant", "function_argument_variable", "imaginary_unit",
         "integer_constant", "iverson_bracket", "matrix", "multiplication", "power", "rational_constant", "relational",
         "stop_derivative", "substitution", "symbolic_constant", "symbolic_function_invocation", "undefined",
         "unevaluated", "unique_variable", "variable"]


def instances(p, rt, sizes=(2, 3), prefix="", mark=None):
    """all shapes of node kind rt; prefix distinguishes the symbols of two instances; mark(name) may rename a field"""
    cs = [c for c in ctors(p, rt) if not c.implicit and not (len(c.params) == 1 and "&&" in c.params[0]["t"])]
    nosort = [c for c in cs if c.params and "no_sort" in c.params[0]["t"]]
    if nosort:
        cs = nosort
    if rt == "wf::rational_constant":
        cs = [c for c in cs if len(c.params) == 2]
    out = []
    if not cs:
        return [Inst(rt, rt[4:], obj(rt, {}), [], [], [])]
    for ci, c in enumerate(cs):
        variants = [[]]
        for i, x in enumerate(c.params):
            t = bare(x["t"])
            n = prefix + (x["n"] or "p%d" % i)
            if sum(1 for y in c.params if y["n"] == x["n"]) > 1 or t == "wf::no_sort":
                n += str(i)
            opts = []
            if t in EXPR:
                opts = [(mk("sym", n, t), [mk("sym", n, t)])]
            elif "variant<wf::scalar_expr" in t:
                for k in sizes[:1]:
                    el = [mk("sym", "%s_%d" % (n, j), e) for j, e in enumerate((SCALAR, MATRIX, COMPOUND, BOOL))]
                    opts.append((mk("list", *el), el))
            elif "wf::scalar_expr" in t and ("Vector" in t or "vector" in t or "Span" in t):
                for k in sizes:
                    el = [mk("sym", "%s_%d" % (n, j), SCALAR) for j in range(k)]
                    opts.append((mk("list", *el), el))
            else:
                opts = [(mk("sym", n, t), [])]
            variants = [v + [(x, o)] for v in variants for o in opts]
        for v in variants:
            args = [o[0] for x, o in v]
            if rt == "wf::matrix":
                # a concrete shape for a concrete element list
                k = len(args[2].a)
                args[0], args[1] = C(1), C(k)
            kids = [y for x, o in v for y in o[1]]
            content = [o[0] for x, o in v if not o[1] and "no_sort" not in x["t"]]
            node = build(p, rt, args, lambda f: f is c)
            out.append(Inst(rt, "%s/%d%s" % (rt[4:], len(kids), "" if len(cs) == 1 else "." + str(ci)), node, args, kids, content))
    return out


def wrapper_of(p, rt):
    """the expression family (scalar_expr, ...) whose shared holder can store node kind rt, and the holder's model type"""
    for f in p.fns.values():
        if f.ctor and f.rt and f.rt.startswith("wf::expression_variant<") and f.rt.endswith("::model<%s>" % rt) and not f.implicit:
            meta = f.rt[len("wf::expression_variant<"):f.rt.index(">")]
            for w in EXPR:
                if meta == w.replace("_expr", "_meta_type"):
                    return w, f
    return None, None


_held = {}


def held(p, rt, node, tag):
    """an expression holding `node` (of kind rt) with the type index the holder's constructor stores"""
    w, c = wrapper_of(p, rt)
    if c is None:
        raise AnalysisBroken("no holder constructor for " + rt)
    key = (id(p), rt)
    if key not in _held:
        ev = Ev(p, {})
        s = ev.summarize(c, this=obj(c.rt, {}), args=[mk("sym", "h%d" % i, bare(x["t"])) for i, x in enumerate(c.params)])
        if s.this is None or s.this.op != "obj":
            raise AnalysisBroken("holder constructor of %s is not readable" % rt)
        _held[key] = dict(zip(s.this.a[1], s.this.a[2:]))
    d = dict(_held[key])
    for k in d:
        if "hash" in k:
            d[k] = mk("sym", tag + ".hash", "unsigned long")
        elif "index" not in k:
            d[k] = node
    base = c.rt[:c.rt.rindex("::model<")]
    pf = [x["n"] for x in p.rec(base)["fields"]]
    bs = [b for b in p.rec(w)["bases"] if "expression_base<" in b]
    fld = [x["n"] for x in (p.recs.get(bs[0], {}).get("fields") if bs else []) or []] or ["impl_"]
    return obj(w, {fld[0]: obj(base, {pf[0]: obj(c.rt, d)})})
