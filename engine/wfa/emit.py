"""Reads the text a code generator emits for one syntax element: the handler is evaluated on an element whose
children, names and literal values are opaque, so the result is a template with one hole per piece."""
from .vg import *
from . import vg
from .vg import PURE
from .nodes import build, ctors
from .program import AnalysisBroken

AE = "wf::ast::ast_element"


class Rejected(Exception):
    """the handler never returns: it raises"""


class Unread(Exception):
    """the handler's result is not a template"""


def holes_text(t, table):
    """string term -> text with private-use characters; table: term -> character"""
    if t.op == "c" and type(t.a[0]) is str:
        return t.a[0]
    if t.op != "str":
        t = mk("str", t)
    out = ""
    for x in t.a:
        if type(x) is str:
            out += x
            continue
        while x.op in ("hole", "fmt") and len(x.a) == 1:
            x = x.a[0]
        if x.op == "c":
            out += str(x.a[0])
            continue
        if x.op in ("ite", "map", "fold", "phi", "call") or x.op not in ("sym", "neg"):
            raise Unread("text piece %s" % show(x, 4)[:120])
        if x not in table:
            table[x] = chr(0xe000 + len(table))
        out += table[x]
    return out


def p_lines(ev, st, fr, e, n, objlv, al):
    """a comment's lines, for the content given as a list of lines"""
    c = field(ev.read(st, objlv), "content")
    return c if c.op == "list" else None


class Generator:
    def __init__(self, p, label, lang, cls, args):
        self.p, self.label, self.lang, self.cls = p, label, lang, cls
        if args is None:
            self.this = obj(cls, {})
        else:
            self.this = build(p, cls, args)
        self.table = {}
        self.memo, self.locs = {}, {}
        self.inlined = set()

    # ---- pieces
    def ch(self, t):
        """the character standing for an opaque piece"""
        if t not in self.table:
            self.table[t] = chr(0xe000 + len(self.table))
        return self.table[t]

    def name(self, n):
        """an opaque identifier: (term to put in the element, character in the text)"""
        t = mk("sym", n, "name")
        return mk("str", hole(t)), self.ch(t)

    def child(self, n):
        t = mk("sym", n, AE)
        return t, self.ch(t)

    def handlers(self, ty):
        return [f for f in self.p.method(self.cls, "operator()") if len(f.params) == 1 and bare(f.params[0]["t"]) == ty]

    def hook(self, ev, st, fr, g, objlv, al):
        if g.rt == self.cls and g.name == "operator()" and len(g.params) == 1 and bare(g.params[0]["t"]) == AE:
            v = ev.argval(st, al[0])
            if v.op == "sym":
                return mk("str", hole(v))
            c = contents(v)
            if c is not None:
                return self.term(c)
        if g.name == "make_view" and g.rt == self.cls or g.q == "wf::make_fmt_view":
            if g.q == "wf::make_fmt_view":
                al = al[1:]
            if len(al) == 1:
                v = ev.argval(st, al[0])
                if v.op == "sym" and v.a[1] == AE:
                    return mk("str", hole(v))
                c = contents(v)
                if c is not None:
                    return self.term(c)
                return ev.apply(st, fr, self.this, [("v", v)])
        return None

    def term(self, ob):
        """text of an element as a term"""
        if ob not in self.memo:
            try:
                self.memo[ob] = self._term(ob)
            except (Rejected, Unread) as x:
                self.memo[ob] = x
        r = self.memo[ob]
        if isinstance(r, Exception):
            raise r
        return r

    def render(self, ob):
        r = self.term(ob)
        self.where = self.locs.get(ob.a[0], "")
        return holes_text(r, self.table)

    def _term(self, ob):
        ty = ob.a[0]
        hs = self.handlers(ty)
        if len(hs) != 1:
            raise AnalysisBroken("%s has %d handlers for %s" % (self.cls, len(hs), ty))
        f = hs[0]
        self.locs[ty] = f.loc
        old, vg.SYMS = vg.SYMS, True
        try:
            ev = Ev(self.p, {"wf::ast::comment::split_lines": p_lines}, hook=self.hook)
            s = ev.summarize(f, this=self.this, args=[ob])
        finally:
            vg.SYMS = old
        self.inlined |= ev.inlined | {f.id}
        if s.throws and (s.val is None or s.val.op in ("void", "bottom", "unreachable") or any(x.guard is TRUE for x in s.throws)):
            raise Rejected(show(s.throws[0].val)[:160])
        if s.throws:
            raise Unread("conditional error %s" % show(s.throws[0].guard, 6)[:200])
        return s.val


def contents(e):
    """the element held by a type-erased element"""
    if not isinstance(e, T) or e.op != "obj":
        return None
    for k, v in zip(e.a[1], e.a[2:]):
        if k == "contents_":
            return v
        c = contents(v)
        if c is not None:
            return c
    return None


def generators(p, thorough=True):
    out = []

    def en(q, n):
        v = dict((a, b) for a, b in p.enum(q)["vals"])
        if n not in v:
            raise AnalysisBroken("%s has no enumerator %s" % (q, n))
        return enumc(q + "::" + n, v[n])
    for b in ("generic_span", "eigen"):
        out.append(Generator(p, "cpp/" + b, "cpp", "wf::cpp_code_generator", [en("wf::cpp_matrix_type_behavior", b)]))
    out.append(Generator(p, "rust", "rust", "wf::rust_code_generator", None))
    for t in ("numpy", "pytorch", "jax"):
        for w in ("float32", "float64"):
            for uo in (False, True):
                for ind in (2, 4):
                    if not thorough and (ind == 4) != (uo and t == "numpy"):
                        continue
                    g = Generator(p, "python/%s/%s%s/indent%d" % (t, w, "/out" if uo else "", ind), "py", "wf::python_code_generator",
                                  [en("wf::python_generator_target", t), en("wf::python_generator_float_width", w), C(ind), C(uo)])
                    g.target, g.width, g.use_out, g.ind = t, w, uo, ind
                    out.append(g)
    return out


# ---- elements -----------------------------------------------------------------------------------
def en(p, q, n):
    v = dict((a, b) for a, b in p.enum(q)["vals"])
    if n not in v:
        raise AnalysisBroken("%s has no enumerator %s" % (q, n))
    return enumc(q + "::" + n, v[n])


def scalar_type(p, n):
    return build(p, "wf::scalar_type", [en(p, "wf::numeric_primitive_type", n)])


def matrix_type(p, r, c):
    return build(p, "wf::matrix_type", [C(r), C(c)])


def impl(p, rt, **fields):
    """object of a reference-counted handle type, given its shared content"""
    f = [x for x in p.rec(rt)["fields"] if x["n"] == "impl_"]
    if len(f) != 1 or "non_null" not in f[0]["t"]:
        raise AnalysisBroken("%s is no longer a shared handle" % rt)
    return obj(rt, {"impl_": obj(bare(f[0]["t"]), {"ptr_": obj(rt + "::impl", fields)})})


def custom_type(p, name, fields=()):
    """a custom type of which only the name is known"""
    return impl(p, "wf::custom_type", name=name, fields=mk("list", *fields))


def argument(p, name, ty, direction, index):
    return build(p, "wf::argument", [name, ty, en(p, "wf::argument_direction", direction), C(index)])


def external_function(p, name, args, ret):
    return impl(p, "wf::external_function", name=name, arguments=mk("list", *args), return_type=ret)


def element(p, kind, **fields):
    rt = "wf::ast::" + kind
    names = [f["n"] for f in p.rec(rt)["fields"]]
    if set(fields) - set(names):
        raise AnalysisBroken("%s has no field %s" % (rt, ", ".join(sorted(set(fields) - set(names)))))
    if set(names) - set(fields):
        raise AnalysisBroken("%s has an unknown field %s" % (rt, ", ".join(sorted(set(names) - set(fields)))))
    return obj(rt, fields)


def ast_element(p, ob):
    """type-erased element holding `ob`"""
    m = [f for f in p.by_rt.get(AE, []) if f.ctor and f.params and f.ta and bare(f.ta[0]) == ob.a[0]]
    for f in sorted(m, key=lambda f: len(f.params)):
        s = Ev(p, {}).summarize(f, this=obj(AE, {}), args=[ob] + [mk("sym", "x%d" % i, x["t"]) for i, x in enumerate(f.params[1:])])
        out, n = put_contents(s.this, ob)
        if n == 1:
            return out
    raise AnalysisBroken("no ast_element constructor for " + ob.a[0])


def put_contents(t, ob):
    """replace the stored value inside the type-erasing wrapper"""
    if not isinstance(t, T) or t.op != "obj":
        return t, 0
    d, n = {}, 0
    for k, v in zip(t.a[1], t.a[2:]):
        if k == "contents_":
            d[k] = ob
            n += 1
        else:
            d[k], m = put_contents(v, ob)
            n += m
    return obj(t.a[0], d), n
