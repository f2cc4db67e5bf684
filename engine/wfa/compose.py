"""Operations of the value graph over chosen operands, carried through the real conversion to syntax elements and the
real generators to text, and parsed back."""
from .vg import *
from . import vg, emit, ir
from .emit import en, scalar_type, matrix_type, custom_type, element, ast_element, argument, external_function, AE, contents, holes_text, Rejected, Unread
from .nodes import build
from .target import norm
from .lang import parse_expr, ParseError
from .program import AnalysisBroken

F, I, B = "floating_point", "integral", "boolean"


class Maker:
    def __init__(self, p, g):
        self.p, self.g = p, g
        self.st = {t: scalar_type(p, t) for t in (F, I, B)}
        self.mat = matrix_type(p, 2, 3)
        self.custom = custom_type(p, g.name("Custom")[0])
        self.n = 0

    def op(self, name, *args):
        rt = "wf::ir::" + name
        if not args and not self.p.rec(rt)["fields"]:
            return obj(rt, {})
        return build(self.p, rt, list(args))

    def val(self, o, operands, ty):
        return ir.value(self.p, o, operands, self.st.get(ty, ty) if type(ty) is str else ty)

    def lit(self, kind, *v):
        if kind in ("integer_constant", "rational_constant"):
            want = lambda c: "checked_int" in c.params[0]["t"] and "pair" not in c.params[0]["t"]
            v = [build(self.p, "wf::checked_int", [x], lambda c: bare(c.params[0]["t"]) in ("int", "long")) for x in v]
            return build(self.p, "wf::" + kind, v, want)
        return build(self.p, "wf::" + kind, list(v))

    def load(self, content, ty):
        rt = "wf::ir::load"
        f = self.p.rec(rt)["fields"]
        if len(f) != 1:
            raise AnalysisBroken("ir::load has %d fields" % len(f))
        return self.val(obj(rt, {f[0]["n"]: content}), [], ty)

    def var(self, nm, ty=F):
        """leaf: a value written as the plain identifier nm"""
        vt = obj("wf::variable", {f["n"]: (self.g.name(nm)[0] if "string" in f["t"] else mk("sym", f["n"], f["t"]))
                                  for f in self.p.rec("wf::variable")["fields"]})
        return self.load(vt, ty)

    # ---- parents: label -> (operand types, make(operands))
    def parents(self):
        p, v = self.p, self.val
        out = {}
        for t in (F, I):
            for k in ("add", "mul"):
                for n in (2, 3):
                    out["%s %s/%d" % (k, t, n)] = ([t] * n, lambda xs, k=k, t=t: v(self.op(k), xs, t))
            out["neg " + t] = ([t], lambda xs, t=t: v(self.op("neg"), xs, t))
            out["cond " + t] = ([B, t, t], lambda xs, t=t: v(self.op("cond"), xs, t))
            out["abs " + t] = ([t], lambda xs, t=t: v(self.op("call_std_function", en(p, "wf::std_math_function", "abs")), xs, t))
        out["div"] = ([F, F], lambda xs: v(self.op("div"), xs, F))
        for r, _ in p.enum("wf::relational_operation")["vals"]:
            for t in (F, I, B) if r == "equal" else (F, I):
                out["compare %s %s" % (r, t)] = ([t, t], lambda xs, r=r: v(self.op("compare", en(p, "wf::relational_operation", r)), xs, B))
        for f, _ in p.enum("wf::std_math_function")["vals"]:
            if f == "abs":
                continue
            ts = {"atan2": [F, F], "powi": [F, I], "powf": [F, F]}.get(f, [F])
            rt = I if f in ("signum", "floor") else F
            out[f] = (ts, lambda xs, f=f, rt=rt: v(self.op("call_std_function", en(p, "wf::std_math_function", f)), xs, rt))
        for a, b in ((B, I), (B, F), (I, F), (F, I)):
            out["cast %s to %s" % (a, b)] = ([a], lambda xs, b=b: v(self.op("cast", en(p, "wf::numeric_primitive_type", b)), xs, b))
        for ts in ([F], [I], [B], [F, I, F]):
            args = [argument(p, self.g.name("p%d" % i)[0], self.st[t], "input", i) for i, t in enumerate(ts)]
            for rt in (F, I, B):
                fn = external_function(p, self.g.name("ext")[0], args, self.st[rt])
                out["call(%s) %s" % (",".join(ts), rt)] = (ts, lambda xs, fn=fn, rt=rt: v(self.op("call_external_function", fn), xs, rt))
        return out

    def result_type(self, label):
        """numeric type a parent produces"""
        return None

    # ---- children: label -> (type, value)
    def children(self):
        p, v = self.p, self.val
        a, b, c = (lambda t: self.var("a", t)), (lambda t: self.var("b", t)), (lambda t: self.var("c", t))
        out = {}
        for t in (F, I):
            for k in ("add", "mul"):
                out["%s %s" % (k, t)] = (t, v(self.op(k), [a(t), b(t)], t))
            out["neg " + t] = (t, v(self.op("neg"), [a(t)], t))
            out["cond " + t] = (t, v(self.op("cond"), [self.var("q", B), a(t), b(t)], t))
            out["abs " + t] = (t, v(self.op("call_std_function", en(p, "wf::std_math_function", "abs")), [a(t)], t))
        out["div"] = (F, v(self.op("div"), [a(F), b(F)], F))
        for r, _ in p.enum("wf::relational_operation")["vals"]:
            out["compare " + r] = (B, v(self.op("compare", en(p, "wf::relational_operation", r)), [a(F), b(F)], B))
        for f, _ in p.enum("wf::std_math_function")["vals"]:
            if f != "abs":
                xs = {"atan2": [a(F), b(F)], "powi": [a(F), b(I)], "powf": [a(F), b(F)]}.get(f, [a(F)])
                rt = I if f in ("signum", "floor") else F
                out[f] = (rt, v(self.op("call_std_function", en(p, "wf::std_math_function", f)), xs, rt))
        for s, d in ((B, I), (B, F), (I, F), (F, I)):
            out["cast %s to %s" % (s, d)] = (d, v(self.op("cast", en(p, "wf::numeric_primitive_type", d)), [a(s)], d))
            # a cast of a compound operand: the operand's grouping inside the cast is one more layer
            inner = v(self.op("neg"), [a(s)], s) if s != B else v(self.op("compare", en(p, "wf::relational_operation", "less_than")), [a(F), b(F)], B)
            out["cast of nested %s to %s" % (s, d)] = (d, v(self.op("cast", en(p, "wf::numeric_primitive_type", d)), [inner], d))
        for x in (3, -3):
            out["integer %d" % x] = (I, self.load(self.lit("integer_constant", C(x)), I))
        for x in (2.5, -2.5):
            out["float %s" % x] = (F, self.load(self.lit("float_constant", C(x)), F))
        for n in (1, -1):
            out["rational %d/2" % n] = (F, self.load(self.lit("rational_constant", C(n), C(2)), F))
        for n, _ in p.enum("wf::symbolic_constant_enum")["vals"]:
            out["constant " + n] = (F, self.load(self.lit("symbolic_constant", en(p, "wf::symbolic_constant_enum", n)), F))
        args = [argument(p, self.g.name("p0")[0], self.st[F], "input", 0)]
        for rt in (F, I, B):
            fn = external_function(p, self.g.name("ext")[0], args, self.st[rt])
            out["call " + rt] = (rt, v(self.op("call_external_function", fn), [a(F)], rt))
        return out


class Pipe:
    """value -> syntax element -> text -> tree"""

    def __init__(self, p, g):
        self.p, self.g = p, g
        self.vis = ir.visitor(p)
        fs = [x for x in p.method(ir.VIS, "visit_value") if bare(x.params[0]["t"]) == "wf::ir::value"]
        if len(fs) != 1:
            raise AnalysisBroken("ast_form_visitor::visit_value not found")
        self.f = fs[0]
        self.inlined = set()
        self.memo = {}
        self.etext = {}

    def element(self, v, vis=None):
        k = (v, vis)
        if k in self.memo:
            return self.memo[k]
        ev = Ev(self.p, {}, max_depth=500, max_rec=14)
        s = ev.summarize(self.f, this=vis or self.vis, args=[v])
        self.inlined |= ev.inlined
        if s.val is None or s.throws:
            if s.throws and any(x.guard is TRUE for x in s.throws):
                raise Rejected(show(s.throws[0].val)[:120])
            if s.throws:
                raise Unread("conditional error in the conversion: %s" % show(s.throws[0].guard, 5)[:160])
            raise Unread("no element")
        self.memo[k] = s.val
        return s.val

    def text(self, e):
        """text of a type-erased element"""
        if e not in self.etext:
            self.etext[e] = self._text(e)
        return self.etext[e]

    def _text(self, e):
        ob = contents(e)
        if ob is None:
            raise Unread("element %s" % show(e, 4)[:120])
        return self.g.render(ob)

    def tree(self, v, vis=None):
        return norm(parse_expr(self.text(self.element(v, vis)), self.g.lang))


def subst(t, m):
    if type(t) is not tuple:
        return t
    if t in m:
        return m[t]
    return tuple(subst(x, m) for x in t)
