"""The conversion of symbolic expressions to value-graph operations, evaluated one node at a time: each sub-expression
is a leaf value of a chosen numeric type, and the operations the conversion pushes become concrete value objects."""
from .vg import *
from . import vg
from . import ir
from .emit import en, scalar_type, matrix_type, Rejected, Unread
from .shapes import EXPR, NODES, held
from .nodes import build, variadic
from .program import AnalysisBroken
from . import algebra

IFV = "wf::ir_form_visitor"
NN = "wf::non_null<wf::ir::value *>"
DEEP = ("wf::integer_constant", "wf::rational_constant", "wf::float_constant", "wf::power", "wf::multiplication", "wf::addition")
NUM = ("boolean", "integral", "floating_point")


def strip(v):
    """the value object behind a non-null pointer"""
    while v.op == "obj" and v.a[0].startswith("wf::non_null<"):
        v = v.a[2]
    if v.op == "addr":
        v = v.a[0]
    return v


def fields(v):
    return dict(zip(v.a[1], v.a[2:])) if v.op == "obj" else {}


class Lower:
    def __init__(self, p):
        self.p = p
        vg.unseen_field = self.impl
        self.st = {t: scalar_type(p, t) for t in NUM}
        self.prims = dict(algebra.PRIMS)
        for q, n in algebra.ONE.items():
            self.prims[q] = lambda ev, st, fr, e, n=n: self.integer(n)
        self.prims["wf::scalar_expr::operator-"] = self.negated
        self.kid = {}      # expression term -> value object
        self.pushed = []
        self.asked = []
        self.inlined = set()
        self.deep = DEEP
        self.on_expr = None

    def impl(self, o):
        """the shared holder of a node: an expression handle is identified with the node it holds"""
        if o.a[0][4:] in NODES:
            return held(self.p, o.a[0], o, show(o)).a[2]
        return None

    def integer(self, n):
        return build(self.p, "wf::integer_constant", [build(self.p, "wf::checked_int", [C(n)])])

    def negated(self, ev, st, fr, e, fid, objlv, al):
        v = ev.read(st, objlv)
        if v.op == "obj" and v.a[0] == "wf::integer_constant":
            n = v
            while n.op == "obj":
                n = n.a[2]
            if n.op == "c":
                return self.integer(-n.a[0])
        return mk("call", "wf::scalar_expr::operator-", "", v)

    def rational(self, n, d):
        return build(self.p, "wf::rational_constant", [build(self.p, "wf::checked_int", [C(n)]), build(self.p, "wf::checked_int", [C(d)])])

    def leaf(self, e, ty):
        """sub-expression e becomes a leaf value of the given type"""
        t = self.st.get(ty, ty) if type(ty) is str else ty
        v = ir.value(self.p, ir.op(self.p, "load", variant_=mk("sym", "leaf:" + show(e), "wf::variable")), [], t)
        self.kid[e] = v
        return v

    def hook(self, ev, st, fr, f, o, al):
        last = f.q.split("<")[0].rsplit("::", 1)[-1]
        if last in ("push_operation", "create_operation"):
            xs = [ev.argval(st, a) for a in al]
            if last == "create_operation":
                xs = xs[2:]
            return self.make(ev, xs, f)
        if "::operator()" in f.q and f.rt == IFV and f.params and bare(f.params[0]["t"]) in EXPR:
            e = ev.argval(st, al[0])
            return self.convert(ev, st, e)
        if "::sort_expression" in f.q and al:
            return ev.argval(st, al[0])
        return None

    def convert(self, ev, st, e):
        e = ev.simp(st, e) if e.op == "ite" else e
        if e.op == "ite":
            return ite(e.a[0], self.convert(ev, st, e.a[1]), self.convert(ev, st, e.a[2]))
        self.asked.append((e, st.path))
        v = self.kid.get(e)
        if v is None and self.on_expr is not None:
            v = self.on_expr(e)
        if v is None and e.op == "obj" and e.a[0] in self.deep:
            v = self.nested(e)
        if v is None:
            raise Unread("conversion of %s" % show(e, 4)[:100])
        return ir.nn("wf::ir::value *", v)

    def nested(self, e):
        """a concrete sub-expression is converted by its own step"""
        p, a = self.pushed, self.asked
        v = self.run(self.handler(e.a[0]), [e])
        self.pushed, self.asked = p + self.pushed, a + self.asked
        self.kid[e] = strip(v)
        return self.kid[e]

    def make(self, ev, xs, f):
        o, ty, rest = xs[0], xs[1], xs[2:]
        if ty.op == "enum" and "numeric_primitive_type" in ty.a[0]:
            ty = self.st[ty.a[0].rsplit("::", 1)[-1]]
        elif ty.op in ("enum", "c", "ite", "call", "field", "sym") and not (ty.op == "sym" and "type" in str(ty.a[1:]) and "numeric" not in str(ty.a[1:])):
            nt = [t for t in NUM if show(ty).endswith(t)]
            if nt:
                ty = self.st[nt[0]]
            else:
                raise Unread("type %s of a pushed operation" % show(ty, 4)[:100])
        ops = []
        for r in rest:
            if r.op == "list":
                ops += [strip(x) for x in r.a]
            else:
                ops.append(strip(r))
        for x in ops:
            if x.op != "obj" or x.a[0] != ir.V:
                raise Unread("operand %s" % show(x, 4)[:100])
        v = ir.value(self.p, o, ops, ty)
        self.pushed.append(v)
        return ir.nn("wf::ir::value *", v)

    def this(self):
        d = {}
        for f in self.p.rec(IFV)["fields"]:
            d[f["n"]] = mk("sym", f["n"], f["t"])
            if "cached_casts" in f["n"]:
                d[f["n"]] = mk("list")
        return obj(IFV, d)

    def run(self, f, args, extra=None):
        """value object a handler produces, or None"""
        self.pushed, self.asked = [], []
        h = self.hook
        if extra is not None:
            def h(ev, st, fr, g, o, al):
                r = extra(ev, st, fr, g, o, al)
                return self.hook(ev, st, fr, g, o, al) if r is None else r
        ev = Ev(self.p, self.prims, hook=h, max_depth=200)
        s = ev.summarize(f, this=self.this(), args=args)
        self.inlined |= ev.inlined
        if any(e.guard is TRUE for e in s.throws):
            raise Rejected(show(s.throws[0].val)[:120])
        live = [e for e in s.throws if e.guard is not FALSE]
        if live:
            raise Unread("conditional error: %s" % show(live[0].guard, 5)[:120])
        return s.val

    def handler(self, kind):
        hs = [f for f in self.p.method(IFV, "operator()") if f.params and bare(f.params[0]["t"]) == kind]
        if len(hs) != 1:
            raise AnalysisBroken("ir_form_visitor has %d steps for %s" % (len(hs), kind))
        return hs[0]


# ---- reading values ---------------------------------------------------------------------------------
def parts(v):
    """(operation kind, operation object, operand values, type) of a value object"""
    v = strip(v)
    d = fields(v)
    if v.op != "obj" or v.a[0] != ir.V:
        raise Unread("value %s" % show(v, 4)[:100])
    o = d["op_"]
    ops = []
    for x in d["operands_"].a:
        ops.append(strip(fields(x)["operand_"]))
    return o.a[0].rsplit("::", 1)[-1], o, ops, d["type_"]


def numeric(ty):
    """numeric type name of a scalar type term, or None"""
    if ty.op == "obj" and ty.a[0] == "wf::scalar_type":
        x = ty.a[2]
        return x.a[0].rsplit("::", 1)[-1] if x.op == "enum" else None
    return None
