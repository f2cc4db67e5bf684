"""Matrices of symbolic elements: concrete shapes, elements that are independent indeterminates.

Element formulas are compared as rational functions by their exact values at generic rational points."""
import hashlib
from fractions import Fraction
from .vg import *
from .vg import PURE
from . import algebra
from .algebra import Unknown
from .nodes import build, ctors
from .spans import SPAN_PRIMS, span_hook

M = "wf::matrix"
SCALAR_OPS = ("wf::operator+", "wf::operator-", "wf::operator*", "wf::operator/", "wf::where")
ZERO = mk("glob", "wf::constants::zero")
ONE = mk("glob", "wf::constants::one")


class Undefined(Exception):
    pass


def pseudo(*a):
    h = hashlib.sha256(repr(a).encode()).digest()
    return Fraction(int.from_bytes(h[:4], "big") % 9973 + 7, int.from_bytes(h[4:8], "big") % 97 + 3)


class Point:
    """exact value of an element term at a generic point"""

    def __init__(self, seed):
        self.seed = seed
        self.memo = {}

    def __call__(self, t):
        if t in self.memo:
            return self.memo[t]
        r = self.memo[t] = self.value(t)
        return r

    def fn(self, name, *xs):
        return pseudo(self.seed, name, *xs)

    def value(self, t):
        if t.op == "sym":
            return self.fn("sym", t.a[0])
        if t.op == "c" and type(t.a[0]) in (int, float):
            return Fraction(t.a[0])
        if t.op == "glob":
            if t.a[0] in algebra.ONE:
                return Fraction(algebra.ONE[t.a[0]])
            return self.fn("glob", t.a[0])
        if t.op == "ite":
            return self(t.a[1] if self.truth(t.a[0]) else t.a[2])
        if t.op == "call":
            q, args = t.a[0], t.a[2:]
            n = q.rsplit("::", 1)[-1]
            if q in ("wf::scalar_expr::from_int", "wf::scalar_expr::from_float"):
                return self(args[0])
            if n == "operator-" and len(args) == 1:
                return -self(args[0])
            if n in ("operator+", "operator-", "operator*", "operator/") and len(args) == 2:
                x, y = self(args[0]), self(args[1])
                if n == "operator/" and y == 0:
                    raise Undefined(t)
                return x + y if n == "operator+" else x - y if n == "operator-" else x * y if n == "operator*" else x / y
            if q in ("wf::pow", "wf::power::create") and len(args) == 2:
                x, y = self(args[0]), self(args[1])
                if y.denominator == 1 and abs(y) < 20 and (x != 0 or y > 0):
                    return x ** int(y)
                return self.fn("pow", x, y)
            if q == "wf::multiplication::from_two_operands":
                return self(args[0]) * self(args[1])
            if q in ("wf::multiplication::from_operands", "wf::addition::from_operands"):
                r = Fraction(1 if "multiplication" in q else 0)
                for x in self.items(args[0]):
                    r = r * self(x) if "multiplication" in q else r + self(x)
                return r
            vs = []
            for x in args:
                try:
                    vs.append(self(x))
                except Unknown:
                    vs.append(show(x))
            return self.fn("call", q, *vs)
        if t.op == "bin" and t.a[0] in ("+", "*", "-"):
            xs = [self(x) for x in t.a[1:]]
            r = xs[0]
            for x in xs[1:]:
                r = r + x if t.a[0] == "+" else r * x if t.a[0] == "*" else r - x
            return r
        if t.op == "neg":
            return -self(t.a[0])
        if t.op in ("obj", "new") and len(t.a) in (2, 3) and hasattr(t.a[-1], "op"):
            return self(t.a[-1])
        if t.op == "field" and t.a[1] in ("value", "value_", "val_"):
            return self(t.a[0])
        raise Unknown(t)

    def items(self, t):
        if t.op == "ite":
            return self.items(t.a[1] if self.truth(t.a[0]) else t.a[2])
        if t.op == "list":
            return list(t.a)
        if t.op == "push":
            return self.items(t.a[0]) + [t.a[1]]
        if t.op == "cat":
            return [y for x in t.a for y in self.items(x)]
        if t.op == "obj" and len(t.a) == 3:
            return self.items(t.a[2])
        raise Unknown(t)

    def truth(self, c):
        if c is TRUE or c is FALSE:
            return c is TRUE
        if c.op == "not":
            return not self.truth(c.a[0])
        if c.op in ("and", "or"):
            return (all if c.op == "and" else any)(self.truth(x) for x in c.a)
        if c.op == "eq":
            return self(c.a[0]) == self(c.a[1])
        if c.op == "lt":
            return self(c.a[0]) < self(c.a[1])
        if c.op == "call" and c.a[0].rsplit("::", 1)[-1] in ("is_zero", "is_one", "is_negative_one"):
            k = {"is_zero": 0, "is_one": 1, "is_negative_one": -1}[c.a[0].rsplit("::", 1)[-1]]
            return self(c.a[2]) == k
        raise Unknown(c)


P1, P2 = Point(1), Point(2)


def same(x, y):
    if x is y:
        return True
    return P1(x) == P1(y) and P2(x) == P2(y)


def p_is_zero(ev, st, fr, e, fid, objlv, al):
    v = ev.argval(st, al[0])
    try:
        return TRUE if P1(v) == 0 and P2(v) == 0 else FALSE
    except (Unknown, Undefined):
        return mk("call", "wf::is_zero", "", v)


PRIMS = dict(algebra.PRIMS, **SPAN_PRIMS)
for _o in "+-*/":
    PRIMS.pop("wf::operator" + _o)
PRIMS.pop("wf::where")
PRIMS["wf::is_zero"] = p_is_zero


def dims(s):
    return s.a[1]


def hook(ev, st, fr, f, objlv, al):
    if f.q in SCALAR_OPS and bare(f.ret) == "wf::scalar_expr":
        return mk("call", f.q, "", *[ev.argval(st, a) for a in al])
    if f.q.startswith("wf::span<") and objlv is not None and f.name in ("rows", "cols", "size", "dimension", "block", "stride"):
        s = ev.read(st, objlv)
        if s.op == "wfspan" and s.a[1].op == "list" and len(s.a[1].a) == 2:
            if f.name in ("rows", "cols"):
                return s.a[1].a[0 if f.name == "rows" else 1]
            if f.name in ("dimension", "stride") and len(al) == 1:
                i = ev.argval(st, al[0])
                if isnum(i):
                    return s.a[1 if f.name == "dimension" else 2].a[i.a[0]]
            if f.name == "block" and len(al) == 2:
                off, size = ev.argval(st, al[0]), ev.argval(st, al[1])
                if off.op == "list" and size.op == "list":
                    k = s.a[3] if len(s.a) > 3 else C(0)
                    for o, d in zip(off.a, s.a[2].a):
                        k = arith("+", k, arith("*", o, d))
                    return mk("wfspan", s.a[0], size, s.a[2], k)
    if f.q.startswith("wf::span<") and f.name == "operator()" and objlv is not None:
        s = ev.read(st, objlv)
        if s.op == "wfspan" and s.a[2].op == "list" and len(s.a[2].a) == len(al):
            idx = [ev.argval(st, a) for a in al]
            for i, n in zip(idx, s.a[1].a):
                if isnum(i) and isnum(n) and not 0 <= i.a[0] < n.a[0]:
                    ev.outside = getattr(ev, "outside", []) + [(f.q, [show(x) for x in idx], [show(x) for x in s.a[1].a])]
            k = s.a[3] if len(s.a) > 3 else C(0)
            for d, i in zip(s.a[2].a, idx):
                k = arith("+", k, arith("*", d, i))
            lv = s.a[0]
            return mk("lvref", (lv[0], lv[1] + (("i", k),)))
    return None


class Result:
    """outcome of one operation: a value or the kinds of error raised"""

    def __init__(self, s, ev):
        self.val = s.val
        self.errors = []
        self.unread = None
        self.outside = getattr(ev, "outside", [])
        for t in s.throws:
            try:
                if P1.truth(t.guard):
                    v = t.val
                    self.errors.append(v.a[0].rsplit("::", 1)[-1] if v is not None and v.op == "thrown" else str(t.kind))
            except (Unknown, Undefined) as e:
                self.unread = "guard " + show(t.guard)[:100]
        if self.errors:
            self.unread = None


class Matrices:
    def __init__(self, p, prims=None):
        self.p = p
        self.prims = dict(PRIMS, **(prims or {}))
        self.inlined = set()

    def mat(self, rows):
        r, c = len(rows), len(rows[0]) if rows else 0
        return self.shaped(r, c, [x for row in rows for x in row])

    def shaped(self, r, c, xs):
        return build(self.p, M, [C(r), C(c), mk("list", *xs)], prims=self.prims)

    def sym(self, n, r, c):
        return self.shaped(r, c, [self.el(n, i, j) for i in range(r) for j in range(c)])

    @staticmethod
    def el(n, i, j=None):
        return mk("sym", "%s%d%s" % (n, i, "" if j is None else "_%d" % j), "wf::scalar_expr")

    def run(self, f, this=None, args=()):
        ev = Ev(self.p, self.prims, hook=hook, max_rec=12)
        s = ev.summarize(f, this=this, args=list(args))
        self.inlined |= ev.inlined
        return Result(s, ev)

    def read(self, t):
        """(rows, cols, elements) of a matrix term"""
        while t.op == "ite":
            t = t.a[1] if P1.truth(t.a[0]) else t.a[2]
        if t.op == "new":
            return self.read(t.a[-1])
        if t.op != "obj" or t.a[0] != M:
            raise Unknown(t)
        probe = build(self.p, M, [C(2), C(3), mk("list", *[mk("sym", "z", "")] * 6)], prims=self.prims)
        pos = {}
        for n, v in zip(probe.a[1], probe.a[2:]):
            pos["r" if v is C(2) else "c" if v is C(3) else "d" if v.op == "list" else n] = n
        f = dict(zip(t.a[1], t.a[2:]))
        r, c = f[pos["r"]], f[pos["c"]]
        if not isnum(r) or not isnum(c):
            raise Unknown(t)
        return r.a[0], c.a[0], P1.items(f[pos["d"]])
