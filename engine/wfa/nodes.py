"""Builds symbolic expression nodes through the repository's own constructors, so checks address roles by
constructor parameter and never by field name."""
from .vg import *
from .program import AnalysisBroken


def ctors(p, rt):
    out = []
    for f in p.by_rt.get(rt, []):
        if f.ctor and not (len(f.params) == 1 and bare(f.params[0]["t"]) == rt):
            out.append(f)
    return out


def build(p, rt, args, want=None, prims=None):
    """object term of `rt` built from `args`; want: predicate on the constructor"""
    cs = [c for c in ctors(p, rt) if len(c.params) == len(args) and (want is None or want(c))]
    if not cs:
        raise AnalysisBroken("no constructor of %s with %d parameters" % (rt, len(args)))
    f = cs[0]
    ev = Ev(p, prims or {})
    s = ev.summarize(f, this=obj(rt, {}), args=list(args))
    if s.this is None or s.this.op != "obj":
        raise AnalysisBroken("constructor %s of %s is not readable" % (f.ft, rt))
    return s.this


def variadic(p, rt, xs):
    """sum/product from a concrete list of operands, in the given order"""
    cs = ctors(p, rt)
    f = [c for c in cs if len(c.params) == 2 and "no_sort" in c.params[0]["t"]]
    if f:
        return build(p, rt, [mk("sym", "no_sort", ""), mk("list", *xs)], lambda c: c is f[0])
    raise AnalysisBroken("no unsorted constructor of " + rt)


def sexpr(n):
    return mk("sym", n, "wf::scalar_expr")


def bexpr(n):
    return mk("sym", n, "wf::boolean_expr")
