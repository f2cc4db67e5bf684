"""C02: canonical ordering agrees with identity.

The order function of every expression kind is read off the source as a closed term over two fresh instances (children and
strings with an order of their own are one atom each) and evaluated over every assignment of a small domain to all
components. Rule: the verdict is 'equal' exactly when all components agree; exchanging the arguments reverses it; it is
transitive. Expressions of different kinds are ordered by a fixed permutation of the kinds, expressions of the same kind by
their kind's own order with the arguments in place; every sort of operands uses a comparator that decides any two different
expressions; every sum and product is sorted when built."""
import itertools
from wfa.program import load_core, AnalysisBroken
from wfa.vg import *
from wfa.relate import *
from wfa.shapes import instances, NODES, held, wrapper_of
from wfa.nodes import ctors
from wfa.report import Check

THROUGH = {("wf::function_argument_variable", "argument_type_"): "the numeric type of the element"}
# user-defined types and external functions take part by name; struct types have no order of their own
BY_NAME = ("fields", "underlying_type", "hash", "arguments", "return_type")
LT, EQ, GT = -1, 0, 1


def run(tier):
    ck = Check("C02", tier, __doc__)
    p = load_core()
    O = keyed(p, "order_struct")
    unread = []
    kinds = 0
    for rt, f in sorted(O.items()):
        if rt.endswith("_expr") or rt not in p.recs:
            continue
        kinds += 1
        try:
            if not p.recs[rt]["fields"]:
                empty(ck, p, rt, f)
            else:
                one(ck, p, rt, f, tier)
        except (Unsure, AnalysisBroken) as e:
            unread.append((rt, str(e)[:120]))
    for rt, w in unread:
        ck.notes.append("undecided %s: %s" % (rt, w))
    if kinds < 20 or len(unread) * 2 > kinds:
        raise AnalysisBroken("most order functions could not be read: %s" % (unread[:3],))
    sequences(ck, p, O)
    kinds_order(ck, p)
    same_address(ck, p, O)
    comparators(ck, p)
    sorted_when_built(ck, p)
    return ck.finish(p)


def empty(ck, p, rt, f):
    ev = Ev(p, {}, hook=trait_hook(f.id))
    s = ev.summarize(f, this=mk("sym", "trait", f.rt), args=[mk("sym", "A.x", rt), mk("sym", "B.x", rt)])
    ck.analysed(ev.inlined)
    ck.check(Model({}).ev(s.val) == EQ, "order", rt[4:], f.loc, lambda: "two values without content do not compare equal: %s" % show(s.val))


def domain(p, rt, k, t):
    e = p.enums_of(t)
    if e:
        return [("enum", t + "::" + n) for n in e]
    if rt == "wf::rational_constant":
        return [1, 2, 3]
    return [0, 1]


def assignments(p, rt, comps):
    ks = sorted(comps)
    ds = [domain(p, rt, k, comps[k]) for k in ks]
    if rt == "wf::rational_constant":
        # numerator and denominator coprime, denominator above one
        n = [k for k in ks if k.startswith("n")][0]
        d = [k for k in ks if k.startswith("d")][0]
        return [{n: a, d: b} for a, b in ((-3, 2), (-1, 2), (-1, 3), (1, 3), (1, 2), (2, 3), (3, 2), (4, 3), (5, 2))]
    if rt == "wf::matrix":
        r = [k for k in ks if k.startswith("rows")][0]
        c = [k for k in ks if k.startswith("cols")][0]
        out = []
        for dims in ((1, 2), (2, 1)):
            for e in itertools.product([0, 1], repeat=len(ks) - 2):
                m = dict(zip([k for k in ks if k not in (r, c)], e))
                m.update({r: dims[0], c: dims[1]})
                out.append(m)
        return out
    total = 1
    for d in ds:
        total *= len(d)
    if total > 40:
        ds = [d if len(d) <= 3 else d for d in ds]
        # enumerations in full, other components two-valued but varied one at a time
        out = []
        base = [d[0] for d in ds]
        for i, d in enumerate(ds):
            for v in d:
                x = list(base); x[i] = v
                out.append(dict(zip(ks, x)))
        big = max(range(len(ds)), key=lambda i: len(ds[i]))
        for v in ds[big][:3]:
            for e in itertools.product(*[d[:2] if i != big else [v] for i, d in enumerate(ds)]):
                out.append(dict(zip(ks, e)))
        uniq = []
        for x in out:
            if x not in uniq:
                uniq.append(x)
        return uniq
    return [dict(zip(ks, v)) for v in itertools.product(*ds)]


class OrderModel(Model):
    def __init__(self, assign, over=None):
        super().__init__(assign)
        self.over = over or {}

    def ev(self, t):
        if self.over:
            n = norm(t)
            if n in self.over:
                return self.over[n]
        return Model.ev(self, t)


def order_of(t, x, y, over=None):
    m = {("A", k): v for k, v in x.items()}
    m.update({("B", k): v for k, v in y.items()})
    v = OrderModel(m, over).ev(t)
    if v not in (LT, EQ, GT):
        raise Unsure("not an order: %s" % (v,))
    return v


def through(P, k):
    """matching projections of component k compared by the order"""
    out = {}
    for t in subterms(P.order):
        if t.op in ("eq", "lt", "cmp3") and len(t.a) == 2:
            for l, r in (t.a, t.a[::-1]):
                if any(x.split(".")[0] == k for x in mentions(l)) and not path_of(l) and norm(rename(l)) is norm(r):
                    out[norm(l)] = norm(r)
    return out


def one(ck, p, rt, f, tier):
    P = Pair(p, rt, order=f)
    ck.analysed(P.fns)
    VARIANTS.clear()
    VARIANTS.update({k: t for k, t in P.comps.items() if t.startswith("std::variant<")})
    nm = rt[4:]
    comps = {k: t for k, t in P.comps.items() if not (k.rsplit(".", 1)[-1] in BY_NAME and "." in k)}
    named = [k for k in comps if k.endswith(".name")]
    for k, t in list(comps.items()):
        if t in ("wf::custom_type", "wf::external_function"):
            comps[k] = t
    proj = {}
    for k in list(comps):
        if (rt, k) in THROUGH:
            proj[k] = through(P, k)
            ck.check(bool(proj[k]), "order", "%s.%s" % (nm, k), f.loc, lambda: "the order does not look at '%s'" % k)
            del comps[k]
    A = assignments(p, rt, comps)
    pv = [0, 1] if any(proj.values()) else [0]
    pts = [(a, v) for a in A for v in pv]

    def cmp(t, x, y):
        over = {}
        for k, pr in proj.items():
            for l, r in pr.items():
                over[l], over[r] = x[1], y[1]
        return order_of(t, x[0], y[0], over)
    n = len(pts)
    M = [[cmp(P.order, pts[i], pts[j]) for j in range(n)] for i in range(n)]
    R = [[cmp(P.rev, pts[i], pts[j]) if not proj else -M[i][j] for j in range(n)] for i in range(n)]
    bad = [i for i in range(n) if M[i][i] != EQ]
    ck.check(not bad, "order reflexive", nm, f.loc, lambda: "two values with equal content do not compare equal")
    for k in sorted(comps) + sorted(proj):
        tie = None
        for i in range(n):
            for j in range(n):
                if i == j or M[i][j] != EQ:
                    continue
                diff = [q for q in comps if pts[i][0][q] != pts[j][0][q]] + ([q for q in proj] if pts[i][1] != pts[j][1] else [])
                if k in diff:
                    tie = (pts[i], pts[j], diff)
        ck.check(tie is None, "order", "%s.%s" % (nm, k), f.loc,
                 lambda: "values that differ in %s compare as equal" % ", ".join("'%s'" % q for q in tie[2]))
    bad = [(i, j) for i in range(n) for j in range(n) if R[i][j] != -M[i][j]]
    ck.check(not bad, "order antisymmetric", nm, f.loc,
             lambda: "exchanging the arguments does not reverse the verdict, e.g. %s / %s" % (short(pts[bad[0][0]][0]), short(pts[bad[0][1]][0])))
    bad = [(i, j) for i in range(n) for j in range(n) if M[i][j] != -M[j][i]]
    ck.check(not bad, "order antisymmetric", nm, f.loc, lambda: "neither of two different values comes first: %s / %s" % (
        short(pts[bad[0][0]][0]), short(pts[bad[0][1]][0])))
    bad = None
    step = range(n) if n <= 80 else range(0, n, 2)
    for i in step:
        for j in step:
            if M[i][j] == LT:
                for k in step:
                    if M[j][k] == LT and M[i][k] != LT:
                        bad = (i, j, k)
    ck.check(bad is None, "order transitive", nm, f.loc, lambda: "not transitive: %s" % ", ".join(short(pts[i][0]) for i in bad))
    if any("Vector<" in x["t"] or "vector<" in x["t"] for x in p.recs[rt]["fields"]) and rt != "wf::matrix":
        for nn in ((2, 3), (1, 2), (0, 1)):
            L = Pair(p, rt, order=f, n=nn)
            vals = {k: (("enum", t + "::" + p.enums_of(t)[0]) if p.enums_of(t) else 0) for k, t in L.comps.items()}
            a, b = order_of(L.order, vals, vals), order_of(L.rev, vals, vals)
            ck.check(a != EQ and a == -b, "order length", "%s %d/%d" % (nm, nn[0], nn[1]), f.loc,
                     lambda: "a value with %d operands compares as equal to one with %d" % nn if a == EQ else "length comparison is not antisymmetric")


def short(x):
    return "(" + ", ".join("%s=%s" % (k, v[1].rsplit("::", 1)[-1] if isinstance(v, tuple) else v) for k, v in sorted(x.items()))[:80] + ")"


def seq_terms(p, f, t, na, nb):
    def items(tag, n):
        return mk("list", *[mk("sym", "%s.x[%d]" % (tag, i), t) for i in range(n)])
    ev = Ev(p, {}, hook=trait_hook(f.id))
    s = ev.summarize(f, this=mk("sym", "trait", f.rt), args=[items("A", na), items("B", nb)])
    return s.val, set(ev.inlined) | {f.id}


def sequences(ck, p, O):
    """strings and vectors: lexicographic, with the shorter of two agreeing sequences told apart"""
    for rt, f in sorted(O.items()):
        if rt.startswith("std::basic_string<"):
            el = "char"
        elif rt.startswith("std::vector<"):
            el = split_args(rt)[0]
        else:
            continue
        nm = "string" if el == "char" else "vector of " + el.replace("wf::", "")[:40]
        for na, nb in ((2, 2), (1, 2), (2, 1), (0, 1), (0, 0)):
            try:
                t, fns = seq_terms(p, f, el, na, nb)
                ck.analysed(fns)
                bad = None
                for x in itertools.product([0, 1], repeat=na):
                    for y in itertools.product([0, 1], repeat=nb):
                        m = {("A", "x[%d]" % i): v for i, v in enumerate(x)}
                        m.update({("B", "x[%d]" % i): v for i, v in enumerate(y)})
                        got = Model(m).ev(t)
                        want = EQ if x == y else None
                        if (got == EQ) != (x == y):
                            bad = (x, y, got)
                        m2 = {("A" if s == "B" else "B", k): v for (s, k), v in m.items()}
                        if na == nb and Model(m2).ev(t) != -got:
                            bad = (x, y, got)
                ck.check(bad is None, "order sequence", "%s %d/%d" % (nm, na, nb), f.loc, lambda: "sequences %s and %s compare as %s" % bad)
            except (Unsure, AnalysisBroken) as e:
                ck.notes.append("undecided order of %s: %s" % (nm, str(e)[:90]))


def kinds_order(ck, p):
    root = {}
    for f in p.fns.values():
        if f.body is None or not f.rt or not f.rt.startswith("wf::order_struct<wf::"):
            continue
        t = f.rt[len("wf::order_struct<"):].split(",")[0].rstrip(">")
        if t in ("wf::scalar_expr", "wf::boolean_expr", "wf::compound_expr", "wf::matrix_expr"):
            if t != "wf::scalar_expr" or not f.q.endswith("::operator()"):
                root[t] = f
    for w, f in sorted(root.items()):
        ts = ["wf::" + n for n in NODES if wrapper_of(p, "wf::" + n)[0] == w]
        V, unread = {}, []
        for a in ts:
            for b in ts:
                try:
                    x, y = wrapped(p, w, a, "A"), wrapped(p, w, b, "B")
                    ev = Ev(p, {}, hook=trait_hook(f.id))
                    s = ev.summarize(f, this=mk("sym", "trait", f.rt), args=[x, y])
                    ck.analysed(ev.inlined)
                    V[a, b] = s.val
                except AnalysisBroken as e:
                    unread.append((a, b, str(e)[:80]))
        if len(unread) > len(V):
            ck.notes.append("undecided order of kinds of %s: %s" % (w, unread[0]))
            continue
        M = {}
        for (a, b), v in V.items():
            inst = "%s/%s" % (a[4:], b[4:])
            if a == b:
                # the kind's own order over the two contents, in place
                want = own_order(p, a)
                if v is want:
                    ck.ok("order same kind", inst, f.loc)
                else:
                    try:
                        sides = sides_in_place(v)
                    except Unsure as e:
                        ck.notes.append("undecided %s: %s" % (inst, e))
                        continue
                    ck.check(sides, "order same kind", inst, f.loc, lambda: "two expressions of one kind are compared as %s" % show(v)[:120])
            else:
                try:
                    M[a, b] = Model({}).ev(v)
                except Unsure as e:
                    ck.notes.append("undecided %s: %s" % (inst, str(e)[:80]))
        for (a, b), v in sorted(M.items()):
            if a < b and (b, a) in M:
                ck.check(v in (LT, GT) and M[b, a] == -v, "order of kinds", "%s/%s" % (a[4:], b[4:]), f.loc,
                         lambda: "expressions of different kinds compare as equal" if v == EQ else "exchanging the arguments does not reverse the verdict")
        bad = [(a, b, c) for a in ts for b in ts for c in ts if M.get((a, b)) == LT and M.get((b, c)) == LT and M.get((a, c)) not in (LT, None)]
        ck.check(not bad, "order of kinds", w[4:] + " transitive", f.loc, lambda: "not transitive: %s" % (bad[0],))
    ck.require("order same kind", 20)


def wrapped(p, w, T_, tag):
    return held(p, T_, instances(p, T_, (2,), tag + ".")[0].node, tag)


def own_order(p, T_):
    a, b = instances(p, T_, (2,), "A.")[0], instances(p, T_, (2,), "B.")[0]
    fs = keyed(p, "order_struct")
    f = fs.get(T_)
    if f is None:
        return None
    ev = Ev(p, {}, hook=trait_hook(f.id))
    try:
        return ev.summarize(f, this=mk("sym", "trait", f.rt), args=[a.node, b.node]).val
    except AnalysisBroken:
        return None


def sides_in_place(v):
    """two one-kind values are told apart: with all A-atoms below all B-atoms the verdict must not be 'equal' unless there
    is no content"""
    if not mentions(v):
        return Model({}).ev(v) == EQ
    return None if False else _told(v)


def _told(v):
    for lo, hi in ((0, 1), (1, 0)):
        m = Model({}, default=lambda pa: lo if pa[0] == "A" else hi)
        if m.ev(v) == EQ:
            return False
    return Model({}, default=lambda pa: 0).ev(v) == EQ


def same_address(ck, p, O):
    f = [g for g in p.fns.values() if g.rt and g.rt.startswith("wf::order_struct<wf::scalar_expr") and g.q.endswith("::operator()") and g.body is not None]
    if not f:
        return
    f = f[0]

    def hk(ev, st, fr, g, o, al):
        if g.q.endswith("::compare") and g.rt and g.rt.startswith("wf::order_struct"):
            return mk("call", "trait:order", "", *[ev.argval(st, a) for a in al])
        return None
    ev = Ev(p, {}, hook=hk)
    A, B = mk("sym", "A.e", "wf::scalar_expr"), mk("sym", "B.e", "wf::scalar_expr")
    s = ev.summarize(f, this=mk("sym", "trait", f.rt), args=[A, B])
    ck.analysed(ev.inlined)
    calls = [t for t in subterms(s.val) if t.op == "call" and t.a[0] == "trait:order"]
    ok = [t for t in calls if t.a[2] is A and t.a[3] is B]
    if calls:
        ck.check(len(ok) == len(calls), "order entry", "scalar_expr", f.loc, lambda: "the arguments are not passed on in order")


def comparators(ck, p):
    """every comparator used to sort operands decides any two expressions that the order tells apart"""
    n = 0
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if not (f.q.endswith("operator()") and len(f.params) == 2 and f.ret == "bool" and f.body is not None and
                all(bare(x["t"]) == "wf::scalar_expr" for x in f.params)) or "identical" in f.q:
            continue
        A, B = mk("sym", "A.e", "wf::scalar_expr"), mk("sym", "B.e", "wf::scalar_expr")
        try:
            ev = Ev(p, {}, hook=trait_hook(f.id))
            t = ev.summarize(f, this=mk("sym", "trait", f.rt or ""), args=[A, B]).val
        except AnalysisBroken as e:
            ck.notes.append("undecided comparator at %s: %s" % (f.loc, str(e)[:80]))
            continue
        ck.analysed(ev.inlined)
        inst = "comparator at " + f.q.split("::(anonymous")[0].split("::", 1)[-1][:70]
        os_ = [x for x in subterms(t) if x.op == "call" and x.a[0] == "trait:order"]
        if any({x.a[2], x.a[3]} != {A, B} for x in os_):
            ck.notes.append("not decided (orders by parts of the expressions): comparator at %s" % f.loc)
            continue
        n += 1
        tab = {}
        try:
            for h in (LT, EQ, GT):
                for o in (LT, EQ, GT):
                    tab[h, o] = bool(CmpModel(h, o, A, B).ev(t))
        except Unsure as e:
            ck.notes.append("undecided %s: %s" % (inst, str(e)[:80]))
            continue
        ties = [k for k in tab if k[1] != EQ and tab[k] == tab[-k[0], -k[1]]]
        both = [k for k in tab if tab[k] and tab[-k[0], -k[1]]]
        ck.check(not ties, "sort comparator", inst, f.loc, lambda: "two expressions that the canonical order tells apart are left in the order they came in (hash %+d, order %+d)" % ties[0])
        ck.check(not both, "sort comparator", inst, f.loc, lambda: "two expressions are each placed before the other")
    if n < 3:
        ck.notes.append("only %d sort comparators were decided" % n)


class CmpModel(Model):
    def __init__(self, h, o, A, B):
        super().__init__({})
        self.h, self.o, self.A, self.B = h, o, A, B

    def ev(self, t):
        if t.op == "call" and t.a[0] == "trait:order":
            return self.o if t.a[2] is self.A else -self.o
        pa = path_of(t)
        if pa and "hash" in pa[1].rsplit(".", 1)[-1]:
            return 0 if pa[0] == "A" else -self.h
        return Model.ev(self, t)


def sorted_when_built(ck, p):
    for rt in ("wf::addition", "wf::multiplication"):
        for c in ctors(p, rt):
            if c.implicit or not c.params or (len(c.params) == 1 and bare(c.params[0]["t"]) == rt):
                continue
            if any("no_sort" in x["t"] for x in c.params):
                continue
            args = []
            for i, x in enumerate(c.params):
                t = bare(x["t"])
                args.append(mk("sym", "x%d" % i, t))
            inst = rt[4:] + "(" + ", ".join(bare(x["t"]).replace("wf::", "")[:30] for x in c.params) + ")"
            try:
                ev = Ev(p, {}, hook=trait_hook(0))
                s = ev.summarize(c, this=obj(rt, {}), args=args)
            except AnalysisBroken as e:
                ck.notes.append("undecided constructor %s: %s" % (inst, str(e)[:80]))
                continue
            ck.analysed(ev.inlined)
            d = dict(zip(s.this.a[1], s.this.a[2:])) if s.this is not None and s.this.op == "obj" else {}
            for k, v in d.items():
                ck.check(v.op == "sorted" or v.op == "ite", "sorted when built", inst, c.loc, lambda: "operands are stored in the order they were given")


