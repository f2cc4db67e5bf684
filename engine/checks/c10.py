"""C10: matrix operations validate shapes and place every element where its definition says.

Every matrix operation of the core and of the Python bindings is evaluated abstractly on matrices whose elements are
independent indeterminates, at every combination of small shapes, indices, blocks and slices.  An incompatible shape or
an index outside the matrix must end in a dimension error; a compatible one must give the elements its definition
names; no element outside the storage may be read."""
import itertools
from wfa.program import load_core, load_wrapper, AnalysisBroken, walk, rel
from wfa.vg import *
from wfa.vg import PURE
from wfa.matrices import *
from wfa.report import Check

ERR = "error"


class Ops:
    def __init__(self, ck, p, tier):
        self.ck, self.p = ck, p
        self.X = Matrices(p)
        self.n = 3 if tier == "quick" else 4
        self.inl = set()
        self.unread = {}
        self.total = 0

    def fn(self, q, want=None, rt=None):
        fs = self.p.method(rt, q) if rt else self.p.named("wf::" + q)
        fs = [f for f in fs if (f.body is not None or f.inits) and (want is None or want(f))]
        if not fs:
            self.ck.notes.append("operation %s not found" % q)
            return None
        return fs[0]

    def case(self, op, f, label, expect, this=None, args=()):
        self.total += 1
        ck = self.ck
        try:
            r = self.X.run(f, this=this, args=args)
        except (Unknown, Undefined, AnalysisBroken) as e:
            self.unread.setdefault(op, "%s: %s" % (label, str(e)[:90]))
            return
        if r.outside:
            ck.bad("stays inside", "%s %s" % (op, label), f.loc, "element %s of a %s view is touched" % (r.outside[0][1], r.outside[0][2]))
            return
        if r.unread and not r.errors:
            self.unread.setdefault(op, "%s: %s" % (label, r.unread))
            return
        if expect == ERR:
            ck.check("dimension_error" in r.errors, "invalid rejected", "%s %s" % (op, label), f.loc,
                     "no dimension error is raised (%s)" % (r.errors[0] if r.errors else "a result is returned"))
            return
        if r.errors:
            ck.bad("valid accepted", "%s %s" % (op, label), f.loc, "raises %s" % r.errors[0])
            return
        ck.ok("valid accepted", "%s %s" % (op, label))
        if expect is None:
            return
        far = [t for t in walk_terms(r.val) if t.op == "at" and t.a[0].op == "list" and isnum(t.a[1])]
        if far:
            ck.bad("stays inside", "%s %s" % (op, label), f.loc, "element %d of a container of %d is read" % (far[0].a[1].a[0], len(far[0].a[0].a)))
            return
        try:
            if expect[0] == "scalar":
                ck.check(same(r.val, expect[1]), "elements", "%s %s" % (op, label), f.loc, "the result is not the element the definition names")
                return
            rows, cols, xs = self.X.read(r.val)
        except (Unknown, Undefined) as e:
            self.unread.setdefault(op, "%s: %s" % (label, str(e)[:90]))
            return
        er, ec, ex = expect[1:]
        if (rows, cols) != (er, ec) or len(xs) != len(ex):
            ck.bad("shape", "%s %s" % (op, label), f.loc, "the result has shape %dx%d with %d elements, expected %dx%d" % (rows, cols, len(xs), er, ec))
            return
        ck.ok("shape", "%s %s" % (op, label))
        for k, (x, y) in enumerate(zip(xs, ex)):
            try:
                ok = same(x, y)
            except (Unknown, Undefined) as e:
                self.unread.setdefault(op, "%s: %s" % (label, str(e)[:90]))
                return
            if not ok:
                ck.bad("elements", "%s %s" % (op, label), f.loc, "element (%d, %d) is %s" % (k // ec, k % ec, show(x)[:80]))
                return
        ck.ok("elements", "%s %s" % (op, label))


def call(n, *a):
    return mk("call", "wf::operator" + n, "", *a)


def total(xs):
    return mk("call", "wf::addition::from_operands", "", mk("list", *xs))


def el(X, n, r, c):
    return [[X.el(n, i, j) for j in range(c)] for i in range(r)]


def flat(rows):
    return [x for r in rows for x in r]


def run(tier):
    ck = Check("C10", tier, __doc__)
    p = load_core()
    w = load_wrapper(only=["matrix_wrapper.cc"])
    join(p, w)
    o = Ops(ck, p, tier)
    X = o.X
    N = o.n
    two = lambda f: f.ft.count("const wf::matrix &") == 2
    R = range(1, N + 1)
    shapes = [(r, c) for r in R for c in R]
    small = [(1, 1), (1, 3), (2, 1), (2, 3), (3, 2)]
    SPAN = lambda f: "Span" in f.ft

    # ---- construction
    for rt, q in (("wf::matrix_expr", "create"),):
        f = o.fn(q, lambda f: "std::vector" in f.ft, rt)
        if f:
            for r, c, k in itertools.product(range(0, N), range(0, N), range(0, 7)):
                xs = [X.el("a", i) for i in range(k)]
                o.case(q, f, "%dx%d from %d elements" % (r, c, k), ("mat", r, c, xs) if k == r * c else ERR, args=[C(r), C(c), mk("list", *xs)])
    for q, g in (("make_zeros", lambda i, j: ZERO), ("make_identity", lambda i, j: ONE if i == j else ZERO)):
        f = o.fn(q)
        if f:
            for r, c in itertools.product(range(-1, N + 1), repeat=2):
                o.case(q, f, "%d, %d" % (r, c), ("mat", r, c, [g(i, j) for i in range(r) for j in range(c)]) if r > 0 and c > 0 else ERR, args=[C(r), C(c)])
            if q == "make_identity":
                for r in range(-1, N + 1):
                    o.case(q, f, "%d" % r, ("mat", r, r, [g(i, j) for i in range(r) for j in range(r)]) if r > 0 else ERR, args=[C(r), NULL])
    f = o.fn("make_matrix_of_symbols")
    if f:
        for r, c in itertools.product(range(-1, 3), repeat=2):
            o.case("make_matrix_of_symbols", f, "%d, %d" % (r, c), None if r > 0 and c > 0 else ERR, args=[mk("sym", "prefix", "std::string_view"), C(r), C(c)])
    f = o.fn("diagonal", SPAN)
    if f:
        for k in range(0, N + 1):
            xs = [X.el("a", i) for i in range(k)]
            o.case("diagonal", f, "of %d" % k, ("mat", k, k, [xs[i] if i == j else ZERO for i in range(k) for j in range(k)]) if k else ERR, args=[mk("list", *xs)])

    # ---- element access, blocks
    for rt in ("wf::matrix", "wf::matrix_expr"):
        f1, f2 = o.fn("operator[]", rt=rt), o.fn("operator()", rt=rt)
        for r, c in shapes + [(0, 2), (2, 0)]:
            A, e = X.sym("a", r, c), el(X, "a", r, c)
            for i in range(-2, r * c + 2):
                if f1:
                    ok = (r == 1 or c == 1) and 0 <= i < r * c
                    o.case(rt[4:] + "[i]", f1, "%dx%d [%d]" % (r, c, i), ("scalar", flat(e)[i]) if ok else ERR, this=A, args=[C(i)])
            for i, j in itertools.product(range(-1, r + 2), range(-1, c + 2)):
                if f2:
                    o.case(rt[4:] + "(i, j)", f2, "%dx%d (%d, %d)" % (r, c, i, j), ("scalar", e[i][j]) if 0 <= i < r and 0 <= j < c else ERR, this=A, args=[C(i), C(j)])
        f = o.fn("get_block", rt=rt)
        if f:
            for r, c in ((2, 3), (3, 2)):
                A, e = X.sym("a", r, c), el(X, "a", r, c)
                for i, j, h, wd in itertools.product(range(-1, r + 1), range(-1, c + 1), range(-1, r + 2), range(-1, c + 2)):
                    ok = i >= 0 and j >= 0 and h >= 0 and wd >= 0 and i + h <= r and j + wd <= c
                    o.case(rt[4:] + "::get_block", f, "%dx%d (%d, %d, %d, %d)" % (r, c, i, j, h, wd),
                           ("mat", h, wd, [e[i + k][j + l] for k in range(h) for l in range(wd)]) if ok else ERR, this=A, args=[C(i), C(j), C(h), C(wd)])
        f = o.fn("transposed", rt=rt)
        if f:
            for r, c in shapes:
                e = el(X, "a", r, c)
                o.case(rt[4:] + "::transposed", f, "%dx%d" % (r, c), ("mat", c, r, [e[i][j] for j in range(c) for i in range(r)]), this=X.sym("a", r, c))
    f = o.fn("reshape", lambda f: len(f.params) == 2, "wf::matrix_expr")
    if f:
        for (r, c), (h, wd) in itertools.product([(2, 3), (1, 4), (3, 1)], itertools.product(range(-2, 5), range(-2, 5))):
            e = flat(el(X, "a", r, c))
            o.case("reshape", f, "%dx%d to %d, %d" % (r, c, h, wd), ("mat", h, wd, e) if h >= 0 and wd >= 0 and h * wd == r * c else ERR, this=X.sym("a", r, c), args=[C(h), C(wd)])
    f = o.fn("vectorize_matrix")
    if f:
        for r, c in shapes:
            e = el(X, "a", r, c)
            o.case("vectorize_matrix", f, "%dx%d" % (r, c), ("mat", r * c, 1, [e[i][j] for j in range(c) for i in range(r)]), args=[X.sym("a", r, c)])

    # ---- arithmetic
    for rt in ("wf::matrix", "wf::matrix_expr"):
        both = lambda f: f.ft.count("const %s &" % rt) == 2 and bare(f.ret) == rt
        for s in "+-*":
            f = o.fn("operator" + s, both)
            if not f:
                continue
            for (r, c), (h, wd) in itertools.product(shapes if rt == "wf::matrix" else small, repeat=2):
                a, b = el(X, "a", r, c), el(X, "b", h, wd)
                if s == "*":
                    exp = ("mat", r, wd, [total([call("*", a[i][k], b[k][j]) for k in range(c)]) for i in range(r) for j in range(wd)]) if c == h else ERR
                else:
                    exp = ("mat", r, c, [call(s, a[i][j], b[i][j]) for i in range(r) for j in range(c)]) if (r, c) == (h, wd) else ERR
                o.case("%s %s" % (rt[4:], s), f, "%dx%d %s %dx%d" % (r, c, s, h, wd), exp, args=[X.sym("a", r, c), X.sym("b", h, wd)])
    s1 = mk("sym", "s", "wf::scalar_expr")
    for s in "*/":
        for f in [f for f in p.named("wf::operator" + s) if f.body is not None and "wf::matrix_expr" in bare(f.ret) and f.ft.count("wf::matrix_expr &") == 1 and "wf::scalar_expr &" in f.ft]:
            left = "scalar" in f.params[0]["t"]
            for r, c in small:
                a = flat(el(X, "a", r, c))
                A = X.sym("a", r, c)
                o.case("matrix %s scalar" % s, f, "%dx%d" % (r, c), ("mat", r, c, [call(s, x, s1) for x in a]), args=[s1, A] if left else [A, s1])
    for n, exp in (("operator-", lambda a, r, c: ("mat", r, c, [mk("call", "wf::scalar_expr::operator-", "", x) for x in a])),
                   ("squared_norm", lambda a, r, c: ("scalar", total([call("*", x, x) for x in a]))),
                   ("norm", lambda a, r, c: ("scalar", mk("call", "wf::sqrt", "", total([call("*", x, x) for x in a]))))):
        f = o.fn(n, lambda f: not f.params, "wf::matrix_expr")
        if f:
            for r, c in small:
                o.case("matrix_expr::" + n, f, "%dx%d" % (r, c), exp(flat(el(X, "a", r, c)), r, c), this=X.sym("a", r, c))

    # ---- stacking
    lists = [[(2, 3)], [(2, 3), (2, 1)], [(2, 3), (1, 3)], [(2, 3), (2, 3)], [(1, 1), (1, 1), (1, 1)], [(2, 1), (2, 2), (2, 1)], [(1, 2), (2, 2), (1, 2)],
             [(2, 2), (3, 3)], [(1, 3), (3, 1)], [(2, 2), (2, 2), (1, 2)], [(2, 2), (2, 2), (2, 1)], [(2, 2), (1, 1), (2, 2)], [(2, 0), (2, 2)], [(2, 2), (2, 0)], [(0, 2), (2, 2)],
             [(1, 2), (1, 3), (2, 1)], []]
    for q in ("hstack", "vstack", "diagonal_stack"):
        f = o.fn(q, SPAN)
        if not f:
            continue
        for ls in lists:
            ms = [el(X, "abc"[k], r, c) for k, (r, c) in enumerate(ls)]
            terms = [X.sym("abc"[k], r, c) for k, (r, c) in enumerate(ls)]
            exp = ERR
            if ls and q == "hstack" and len({r for r, c in ls}) == 1:
                rr, cc = ls[0][0], sum(c for r, c in ls)
                exp = ("mat", rr, cc, [x for i in range(rr) for m in ms for x in m[i]])
            if ls and q == "vstack" and len({c for r, c in ls}) == 1:
                rr, cc = sum(r for r, c in ls), ls[0][1]
                exp = ("mat", rr, cc, [x for m in ms for row in m for x in row])
            if ls and q == "diagonal_stack":
                rr, cc = sum(r for r, c in ls), sum(c for r, c in ls)
                xs, off = [], 0
                for m, (r, c) in zip(ms, ls):
                    xs += [x for row in m for x in [ZERO] * off + row + [ZERO] * (cc - off - c)]
                    off += c
                exp = ("mat", rr, cc, xs)
            o.case(q, f, " ".join("%dx%d" % x for x in ls) or "nothing", exp, args=[mk("list", *terms)])

    # ---- selection, determinant, derivatives, quaternions
    f = o.fn("where", lambda f: bare(f.ret) == "wf::matrix_expr")
    if f:
        cnd = mk("sym", "cond", "wf::boolean_expr")
        for (r, c), (h, wd) in itertools.product(small, repeat=2):
            a, b = flat(el(X, "a", r, c)), flat(el(X, "b", h, wd))
            o.case("where", f, "%dx%d, %dx%d" % (r, c, h, wd), ("mat", r, c, [mk("call", "wf::where", "", cnd, x, y) for x, y in zip(a, b)]) if (r, c) == (h, wd) else ERR,
                   args=[cnd, X.sym("a", r, c), X.sym("b", h, wd)])
    f = o.fn("determinant")
    if f:
        for r, c in shapes + [(1, 4), (4, 4)]:
            o.case("determinant", f, "%dx%d" % (r, c), ERR if r != c else ("scalar", leibniz(el(X, "a", r, r))) if r < 4 else None, args=[X.sym("a", r, c)])
    f = o.fn("factorize_full_piv_lu")
    if f:
        for r, c in shapes:
            o.case("factorize_full_piv_lu", f, "%dx%d" % (r, c), ERR if r > c else None, args=[X.sym("a", r, c)])
    beh = mk("sym", "behavior", "wf::non_differentiable_behavior")
    deriv = {"wf::derivative_visitor::operator()": p_derive}
    keep = X.prims
    X.prims = dict(keep, **deriv)
    X.prims["ctor:wf::derivative_visitor"] = c_deriver
    f = o.fn("jacobian", lambda f: f.ft.count("Span") == 2)
    if f:
        for k, m in itertools.product(range(0, 4), range(0, 4)):
            fs, vs = [X.el("f", i) for i in range(k)], [X.el("v", i) for i in range(m)]
            o.case("jacobian", f, "%d by %d" % (k, m), ("mat", k, m, [mk("call", "D", "", x, v) for x in fs for v in vs]) if k and m else ERR,
                   args=[mk("list", *fs), mk("list", *vs), beh])
    for f in [f for f in p.method("wf::matrix_expr", "jacobian") + p.method("wf::quaternion", "jacobian") if f.body is not None]:
        mat = "matrix_expr" in f.params[0]["t"]
        if not mat and "Span" not in f.params[0]["t"] or f.rt == "wf::quaternion" and not mat:
            continue
        this = X.sym("a", 2, 1)
        for r, c in small + [(2, 2)]:
            if mat:
                if f.rt == "wf::quaternion":
                    this = mk("sym", "q", "wf::quaternion")
                    exp = None if r == 1 or c == 1 else ERR
                    if exp is None:
                        continue
                else:
                    exp = ("mat", 2, r * c, [mk("call", "D", "", x, v) for x in flat(el(X, "a", 2, 1)) for v in flat(el(X, "v", r, c))]) if r == 1 or c == 1 else ERR
                o.case(f.q[4:], f, "by a %dx%d matrix" % (r, c), exp, this=this, args=[X.sym("v", r, c), beh])
            else:
                vs = [X.el("v", i) for i in range(2)]
                exp = ("mat", r * c, 2, [mk("call", "D", "", x, v) for x in flat(el(X, "a", r, c)) for v in vs]) if r == 1 or c == 1 else ERR
                o.case(f.q[4:], f, "of a %dx%d matrix" % (r, c), exp, this=X.sym("a", r, c), args=[mk("list", *vs), beh])
    X.prims = keep
    for n, want in (("from_vector_wxyz", (4, 1)), ("from_vector_xyzw", (4, 1)), ("rotate", (3, 1)), ("from_angle_axis", (3, 1)), ("from_rotation_vector", (3, 1)), ("from_rotation_matrix", (3, 3))):
        for f in [f for f in p.method("wf::quaternion", n) if f.body is not None and any("wf::matrix_expr &" in x["t"] for x in f.params)]:
            for r, c in [(3, 1), (1, 3), (3, 3), (4, 1), (4, 4), (1, 4), (2, 1), (3, 2), (4, 2)]:
                if (r, c) == want:
                    continue
                args = [X.sym("v", r, c) if "wf::matrix_expr" in x["t"] else mk("sym", x["n"], bare(x["t"])) for x in f.params]
                o.case("quaternion::" + n, f, "%dx%d" % (r, c), ERR, this=mk("sym", "q", "wf::quaternion") if not f.static else None, args=args)
    for n in ("left_jacobian_of_so3", "inverse_left_jacobian_of_so3"):
        for f in [f for f in p.named("wf::" + n) if f.body is not None]:
            for r, c in [(1, 3), (3, 3), (4, 1), (2, 1), (3, 2)]:
                args = [X.sym("v", r, c) if "wf::matrix_expr" in x["t"] else mk("sym", x["n"], bare(x["t"])) for x in f.params]
                o.case(n, f, "%dx%d" % (r, c), ERR, args=args)

    bindings(o, p, small)

    ck.analysed(sorted(X.inlined))
    raw_sites(ck, p)
    for q, why in sorted(o.unread.items()):
        ck.notes.append("undecided: %s (%s)" % (q, why))
    if len(o.unread) > 12:
        raise AnalysisBroken("too many operations could not be read: %s" % sorted(o.unread))
    ck.require("invalid rejected", 400)
    ck.require("elements", 300)
    return ck.finish(p)


def leibniz(e):
    n = len(e)
    out = []
    for pm in itertools.permutations(range(n)):
        s = 1
        for i in range(n):
            for j in range(i):
                s = -s if pm[j] > pm[i] else s
        t = C(s)
        for i in range(n):
            t = call("*", t, e[i][pm[i]])
        out.append(t)
    return total(out)


def c_deriver(ev, st, fr, e):
    return mk("deriver", ev.val(e["a"][0], st, fr))


def p_derive(ev, st, fr, e, fid, objlv, al):
    d = ev.read(st, objlv)
    return mk("call", "D", "", ev.argval(st, al[0]), d.a[0]) if d.op == "deriver" else None


def join(p, w):
    for i, f in w.fns.items():
        if i not in p.fns:
            p.fns[i] = f
            p.by_q.setdefault(f.q, []).append(f)
            if f.rt:
                p.by_rt.setdefault(f.rt, []).append(f)
    for k, v in w.decls.items():
        p.decls.setdefault(k, v)
    for k, v in w.recs.items():
        p.recs.setdefault(k, v)


def slices(n):
    vals = [None, 0, 1, -1, n, n + 1, -n - 1]
    return [slice(a, b, s) for a in vals for b in vals for s in (None, 2, -1)]


def p_compute(ev, st, fr, e, fid, objlv, al):
    """Python's slice.indices"""
    s = ev.read(st, objlv)
    n = ev.argval(st, al[0])
    if s.op != "pyslice" or not isnum(n):
        return None
    a, b, c = slice(*s.a).indices(n.a[0])
    return mk("list", C(a), C(b), C(c), C(len(range(a, b, c))))


def p_tuple_get(ev, st, fr, e, fid, objlv, al):
    v = ev.read(st, objlv)
    ta = "".join(e.get("ta") or []).strip("<> ULul")
    if v.op == "list" and ta.isdigit():
        return v.a[int(ta)]
    return None


def p_extract(ev, st, fr, e, fid, objlv, al):
    """the elements of one row (an iterable, or a matrix stacked whole)"""
    v = ev.argval(st, al[0])
    if v.op != "pyrow":
        return None
    n, r, c = v.a
    ev.write(st, al[1][1], cat(ev.read(st, al[1][1]), mk("list", *[Matrices.el(n, i, j) for i in range(r) for j in range(c)])))
    return C(c)


def bindings(o, p, small):
    """indexing and slicing as Python sees it"""
    X = o.X
    X.prims = dict(X.prims)
    X.prims["nanobind::slice::compute"] = p_compute
    X.prims["nanobind::detail::tuple<long, long, long, unsigned long>::get"] = p_tuple_get
    X.prims["nanobind::detail::tuple::get"] = p_tuple_get
    X.prims["wf::extract_iterable_rows"] = p_extract
    f = o.fn("stack_iterables")
    if f:
        for ls in ([(1, 2)], [(1, 2), (1, 2)], [(1, 2), (1, 3)], [(1, 3), (1, 2)], [(2, 2), (1, 2)], [(1, 2), (1, 2), (1, 1)], [(1, 0)], [(1, 0), (1, 0)], [(1, 1), (1, 0)], [(1, 0), (1, 1)]):
            n = ls[0][1]
            ok = n > 0 and all(x[1] == n for x in ls)
            xs = [x for k, (r, c) in enumerate(ls) for x in flat(el(X, "abc"[k], r, c))]
            o.case("matrix(rows)", f, str(ls), ("mat", sum(r for r, c in ls), n, xs) if ok else ERR,
                   args=[mk("list", *[mk("pyrow", "abc"[k], r, c) for k, (r, c) in enumerate(ls)])])
    sl = lambda s: mk("pyslice", s.start, s.stop, s.step)
    for r, c in [(2, 3), (3, 1), (1, 3)]:
        A, e = X.sym("a", r, c), el(X, "a", r, c)
        f = o.fn("matrix_get_row")
        if f:
            for i in range(-r - 2, r + 2):
                ok = -r <= i < r
                o.case("m[i]", f, "%dx%d [%d]" % (r, c, i), ERR if not ok else ("scalar", e[i][0]) if c == 1 else ("mat", 1, c, e[i]), args=[A, C(i)])
        f = o.fn("matrix_get_row_and_col")
        if f:
            for i, j in itertools.product(range(-r - 2, r + 2), range(-c - 2, c + 2)):
                ok = -r <= i < r and -c <= j < c
                o.case("m[i, j]", f, "%dx%d [%d, %d]" % (r, c, i, j), ("scalar", e[i][j]) if ok else ERR, args=[A, mk("list", C(i), C(j))])
        f = o.fn("matrix_get_row_slice")
        if f:
            for s in slices(r):
                rows = e[s]
                o.case("m[a:b]", f, "%dx%d [%s:%s:%s]" % (r, c, s.start, s.stop, s.step), ("mat", len(rows), c, flat(rows)), args=[A, sl(s)])
        f = o.fn("matrix_get_row_and_col_slice")
        if f:
            for s, t in itertools.product(slices(r)[::5], slices(c)[::7]):
                rows = [x[t] for x in e[s]]
                o.case("m[a:b, c:d]", f, "%dx%d [%s, %s]" % (r, c, s, t), ("mat", len(e[s]), len(range(c)[t]), flat(rows)), args=[A, mk("list", sl(s), sl(t))])
        f = o.fn("matrix_get_row_index_and_col_slice")
        if f:
            for i, t in itertools.product(range(-r - 2, r + 2), slices(c)[::7]):
                n = len(range(c)[t])
                if n:
                    o.case("m[i, a:b]", f, "%dx%d [%d, %s]" % (r, c, i, t), ("mat", 1, n, e[i][t]) if -r <= i < r else ERR, args=[A, mk("list", C(i), sl(t))])
        f = o.fn("matrix_get_row_slice_and_col_index")
        if f:
            for s, j in itertools.product(slices(r)[::7], range(-c - 2, c + 2)):
                n = len(range(r)[s])
                if n:
                    o.case("m[a:b, j]", f, "%dx%d [%s, %d]" % (r, c, s, j), ("mat", n, 1, [x[j] for x in e[s]]) if -c <= j < c else ERR, args=[A, mk("list", sl(s), C(j))])


def raw_sites(ck, p):
    """element accesses without a check: only in functions decided above, or under a loop over the matrix's own size"""
    decided = ("wf::matrix::", "wf::determinant", "wf::stack", "wf::hstack", "wf::vstack", "wf::diagonal_stack")
    for f in p.fns.values():
        if f.implicit or not f.body:
            continue
        for n in walk(f.body):
            if n.get("k") == "Call" and n.get("fn") == "wf::matrix::get_unchecked":
                ok = f.q.startswith(decided)
                if not ok:
                    ck.notes.append("unchecked access in %s (%s:%s): bounded by its own loop, not decided here" % (f.q, rel(f.file), n.get("l")))
