"""C15: LU factorisation and determinant satisfy their defining equations.

Both are evaluated abstractly on matrices of independent symbolic elements, for every pattern of zero elements (which
is all the pivoting can distinguish) at small shapes: the factors must multiply to the input, be triangular, be
permutations; the determinant must be the alternating sum over permutations, as rational functions of the elements."""
import itertools
from wfa.program import load_core, AnalysisBroken
from wfa.vg import *
from wfa.matrices import *
from wfa.report import Check


def patterns(r, c, tier):
    """matrices of symbols, with every placement of zeros where that is feasible, then with repeated elements"""
    cells = [(i, j) for i in range(r) for j in range(c)]
    n = len(cells)
    lim = 9 if tier == "quick" else 12
    masks = range(2 ** n) if n <= lim else sorted({(k * 2654435761 + 12345) % 2 ** n for k in range(120 if tier == "quick" else 900)} | {2 ** n - 1, 0})
    for m in masks:
        yield "%dx%d zeros at %s" % (r, c, [cells[k] for k in range(n) if not m >> k & 1]) if m != 2 ** n - 1 else "%dx%d" % (r, c), \
            [[Matrices.el("a", i, j) if m >> (i * c + j) & 1 else ZERO for j in range(c)] for i in range(r)]
    if r > 1:
        row = [Matrices.el("a", 0, j) for j in range(c)]
        yield "%dx%d equal rows" % (r, c), [row] * r
        yield "%dx%d equal first rows" % (r, c), [row, row] + [[Matrices.el("a", i, j) for j in range(c)] for i in range(2, r)]
        yield "%dx%d equal columns" % (r, c), [[Matrices.el("a", i, 0)] * c for i in range(r)]
        yield "%dx%d identity" % (r, c), [[ONE if i == j else ZERO for j in range(c)] for i in range(r)]
        yield "%dx%d exchange" % (r, c), [[ONE if i + j == r - 1 else ZERO for j in range(c)] for i in range(r)]


def repeats(r, c):
    """rows that are zero or repeat an earlier row (the eliminated rows vanish, and rows below them are brought up), and
    rows with a chosen first non-zero column (columns are brought to the left)"""
    def labels(n, used):
        if n == 0:
            yield ()
            return
        for k in range(used + 2):                      # 0: a zero row, 1..used: a repeated row, used + 1: a new one
            for rest in labels(n - 1, max(used, k)):
                yield (k,) + rest
    for lab in labels(r, 0):
        yield "%dx%d rows %s" % (r, c, list(lab)), [[ZERO] * c if k == 0 else [Matrices.el("a", k, j) for j in range(c)] for k in lab]
    for lead in itertools.permutations(range(c), r):
        for fill in (0, 1):
            yield "%dx%d leading columns %s%s" % (r, c, list(lead), " filled" if fill else ""), \
                [[Matrices.el("a", i, j) if j == k or fill and j > k else ZERO for j in range(c)] for i, k in enumerate(lead)]


def det(e):
    if len(e) == 1:
        return e[0][0]
    if not e:
        return 1
    return sum((-1) ** j * e[0][j] * det([row[:j] + row[j + 1:] for row in e[1:]]) for j in range(len(e)) if e[0][j] != 0)


def mul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]


def values(P, rows):
    return [[P(x) for x in r] for r in rows]


def grid(X, t, P):
    r, c, xs = X.read(t)
    if len(xs) != r * c:
        raise Unknown(t)
    return [[P(xs[i * c + j]) for j in range(c)] for i in range(r)]


def permutation(m):
    return len(m) == len(m[0]) and all(sorted(r) == [0] * (len(m) - 1) + [1] for r in m) and all(sorted(r[j] for r in m) == [0] * (len(m) - 1) + [1] for j in range(len(m)))


def run(tier):
    ck = Check("C15", tier, __doc__)
    p = load_core()
    X = Matrices(p)
    unread = []
    total = 0
    fd = [f for f in p.named("wf::determinant") if f.body is not None]
    fl = [f for f in p.named("wf::factorize_full_piv_lu") if f.body is not None]
    if not fd or not fl:
        raise AnalysisBroken("determinant or factorisation not found")
    fd, fl = fd[0], fl[0]
    for n in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5):
        for label, rows in itertools.chain(patterns(n, n, tier), repeats(n, n) if n > 2 else []):
            total += 1
            try:
                r = X.run(fd, args=[X.mat(rows)])
                if r.outside:
                    ck.bad("determinant", label, fd.loc, "an element outside the working matrix is touched")
                    continue
                if r.errors or r.unread:
                    if r.errors:
                        ck.bad("determinant", label, fd.loc, "raises %s" % r.errors[0])
                    else:
                        unread.append((label, r.unread))
                    continue
                ok = all(P(r.val) == det(values(P, rows)) for P in (P1, P2))
            except Undefined:
                ck.bad("determinant", label, fd.loc, "divides by an element that is zero")
                continue
            except (Unknown, AnalysisBroken) as e:
                unread.append((label, str(e)[:100]))
                continue
            ck.check(ok, "determinant", label, fd.loc, "the result is not the determinant of the matrix")
    shapes = [(r, c) for r in (1, 2, 3) for c in range(r, 5)] + [(4, 4)] if tier == "quick" else [(r, c) for r in (1, 2, 3, 4) for c in range(r, 6)]
    for (r_, c_) in shapes:
        for label, rows in itertools.chain(patterns(r_, c_, tier) if r_ < 4 or tier != "quick" else [], repeats(r_, c_)):
            total += 1
            try:
                r = X.run(fl, args=[X.mat(rows)])
                if r.outside:
                    ck.bad("factorisation", label, fl.loc, "an element outside the working matrix is touched")
                    continue
                if r.errors or r.unread:
                    if r.errors:
                        ck.bad("factorisation", label, fl.loc, "raises %s" % r.errors[0])
                    else:
                        unread.append((label, r.unread))
                    continue
                v = r.val
                while v.op == "ite":
                    v = v.a[1] if P1.truth(v.a[0]) else v.a[2]
                if v.op != "list" or len(v.a) != 4:
                    unread.append((label, "not four factors"))
                    continue
                why = None
                for P in (P1, P2):
                    Pm, L, U, Q = [grid(X, t, P) for t in v.a]
                    A = values(P, rows)
                    if not permutation(Pm) or not permutation(Q) or len(Pm) != r_ or len(Q) != c_:
                        why = "P or Q is not a permutation matrix"
                    elif any(L[i][j] != (i == j) for i in range(len(L)) for j in range(i, len(L))):
                        why = "L is not unit lower triangular"
                    elif any(U[i][j] != 0 for i in range(len(U)) for j in range(min(i, len(U[0])))):
                        why = "U is not upper triangular"
                    elif mul(mul(mul(Pm, L), U), Q) != A:
                        why = "P * L * U * Q is not the input"
            except Undefined:
                ck.bad("factorisation", label, fl.loc, "divides by an element that is zero")
                continue
            except (Unknown, AnalysisBroken) as e:
                unread.append((label, str(e)[:100]))
                continue
            ck.check(why is None, "factorisation", label, fl.loc, why or "")
    for n, m in ((1, 2), (2, 1), (2, 3), (3, 2), (3, 4), (4, 3), (5, 4), (0, 1)):
        rows = [[Matrices.el("a", i, j) for j in range(m)] for i in range(n)]
        for rule, f, bad in (("determinant", fd, n != m), ("factorisation", fl, n > m)):
            if not bad or not n:
                continue
            r = X.run(f, args=[X.mat(rows)])
            if r.outside:
                ck.bad(rule, "%dx%d" % (n, m), f.loc, "an element outside the working matrix is touched")
            elif r.unread and not r.errors:
                unread.append(("%dx%d" % (n, m), r.unread))
            else:
                ck.check(len(r.errors) == 1 and str(r.errors[0]).endswith("dimension_error"), rule, "%dx%d" % (n, m), f.loc,
                         "a shape with no %s does not raise dimension_error (%s)" % (rule, r.errors))
    ck.analysed(sorted(X.inlined))
    for label, why in unread[:10]:
        ck.notes.append("undecided: %s (%s)" % (label, why))
    if len(unread) > total // 2:
        raise AnalysisBroken("factorisation could not be read: %s" % (unread[0],))
    ck.assumptions.append("an element that is zero for all values is recognised as zero by the pivot search (structural zero test), as on the listed patterns")
    ck.require("determinant", 100)
    ck.require("factorisation", 100)
    return ck.finish(p)
