"""G03: emitted expressions keep their grouping.

For every operation of the value graph, every operand position and every kind of operand, the real conversion to syntax
elements and the real generators are evaluated on the composed value; the emitted text, parsed by the target language's
own precedence rules, must be the tree of the outer operation with the operand's own tree in that position."""
import multiprocessing as mp
from wfa.program import load_core, AnalysisBroken
from wfa.emit import generators, Rejected, Unread
from wfa.compose import Maker, Pipe, subst
from wfa.target import norm
from wfa.lang import ParseError
from wfa.report import Check

P = None


def commute(t):
    """in Rust `-x as T` and `-(x as T)` agree for numeric x"""
    if type(t) is not tuple:
        return t
    t = tuple(commute(x) for x in t)
    if len(t) == 3 and t[0] == "cast" and type(t[2]) is tuple and t[2] and t[2][0] == "neg":
        return ("neg", commute(("cast", t[1], t[2][1])))
    return t


def one(args):
    gi, tier = args
    g = generators(P, tier == "thorough")[gi]
    m, pi = Maker(P, g), Pipe(P, g)
    res, notes, unread, total = [], [], 0, 0
    kids, trees = m.children(), {}
    for cl, (ty, cv) in kids.items():
        try:
            trees[cl] = pi.tree(cv)
        except (Rejected, Unread, ParseError) as x:
            notes.append("undecided: %s: operand %s: %s" % (g.label, cl, x))
    parents = m.parents()
    bases = {}
    for pl, (ts, make) in parents.items():
        leaves = [m.var("x%d" % i, t) for i, t in enumerate(ts)]
        try:
            bases[pl] = (leaves, pi.tree(make(leaves)), [pi.tree(l) for l in leaves])
        except (Rejected, Unread, ParseError) as x:
            notes.append("undecided: %s: operation %s: %s" % (g.label, pl, x))
    work = [(pl, i, cl, kids[cl][0], kids[cl][1], trees[cl]) for pl in bases for i, t in enumerate(parents[pl][0]) for cl in trees if kids[cl][0] == t]
    if tier == "thorough":
        # one more level: an outer operation over (operation over operand)
        mids = {}
        for pl in ("add floating_point/2", "mul floating_point/2", "div", "neg floating_point", "cond floating_point", "compare less_than floating_point", "signum", "cast integral to floating_point"):
            if pl not in bases:
                continue
            leaves, base, lt = bases[pl]
            for i, t in enumerate(parents[pl][0]):
                for cl in ("add " + t, "mul " + t, "neg " + t, "cond " + t, "div", "compare equal", "signum", "integer -3", "float -2.5", "cast boolean to floating_point"):
                    if cl in trees and kids[cl][0] == t:
                        xs = list(leaves)
                        xs[i] = kids[cl][1]
                        v = parents[pl][1](xs)
                        ty = "boolean" if pl.startswith("compare") else "integral" if pl == "signum" else "floating_point"
                        mids["%s [operand %d: %s]" % (pl, i, cl)] = (ty, v, subst(base, {lt[i]: trees[cl]}))
        work += [(pl, i, ml, ty, v, t) for pl in bases for i, pt in enumerate(parents[pl][0]) for ml, (ty, v, t) in mids.items() if ty == pt]
    for pl, i, cl, ty, cv, ct in work:
        leaves, base, lt = bases[pl]
        xs = list(leaves)
        xs[i] = cv
        total += 1
        inst = "%s: %s, operand %d: %s" % (g.label, pl, i, cl)
        v = parents[pl][1](xs)
        try:
            txt = pi.text(pi.element(v))
        except (Rejected, Unread) as x:
            unread += 1
            notes.append("undecided: %s: %s" % (inst, x))
            continue
        try:
            got = pi.tree(v)
        except ParseError as x:
            res.append((inst, False, "the text %r is not an expression: %s" % (shown(g, txt), x)))
            continue
        want = norm(subst(base, {lt[i]: ct}))
        ok = got == want
        if not ok and g.lang == "rust" and "boolean" not in cl:
            ok = norm(commute(got)) == norm(commute(want))
        res.append((inst, ok, None if ok else "the text %r groups differently from the expression" % shown(g, txt)))
    return res, notes, unread, total, pi.inlined | g.inlined


def shown(g, t):
    for term, ch in g.table.items():
        t = t.replace(ch, str(term.a[0]))
    return t


def run(tier):
    global P
    ck = Check("G03", tier, __doc__)
    P = p = load_core()
    n = len(generators(p, tier == "thorough"))
    with mp.get_context("fork").Pool(8) as pool:
        out = pool.map(one, [(i, tier) for i in range(n)], chunksize=1)
    unread = total = 0
    for res, notes, u, t, fns in out:
        for inst, ok, why in res:
            ck.check(ok, "grouping", inst, "components/core/wf/code_generation", why)
        ck.notes += notes[:20]
        unread, total = unread + u, total + t
        ck.analysed(fns)
    if unread * 2 > total:
        raise AnalysisBroken("the text of %d of %d compositions could not be read" % (unread, total))
    ck.require("grouping", 1000)
    return ck.finish(p)
