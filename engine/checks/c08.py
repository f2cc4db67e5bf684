"""C08: traversal visits every child and rebuild keeps every role.

Every node kind is built through its constructor from named symbols (sub-expressions and other content). Rules:
children() and for_each_child yield exactly the sub-expressions, in order; every instantiation of map_children applies the
operation once to each sub-expression and hands the results and the untouched content to the kind's factory (or
constructor) in the constructor's roles; every tree-walking visitor treats every node kind so (a kind with sub-expressions is
never returned unvisited, and no sub-expression reaches the result without having been visited); predicates over trees look
into every sub-expression; kinds are flagged as leaves exactly when they have none."""
from wfa.program import load_core, AnalysisBroken, walk
from wfa.vg import *
from wfa.shapes import instances, NODES, EXPR, held
from wfa.relate import subterms
from wfa.nodes import build, ctors
from wfa.report import Check

ANY = "std::variant<wf::scalar_expr, wf::matrix_expr, wf::compound_expr, wf::boolean_expr>"
# visitor steps that combine visited children into something else than the same kind of node
COMBINES = {("wf::distribute_visitor", "wf::multiplication"), ("wf::distribute_visitor", "wf::power"),
            ("wf::collect_visitor", "wf::addition")}
# content may change here by design
REPLACES = ("wf::evaluate_visitor", "wf::substitute", "wf::derivative_visitor")
SUM, PRODUCT = "wf::addition", "wf::multiplication"


def run(tier):
    ck = Check("C08", tier, __doc__)
    p = load_core()
    sizes = (2, 3) if tier == "quick" else (2, 3, 4)
    I = {}
    for n in NODES:
        try:
            I["wf::" + n] = instances(p, "wf::" + n, sizes)
        except AnalysisBroken as e:
            ck.notes.append("undecided: no instance of %s: %s" % (n, str(e)[:80]))
    if len(I) < 20:
        raise AnalysisBroken("only %d node kinds could be built" % len(I))
    children(ck, p, I)
    leaf_flags(ck, p, I)
    for_each(ck, p, I)
    rebuilds(ck, p, I)
    product(ck, p)
    visitors(ck, p, I)
    predicates(ck, p, I)
    walkers(ck, p, I)
    ck.require("rebuild", 100)
    ck.require("children", 14)
    return ck.finish(p)


def flat(t):
    """elements of a list/tuple/array term"""
    if t.op == "list":
        return list(t.a)
    if t.op == "obj" and len(t.a) == 3:
        return flat(t.a[2])
    return None


def nm(T_):
    return T_[4:]


def children(ck, p, I):
    for T_, insts in sorted(I.items()):
        fs = [f for f in p.by_rt.get(T_, []) if f.q.endswith("::children") and f.body is not None]
        kids = any(i.kids for i in insts)
        if not fs:
            if kids and "children" in [m["n"] for m in p.recs[T_].get("methods", [])]:
                ck.notes.append("undecided: children() of %s has no body" % T_)
            continue
        for i in insts:
            try:
                ev = Ev(p, {})
                s = ev.summarize(fs[0], this=i.node, args=[])
                ck.analysed(ev.inlined | {fs[0].id})
                got = flat(ev_value(ev, s.val))
            except AnalysisBroken as e:
                ck.notes.append("undecided children of %s: %s" % (i.label, str(e)[:80]))
                continue
            if got is None:
                ck.notes.append("undecided children of %s: %s" % (i.label, show(s.val)[:80]))
                continue
            ck.check(got == i.kids, "children", i.label, fs[0].loc, lambda: "sub-expressions %s, but children() yields %s" % (
                [show(k) for k in i.kids], [show(k) for k in got]))


def ev_value(ev, v):
    return v


def leaf_flags(ck, p, I):
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if f.rt and f.rt.endswith("is_leaf_visitor") and f.q.endswith("::operator()") and f.body is not None and f.params:
            T_ = bare(f.params[0]["t"])
            if T_ not in I:
                continue
            ev = Ev(p, {})
            s = ev.summarize(f, this=mk("sym", "v", f.rt), args=[I[T_][0].node])
            ck.analysed(ev.inlined)
            want = not any(i.kids for i in I[T_])
            if s.val in (TRUE, FALSE) or s.val.op == "c":
                got = s.val is TRUE or (s.val.op == "c" and bool(s.val.a[0]))
                ck.check(got == want, "leaf flag", nm(T_), f.loc, lambda: "%s is flagged as %s" % (nm(T_), "a leaf but has sub-expressions" if got else "a branch but has no sub-expressions"))


def op(x):
    return mk("call", "OP", "", x)


def base_of(V):
    return V.split("<")[0]


class Hook:
    """calls of the operation/visitor on an expression become OP(expr); factories of nodes stay opaque calls"""

    def __init__(self, V, node_rt, root, extra=()):
        self.V, self.rt, self.root = V, node_rt, root
        self.applied = []
        self.opaque = set(extra)

    def is_op(self, f):
        q = f.q
        if not q.endswith("::operator()") and "::operator()<" not in q:
            return False
        if f.rt == self.V:
            return True
        return bool(f.rt) and self.V.startswith("wf::substitute_") and f.rt.startswith("wf::substitute_visitor_base<") and self.V in f.rt

    def __call__(self, ev, st, fr, f, o, al):
        if f.id == self.root:
            return None
        last = f.q.split("<")[0].split("::")[-1] if "operator" not in f.q else ""
        if self.is_op(f) and len(f.params) == 1 and (bare(f.params[0]["t"]) in EXPR or bare(f.params[0]["t"]) == ANY):
            x = ev.argval(st, al[0])
            self.applied.append(x)
            return op(x)
        if f.q.split("<")[0] == "wf::visit" and len(al) == 2:
            x = ev.argval(st, al[0])
            self.applied.append(x)
            return op(x)
        if last == "attempt_partial":
            return op(ev.argval(st, al[0]))
        if f.ret in EXPR and o is None and f.body is not None:
            if f.rt and f.rt.startswith("wf::") and f.rt[4:] in NODES and last not in ("map_children",) and not f.ctor:
                return mk("call", "factory:" + f.q, "", *[ev.argval(st, a) for a in al])
            if f.q == "wf::iverson":
                return mk("call", "factory:" + f.q, "", *[ev.argval(st, a) for a in al])
        if "is_identical_to" in f.q and f.rt and "boolean" in f.rt and al:
            pass
        return None


def mapped(i, kids=None):
    m = {k: op(k) for k in i.kids} if kids is None else kids

    def go(t):
        if t in m:
            return m[t]
        if t.op == "list":
            return mk("list", *[go(x) for x in t.a])
        return t
    return [go(a) for a in i.args]


def strict(p, i, t, visitor=None):
    """t rebuilds instance i with every child replaced by OP(child): True / False / None (cannot tell)"""
    T_ = i.rt
    if t.op == "call" and t.a[0].startswith("factory:"):
        q = t.a[0][8:].split("<")[0]
        args = list(t.a[2:])
        if T_ == "wf::iverson_bracket":
            return args == [op(i.kids[0])] if q == "wf::iverson" or q.startswith(T_ + "::") else None
        if not q.startswith(T_ + "::"):
            return None
        if T_ in (SUM, PRODUCT):
            if len(args) == 2 and args[0].op == "list" and args[1].op == "sym" and args[1].a[0] in ("operation", "vis"):
                return list(args[0].a) == i.kids
            got = flat(args[0]) if len(args) == 1 else args
            if got is None:
                return None
            return sorted(map(repr, map(id, got))) == sorted(map(repr, map(id, [op(k) for k in i.kids])))
        want = [a for a in mapped(i) if not (a.op == "sym" and "no_sort" in str(a.a[1:]))]
        got = args
        if len(got) == len(want) and all(same(a, b) for a, b in zip(got, want)):
            return True
        # a trailing list passed as separate arguments or vice versa
        fg, fw = [], []
        for x in got:
            fg += list(x.a) if x.op == "list" else [x]
        for x in want:
            fw += list(x.a) if x.op == "list" else [x]
        return fg == fw
    c = contents(t)
    if c is not None and c.op == "obj" and c.a[0] == T_:
        d, e = dict(zip(c.a[1], c.a[2:])), None
        want = rebuilt(p, i)
        if want is None:
            return None
        e = dict(zip(want.a[1], want.a[2:]))
        return all(same(d.get(k), e[k]) for k in e)
    return None


def same(a, b):
    if a is b:
        return True
    if a is None or b is None:
        return False
    if a.op == "sorted":
        a = a.a[0]
    if b.op == "sorted":
        b = b.a[0]
    if a is b:
        return True
    fa, fb = flat(a), flat(b)
    if fa is not None and fb is not None:
        return fa == fb
    return False


def contents(t):
    """the node stored in a freshly made holder"""
    n = 0
    while t.op == "obj" and n < 4:
        d = dict(zip(t.a[1], t.a[2:]))
        if "model<" in t.a[0]:
            for k, v in d.items():
                if "content" in k or (v.op == "obj" and v.a[0].startswith("wf::") and v.a[0][4:] in NODES):
                    return v
            return None
        if len(d) != 1:
            return None
        t = list(d.values())[0]
        n += 1
    return None


_rb = {}


def rewrite(t, memo=None):
    """a call through a function pointer parameter is the operation too"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    a = [rewrite(x, memo) if type(x) is T else x for x in t.a]
    if t.op == "call" and t.a[0] == "<apply>" and len(a) == 4 and a[2].op == "sym" and a[2].a[0] == "operation":
        r = op(a[3])
    else:
        r = t if all(x is y for x, y in zip(a, t.a)) else mk(t.op, *a)
    memo[t] = r
    return r


def rebuilt(p, i):
    key = (id(p), i.label, tuple(i.args))
    if key not in _rb:
        try:
            cs = [c for c in ctors(p, i.rt) if len(c.params) == len(i.args)]
            r = None
            for c in cs:
                try:
                    o = build(p, i.rt, i.args, lambda f: f is c)
                except AnalysisBroken:
                    continue
                if o is i.node:
                    r = build(p, i.rt, mapped(i), lambda f: f is c)
                    break
            _rb[key] = r
        except AnalysisBroken:
            _rb[key] = None
    return _rb[key]


def leaves_of(t, out=None, guards=()):
    if out is None:
        out = []
    if t.op == "ite":
        leaves_of(t.a[1], out, guards + ((t.a[0], True),))
        leaves_of(t.a[2], out, guards + ((t.a[0], False),))
    else:
        out.append((guards, t))
    return out


def conditional_cases(i, t):
    """verdict of the rebuild of a conditional for a condition that became true, false or stayed open"""
    c = i.kids[0]
    out = {}
    for case in ("true", "false", "open"):
        def truth(g):
            if g.op == "not":
                return not truth(g.a[0])
            if g.op == "and":
                return all(truth(x) for x in g.a)
            if g.op == "or":
                return any(truth(x) for x in g.a)
            if g is TRUE or g is FALSE:
                return g is TRUE
            txt = {str(x.a[0]) for x in subterms(g) if x.op == "glob"}
            if "wf::constants::boolean_true" in txt:
                return case == "true"
            if "wf::constants::boolean_false" in txt:
                return case == "false"
            return None

        def pick(t):
            while t.op == "ite":
                v = truth3(t.a[0])
                if v is None:
                    return None
                t = t.a[1] if v else t.a[2]
            return t

        def truth3(g):
            try:
                v = truth(g)
            except TypeError:
                v = None
            return v
        out[case] = pick(t)
    return out


def rebuild_verdict(p, i, val):
    """None if undecided, else '' (right) or what is wrong"""
    val = rewrite(val)
    if i.rt == "wf::conditional":
        cs = conditional_cases(i, val)
        if any(v is None for v in cs.values()):
            return None
        if cs["true"] is not op(i.kids[1]) and strict(p, i, cs["true"]) is not True:
            return "a condition that became true yields %s" % show(cs["true"])[:100]
        if cs["false"] is not op(i.kids[2]) and strict(p, i, cs["false"]) is not True:
            return "a condition that became false yields %s" % show(cs["false"])[:100]
        v = strict(p, i, cs["open"])
        return None if v is None else "" if v else "the parts are put together as %s" % show(cs["open"])[:140]
    bad = None
    for g, t in leaves_of(val):
        if t.op == "unreachable":
            continue
        v = strict(p, i, t)
        if v is None:
            return None
        if not v:
            bad = "the parts are put together as %s" % show(t)[:140]
    return bad or ""


def rebuilds(ck, p, I):
    n = 0
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if not f.q.split("<")[0].endswith("::map_children") or f.body is None or f.rt not in I:
            continue
        F = bare(f.params[0]["t"])
        for i in I[f.rt]:
            hook = Hook(F, f.rt, f.id)
            try:
                ev = Ev(p, {}, hook=pointer_op(hook))
                s = ev.summarize(f, this=i.node, args=[mk("sym", "operation", F)])
            except AnalysisBroken as e:
                ck.notes.append("undecided rebuild of %s: %s" % (i.label, str(e)[:80]))
                continue
            ck.analysed(ev.inlined | {f.id})
            inst = "%s with %s" % (i.label, F.replace("wf::", "")[:60])
            w = rebuild_verdict(p, i, s.val)
            if w is None:
                w = kid_scan(i, s.val)
                if w == "":
                    ck.notes.append("undecided rebuild of %s: %s" % (inst, show(s.val)[:80]))
                    continue
            ck.check(w == "", "rebuild", inst, f.loc, lambda: w)
            if i.rt not in ("wf::conditional", PRODUCT):
                twice = [k for k in i.kids if hook.applied.count(k) > 1]
                ck.check(not twice, "rebuild once", inst, f.loc, lambda: "the operation is applied %d times to %s" % (hook.applied.count(twice[0]), show(twice[0])))
            n += 1


def pointer_op(hook):
    return hook


def raw_kids(i, t):
    """children that occur in t outside any visited form"""
    out, seen = set(), set()

    def go(t):
        if t in seen:
            return
        seen.add(t)
        if t.op == "call" and t.a[0] == "OP":
            return
        if t.op == "call" and t.a[0].startswith("factory:") and any(x.op == "sym" and x.a[0] in ("operation", "vis") for x in t.a[2:]):
            for x in t.a[2:]:
                if x.op != "list":
                    go(x)
            return
        if t in i.kids:
            out.add(t)
        for x in t.a:
            if type(x) is T:
                go(x)
    go(t)
    return out


def visited_kids(i, t):
    out = set()
    for x in subterms(t):
        if x.op == "call" and x.a[0] == "OP":
            out |= {k for k in i.kids if k in subterms(x)}
        if x.op == "call" and x.a[0].startswith("factory:") and any(y.op == "sym" and y.a[0] in ("operation", "vis") for y in x.a[2:]):
            out |= {k for k in i.kids if k in subterms(x)}
    return out


def kid_scan(i, val):
    r = raw_kids(i, val)
    if r:
        return "sub-expression %s reaches the result without being visited" % show(sorted(r, key=show)[0])
    miss = [k for k in i.kids if k not in visited_kids(i, val)]
    if miss:
        return "sub-expression %s is dropped" % show(miss[0])
    return ""


def product(ck, p):
    """products are rebuilt from their operands while applying the operation"""
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if f.q.split("<")[0] != "wf::multiplication::from_operands" or len(f.params) != 2 or f.body is None:
            continue
        F = bare(f.params[1]["t"])
        for k in (1, 2, 3):
            xs = [mk("sym", "t%d" % j, "wf::scalar_expr") for j in range(k)]
            hook = Hook(F, PRODUCT, f.id)
            got = []

            def h(ev, st, fr, g, o, al):
                if g.q.startswith("wf::multiplication_parts::") and not g.ctor and g.id != f.id:
                    if g.q.endswith("multiply_term") or (g.q.endswith("operator()") and al):
                        got.append(ev.argval(st, al[0]))
                        return mk("void")
                    if g.ret in EXPR:
                        return mk("call", "product", "")
                    return mk("void")
                return hook(ev, st, fr, g, o, al)
            try:
                ev = Ev(p, {}, hook=h)
                s = ev.summarize(f, args=[mk("list", *xs), mk("sym", "operation", F)])
            except AnalysisBroken as e:
                ck.notes.append("undecided product rebuild: %s" % str(e)[:80])
                continue
            ck.analysed(ev.inlined | {f.id})
            inst = "product of %d with %s" % (k, F.replace("wf::", "")[:60])
            want = [op(x) for x in xs]
            if s.val.op == "call" and s.val.a[0] == "product":
                ck.check(sorted(map(show, got)) == sorted(map(show, want)), "rebuild", inst, f.loc, lambda: "the product is made of %s" % [show(x) for x in got])
            elif s.val.op == "call" and s.val.a[0].startswith("factory:"):
                args = []
                for a in s.val.a[2:]:
                    args += list(a.a) if a.op == "list" else [a]
                ck.check(sorted(map(show, args)) == sorted(map(show, want)), "rebuild", inst, f.loc, lambda: "the product is made of %s" % [show(x) for x in args])
            elif k == 1:
                ck.check(s.val is want[0], "rebuild", inst, f.loc, lambda: "one operand yields %s" % show(s.val)[:80])
            else:
                ck.notes.append("undecided %s: %s" % (inst, show(s.val)[:80]))


def for_each(ck, p, I):
    """for_each_child calls the function on every child, in order, once"""
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if f.q.split("<")[0] != "wf::for_each_child" or f.body is None or bare(f.params[0]["t"]) not in I:
            continue
        T_ = bare(f.params[0]["t"])
        F = bare(f.params[1]["t"])
        for i in I[T_]:
            got = []

            def h(ev, st, fr, g, o, al):
                if g.rt == F and g.q.split("::")[-1].startswith("operator()") or g.rt == F and "::operator()" in g.q and not g.ctor:
                    got.append(ev.argval(st, al[0]))
                    return mk("void")
                return None
            try:
                ev = Ev(p, {}, hook=h)
                ev.summarize(f, args=[i.node, mk("sym", "func", F)])
            except AnalysisBroken as e:
                ck.notes.append("undecided for_each_child of %s: %s" % (i.label, str(e)[:80]))
                continue
            ck.analysed(ev.inlined | {f.id})
            got = [unany(x) for x in got]
            if not got and i.kids and "lambda" in F:
                ck.notes.append("undecided for_each_child of %s" % i.label)
                continue
            ck.check(got == i.kids, "for each child", "%s (%s)" % (i.label, F.split("::")[-1][:40]), f.loc,
                     lambda: "visits %s instead of %s" % ([show(x) for x in got], [show(k) for k in i.kids]))


def unany(x):
    while x.op in ("as", "deref"):
        x = x.a[0]
    return x


def visitor_classes(p):
    out = set()
    for f in p.fns.values():
        if f.q.split("<")[0].endswith("::map_children") and f.body is not None:
            F = bare(f.params[0]["t"])
            if F.startswith("wf::") and "(" not in F and F != "wf::derivative_visitor":
                out.add(F)
    return sorted(out)


def visitors(ck, p, I):
    n = 0
    for V in visitor_classes(p):
        steps = [f for f in p.fns.values() if f.body is not None and f.params and f.q.split("<")[0].split("::")[-1].startswith("operator()") or False]
        steps = [f for f in p.fns.values() if f.body is not None and f.params and Hook(V, "", 0).is_op(f) and bare(f.params[0]["t"]) in I]
        for f in sorted(steps, key=lambda f: f.id):
            T_ = bare(f.params[0]["t"])
            for i in I[T_][-1:] + [x for x in I[T_][:-1] if T_ in (SUM, PRODUCT)]:
                hook = Hook(V, T_, f.id)
                expr = mk("sym", "expr", bare(f.params[1]["t"])) if len(f.params) > 1 else None
                try:
                    ev = Ev(p, {}, hook=hook)
                    s = ev.summarize(f, this=mk("sym", "vis", f.rt), args=[i.node] + ([expr] if expr is not None else []))
                except AnalysisBroken as e:
                    ck.notes.append("undecided step of %s on %s: %s" % (nm(V), i.label, str(e)[:80]))
                    continue
                ck.analysed(ev.inlined | {f.id})
                inst = "%s on %s" % (nm(V).replace("wf::", "")[:70], i.label)
                w = step_verdict(ck, p, i, V, s.val, expr)
                if w is None:
                    ck.notes.append("undecided step of %s: %s" % (inst, show(s.val)[:80]))
                    continue
                n += 1
                ck.check(w == "", "visitor step", inst, f.loc, lambda: w)
    if n < 100:
        raise AnalysisBroken("only %d visitor steps were read" % n)


def step_verdict(ck, p, i, V, val, expr):
    if not i.kids:
        if V.startswith(REPLACES):
            return ""
        for g, t in leaves_of(val):
            if expr is not None and t is not expr and t.op != "unreachable":
                return None
        return ""
    if V.startswith("wf::substitute_") and V != "wf::substitute_variables_visitor":
        w = ""
        for g, t in leaves_of(val):
            if t.op == "unreachable":
                continue
            if expr is not None and t is expr:
                return "returned unchanged without visiting its sub-expressions"
            r = raw_kids(i, t)
            if r:
                return "sub-expression %s reaches the result without being visited" % show(sorted(r, key=show)[0])
            v = strict(p, i, t) if i.rt != "wf::conditional" else None
            if v is False and t.op == "call" and t.a[0].startswith("factory:"):
                w = "the parts are put together as %s" % show(t)[:140]
        return w
    for g, t in leaves_of(val):
        if expr is not None and t is expr:
            return "returned unchanged without visiting its sub-expressions"
    if (V, i.rt) in COMBINES:
        r = raw_kids(i, val)
        if r:
            return "sub-expression %s reaches the result without being visited" % show(sorted(r, key=show)[0])
        miss = [k for k in i.kids if k not in visited_kids(i, val)]
        return "sub-expression %s is dropped" % show(miss[0]) if miss else ""
    if all(t.op == "unreachable" for g, t in leaves_of(val)):
        return ""
    w = rebuild_verdict(p, i, val)
    if w is not None:
        return w
    # a replacement is recorded next to the rebuilt node: every construction of this kind inside must be right
    ms = [t for t in subterms(val) if (t.op == "call" and t.a[0].startswith("factory:" + i.rt + "::"))]
    r = raw_kids(i, val)
    if r:
        return "sub-expression %s reaches the result without being visited" % show(sorted(r, key=show)[0])
    for t in ms:
        if i.rt != "wf::conditional" and strict(p, i, t) is False:
            return "the parts are put together as %s" % show(t)[:140]
    if ms or visited_kids(i, val) == set(i.kids):
        return ""
    miss = [k for k in i.kids if k not in visited_kids(i, val)]
    return "sub-expression %s is dropped" % show(miss[0]) if miss else None


def predicates(ck, p, I):
    """'does this expression contain ...' looks into every child"""
    n = 0
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if not f.rt or not f.rt.startswith("wf::is_function_of_visitor<") or f.ret != "bool" or f.body is None or not f.params:
            continue
        T_ = bare(f.params[0]["t"])
        if T_ not in I:
            continue
        for i in I[T_][-1:]:
            if not i.kids:
                continue

            def h(ev, st, fr, g, o, al):
                if g.id == f.id:
                    return None
                if (g.rt == f.rt and g.q.split("<")[0].endswith("operator()")) or g.q.split("<")[0] == "wf::visit":
                    return mk("call", "OP", "", ev.argval(st, al[0]))
                return None
            try:
                ev = Ev(p, {}, hook=h)
                s = ev.summarize(f, this=mk("sym", "vis", f.rt), args=[i.node])
            except AnalysisBroken as e:
                ck.notes.append("undecided predicate on %s: %s" % (i.label, str(e)[:80]))
                continue
            ck.analysed(ev.inlined | {f.id})
            n += 1
            inst = "%s on %s" % (f.rt[4:].replace("wf::", "")[:60], i.label)
            for k in i.kids:
                v = truth_with(s.val, k)
                if v is None:
                    ck.notes.append("undecided predicate %s" % inst)
                    break
                ck.check(v, "contains", inst, f.loc, lambda: "an occurrence inside %s is not found" % show(k))
    if n == 0:
        ck.notes.append("no containment predicate was read")


def truth_with(t, k):
    """value of predicate t when only child k contains the target (a direct match of the whole node: no)"""
    def ev(t):
        if t is TRUE or t is FALSE:
            return t is TRUE
        if t.op == "call" and t.a[0] == "OP":
            x = unany(t.a[2])
            if x.op == "at" and x.a[0].op == "list":
                i = env.get(x.a[1]) if x.a[1].op == "idx" else (x.a[1].a[0] if x.a[1].op == "c" else None)
                x = x.a[0].a[i] if i is not None else x
            return x is k
        if t.op == "not":
            return not ev(t.a[0])
        if t.op == "and":
            return all(ev(x) for x in t.a)
        if t.op == "or":
            return any(ev(x) for x in t.a)
        if t.op == "ite":
            return ev(t.a[1] if ev(t.a[0]) else t.a[2])
        if t.op == "eq" and (t.a[0] in (TRUE, FALSE) or t.a[1] in (TRUE, FALSE)):
            a, b = t.a if t.a[0] in (TRUE, FALSE) else t.a[::-1]
            return ev(b) == (a is TRUE)
        if t.op == "exists" and t.a[1].op == "c":
            for j in range(t.a[1].a[0]):
                env[mk("idx", t.a[0])] = j
                if ev(t.a[2]):
                    return True
            return False
        return False
    env = {}
    return ev(t)


WALKERS = ("wf::counter_visitor", "wf::get_expressions_by_predicate_visitor")


def walkers(ck, p, I):
    """visitors that walk a tree without rebuilding it hand every child on"""
    n = 0
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if not f.rt or base_of(f.rt) not in WALKERS or not f.q.split("<")[0].endswith(("operator()", "visitor")) or "::operator()" not in f.q or f.body is None or not f.params:
            continue
        T_ = bare(f.params[0]["t"])
        if T_ not in I or f.ctor:
            continue
        for i in I[T_]:
            if not i.kids:
                continue
            got = []

            def h(ev, st, fr, g, o, al):
                if g.id == f.id:
                    return None
                own = g.rt == f.rt
                if (own or g.q.split("<")[0] == "wf::visit") and al and g.params and (bare(g.params[0]["t"]) in EXPR or bare(g.params[0]["t"]) == ANY):
                    got.append((unany(ev.argval(st, al[0])), st.path))
                    return mk("void") if g.ret == "void" else mk("call", "OP", "", ev.argval(st, al[0]))
                return None
            try:
                ev = Ev(p, {}, hook=h, max_depth=14, budget=60000)
                ev.summarize(f, this=mk("sym", "vis", f.rt), args=[i.node] + [mk("sym", "x%d" % k, q["t"]) for k, q in enumerate(f.params[1:])])
            except AnalysisBroken as e:
                ck.notes.append("undecided walk of %s over %s: %s" % (nm(f.rt)[:40], i.label, str(e)[:80]))
                continue
            ck.analysed(ev.inlined | {f.id})
            n += 1
            inst = "%s over %s" % (nm(f.rt)[:40], i.label)
            seen = {x for x, g in got} | {y for x, g in got for y in subterms(x)}
            miss = [k for k in i.kids if k not in seen]
            ck.check(not miss, "walk", inst, f.loc, lambda: "sub-expression %s is not visited" % show(miss[0]))
    if n < 30:
        raise AnalysisBroken("only %d walks were read" % n)
