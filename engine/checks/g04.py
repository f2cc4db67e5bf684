"""G04: generated arithmetic is type-consistent.

Every conversion step of the symbolic form is evaluated on sample nodes whose sub-expressions are values of each numeric
type; the value graph it pushes is typed bottom-up: the operands of each operation must have the type the operation works
in, and every inserted conversion must widen. The declared-output step is evaluated for every declared type."""
import itertools
from wfa.program import load_core, AnalysisBroken
from wfa.vg import *
from wfa.lower import parts, numeric, strip, fields, NUM, IFV
from wfa.lowercases import cases, Maker, F, I, B, SHORT
from wfa.emit import Rejected, Unread, scalar_type, matrix_type, en
from wfa.nodes import build
from wfa.report import Check

RANK = {B: 0, I: 1, F: 2}
ROUND = ("floor", "signum")


def tn(ty):
    return numeric(ty) or show(ty, 3)[:60]


def faults(v, case, declared=False, seen=None):
    """type errors in the operations a conversion step pushed"""
    seen = set() if seen is None else seen
    if v in seen or v in case.m.valf:
        return []
    seen.add(v)
    k, o, ops, ty = parts(v)
    ts = [parts(x)[3] for x in ops]
    ns = [numeric(t) for t in ts]
    me = numeric(ty)
    out = []

    def want(c, why):
        if not c:
            out.append("%s %s of (%s): %s" % (tn(ty), k, ", ".join(tn(t) for t in ts), why))
    if k in ("add", "mul"):
        want(me in (I, F) and all(n == me for n in ns), "operands and result must have one arithmetic type")
    elif k == "neg":
        want(me in (I, F) and ns == [me], "operand and result must have one arithmetic type")
    elif k == "div":
        want(me == F and ns == [F, F], "division works on floating-point operands")
    elif k == "compare":
        want(me == B, "a comparison is boolean")
        want(len(ns) == 2 and ns[0] is not None and ns[0] == ns[1], "both sides must have the same type")
    elif k == "cond":
        want(len(ts) == 3 and ns[0] == B, "the condition must be boolean")
        want(len(ts) == 3 and ts[1] is ty and ts[2] is ty, "both branches must have the type of the result")
    elif k == "cast":
        dst = o.a[2].a[0].rsplit("::", 1)[-1] if o.a[2].op == "enum" else None
        want(dst == me, "the conversion's target is not the type of the value")
        want(ns[0] in RANK and me in RANK, "only scalars are converted")
        if ns[0] in RANK and me in RANK:
            want(RANK[ns[0]] < RANK[me] or (declared and ns[0] != me), "the conversion does not widen")
    elif k == "call_std_function":
        n = o.a[2].a[0].rsplit("::", 1)[-1]
        if n == "abs":
            want(ns == [me], "abs keeps the type of its argument")
        elif n == "powi":
            want(ns == [F, I] and me == F, "powi takes a floating-point base and an integral exponent")
        else:
            want(all(x == F for x in ns), "%s operates on floating-point arguments" % n)
            want(me == (I if n in ROUND else F), "%s returns %s" % (n, I if n in ROUND else F))
    elif k == "construct":
        t = ty
        if t.op == "obj" and t.a[0] == "wf::matrix_type":
            want(all(n == F for n in ns), "matrix elements are floating point")
            r, c = fields(t).values()
            if r.op == "c" and c.op == "c":
                want(len(ns) == r.a[0] * c.a[0], "one operand per element")
        elif getattr(case, "members", None) is not None:
            want(ns == list(case.members), "members have the declared types (%s)" % ", ".join(case.members))
    elif k == "call_external_function":
        if getattr(case, "members", None) is not None:
            want(len(ts) == len(case.members) and all(a is b for a, b in zip(ts, case.members)), "arguments have the declared types (%s)" % ", ".join(tn(t) for t in case.members))
    elif k == "load":
        c = o.a[2]
        while c.op == "obj" and c.a[0].startswith("std::variant"):
            c = c.a[2]
        w = {"wf::integer_constant": I, "wf::rational_constant": F, "wf::float_constant": F, "wf::symbolic_constant": F, "wf::boolean_constant": B}.get(c.a[0] if c.op == "obj" else "")
        if w is not None:
            want(me == w, "a constant of kind %s is %s" % (c.a[0][4:], w))
    for x in ops:
        # the declared type of an argument or field may ask for a narrowing conversion
        out += faults(x, case, k == "call_external_function" or (k == "construct" and not (ty.op == "obj" and ty.a[0] == "wf::matrix_type")), seen)
    return out


def run(tier):
    ck = Check("G04", tier, __doc__)
    p = load_core()
    unread, total = 0, 0
    for c in cases(p, tier):
        total += 1
        inst = "%s %s" % (c.kind, c.label)
        ck.analysed(c.m.L.inlined)
        if c.problem:
            if c.problem[0] == "unread":
                unread += 1
                ck.notes.append("not decided: %s: %s" % (inst, c.problem[1][:120]))
            else:
                ck.notes.append("rejected: %s: %s" % (inst, c.problem[1][:120]))
            continue
        try:
            fs = faults(c.value, c)
            if c.want is not None:
                ty = parts(c.value)[3]
                w = c.m.L.st[c.want] if type(c.want) is str else c.want
                if ty is not w:
                    fs.append("the value has type %s, expected %s" % (tn(ty), tn(w)))
        except Unread as e:
            unread += 1
            ck.notes.append("not decided: %s: %s" % (inst, e))
            continue
        ck.check(not fs, "operand types", inst, c.fn.loc, lambda: "; ".join(fs))
    if unread * 2 > total:
        raise AnalysisBroken("%d of %d conversions could not be read: %s" % (unread, total, ck.notes[0]))
    outputs(ck, p)
    ck.require("operand types", 200)
    return ck.finish(p)


def outputs(ck, p):
    """declared outputs and the conversion helper"""
    fs = [f for f in p.method(IFV, "add_output_value")]
    if len(fs) != 1:
        raise AnalysisBroken("ir_form_visitor has %d output steps" % len(fs))
    f = fs[0]
    from wfa.lower import Lower
    for have, decl in itertools.product(NUM, NUM):
        m = Maker(p)
        x = m.var("x", have)
        key = obj("wf::output_key", {n["n"]: mk("sym", n["n"], n["t"]) for n in p.rec("wf::output_key")["fields"]})
        inst = "%s value, declared %s" % (have, decl)
        try:
            try:
                m.L.run(f, [key, x, scalar_type(p, decl)])
            except Unread as e:
                if "operand" in str(e):
                    raise
                raise
            pushed = m.L.pushed
            saves = [v for v in pushed if parts(v)[0] == "save"]
            if len(saves) != 1:
                ck.bad("declared output", inst, f.loc, "%d values are saved for one declared output" % len(saves))
                continue
            k, o, ops, ty = parts(saves[0])
            src = parts(ops[0])
            good = numeric(src[3]) == decl
            ck.check(good, "declared output", inst, f.loc, lambda: "the saved value has type %s" % tn(src[3]))
            # conversions: exactly when the types differ
            casts = [v for v in pushed if parts(v)[0] == "cast"]
            ck.check(len(casts) == (0 if have == decl else 1), "declared output conversion", inst, f.loc, lambda: "%d conversions" % len(casts))
        except (Unread, Rejected) as e:
            ck.notes.append("not decided: %s: %s" % (inst, e))
    # the conversion cache must distinguish source value and target type
    g = [f for f in p.method(IFV, "maybe_cast")]
    if len(g) != 1:
        return
    g = g[0]
    for a, b in itertools.product(NUM, NUM):
        for same in (True, False):
            m = Maker(p)
            x, y = m.var("x", B), m.var("y", B)
            vx = m.L.kid[x]
            vy = vx if same else m.L.kid[y]
            seq = []
            try:
                th = m.L.this()
                for v, t in ((vx, a), (vy, b)):
                    r, th = step(m.L, g, th, v, t)
                    seq.append(strip(r))
                for v, t, r in zip((vx, vy), (a, b), seq):
                    k, o, ops, ty = parts(r)
                    src = r if t == B else ops[0]
                    ck.check(numeric(ty) == t and src is v, "repeated conversion", "%s then %s of %s value" % (a, b, "one" if same else "another"), g.loc,
                             lambda: "converting to %s yields a %s of %s" % (t, tn(ty), show(o, 3)[:60]))
            except (Unread, Rejected) as e:
                ck.notes.append("not decided: conversions %s, %s: %s" % (a, b, e))


def step(L, f, this, v, t):
    from wfa import ir
    L.pushed, L.asked = [], []
    ev = Ev(L.p, L.prims, hook=L.hook, max_depth=200)
    s = ev.summarize(f, this=this, args=[ir.nn("wf::ir::value *", v), en(L.p, "wf::numeric_primitive_type", t)])
    L.inlined |= ev.inlined
    if any(e.guard is not FALSE for e in s.throws):
        raise Unread("conditional error")
    return s.val, s.this
