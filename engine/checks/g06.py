"""G06: expressions without a meaning in the target language are rejected with a type error.

Every generator's handler for an element kind its language cannot express, and every conversion step of the symbolic
form for a node kind that has no code, is evaluated: no path may reach the end of the function."""
from wfa.program import load_core, AnalysisBroken
from wfa.vg import *
from wfa.gen import rendered
from wfa.report import Check

IFV = "wf::ir_form_visitor"
NO_CODE = ("complex_infinity", "derivative", "imaginary_unit", "substitution", "symbolic_function_invocation", "undefined", "unique_variable")


def exit_kinds(s):
    return [e for e in s.throws]


def run(tier):
    ck = Check("G06", tier, __doc__)
    p = load_core()
    for o in rendered(p, ck, tier):
        if o.c.kind != "reject" or o.status == "unread":
            continue
        err = o.status == "rejected" and "wf::type_error" in o.why
        ck.check(o.status == "rejected", "generator", o.inst, o.where,
                 lambda: "text %r is emitted for an element this generator has no type for" % (o.shown(),))
        if o.status == "rejected":
            ck.check(err, "generator error", o.inst, o.where, lambda: "raises %s, not a type error" % o.why)
    ck.require("generator", 6)
    conversion(ck, p)
    return ck.finish(p)


def conversion(ck, p):
    kinds = [k for k in NO_CODE]
    for k in kinds:
        hs = [f for f in p.method(IFV, "operator()") if f.params and bare(f.params[0]["t"]) == "wf::" + k]
        if not hs:
            raise AnalysisBroken("ir_form_visitor has no step for " + k)
        for f in hs:
            ev = Ev(p, {})
            s = ev.summarize(f, this=mk("sym", "this", IFV), args=[mk("sym", "x%d" % i, x["t"]) for i, x in enumerate(f.params)])
            ck.analysed(ev.inlined)
            done = s.val is not None and s.val.op not in ("void", "bottom", "unreachable") and not any(e.guard is TRUE for e in s.throws)
            ck.check(not done, "conversion", k, f.loc, lambda: "a %s can be turned into a value of the generated function" % k)
            if not done:
                bad = [e for e in s.throws if "type_error" not in show(e.val)]
                ck.check(not bad, "conversion error", k, f.loc, lambda: "raises %s, not a type error" % show(bad[0].val)[:80])
    ck.require("conversion", len(NO_CODE))
