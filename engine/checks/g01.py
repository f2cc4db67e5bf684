"""G01: every function, constant, comparison and conversion keeps its meaning from symbolic form to generated text.

(1) lowering: the value graph each conversion step pushes, read bottom-up as a formula, equals the formula of the
expression it was given;  (2) raising: the expression each value-graph operation is turned back into denotes the
operation;  (3) carrying: every operation becomes the syntax element of the same function, comparison or type;
(4) emission: the text each generator emits is exactly the target language's spelling."""
import itertools
import sympy as sp
from wfa.program import load_core, AnalysisBroken
from wfa.vg import *
from wfa import ir, algebra
from wfa.lower import numeric
from wfa.lowercases import cases, FN, STDFN, SYM, Where, Iver, Trunc, F, I, B
from wfa.interp import Interp, equal_at
from wfa.algebra import Unknown
from wfa.emit import Rejected, Unread, scalar_type, matrix_type, custom_type, external_function, argument, en, generators, contents
from wfa.compose import Maker as PMaker, Pipe
from wfa.gen import rendered
from wfa.target import norm, parsed
from wfa.lang import ParseError
from wfa.nodes import build
from wfa.report import Check

R = sp.Rational
EXV = "wf::expression_from_ir_visitor"


def points(f):
    syms = sorted(f.free_symbols, key=lambda s: s.name)
    base = [R(3, 7), R(5, 11), R(2, 13), R(7, 17)]
    return [{s: base[(i + k) % 4] + k for i, s in enumerate(syms)} for k in range(2)]


def close(x, y):
    if x == y:
        return True
    return equal_at(x, y, points(x - y))


def run(tier):
    ck = Check("G01", tier, __doc__)
    p = load_core()
    lowering(ck, p, tier)
    raising(ck, p)
    emission(ck, p, tier)
    carrying(ck, p)
    ck.require("lowering", 300)
    ck.require("raising", 30)
    ck.require("emission", 800)
    return ck.finish(p)


# ---- symbolic form -> value graph ----------------------------------------------------------------
def lowering(ck, p, tier):
    unread = total = 0
    for c in cases(p, tier):
        total += 1
        inst = "%s %s" % (c.kind, c.label)
        ck.analysed(c.m.L.inlined)
        if c.problem and c.problem[0] == "rejected":
            ck.bad("lowering", inst, c.fn.loc, "no value is produced: %s" % c.problem[1])
            continue
        try:
            if c.problem:
                raise Unread(c.problem[1])
            if c.kind in ("variable", "function_argument_variable"):
                # the load must carry the very node
                from wfa.lower import parts
                k, o, ops, ty = parts(c.value)
                t = o.a[2] if k == "load" else None
                while t is not None and t.op == "obj" and t.a[0].startswith("std::variant"):
                    t = t.a[2]
                ck.check(t is c.expr, "lowering", inst, c.fn.loc, lambda: "the value does not read this input but %s" % show(c.value, 4)[:100])
                continue
            f = c.m.formula(c.value)
        except Unread as e:
            unread += 1
            ck.notes.append("not decided: %s: %s" % (inst, str(e)[:120]))
            continue
        ck.check(close(f, c.expected), "lowering", inst, c.fn.loc, lambda: "the values computed amount to %s, the expression is %s" % (f, c.expected))
    if unread * 2 > total:
        raise AnalysisBroken("%d of %d conversions could not be read: %s" % (unread, total, ck.notes[0]))


# ---- value graph -> symbolic form ----------------------------------------------------------------
def raising(ck, p):
    hs = {}
    for f in p.method(EXV, "operator()"):
        t = bare(f.params[0]["t"]) if f.params else ""
        if t.startswith("wf::ir::"):
            hs.setdefault(t[8:], []).append(f)
    if not hs:
        raise AnalysisBroken("no visitor turns the value graph back into expressions")
    prims = dict(algebra.PRIMS)
    for q in ("wf::relational::create", "wf::iverson", "wf::matrix_expr::create", "wf::custom_type_construction::create", "wf::compound_expression_element::create"):
        prims[q] = PURE
    st = {t: scalar_type(p, t) for t in (F, I, B)}

    def one(opname, label, o, tys, expected, kind="wf::scalar_expr", rty=F):
        fs = hs.get(opname, [])
        inst = "%s %s" % (opname, label)
        if len(fs) != 1:
            ck.notes.append("not decided: %s has %d steps" % (opname, len(fs)))
            return
        f = fs[0]
        env, vals, table = {}, [], {}
        for i, t in enumerate(tys):
            ty = st.get(t, t) if type(t) is str else t
            v = ir.value(p, ir.op(p, "load", variant_=mk("sym", "u%d" % i, "wf::variable")), [], ty)
            w = "wf::boolean_expr" if t == B else "wf::scalar_expr" if type(t) is str else "wf::matrix_expr" if ty.a[0] == "wf::matrix_type" else "wf::compound_expr"
            e = mk("sym", "e%d" % i, w)
            env[e] = sp.Symbol("e%d" % i, positive=True)
            vals.append(v)
            table[v] = e
        xs = list(env.values())
        out = ir.value(p, o, vals, st.get(rty, rty) if type(rty) is str else rty)
        ops = dict(zip(out.a[1], out.a[2:]))["operands_"]
        cond = mk("sym", "cond", "wf::boolean_expr")
        env[cond] = sp.Symbol("cond", positive=True)
        cv = ir.value(p, ir.op(p, "load", variant_=mk("sym", "uc", "wf::variable")), [], st[B])
        table[cv] = cond
        jump = ir.value(p, ir.op(p, "jump_condition"), [cv], st[B])

        def hook(ev, s, fr, g, olv, al):
            last = g.q.split("<")[0].rsplit("::", 1)[-1]
            if last in ("map_value", "map_value_to_variant"):
                v = ev.argval(s, al[0])
                while v.op == "lvref" or (v.op == "obj" and v.a[0] != ir.V):
                    v = ev.read(s, v.a[0]) if v.op == "lvref" else v.a[2]
                if v not in table:
                    raise Unread("expression of %s" % show(v, 3)[:80])
                return table[v]
            if last == "find_merge_point":
                return ir.nn("wf::ir::block *", mk("sym", "jump_block", "wf::ir::block"))
            if last == "last_operation":
                return ir.nn("wf::ir::value *", jump)
            return None

        def calls(Ip, t):
            if t.op != "call":
                return None
            q = t.a[0]
            args = t.a[2:]
            if q == "wf::built_in_function_invocation::create":
                n = args[0].a[0].rsplit("::", 1)[-1] if args[0].op == "enum" else None
                rest = args[1:]
                if len(rest) == 1 and rest[0].op == "list":
                    rest = rest[0].a
                if n in FN:
                    try:
                        return FN[n](*[Ip.formula(x) for x in rest])
                    except TypeError:
                        return sp.Function("bad_" + n)(*[Ip.formula(x) for x in rest])
            if q == "wf::relational::create" and args[0].op == "enum":
                return sp.Function("Rel_" + args[0].a[0].rsplit("::", 1)[-1])(*[Ip.formula(x) for x in args[1:]])
            if q == "wf::iverson":
                return Iver(Ip.formula(args[0]))
            if q == "wf::matrix_expr::create":
                return sp.Function("Matrix")(Ip.formula(args[0]), Ip.formula(args[1]), *[Ip.formula(x) for x in Ip.items(args[2])])
            if q == "wf::custom_type_construction::create":
                return sp.Function("Make")(sp.Symbol(show(args[0], 9)), *[Ip.formula(x) for x in Ip.items(args[1])])
            if q == "wf::compound_expression_element::create":
                x = Ip.formula(args[0])
                return sp.Function("Get")(Ip.formula(args[1]), x)
            return None

        class J(Interp):
            def formula(self, t):
                if t.op == "obj" and t.a[0] == "wf::compound_expression_element":
                    d = t.a[2:]
                    i = [x for x in d if x.op == "c"]
                    e = [x for x in d if x.op != "c"]
                    if len(i) == 1 and len(e) == 1:
                        return sp.Function("Get")(sp.Integer(i[0].a[0]), self.formula(e[0]))
                if t.op == "obj" and t.a[0] == "wf::external_function_invocation":
                    l = [x for x in t.a[2:] if x.op == "list"]
                    f_ = [x for x in t.a[2:] if x.op != "list"]
                    if len(l) == 1 and len(f_) == 1:
                        return sp.Function("Ext")(sp.Symbol(show(f_[0], 9)), *[self.formula(x) for x in l[0].a])
                if t.op == "obj" and t.a[0].startswith("std::variant"):
                    return self.formula(t.a[2])
                return Interp.formula(self, t)
        try:
            this = obj(EXV, {x["n"]: mk("sym", x["n"], x["t"]) for x in p.rec(EXV)["fields"]})
            ev = Ev(p, prims, hook=hook, max_depth=200)
            s = ev.summarize(f, this=this, args=[o, ops])
            ck.analysed(ev.inlined)
            if any(e.guard is TRUE for e in s.throws):
                ck.bad("raising", inst, f.loc, "raises %s" % show([e for e in s.throws if e.guard is TRUE][0].val)[:80])
                return
            for a, r in J(env, calls).cases(lambda Ip: Ip.formula(s.val)):
                if isinstance(r, Unknown):
                    raise Unread(str(r))
                want = expected(xs, env[cond])
                ck.check(close(r, want), "raising", inst, f.loc, lambda: "becomes %s, the operation is %s" % (r, want))
        except (Unread, Unknown) as e:
            ck.notes.append("not decided: %s: %s" % (inst, str(e)[:120]))
    for n in (2, 3):
        one("add", str(n), ir.op(p, "add"), [F] * n, lambda x, c: sp.Add(*x))
        one("mul", str(n), ir.op(p, "mul"), [F] * n, lambda x, c: sp.Mul(*x))
    one("neg", "", ir.op(p, "neg"), [F], lambda x, c: -x[0])
    one("div", "", ir.op(p, "div"), [F, F], lambda x, c: x[0] / x[1])
    one("copy", "", ir.op(p, "copy"), [F], lambda x, c: x[0])
    one("cond", "", ir.op(p, "cond"), [B, F, F], lambda x, c: Where(*x))
    one("phi", "", ir.op(p, "phi"), [F, F], lambda x, c: Where(c, *x))
    for a, b in itertools.product((F, I, B), (F, I)):
        if a != b and not (a == F and b == I):
            one("cast", "%s to %s" % (a, b), ir.op(p, "cast", destination_type_=en(p, "wf::numeric_primitive_type", b)), [a], lambda x, c: Iver(x[0]) if a == B else x[0])
    for n, _ in p.enum("wf::relational_operation")["vals"]:
        one("compare", n, ir.op(p, "compare", operation_=en(p, "wf::relational_operation", n)), [F, F], lambda x, c: sp.Function("Rel_" + n)(*x), rty=B)
    for n, _ in p.enum("wf::std_math_function")["vals"]:
        if n not in STDFN:
            raise AnalysisBroken("no meaning known for library function " + n)
        k = 2 if n in ("atan2", "powi", "powf") else 1
        one("call_std_function", n, ir.op(p, "call_std_function", name_=en(p, "wf::std_math_function", n)), [F, I if n == "powi" else F][:k], lambda x, c: STDFN[n](*x))
    for r, c_ in ((1, 1), (2, 3), (3, 1)):
        m = matrix_type(p, r, c_)
        one("construct", "%dx%d" % (r, c_), ir.op(p, "construct", type_=m), [F] * (r * c_), lambda x, c: sp.Function("Matrix")(r, c_, *x), rty=m)
    ct = custom_type(p, mk("str", "Point"))
    one("construct", "custom", ir.op(p, "construct", type_=ct), [F, I, F], lambda x, c: sp.Function("Make")(sp.Symbol(show(ct, 9)), *x), rty=ct)
    for i in (0, 3):
        one("get", str(i), ir.op(p, "get", index_=C(i)), [ct], lambda x, c: sp.Function("Get")(i, x[0]))
    for rt, nm in ((st[F], "scalar"), (ct, "custom"), (matrix_type(p, 2, 2), "matrix")):
        args = [argument(p, mk("str", "a%d" % i), t, "input", i) for i, t in enumerate((st[F], ct))]
        fn = external_function(p, mk("str", "ext"), args, rt)
        fo = ir.op(p, "call_external_function", **{x["n"]: fn for x in p.rec("wf::ir::call_external_function")["fields"]})
        E = lambda x: sp.Function("Ext")(sp.Symbol(show(fn, 9)), *x)
        one("call_external_function", nm, fo, [F, ct], lambda x, c: sp.Function("Get")(0, E(x)) if nm == "scalar" else E(x), rty=rt)


# ---- syntax elements -> text -----------------------------------------------------------------------
def emission(ck, p, tier):
    for o in rendered(p, ck, tier):
        if o.c.kind == "reject" or o.status == "unread":
            continue
        if o.status == "rejected":
            if o.c.elem in ("call_std_function", "special_constant", "compare", "cast"):
                ck.bad("emission", o.inst, o.where, "raises %s" % o.why)
            continue
        if o.status == "garbled":
            continue    # reported by G02
        ck.check(any(o.tree == a for a in o.alts), "emission", o.inst, o.where, lambda: "emits %r, the target's form is %s" % (o.shown(), o.wanted()))


# ---- value graph -> syntax elements -------------------------------------------------------------------
def carrying(ck, p):
    from checks.g02 import expect
    for g in generators(p, False):
        if not (g.label in ("cpp/eigen", "rust") or g.label.startswith("python/numpy/float64/ind")):
            continue
        m, pi = PMaker(p, g), Pipe(p, g)
        for pl, (ts, make) in m.parents().items():
            leaves = [m.var("x%d" % i, t) for i, t in enumerate(ts)]
            xs = [g.name("x%d" % i)[1] for i in range(len(ts))]
            inst = "%s: %s" % (g.label, pl)
            where = "components/core/wf/code_generation/ast_conversion.cc"
            try:
                got = norm(parsed(pi.text(pi.element(make(leaves))), "expr", g.lang))
            except (Rejected, Unread, ParseError) as x:
                ck.notes.append("not decided: %s: %s" % (inst, str(x)[:120]))
                continue
            alts = [norm(parsed(a, "expr", g.lang)) for a in expect(g, pl, xs)]
            ck.check(any(got == a for a in alts), "carrying", inst, where, lambda: "becomes %s, not %s" % (got, alts[0]))
        ck.analysed(pi.inlined if hasattr(pi, "inlined") else [])
