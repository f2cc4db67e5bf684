"""C01: identity covers all content, and identical values hash alike.

For every value type with identity (symbolic nodes, code-generation types, IR operations, output keys) the identity and
hash functions are read off the source as closed terms over two fresh instances. Rule: the identity term is true when all
components agree and false whenever any single component differs (also when unknown functions of a component collide, so
comparing a digest is not comparing the content); when identity holds, the hash terms agree and do not depend on
addresses."""
import re
from wfa.program import load_core, AnalysisBroken, walk
from wfa.vg import *
from wfa.relate import *
from wfa.report import Check

# content that deliberately takes part through a projection or not at all
THROUGH = {("wf::function_argument_variable", "argument_type_"): "the numeric type of the element"}
IGNORED = {("wf::struct_field", "native_accessor_"): "the native accessor does not affect symbolic meaning"}
SKIP = ("wf::factorization", "wf::quaternion")


def run(tier):
    ck = Check("C01", tier, __doc__)
    p = load_core()
    I, H = keyed(p, "is_identical_struct"), keyed(p, "hash_struct")
    unread = []
    for rt, f in sorted(I.items()):
        if rt in SKIP or not rt.startswith("wf::") or rt not in p.recs or rt.endswith("_expr"):
            continue
        if not p.recs[rt]["fields"]:
            identity_of_empty(ck, p, rt, f)
            continue
        try:
            one(ck, p, rt, f, H.get(rt))
        except (Unsure, AnalysisBroken) as e:
            unread.append((rt, str(e)[:120]))
    ck.require("identity", 30)
    for rt, w in unread:
        ck.notes.append("undecided %s: %s" % (rt, w))
    if len(unread) * 2 > len(I):
        raise AnalysisBroken("most identity functions could not be read: %s" % (unread[:3],))
    operators(ck, p)
    cached_hashes(ck, p)
    variants(ck, p)
    erased(ck, p)
    values(ck, p)
    strings(ck, p)
    return ck.finish(p)


def identity_of_empty(ck, p, rt, f):
    ev = Ev(p, {}, hook=trait_hook(f.id))
    s = ev.summarize(f, this=mk("sym", "trait", f.rt), args=[mk("sym", "A.x", rt), mk("sym", "B.x", rt)])
    ck.analysed(ev.inlined)
    ck.check(s.val is TRUE, "identity", rt[4:], f.loc, lambda: "two values without content are not identical: %s" % show(s.val))


def base(P):
    return {k: base_value(P.p, i + 1, t) for i, (k, t) in enumerate(sorted(P.comps.items()))}


def model(P, va, vb, **kw):
    m = {("A", k): v for k, v in va.items()}
    m.update({("B", k): v for k, v in vb.items()})
    return Model(m, **kw)


def one(ck, p, rt, f, h):
    P = Pair(p, rt, f, h)
    ck.analysed(P.fns)
    VARIANTS.clear()
    VARIANTS.update({k: t for k, t in P.comps.items() if t.startswith("std::variant<")})
    cached = set()
    if P.hashA is not None and path_of(P.hashA):
        k = path_of(P.hashA)[1]
        if len(P.comps) > 1 and P.comps.get(k, "").startswith("unsigned"):
            cached.add(k)
    nm = rt[4:]
    b = base(P)
    proj = {}
    for k in P.comps:
        if (rt, k) in THROUGH:
            proj[k] = projections(P, k)
    full = [x for x in P.comps if x not in cached and (rt, x) not in IGNORED and (rt, x) not in THROUGH]
    if not full and not proj:
        raise Unsure("no components")
    for inj in (True, False):
        for pe in (True, False):
            v = value(P, P.ident, b, b, proj, {}, inject=inj, ptr_eq=pe)
            ck.check(v is True, "identity reflexive", nm, f.loc, lambda: "two values with equal content are not reported identical")
    for k in full:
        bad = None
        ds = differ(p, b[k], P.comps[k])
        pairs = [(b[k], d) for d in ds]
        if isinstance(b[k], tuple) and b[k][0] == "enum":
            pairs += [(x, y) for x in ds for y in ds if x < y]
        for x, d in pairs:
            for inj in (True, False):
                v = value(P, P.ident, dict(b, **{k: x}), dict(b, **{k: d}), proj, {}, inject=inj)
                if v:
                    bad = "values that differ in '%s' %sare reported identical" % (k, "" if inj else "but agree in a digest of it ")
        ck.check(bad is None, "identity", "%s.%s" % (nm, k), f.loc, lambda: bad)
    for k, pr in proj.items():
        ck.check(bool(pr), "identity", "%s.%s" % (nm, k), f.loc, lambda: "identity does not look at '%s' at all" % k)
        for x in pr:
            v = value(P, P.ident, b, b, proj, {x: 1})
            ck.check(not v, "identity", "%s.%s" % (nm, k), f.loc, lambda: "values that differ in '%s' are reported identical" % k)
    # two components of one kind exchanged
    ks = sorted(full)
    for i, x in enumerate(ks):
        for y in ks[i + 1:]:
            if P.comps[x] == P.comps[y] and not isinstance(b[x], tuple):
                v = value(P, P.ident, b, dict(b, **{x: b[y], y: b[x]}), proj, {})
                ck.check(not v, "identity order", "%s.%s/%s" % (nm, x, y), f.loc, lambda: "values with '%s' and '%s' exchanged are reported identical" % (x, y))
    lengths(ck, p, rt, f)
    if P.hashA is None:
        return
    raw = [x for x in pointer_casts(p, P.hash_fns)]
    ck.check(not raw, "hash", nm + " address", h.loc, lambda: "the hash converts a pointer to a number in %s" % raw[0])
    va, vb = value(P, P.hashA, b, b, proj, {}), value(P, P.hashB, b, b, proj, {})
    ck.check(va == vb, "hash", nm, h.loc, lambda: "identical values can hash differently (the hash depends on where the value is stored)")
    for k in P.comps:
        if k in full or k in proj or k in cached:
            continue
        va, vb = value(P, P.hashA, b, dict(b, **{k: differ(p, b[k], P.comps[k])[0]}), proj, {}), value(P, P.hashB, b, dict(b, **{k: differ(p, b[k], P.comps[k])[0]}), proj, {})
        ck.check(va == vb, "hash", "%s.%s" % (nm, k), h.loc, lambda: "the hash depends on '%s', which identity ignores" % k)
    for k in proj:
        loose = [t for t in subterms(P.hashA) if path_of(t) and path_of(t)[1].split(".")[0] == k]
        if loose:
            ok = covered(P.hashA, [norm(x[0]) for x in proj[k]], k)
            ck.check(ok, "hash", "%s.%s" % (nm, k), h.loc, lambda: "the hash looks at more of '%s' than identity does" % k)
    for k, t in P.comps.items():
        if t == "double":
            z = dict(b, **{k: ("dbl", 0, "+")})
            n = dict(b, **{k: ("dbl", 0, "-")})
            if value(P, P.ident, z, n, proj, {}):
                ck.check(value(P, P.hashA, z, n, proj, {}) == value(P, P.hashB, z, n, proj, {}), "hash", "%s.%s zero" % (nm, k), h.loc,
                         lambda: "0.0 and -0.0 are identical but hash differently")


def pointer_casts(p, fns):
    out = []
    for i in sorted(fns):
        f = p.fns.get(i)
        if f is None or f.body is None or not f.q.startswith("wf::"):
            continue
        for n in walk(f.body):
            if n.get("ck") == "PointerToIntegral":
                out.append(f.q[4:])
    return out


def cached_hashes(ck, p):
    """a hash stored when a shared object is created is a function of content that identity compares"""
    n = 0
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        m = re.match(r"std::shared_ptr<const (wf::[\w:]+)>$", f.ret or "")
        if not m or f.body is None or f.q.endswith("::get") or m.group(1) not in p.recs or \
                "hash" not in [x["n"] for x in p.recs[m.group(1)]["fields"]]:
            continue
        ev = Ev(p, {}, hook=trait_hook(f.id))
        try:
            s = ev.summarize(f, args=[mk("sym", "A." + x["n"], bare(x["t"])) for x in f.params])
        except AnalysisBroken as e:
            ck.notes.append("undecided %s: %s" % (f.q, str(e)[:80]))
            continue
        ck.analysed(ev.inlined)
        v = s.val
        if v.op != "obj":
            ck.notes.append("undecided %s: not an object" % f.q)
            continue
        d = dict(zip(v.a[1], v.a[2:]))
        h = d.pop("hash")
        stored = {path_of(x)[1] for x in d.values() if path_of(x)}
        used = {x.split(".")[0] for x in mentions(h)}
        n += 1
        ck.check(h.op != "uninit" and (h.op != "c"), "hash cached", f.q[4:], f.loc, lambda: "the stored hash is not computed from the content")
        ck.check(used <= stored, "hash cached", f.q[4:], f.loc, lambda: "the stored hash depends on %s, which is not stored content" % sorted(used - stored))
        ck.check(not any(x.op in ("addr", "peq", "it") for x in subterms(h)) and not pointer_casts(p, ev.inlined | {f.id}), "hash cached", f.q[4:], f.loc, lambda: "the stored hash depends on an address")
    if n == 0:
        ck.notes.append("undecided: no creator of a stored hash was read")


def operators(ck, p):
    """operator== of the value types used as keys and operations"""
    for f in sorted(p.fns.values(), key=lambda f: f.id):
        if not f.q.startswith("wf::") or not f.q.endswith("operator==") or f.body is None:
            continue
        ts = [bare(x["t"]) for x in f.params]
        ts = ([f.rt] if f.rt else []) + ts
        if len(ts) != 2 or ts[0] != ts[1] or ts[0] not in p.recs or not p.recs[ts[0]]["fields"] or ts[0].endswith("_expr") or \
                "iterator" in ts[0] or "_ptr" in ts[0] or "non_null" in ts[0]:
            continue
        try:
            P = Pair(p, ts[0], f)
            ck.analysed(P.fns)
            b = base(P)
            nm = ts[0][4:]
            v = value(P, P.ident, b, b, {}, {})
            ck.check(v is True, "operator==", nm, f.loc, lambda: "values with equal content compare unequal")
            for k in P.comps:
                for d in differ(p, b[k], P.comps[k]):
                    v = value(P, P.ident, b, dict(b, **{k: d}), {}, {}, inject=False)
                    ck.check(not v, "operator==", "%s.%s" % (nm, k), f.loc, lambda: "values that differ in '%s' compare equal" % k)
        except (Unsure, AnalysisBroken) as e:
            ck.notes.append("undecided operator== of %s: %s" % (ts[0], str(e)[:100]))


def lengths(ck, p, rt, f):
    if rt == "wf::matrix":  # the element count is determined by the dimensions
        return
    if any("Vector<" in x["t"] or "vector<" in x["t"] for x in p.recs[rt]["fields"]):
        for n in ((2, 3), (3, 2), (1, 2)):
            P = Pair(p, rt, f, n=n)
            VARIANTS.clear()
            VARIANTS.update({k: t for k, t in P.comps.items() if t.startswith("std::variant<")})
            b = base(P)
            v = value(P, P.ident, b, b, {}, {})
            ck.check(not v, "identity length", "%s %d/%d" % (rt[4:], n[0], n[1]), f.loc,
                     lambda: "a value with %d operands is identical to one with %d" % n)


def projections(P, k):
    """pairs of matching functions of component k alone that identity compares"""
    out = []
    for t in subterms(P.ident):
        if t.op == "eq" and len(t.a) == 2:
            for l, r in (t.a, t.a[::-1]):
                ml = mentions(l)
                if any(x.split(".")[0] == k for x in ml) and not path_of(l) and norm(rename(l)) is norm(r):
                    out.append((l, r))
    return out


def covered(t, pr, k):
    """every use of component k in t lies inside one of the projections pr"""
    if norm(t) in pr:
        return True
    pa = path_of(t)
    if pa and pa[1].split(".")[0] == k:
        return False
    return all(covered(x, pr, k) for x in t.a if type(x) is T)


def value(P, t, va, vb, proj, diff, **kw):
    m = model(P, va, vb, **kw)
    if proj:
        over = {}
        for k, pr in proj.items():
            for l, r in pr:
                over[norm(l)] = 5
                over[norm(r)] = 6 if (l, r) in diff else 5

        def ev(t):
            n = norm(t)
            return over[n] if n in over else Model.ev(m, t)
        m.ev = ev
    return m.ev(t)


def variants(ck, p):
    """variants are identical only with the same alternative and identical content; the hash uses the same two"""
    n = 0
    for f in p.fns.values():
        if not f.rt or not f.q.endswith("::operator()") or f.body is None:
            continue
        if f.rt.startswith("wf::is_identical_variant<"):
            t = f.rt[len("wf::is_identical_variant<"):-1]
            ev = Ev(p, {}, hook=trait_hook(f.id))
            s = ev.summarize(f, this=mk("sym", "trait", f.rt), args=[mk("sym", "A.v", t), mk("sym", "B.v", t)])
            ck.analysed(ev.inlined)
            VARIANTS.clear()
            VARIANTS["v"] = t
            k = len(split_args(t))
            inst = "variant of %d alternatives" % k + " (" + ", ".join(x.rsplit("::", 1)[-1] for x in split_args(t))[:60] + ")"
            for i in range(k):
                try:
                    same = pick(s.val, {("A", "v"): ("var", i, 5), ("B", "v"): ("var", i, 5)})
                    other = pick(s.val, {("A", "v"): ("var", i, 5), ("B", "v"): ("var", i, 6)})
                    wrong = pick(s.val, {("A", "v"): ("var", i, 5), ("B", "v"): ("var", (i + 1) % k, 5)})
                except Unsure as e:
                    ck.notes.append("undecided variant %s: %s" % (inst, e))
                    break
                n += 1
                ck.check(bool(same), "identity variant", inst, f.loc, lambda: "equal contents are not identical for alternative %d" % i)
                ck.check(not other, "identity variant", inst, f.loc, lambda: "different contents are identical for alternative %d" % i)
                ck.check(not wrong, "identity variant", inst, f.loc, lambda: "different alternatives are identical")
        if f.rt.startswith("wf::hash_variant<"):
            t = f.rt[len("wf::hash_variant<"):-1]
            ev = Ev(p, {}, hook=trait_hook(f.id))
            sA = ev.summarize(f, this=mk("sym", "trait", f.rt), args=[mk("sym", "A.v", t)])
            ck.analysed(ev.inlined)
            VARIANTS.clear()
            VARIANTS["v"] = t
            ck.check(not any(x.op in ("addr", "peq") for x in subterms(sA.val)), "hash variant", t[:70], f.loc, lambda: "the hash depends on an address")
    if n < 6:
        raise AnalysisBroken("only %d variant identity functions were read" % n)


def pick(t, assign):
    return Model(assign).ev(t)


def erased(ck, p):
    """the shared-pointer holder of every expression: same alternative and identical content, hash over both"""
    n = 0
    for f in p.fns.values():
        if not f.rt or f.body is None:
            continue
        if f.rt.startswith("wf::expression_variant<") and f.q.endswith("::is_identical_to"):
            if "model<" in f.rt:
                T_ = f.rt[f.rt.index("model<") + 6:-1]
                ev = Ev(p, {}, hook=trait_hook(f.id))
                s = ev.summarize(f, this=mk("sym", "A.m", f.rt), args=[mk("sym", "B.m", f.rt)])
                ck.analysed(ev.inlined)
                inst = "stored " + T_.replace("wf::", "")
                if s.val.op == "call" and s.val.a[0] == "trait:is_identical":
                    l, r = [path_of(x) for x in s.val.a[2:4]]
                    ok = l and r and {l[0], r[0]} == {"A", "B"} and l[1] == r[1]
                    ck.check(bool(ok), "identity holder", inst, f.loc, lambda: "compares %s" % show(s.val))
                    n += 1
                elif s.val is TRUE and p.recs.get(T_) and not p.recs[T_]["fields"]:
                    ck.ok("identity holder", inst, f.loc)
                    n += 1
                else:
                    pa = mentions(s.val)
                    ck.check(bool(pa), "identity holder", inst, f.loc, lambda: "the comparison ignores the content")
                    n += 1
            else:
                ev = Ev(p, {}, hook=trait_hook(f.id))
                s = ev.summarize(f, this=mk("sym", "A.m", f.rt), args=[mk("sym", "B.m", f.rt)])
                ck.analysed(ev.inlined)
                fs = sorted(mentions(s.val))
                holder_rule(ck, f, s.val)
                n += 1
        if f.ctor and "expression_variant<" in (f.rt or "") and "::model<" in f.rt and not f.implicit:
            ev = Ev(p, {}, hook=trait_hook(f.id))
            try:
                s = ev.summarize(f, this=obj(f.rt, {}), args=[mk("sym", "x%d" % i, bare(x["t"])) for i, x in enumerate(f.params)])
            except AnalysisBroken:
                continue
            ck.analysed(ev.inlined)
            if s.this is None or s.this.op != "obj":
                continue
            d = dict(zip(s.this.a[1], s.this.a[2:]))
            hs = [v for k, v in d.items() if "hash" in k]
            ix = [v for k, v in d.items() if "index" in k]
            T_ = f.rt[f.rt.index("model<") + 6:-1].replace("wf::", "")
            ck.check(len(hs) == 1 and hs[0].op not in ("uninit",), "hash stored", T_, f.loc, lambda: "the stored hash is not initialised")
            ck.check(len(ix) == 1 and ix[0].op == "c", "index stored", T_, f.loc, lambda: "the stored alternative index is not a constant")
    if n < 28:
        raise AnalysisBroken("only %d stored comparisons were read" % n)


def holder_rule(ck, f, t):
    inst = "holder " + f.rt.replace("wf::", "")
    # address equality alone -> identical; otherwise index and content must both agree
    res = {}
    for addr in (0, 1):
        for idx in (0, 1):
            for con in (0, 1):
                def ev(x, addr=addr, idx=idx, con=con):
                    if x is TRUE or x is FALSE:
                        return x is TRUE
                    if x.op == "not":
                        return not ev(x.a[0])
                    if x.op == "and":
                        return all(ev(y) for y in x.a)
                    if x.op == "or":
                        return any(ev(y) for y in x.a)
                    if x.op == "ite":
                        return ev(x.a[1] if ev(x.a[0]) else x.a[2])
                    if x.op == "peq":
                        return bool(addr)
                    if x.op == "eq":
                        return bool(idx) if any("index" in m for m in mentions(x)) else bool(addr) if not any("hash" in m for m in mentions(x)) else True
                    if x.op == "call" and "identical" in x.a[0]:
                        return bool(con)
                    raise Unsure(show(x))
                res[addr, idx, con] = ev(t)
    want = {k: bool(k[0] or (k[1] and k[2])) for k in res if not (k[0] and not (k[1] and k[2]))}
    bad = [k for k in want if res[k] != want[k]]
    ck.check(not bad, "identity holder", inst, f.loc, lambda: "wrong verdict for (same address, same kind, same content) = %s" % (bad[:2],))


def values(ck, p):
    """duplicate elimination of IR values: operation, type and operands (in order) must all agree"""
    hs = [f for f in p.fns.values() if f.rt == "wf::value_equality_struct" and f.q.endswith("::operator()") and f.body is not None]
    if not hs:
        raise AnalysisBroken("value_equality_struct not found")
    f = hs[0]
    ev = Ev(p, {}, hook=trait_hook(f.id))
    s = ev.summarize(f, this=mk("sym", "trait", f.rt), args=[mk("sym", "A.x", bare(x["t"])) if i == 0 else mk("sym", "B.x", bare(x["t"])) for i, x in enumerate(f.params)])
    ck.analysed(ev.inlined)
    paths = mentions(s.val)
    opp = [x for x in paths if x.rsplit(".", 1)[-1] == "op_"]
    ond = [x for x in paths if x.rsplit(".", 1)[-1] == "operands_"]
    ck.check(bool(opp), "value identity", "operation", f.loc, lambda: "IR values are merged without comparing their operation")
    ck.check(bool(ond), "value identity", "operands", f.loc, lambda: "IR values are merged without comparing their operands")
    if not opp or not ond:
        return
    VARIANTS.clear()
    VARIANTS[opp[0]] = [x["t"] for x in p.rec("wf::ir::value")["fields"] if x["n"] == "op_"][0]
    base = {opp[0]: ("var", 2, 50), ond[0]: ("list", 1, 2)}
    cases = [("equal values", {}, True), ("another operation", {opp[0]: ("var", 3, 50)}, False),
             ("the same operation with another content", {opp[0]: ("var", 2, 51)}, False),
             ("another first operand", {ond[0]: ("list", 3, 2)}, False), ("another last operand", {ond[0]: ("list", 1, 3)}, False),
             ("exchanged operands", {ond[0]: ("list", 2, 1)}, False), ("fewer operands", {ond[0]: ("list", 1)}, False),
             ("more operands", {ond[0]: ("list", 1, 2, 3)}, False)]
    for label, ch, want in cases:
        m = {("A", k): v for k, v in base.items()}
        m.update({("B", k): v for k, v in dict(base, **ch).items()})
        try:
            got = bool(Model(m).ev(s.val))
        except Unsure as e:
            ck.notes.append("undecided IR value identity (%s): %s" % (label, str(e)[:80]))
            continue
        ck.check(got == want, "value identity", label, f.loc, lambda: "IR values that differ by %s are merged" % label if got else "IR values with equal content are kept apart")


def strings(ck, p):
    fs = [f for f in p.named("wf::hash_string_fnv")]
    if not fs:
        return
    f = fs[0]
    out = []
    for sx in ("ab", "ba", "a", "b", "", "abc"):
        ev = Ev(p, {})
        s = ev.summarize(f, args=[mk("str", sx)])
        ck.analysed(ev.inlined)
        out.append(s.val)
    ck.check(all(x.op != "uninit" for x in out), "hash string", "fnv", f.loc, lambda: "uninitialised")
