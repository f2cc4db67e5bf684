"""W01: the Python API exposes every enumerator, node kind and error faithfully.

The binding code is read from the type-checked syntax tree of the wrapper's translation units.
(1) enumerators: every enumerator of a bound enumeration is bound once, under its own name, to its own value, and every
    enumeration a bound property hands out is bound; (2) errors: every error class of the library, and every class of
    the library that is thrown anywhere, is bound once under its own name; (3) members: the getter of every property of
    a bound class is evaluated on an opaque object and must read the native member the property is named for - or, when
    there is none of that name, one that no other property reads - and every member of a syntax element is exposed;
(4) names: compile-time witnesses that the name under which each kind is registered is the name of its class;
(5) overrides: each generator's entry point for each kind is evaluated and must consult the Python method of that kind
    (found on the object itself, remembered per kind) before its own implementation; super_format must not;
(6) dispatch: inside a generator, pieces are formatted by the generator object itself and by virtual call, never by a
    copy of its base part; (7) function descriptions: the bound methods pass their arguments on in their roles."""
import os, re, subprocess, tempfile
from wfa.program import load_core, load_wrapper, walk as walk_all, rel, REPO, AnalysisBroken, CORE_FLAGS, core_includes
from wfa.vg import *
from wfa.report import Check

TUS = ["enums_wrapper.cc", "exceptions_wrapper.cc", "ast_wrapper.cc", "code_formatting_wrapper.cc", "codegen_wrapper.cc", "types_wrapper.cc"]
GENERATORS = ("cpp_code_generator", "rust_code_generator", "python_code_generator")


def walk(n):
    return (x for x in walk_all(n) if "k" in x)


def norm(s):
    return re.sub(r"[_\W]", "", s).lower()


def alike(a, b):
    n = 0
    while n < min(len(a), len(b)) and a[n] == b[n]:
        n += 1
    return n


def run(tier):
    ck = Check("W01", tier, __doc__)
    w = load_wrapper(only=TUS)
    p = load_core()
    here = [f for f in w.fns.values() if f.file and "/components/wrapper/" in f.file and f.body is not None]
    calls = []
    for f in here:
        if f.ta and not f.lambda_ and f.name.startswith("operator"):
            pass
        for n in walk(f.body):
            if n["k"] == "Call" and n.get("fn"):
                calls.append((f, n))
            elif n["k"] == "Construct" and str(n.get("rt", "")).startswith(("nanobind::enum_<", "nanobind::exception<", "nanobind::class_<")):
                calls.append((f, n))
    seen, cs = set(), []
    for f, n in calls:
        k = (f.file, n.get("l"), n["k"], n.get("fn"), n.get("ft"), str(n["a"][:1] if n.get("a") else ""))
        if k not in seen:
            seen.add(k)
            cs.append((f, n))
    ck.analysed({f.id for f in here})
    bound = enums(ck, w, cs)
    errors(ck, w, p, cs)
    handed = members(ck, w, cs)
    for e, where in sorted(handed.items()):
        ck.check(e in bound, "enumeration", e, where, "is handed to Python but is not bound, or bound twice")
    names(ck, w)
    overrides(ck, w)
    dispatch(ck, p, w)
    descriptions(ck, w, cs)
    for g, m in (("enumerator", 25), ("error", 3), ("member", 40), ("override", 100), ("format", 200), ("dispatch", 100), ("name", 30)):
        ck.require(g, m)
    return ck.finish(w)


def string(n):
    while n is not None and n["k"] in ("Cast", "Copy", "Move", "Construct"):
        n = n.get("e") or (n.get("a") or [None])[0]
    return n["v"] if n is not None and n["k"] == "Str" else None


def site(f, n):
    return "%s:%s" % (rel(f.file), n.get("l", f.line))


# ---------------------------------------------------------------------------------------------------- enumerations
def enums(ck, w, cs):
    vals, made, unread = {}, {}, set()
    for f, n in cs:
        rt = str(n.get("rt", ""))
        if not rt.startswith("nanobind::enum_<"):
            continue
        e = rt[len("nanobind::enum_<"):-1]
        if n["k"] == "Construct" and (n.get("a") or []) and len(n["a"]) >= 2 and not str(n.get("ft", "")).startswith("void (nanobind::enum_"):
            nm = string(n["a"][1])
            made.setdefault(e, []).append((nm, site(f, n)))
        elif n["k"] == "Call" and n["fn"].endswith("::value"):
            nm, v = string(n["a"][0]), n["a"][1]
            while v["k"] in ("Cast", "Copy", "Move"):
                v = v["e"]
            if nm is None or v["k"] != "Enum":
                unread.add(e)
            else:
                vals.setdefault(e, []).append((nm, v["n"].rsplit("::", 1)[1], site(f, n)))
    bound = set()
    for e, ms in sorted(made.items()):
        if len(ms) == 1:
            bound.add(e)
        else:
            ck.bad("enumeration", e, ms[1][1], "bound %d times" % len(ms))
        try:
            want = [x["n"] if isinstance(x, dict) else x[0] for x in w.enum(e)["vals"]]
        except AnalysisBroken:
            ck.notes.append("undecided: enumeration %s is not the library's" % e)
            continue
        got = vals.get(e, [])
        if not got:
            ck.notes.append("undecided: enumerators of %s are not bound by calls of value()" % e)
            continue
        for nm, en, where in got:
            best = sorted(((norm(nm) == norm(x), alike(norm(nm), norm(x)), -len(x)), x) for x in want)[-1]
            rivals = [x for x in want if x != en and (norm(x) == norm(nm) or (norm(en) != norm(nm) and alike(norm(nm), norm(x)) > alike(norm(nm), norm(en))))]
            ck.check(not rivals, "enumerator", "%s::%s" % (e, en), where, "bound as %r, the name of %s" % (nm, rivals[0] if rivals else ""))
        for x in want:
            n = [g for g in got if g[1] == x]
            if len(n) > 1:
                ck.bad("enumerator", "%s::%s" % (e, x), n[1][2], "bound %d times" % len(n))
            elif not n and e not in unread:
                ck.bad("enumerator", "%s::%s" % (e, x), ms[0][1], "not exposed to Python")
        nms = [g[0] for g in got]
        for nm in sorted({x for x in nms if nms.count(x) > 1}):
            ck.bad("enumerator", "%s %s" % (e, nm), ms[0][1], "two enumerators are bound as %r" % nm)
    if len(made) < 5:
        raise AnalysisBroken("anchor vanished: only %d enumerations are bound" % len(made))
    return bound


# ---------------------------------------------------------------------------------------------------- errors
def errors(ck, w, p, cs):
    base = "wf::exception_base"
    fam = {r for r in list(p.recs) + list(w.recs) if r != base and base in ancestors(p, r) | ancestors(w, r)}
    thrown = {}
    for pr in (p, w):
        for f in pr.fns.values():
            if f.body is None:
                continue
            for n in walk(f.body):
                if n["k"] == "Throw" and n.get("e"):
                    t = bare(n["e"].get("t", ""))
                    if t.startswith("wf::"):
                        thrown.setdefault(t, "%s:%s" % (rel(f.file), n.get("l", f.line)))
    made = {}
    for f, n in cs:
        rt = str(n.get("rt", ""))
        if n["k"] == "Construct" and rt.startswith("nanobind::exception<") and len(n.get("a") or []) >= 2:
            made.setdefault(rt[len("nanobind::exception<"):-1], []).append((string(n["a"][1]), site(f, n)))
    if len(made) < 3:
        raise AnalysisBroken("anchor vanished: only %d exception types are bound" % len(made))
    allnames = [m[0] for ms in made.values() for m in ms]
    for t in sorted(fam | set(thrown)):
        ms = made.get(t, [])
        where = ms[0][1] if ms else thrown.get(t, "")
        if not ms:
            ck.bad("error", t, where, "is thrown or declared by the library but not exposed to Python")
        elif len(ms) > 1:
            ck.bad("error", t, ms[1][1], "exposed %d times" % len(ms))
        elif ms[0][0] is None:
            ck.notes.append("undecided: name under which %s is exposed" % t)
        else:
            ck.check(norm(ms[0][0]) == norm(t.rsplit("::", 1)[1]) and allnames.count(ms[0][0]) == 1, "error", t, where, "exposed as %r" % ms[0][0])


def ancestors(p, r, seen=None):
    seen = set() if seen is None else seen
    d = p.recs.get(r)
    for b in (d or {}).get("bases", []):
        b = b["t"] if isinstance(b, dict) else b
        if b not in seen:
            seen.add(b)
            ancestors(p, b, seen)
    return seen


# ---------------------------------------------------------------------------------------------------- members
WRAP = ("ptr_", "contents_", "impl_", "value_", "it_")


def leafnames(w, t):
    out = []
    for q in (t, t + "::impl"):
        if q in w.recs:
            out += [x["n"] for x in w.recs[q]["fields"] if x["n"] not in ("impl_",)]
    return out


def paths(term, root):
    """the longest chains of member reads that start at root"""
    found = set()

    def chain(x):
        ns = []
        while x.op == "field":
            ns.append(x.a[1])
            x = x.a[0]
        return tuple(reversed(ns)) if x is root else None
    for x in walk_terms(term):
        if x.op == "field":
            c = chain(x)
            if c:
                found.add(c)
    return {c for c in found if not any(d != c and d[:len(c)] == c for d in found)}


def getter(ck, w, f, n):
    """-> function evaluated by a property's getter, or ('member', name)"""
    while n["k"] in ("Cast", "Copy", "Move", "MatTmp") or (n["k"] == "Construct" and len(n.get("a") or []) == 1):
        n = n.get("e") or n["a"][0]
    if n["k"] == "Lambda" and len(n["ops"]) >= 1:
        return w.fns.get(n["ops"][0])
    if n["k"] == "Ref":
        for v in walk(f.body):
            if v["k"] == "Var" and v["id"] == n["id"] and v.get("i"):
                return getter(ck, w, f, v["i"])
    if n["k"] == "Un" and n["op"] == "&":
        n = n["e"]
    if n["k"] == "FnRef":
        return w.fns.get(n["id"])
    if n["k"] == "RefOther":
        return ("member", n["n"])
    if n["k"] == "Call" and n.get("in"):
        m = [x for x in walk(n["a"]) if x["k"] == "RefOther" and "::" in x.get("n", "")] if n.get("a") else []
        if len(m) == 1:
            return ("member", m[0]["n"])
    return None


def members(ck, w, cs):
    """-> enumerations handed out by properties"""
    props, methods, handed, unread = {}, {}, {}, 0
    for f, n in cs:
        rt = str(n.get("rt", ""))
        if n["k"] != "Call" or not rt.startswith("nanobind::class_<") or not n.get("a"):
            continue
        t = rt[len("nanobind::class_<"):-1].split(",")[0]
        kind = n["fn"].rsplit("::", 1)[1]
        if kind in ("def_prop_ro", "def_ro", "def_prop_rw", "def_rw"):
            nm = string(n["a"][0])
            g = getter(ck, w, f, n["a"][1]) if nm is not None else None
            if g is None:
                unread += 1
                props.setdefault(t, []).append((nm, None, site(f, n), None, n))
                continue
            props.setdefault(t, []).append((nm, g, site(f, n), f, n))
        elif kind == "def":
            nm = string(n["a"][0])
            if nm is not None and not nm.startswith("__") and len(n["a"]) > 1:
                g = getter(ck, w, f, n["a"][1])
                if g is not None:
                    methods.setdefault(t, []).append((nm, g, site(f, n)))
    total = sum(len(v) for v in props.values())
    if total < 30 or unread * 2 > total:
        raise AnalysisBroken("only %d of %d properties can be read" % (total - unread, total))
    for t, ps in sorted(props.items()):
        leaves = leafnames(w, t)
        known = {norm(x) for x in leaves}
        read = {}
        own = re.match(r"wf::wrapped_generator<(.*)>$", t)
        for nm, g, where, f, n in ps:
            if nm is None or g is None:
                ck.notes.append("undecided: property %s of %s" % (nm, t))
                continue
            if isinstance(g, tuple):
                got = {(g[1].rsplit("::", 1)[1],)}
                if not g[1].startswith(t + "::"):
                    ck.bad("member", "%s.%s" % (t, nm), where, "reads %s" % g[1])
                    continue
            else:
                for e in re.findall(r"wf::\w+", g.ret or ""):
                    if e in w.enums:
                        handed.setdefault(e, where)
                self_ = mk("sym", "self", t)
                try:
                    s = Ev(w, {}, max_depth=20, budget=60000).summarize(g, this=self_ if g.rt == t and not g.lambda_ else None, args=[self_] + [mk("sym", x["n"], bare(x["t"])) for x in g.params[1:]] if g.lambda_ or g.rt != t else None)
                    got = {c for c in ({y for y in x if y not in WRAP or (len(x) == 1)} and tuple(y for y in x if y not in ("ptr_", "contents_", "impl_")) for x in paths(s.val, self_)) if c}
                except AnalysisBroken as e:
                    ck.notes.append("undecided: property %s of %s (%s)" % (nm, t, e))
                    continue
                if not got and not isinstance(g, tuple):
                    got = None
            if got is None:
                # nothing readable was returned by an opaque call: go by the name of the method it calls
                ck.notes.append("undecided: property %s of %s returns %s" % (nm, t, show(s.val)[:80]))
                continue
            tops = {c[0] for c in got}
            if not isinstance(g, tuple) and g.rt == t and not g.lambda_:
                # a method: bound under its own name if there is a method of that name
                if norm(g.name) == norm(nm):
                    ck.ok("member", "%s.%s" % (t, nm), where)
                    continue
                if any(m.rt == t and norm(m.name) == norm(nm) and not m.lambda_ for m in w.fns.values()):
                    ck.bad("member", "%s.%s" % (t, nm), where, "bound to %s" % g.q)
                    continue
            read.setdefault(frozenset(tops), []).append((nm, where))
            if norm(nm) in known:
                ck.check({norm(x) for x in tops} == {norm(nm)}, "member", "%s.%s" % (t, nm), where, "reads %s" % ", ".join(sorted(tops)))
            elif own:
                ck.ok("member", "%s.%s" % (t, nm), where)
            else:
                others = [x for x in ps if x[0] is not None and x[0] != nm and norm(x[0]) in {norm(y) for y in tops}]
                ck.check(not (len(tops) == 1 and others), "member", "%s.%s" % (t, nm), where, "reads %s, which is the member of property %s" % (", ".join(sorted(tops)), others[0][0] if others else ""))
        for tops, us in read.items():
            if len(us) > 1 and len({u[0] for u in us}) > 1 and len(tops) == 1 and t.startswith("wf::ast::"):
                ck.bad("member", "%s.%s" % (t, us[1][0]), us[1][1], "reads the same member as property %s" % us[0][0])
        if len({x[0] for x in ps}) < len(ps):
            ck.bad("member", t, ps[0][2], "a property is bound twice")
    # setters write the member their getter reads
    for t, ps in props.items():
        for nm, g, where, f, n in ps:
            if n["fn"].endswith("def_prop_rw") and len(n["a"]) > 2 and norm(nm or "") in {norm(x) for x in leafnames(w, t)}:
                st = getter(ck, w, f, n["a"][2])
                if st is None or isinstance(st, tuple) or len(st.params) != 2:
                    continue
                v, o = mk("sym", "v", bare(st.params[1]["t"])), mk("sym", "self", t)
                try:
                    s = Ev(w, {}, max_depth=10, budget=20000).summarize(st, args=[o, v])
                except AnalysisBroken:
                    continue
                after = s.args[0] if s.args else None
                if after is None:
                    continue
                wr = [x for x in walk_terms(after) if x.op == "upd"]
                ck.check(len(wr) == 1 and norm(str(wr[0].a[1])) == norm(nm) and wr[0].a[2] is v, "member", "%s.%s=" % (t, nm), where, lambda: "assigning it gives %s" % show(after))
    for t, ms in methods.items():
        names = {norm(m.name) for m in w.fns.values() if m.rt == t and not m.ctor and not m.lambda_}
        for nm, g, where in ms:
            if isinstance(g, tuple) or g.rt != t or g.lambda_:
                continue
            if norm(nm) in names:
                ck.check(norm(g.name) == norm(nm), "method", "%s.%s" % (t, nm), where, "bound to %s" % g.q)
    return handed


# ---------------------------------------------------------------------------------------------------- registered names
def kinds(w):
    """the types for which a generator has a Python-overridable entry point, and those of the syntax tree"""
    over = {}
    for f in w.fns.values():
        m = re.match(r"wf::wrapped_generator<(.*)>$", f.rt or "")
        if m and f.name == "operator()" and len(f.params) == 1:
            over.setdefault(m.group(1), {})[bare(f.params[0]["t"])] = f
    return over


def names(ck, w):
    ts = sorted({t for d in kinds(w).values() for t in d})
    if not ts:
        raise AnalysisBroken("anchor vanished: wf::wrapped_generator")
    src = ['#include <string_view>', '#include "wf/code_generation/ast.h"', '#include "wf/code_generation/ast_formatters.h"', "namespace wf {",
           "constexpr bool same(const std::array<char, 64>& a, std::string_view s) { for (std::size_t i = 0; i < s.size(); ++i) { if (a[i] != s[i]) { return false; } } return a[s.size()] == 0; }"]
    want = {}
    for t in ts:
        s = t.rsplit("::", 1)[1]
        c = "".join(x[:1].upper() + x[1:] for x in s.split("_"))
        want[len(src) + 1] = (t, "registered under a name other than %s" % s)
        src.append('static_assert(::%s::snake_case_name_str == std::string_view("%s"));' % (t, s))
        want[len(src) + 1] = (t, "its Python class is not named %s" % c)
        src.append('static_assert(same(camel_case_from_snake_case<64>(::%s::snake_case_name_str), "%s"));' % (t, c))
    src.append("}")
    for ln, msg in compile_errors(src, sorted(want)):
        if ln in want:
            t, d = want.pop(ln)
            if "static assertion failed" in msg or "static_assert failed" in msg:
                ck.bad("name", t, "components/core/wf/code_generation", d)
            else:
                ck.notes.append("undecided: name of %s (%s)" % (t, msg[:80]))
        else:
            raise AnalysisBroken("name witnesses do not compile: %s" % msg[:200])
    for t, d in want.values():
        ck.ok("name", t, "components/core/wf/code_generation")


def compile_errors(src, lines):
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, "w01.cc")
        with open(fn, "w") as fh:
            fh.write("\n".join(src) + "\n")
        r = subprocess.run(["clang++"] + CORE_FLAGS + core_includes() + ["-fsyntax-only", "-ferror-limit=0", "-w", fn], capture_output=True, text=True)
    out = []
    for ln in r.stderr.splitlines():
        m = re.match(r"(\S+?):(\d+):\d+: (?:fatal )?error: (.*)", ln)
        if m:
            out.append((int(m.group(2)) if os.path.basename(m.group(1)) == "w01.cc" else 0, m.group(3)))
    return out


# ---------------------------------------------------------------------------------------------------- overrides
def truth(t, atoms):
    """evaluate a boolean term under atoms (predicate term -> bool or None)"""
    v = atoms(t)
    if v is not None:
        return v
    if t is TRUE or t is FALSE:
        return t is TRUE
    if t.op == "not":
        x = truth(t.a[0], atoms)
        return None if x is None else not x
    if t.op in ("and", "or"):
        xs = [truth(x, atoms) for x in t.a]
        if t.op == "and":
            return False if False in xs else (None if None in xs else True)
        return True if True in xs else (None if None in xs else False)
    if t.op == "ite":
        c = truth(t.a[0], atoms)
        return None if c is None else truth(t.a[1 if c else 2], atoms)
    return None


def pick(t, atoms):
    while t.op == "ite":
        c = truth(t.a[0], atoms)
        if c is None:
            return None
        t = t.a[1 if c else 2]
    return t


def overrides(ck, w):
    over = kinds(w)
    gens = [g for g in over]
    if len(gens) < 4:
        raise AnalysisBroken("anchor vanished: only %d wrapped generators" % len(gens))
    # every kind registered for formatting
    reg = {}
    for f in w.fns.values():
        m = re.match(r"wf::register_one_format_operator<(.*)>$", f.rt or "")
        if m and f.name == "operator()" and f.params and not f.lambda_:
            g = re.search(r"wf::wrapped_generator<([\w:]+)>", f.params[0]["t"])
            if g and f.body is not None:
                reg.setdefault(g.group(1), {})[m.group(1)] = f
    everything = sorted({t for d in over.values() for t in d} | {t for d in reg.values() for t in d})
    elements = [t for t in everything if t.startswith("wf::ast::")]
    for t in wrapped_ast(w):
        if t not in everything:
            ck.bad("override", t, "components/wrapper", "syntax element kind has no Python override point")
    unread = 0
    for g in gens:
        for t in everything:
            f = over[g].get(t)
            lab = "%s %s" % (g.split("::")[-1], t[4:])
            if f is None:
                if not any(re.search(r"\(const %s &\)" % re.escape(t), x.ft) for x in w.fns.values() if x.rt == g and x.name == "operator()") and not any(g == y for y in reg):
                    continue
                ck.bad("override", lab, "components/wrapper/pywrenfold/code_formatting_wrapper.cc", "formatting it does not look for a Python override")
                continue
            ok = overridable(ck, w, g, t, f, lab)
            unread += ok is None
    if unread * 2 > len(gens) * len(everything):
        raise AnalysisBroken("override entry points cannot be evaluated (%d unread)" % unread)
    if not reg:
        ck.notes.append("undecided: registration of format and super_format")
        return
    for g in gens:
        for t in everything:
            f = reg.get(g, {}).get(t)
            lab = "%s %s" % (g.split("::")[-1], t[4:])
            if f is None:
                if t == "wf::ast::function_definition" and all(t not in d for d in reg.values()):
                    continue        # whole definitions are formatted with generate()
                ck.bad("format", lab, "components/wrapper/pywrenfold/code_formatting_wrapper.cc", "format() does not accept it")
                continue
            registration(ck, w, g, t, f, lab)


def wrapped_ast(w):
    out = set()
    for f in w.fns.values():
        if f.name == "wrap_ast_type" and f.ta and f.ta[0].startswith("wf::"):
            out.add(f.ta[0])
    if len(out) < 25:
        raise AnalysisBroken("anchor vanished: wf::wrap_ast_type<T> (%d kinds)" % len(out))
    return sorted(out)


def lookups(w, g):
    return {"%s::%s" % ("wf::wrapped_generator<%s>" % g, x) for x in ("get_override",)}


def base_prims(w, g):
    def h(ev, st, fr, e, fnid, objlv, an):
        o = ev.raw(st, objlv) if objlv is not None else VOID
        return mk("format", g, e.get("virt", 0) and not e.get("qual", 0), *[ev.argval(st, x) for x in an])
    return {g + "::operator()": h}


def overridable(ck, w, g, t, f, lab):
    el = mk("sym", "element", t)
    this = mk("sym", "this", f.rt)
    try:
        s = Ev(w, base_prims(w, g), max_depth=12, budget=60000).summarize(f, this=this, args=[el])
    except AnalysisBroken as e:
        ck.notes.append("undecided: override of %s (%s)" % (lab, str(e)[:100]))
        return None
    snake = t.rsplit("::", 1)[1]
    where = f.loc
    # which Python attributes are looked up, on what
    attrs = {x for x in walk_terms(s.val) if x.op == "call" and x.a[0] == "nanobind::getattr"}
    for x in s.throws:
        attrs |= {y for y in walk_terms(x.guard) if y.op == "call" and y.a[0] == "nanobind::getattr"}
    if not attrs:
        ck.bad("override", lab, where, "formatting it does not look for a Python override")
        return False
    for a in attrs:
        strs = [y.a[0] for y in walk_terms(a) if y.op == "str"]
        objs = [y for y in a.a[2:3]]
        good = strs == ["format_" + snake] and any(y is this for x in objs for y in walk_terms(x))
        if not ck.check(good, "override", lab, where, lambda: "looks up %s" % show(a)):
            return False
    # decide by cases: what the per-kind memory says (nothing / absent / present), whether the attribute exists
    base = mk("format", g, False, el)
    for mem in ("none", "absent", "present"):
        for has in (True, False):
            if mem == "absent" and has:
                continue        # the memory is what a previous look-up found

            def atoms(x, mem=mem, has=has):
                if x.op == "haskey":
                    return (mem != "none") if memkey(x.a[1], t) else False
                if x.op == "lookup":
                    return mem == "present" if memkey(x.a[1], t) else None
                if x.op == "call" and x.a[0] == "nanobind::handle::operator bool":
                    y = pick(x.a[2], atoms)
                    return None if y is None else (True if y.op == "call" and y.a[0] == "nanobind::none" else (y in attrs and True) or None)
                if x.op == "call" and x.a[0].endswith("::is_none"):
                    y = pick(x.a[2], atoms)
                    return None if y is None else (True if y.op == "call" and y.a[0] == "nanobind::none" else (not has if y in attrs else None))
                return None
            v = pick(s.val, atoms)
            if v is None:
                ck.notes.append("undecided: override of %s: %s" % (lab, show(s.val)[:200]))
                return None
            if has:
                good = any(x in attrs for x in walk_terms(v)) and any(x is el for x in walk_terms(v)) and not any(x.op == "format" for x in walk_terms(v))
                if not ck.check(good, "override", lab, where, lambda: "with an override in Python, gives %s" % show(v)):
                    return False
            else:
                good = v.op == "format" and v.a[0] == g and v.a[-1] is el
                if not ck.check(good, "override", lab, where, lambda: "without an override, gives %s" % show(v)):
                    return False
                if not ck.check(not v.a[1], "override", lab, where, "without an override, it calls itself"):
                    return False
    # what is remembered
    after = s.this
    for x in walk_terms(after) if after is not None else ():
        if x.op == "mapset":
            good = memkey(x.a[1], t) and any(y in attrs for y in walk_terms(x.a[2]))
            neg = x.a[2].op == "not"
            if not ck.check(good and not neg, "override", lab, where, lambda: "remembers %s under %s" % (show(x.a[2]), show(x.a[1]))):
                return False
    return True


def memkey(x, t):
    while x.op in ("new", "obj", "call") and x.op != "typeid" and x.a and isinstance(x.a[-1], type(x)):
        x = x.a[-1]
    return x.op == "typeid" and x.a[0] == t


def registration(ck, w, g, t, f, lab):
    got = {}
    for n in walk(f.body):
        if n["k"] == "Call" and n.get("fn", "").endswith("::def") and n.get("a"):
            nm = string(n["a"][0])
            fn = getter(ck, w, f, n["a"][1]) if len(n["a"]) > 1 else None
            if nm and fn is not None and not isinstance(fn, tuple):
                got.setdefault(nm, []).append(fn)
    for nm in ("format", "super_format"):
        fs = got.get(nm, [])
        if len(fs) != 1:
            ck.bad("format", "%s %s" % (lab, nm), f.loc, "bound %d times" % len(fs))
            continue
        h = fs[0]
        if len(h.params) != 2 or bare(h.params[1]["t"]) != t:
            ck.bad("format", "%s %s" % (lab, nm), f.loc, "accepts %s" % h.ft)
            continue
        el, me = mk("sym", "element", t), mk("sym", "self", "wf::wrapped_generator<%s>" % g)
        own = "wf::wrapped_generator<%s>" % g
        pr = base_prims(w, g)

        def derived(ev, st, fr, e, fnid, objlv, an):
            return mk("format", own, True, *[ev.argval(st, x) for x in an])
        pr[own + "::operator()"] = derived
        try:
            s = Ev(w, pr, max_depth=12, budget=60000).summarize(h, args=[me, el])
        except AnalysisBroken as e:
            ck.notes.append("undecided: %s of %s (%s)" % (nm, lab, str(e)[:100]))
            continue
        v = s.val
        good = v.op == "format" and v.a[-1] is el and bool(v.a[1]) == (nm == "format")
        if v.op != "format" and any(x.op in ("ite", "phi", "expr?") for x in walk_terms(v)):
            ck.notes.append("undecided: %s of %s" % (nm, lab))
            continue
        ck.check(good, "format", "%s %s" % (lab, nm), h.loc, lambda: "gives %s, %s" % (show(v), "which ignores overrides" if nm == "format" else "which is not the generator's own formatting"))


# ---------------------------------------------------------------------------------------------------- dispatch
def dispatch(ck, p, w):
    """inside a generator"""
    for g in ["wf::" + x for x in GENERATORS]:
        ms = [f for f in p.fns.values() if f.body is not None and not f.ctor and not f.dtor and not f.implicit and (f.rt == g or f.q.startswith(g + "::"))]
        if len(ms) < 25:
            raise AnalysisBroken("anchor vanished: members of %s" % g)
        formattable = set(kinds(w).get(g, {}))
        byval = re.compile(r"(?<![\w:])%s(?!\w)(?!::)(?!(?: const)?\s*[&*])" % re.escape(g))
        ck.analysed({f.id for f in ms})
        for f in ms:
            lab = "%s(%s)" % (f.q.replace("wf::", "")[:60], ", ".join(bare(x["t"]).replace("wf::", "") for x in f.params)[:60])
            bad = None
            for n in walk(f.body):
                k = n["k"]
                if k == "Call" and n.get("rt") == g and n.get("fn") == g + "::operator()":
                    m = re.search(r"\(const ([\w:]+) &\)", n.get("ft", ""))
                    if m and m.group(1) in formattable and (n.get("qual") or not n.get("virt")):
                        bad = (n, "formats a %s by a call that overrides cannot intercept" % m.group(1)[4:])
                if k in ("Call", "Construct"):
                    if k == "Construct" and n.get("rt") == g:
                        bad = (n, "makes another generator")
                    ta = " ".join(str(x) for x in n.get("ta") or []) if k == "Call" else ""
                    for s in (str(n.get("t", "")), ta):
                        s = s.replace("std::reference_wrapper<const %s>" % g, "").replace("std::reference_wrapper<%s>" % g, "")
                        if s not in (g, "const " + g) and byval.search(s):
                            bad = (n, "formats with a copy of the generator, which has no overrides (%s)" % s[:140])
                        elif k == "Call" and s is ta and s.strip() in (g, "const " + g):
                            bad = (n, "passes a copy of the generator, which has no overrides, to %s" % n.get("fn"))
                if k == "Copy" and bare(n.get("t", "")) == g:
                    bad = (n, "makes a copy of the generator, which has no overrides")
                if k == "Lambda":
                    for c in n.get("caps", []):
                        if isinstance(c, dict) and (c.get("starthis") or (bare(str(c.get("t", ""))) == g and not c.get("ref"))) and not str(c.get("t", "")).endswith(("&", "*")):
                            bad = (n, "captures a copy of the generator, which has no overrides")
                if bad:
                    break
            ck.check(bad is None, "dispatch", lab, site(f, bad[0]) if bad else f.loc, lambda: bad[1])


# ---------------------------------------------------------------------------------------------------- descriptions
def descriptions(ck, w, cs):
    fd = "wf::function_description"
    for f, n in cs:
        if n["k"] != "Call" or n.get("rt") != "nanobind::class_<%s>" % fd or not n["fn"].endswith("::def") or len(n.get("a") or []) < 2:
            continue
        nm = string(n["a"][0])
        if nm not in ("add_input_argument", "add_output_argument", "set_return_value"):
            continue
        h = getter(ck, w, f, n["a"][1])
        if h is None or isinstance(h, tuple) or not h.lambda_:
            continue
        log = []

        def rec(which):
            def go(ev, st, fr, e, fnid, objlv, an):
                log.append((which, [ev.argval(st, x) for x in an]))
                return mk("sym", "result", "")
            return go
        pr = {fd + "::" + x: rec(x) for x in ("add_input_argument", "add_output_argument", "set_return_value")}
        syms = [mk("sym", "self", fd)] + [mk("sym", x["n"], bare(x["t"])) for x in h.params[1:]]
        lab = "%s(%s)" % (nm, ", ".join(bare(x["t"]).replace("wf::", "")[:24] for x in h.params[1:]))
        pr["wf::create_custom_type_construction"] = PURE
        try:
            Ev(w, pr, max_depth=10, budget=60000).summarize(h, args=syms)
        except AnalysisBroken as e:
            ck.notes.append("undecided: %s (%s)" % (lab, str(e)[:80]))
            continue
        if len(log) != 1:
            ck.notes.append("undecided: %s calls %d functions" % (lab, len(log)))
            continue
        which, args = log[0]
        where = site(f, n)
        if not ck.check(which == nm, "description", lab, where, "calls %s" % which):
            continue
        roles = {"add_input_argument": ("name", "type"), "add_output_argument": ("name", "type", "is_optional", "value"), "set_return_value": ("type", "value")}[nm]
        byt = {}
        for s, x in zip(syms[1:], h.params[1:]):
            t = bare(x["t"])
            byt["value" if t in ("wf::scalar_expr", "wf::matrix_expr") or "vector" in t else "type" if t.endswith("_type") else "is_optional" if t == "bool" else "name"] = s
        for r, a in zip(roles, args):
            inside = set(walk_terms(a))
            if r in ("name", "is_optional"):
                good = byt[r] in inside and a.op != "not"
            elif r == "value":
                good = byt["value"] in inside
            else:
                good = byt["type"] in inside if "type" in byt else dims(a, byt["value"])
            ck.check(good, "description", "%s %s" % (lab, r), where, lambda: "passes %s" % show(a)[:120])


def dims(a, v):
    """the type made for a value: scalar, or a matrix of its own shape in the order rows, columns"""
    if v.a[1] == "wf::scalar_expr":
        return any("floating_point" in show(x) for x in [a])
    got = [x.a[0].rsplit("::", 1)[1] for x in walk_terms(a) if x.op == "call" and x.a[0] in ("wf::matrix_expr::rows", "wf::matrix_expr::cols")]
    if a.op == "obj" and sorted(set(got)) == ["cols", "rows"]:
        ns = [n for n, x in zip(a.a[1], a.a[2:]) if any(y.op == "call" and y.a[0].endswith("::rows") for y in walk_terms(x))]
        return [norm(n) for n in ns] == ["rows"]
    return set(got) != {"cols"} and set(got) != {"rows"}
