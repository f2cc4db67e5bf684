"""C06: every detected error reaches the caller as a catchable exception.

Escape analysis over the resolved call graph of the core library: a function declared not to throw (noexcept, or a
destructor) must not reach a throw expression through calls, conversions, copies, functors or lambdas.  An edge is cut
only where the raising branch of the callee is ruled out at the call itself: division by a non-zero literal or by the
(positive) denominator of a rational, a never-null pointer handed to non_null, an index below a size that was tested.
Further rules: no call ends the process, no handler swallows an error, every thrown type is a std::exception."""
import collections
from wfa.program import load_core, AnalysisBroken, walk, rel
from wfa.report import Check

KILL = {"abort", "exit", "_exit", "_Exit", "quick_exit", "terminate", "__builtin_trap", "__builtin_abort", "__assert_fail",
        "__assert", "raise", "kill", "longjmp", "__builtin_debugtrap", "at_quick_exit", "pthread_exit", "pthread_kill"}
CALLS = ("Call", "Construct", "Copy", "Move", "FnRef")


def bare(t):
    t = (t or "").strip()
    while True:
        u = t
        for w in ("const ", "volatile ", "struct ", "class "):
            if u.startswith(w):
                u = u[len(w):]
        u = u.rstrip("&* ").strip()
        if u.endswith(" const"):
            u = u[:-6]
        if u == t:
            return t
        t = u


def strip(e):
    while isinstance(e, dict) and e.get("k") in ("Cast", "Paren", "Move", "Copy", "Expr?") and isinstance(e.get("e"), dict):
        e = e["e"]
    while isinstance(e, dict) and e.get("k") == "Construct" and len(e.get("a") or []) == 1 and "checked_int" in (e.get("rt") or ""):
        e = strip(e["a"][0])
    return e


def constant(e):
    e = strip(e)
    if not isinstance(e, dict):
        return None
    if e.get("k") == "Int":
        return int(e["v"])
    if e.get("k") == "Un" and e.get("op") == "-":
        v = constant(e.get("e") or e.get("x"))
        return None if v is None else -v
    if e.get("k") == "Call" and e.get("op") == "-" and len(e.get("a") or []) + (1 if e.get("obj") else 0) == 1:
        v = constant((e.get("a") or [e.get("obj")])[0] or e.get("obj"))
        return None if v is None else -v
    return None


class Escape:
    def __init__(self, p):
        self.p = p
        self.ops = collections.defaultdict(list)
        for f in p.fns.values():
            if f.name == "operator()" and f.rt:
                self.ops[f.rt].append(f.id)
        self.edges = {}
        self.throws = {}
        self.sites = 0
        self.cut = []
        for f in p.fns.values():
            self.scan(f)

    def scan(self, f):
        out = []
        defs = {}
        for part in [f.body] + list(f.inits):
            for n in walk(part):
                if n.get("k") == "Var" and n.get("i") is not None:
                    defs[n["id"]] = n["i"]
        dead = self.dead_throws(f)
        for part in [f.body] + list(f.inits):
            for n in walk(part):
                k = n.get("k")
                if k in CALLS and n.get("id"):
                    self.sites += 1
                    why = self.ruled_out(f, n, defs) if n["id"] in self.p.fns else None
                    if why:
                        self.cut.append((f, n, why))
                    else:
                        out.append((n["id"], n))
                if k == "Lambda":
                    out += [(o, n) for o in n.get("ops") or []]
                if k in ("Construct", "InitList"):
                    out += [(o, n) for o in self.ops.get(bare(n.get("rt") or n.get("t")), ())]
                if k == "Throw" and f.id not in self.throws and id(n) not in dead:
                    self.throws[f.id] = n
        self.edges[f.id] = [(i, n) for i, n in out if i in self.p.fns]

    def dead_throws(self, f):
        """Throws under a null test of a member that this constructor has just set with make_unique/make_shared."""
        made = {i.get("f") for i in f.inits if strip(i.get("e") or {}).get("k") == "Call"
                and (strip(i["e"]).get("fn") or "").rsplit("::", 1)[-1] in ("make_unique", "make_shared")}
        out = set()
        for n in walk(f.body) if made else ():
            c = n.get("cond") if n.get("k") == "If" else None
            if isinstance(c, dict) and c.get("k") == "Un" and c.get("op") == "!":
                e = strip(c["e"])
                if e.get("k") == "Call" and (e.get("fn") or "").endswith("operator bool"):
                    e = strip(e.get("obj") or {})
                    if e.get("k") == "Member" and e.get("n") in made and strip(e.get("e") or {}).get("k") == "This":
                        out |= {id(m) for m in walk(n) if m.get("k") == "Throw"}
        return out

    def ruled_out(self, f, n, defs):
        """Why the callee's raising branch cannot be taken at this call (None when that is not established)."""
        g = self.p.fns[n["id"]]
        args = n.get("a") or []
        if g.name in ("operator/", "operator%") and "checked_int" in g.ft and len(args) == 2:
            d = self.local(args[1], defs)
            v = constant(d)
            if v is not None and v not in (0, -1):
                return "divisor is the literal %d" % v
            d = strip(d)
            if d.get("k") == "Member" and d.get("rt") == "wf::rational_constant" and d.get("n") == self.denominator():
                return "divisor is the denominator of a rational"
            if d.get("k") == "Call" and d.get("rt") == "wf::rational_constant" and d.get("fn", "").endswith("::denominator"):
                return "divisor is the denominator of a rational"
            return None
        if g.ctor and (g.rt or "").startswith("wf::non_null<"):
            a = self.local(args[0] if args else n.get("e"), defs)
            return self.never_null(f, a, defs)
        if g.name == "operator[]" and len(args) == 1 or (n.get("op") == "[]" and len(args) == 2):
            i = constant(self.local(args[-1], defs))
            o = n.get("obj") or args[0]
            if i is not None:
                m = self.size_known(f, o)
                if m is not None and i < m:
                    return "index %d of an operation known to have %d operands" % (i, m)
            return None
        if g.name == "determine_member_type":
            # (type, index) of one variable: set together by create_function_input from the type's own elements
            own = [x.get("n") for a in args for x in walk(a) if x.get("k") == "Member" and strip(x.get("e") or {}).get("k") == "This"]
            if any("index" in (x or "") for x in own):
                return "index of the variable's own custom type"
        return None

    def denominator(self):
        fs = [x["n"] for x in self.p.rec("wf::rational_constant")["fields"]]
        return fs[1]

    def local(self, e, defs, depth=4):
        e = strip(e) if isinstance(e, dict) else {}
        while depth and e.get("k") == "Ref" and e.get("id") in defs and "const" in (e.get("t") or "") + " const":
            e = strip(defs[e["id"]])
            depth -= 1
        return e if isinstance(e, dict) else {}

    def never_null(self, f, a, defs):
        a = self.local(a, defs)
        k = a.get("k")
        if k == "This" or k == "New" or (k == "Un" and a.get("op") == "&"):
            return "address of an object"
        t = a.get("t") or ""
        if "non_null<" in bare(t):
            return "already never null"
        if k == "Call":
            nm = (a.get("fn") or "").rsplit("::", 1)[-1]
            if nm.startswith(("make_shared", "make_unique", "addressof", "get_unchecked")):
                return "%s never yields null here" % nm
            if nm == "get" and a.get("obj") is not None:
                return self.element(f, a["obj"])
        if bare(t).startswith(("std::unique_ptr<wf::ir::", "std::shared_ptr<wf::ir::")):
            return self.element(f, a)
        return None

    def element(self, f, e):
        """Elements of the graph's owning containers are created by make_unique only."""
        e = strip(e)
        if e.get("k") in ("Ref", "Index", "Un") and bare(e.get("t") or "").startswith("std::unique_ptr<wf::ir::"):
            return "owned block or value"
        if e.get("k") == "Call" and e.get("op") in ("*", "[]") and "unique_ptr<wf::ir::" in (e.get("t") or ""):
            return "owned block or value"
        return None

    def size_known(self, f, obj):
        """N when the function returns early (or asserts) unless obj.size() == N."""
        key = self.key(obj)
        best = None
        for n in walk(f.body):
            if n.get("k") != "If":
                continue
            c = n.get("cond") or {}
            if c.get("k") == "Bin" and c.get("op") in ("!=", "<"):
                a, b = strip(c["x"]), constant(c["y"])
                if a.get("k") == "Call" and (a.get("fn") or "").endswith("::size") and b is not None and self.key(a.get("obj")) == key:
                    if any(m.get("k") in ("Return", "Throw") for m in walk(n.get("then") or n.get("t") or {})):
                        best = b if best is None else max(best, b)
            if c.get("k") == "Bin" and c.get("op") in ("==", ">="):
                a, b = strip(c["x"]), constant(c["y"])
                if a.get("k") == "Call" and (a.get("fn") or "").endswith("::size") and b is not None and self.key(a.get("obj")) == key:
                    best = b if best is None else max(best, b)
        return best

    def key(self, e):
        e = strip(e) if isinstance(e, dict) else {}
        return (e.get("k"), e.get("id"), e.get("n"))

    def solve(self):
        """For every function that can raise out of its body: the call it does so through."""
        rev = collections.defaultdict(list)
        for a, es in self.edges.items():
            for b, n in es:
                rev[b].append((a, n))
        via = {i: None for i in self.throws}
        work = list(self.throws)
        while work:
            x = work.pop()
            if self.p.fns[x].nx and x in via and via[x] is not None:
                continue           # would terminate there; reported there
            if self.p.fns[x].nx and via[x] is None:
                continue
            for a, n in rev[x]:
                if a not in via:
                    via[a] = (x, n)
                    work.append(a)
        return via


def path(p, via, i):
    out = []
    while True:
        v = via[i]
        if v is None:
            return out
        out.append("%s (line %s)" % (short(p.fns[v[0]].q), v[1].get("l")))
        i = v[0]


def short(q):
    return q.split("(")[0].replace("wf::", "")


def run(tier):
    ck = Check("C06", tier, __doc__)
    p = load_core()
    es = Escape(p)
    if len(es.throws) < 100:
        raise AnalysisBroken("only %d functions raise errors" % len(es.throws))
    via = es.solve()
    nx = [f for f in p.fns.values() if f.nx or f.dtor]
    ck.analysed(es.edges)
    bad = {}
    for f in nx:
        if f.implicit and not f.inits and f.id not in via:
            continue
        if f.id in via:
            bad.setdefault((f.file, f.line), f)
    named = collections.Counter()
    for f in sorted(nx, key=lambda f: (f.file, f.line, f.q)):
        loc = (f.file, f.line)
        if loc in named:
            continue
        named[loc] += 1
        b = bad.get(loc)
        ck.check(b is None, "no escape", "%s @%s" % (short(f.q), rel(f.file).rsplit("/", 1)[-1]), f.loc,
                 lambda: "declared not to throw, but raises through " + " -> ".join(path(p, via, b.id) or ["its own throw"]))
    for f, n, why in es.cut:
        if f.nx:
            ck.ok("ruled out", "%s: %s (%s)" % (short(f.q), short(p.fns[n["id"]].q), why), f.loc)
    for f in p.fns.values():
        for part in [f.body] + list(f.inits):
            for n in walk(part):
                k = n.get("k")
                if k == "Call" and (n.get("fn") or "").rsplit("::", 1)[-1] in KILL and (n.get("fn") or "").split("::")[0] in ("std", n.get("fn")):
                    ck.bad("process termination", "%s calls %s" % (short(f.q), n["fn"]), "%s:%s" % (rel(f.file), n.get("l")), "ends the process instead of raising")
                if k == "Catch" or k == "Try":
                    for h in (n.get("handlers") or ()):
                        ty = bare(h.get("t"))
                        mine = ty in ("...", "std::exception") or ty.startswith("wf::")
                        again = any(m.get("k") == "Throw" for m in walk(h.get("body") or {}))
                        ck.check(again or not mine, "no swallowed error", "%s catches %s" % (short(f.q), ty), "%s:%s" % (rel(f.file), h.get("l")),
                                 "an error is caught and does not reach the caller")
                if k == "Throw" and n.get("e") is not None:
                    t = bare(n["e"].get("t"))
                    ck.check(derives(p, t), "catchable type", "%s thrown in %s" % (t, short(f.q)), "%s:%s" % (rel(f.file), n.get("l")), "%s is not a std::exception" % t)
    ck.require("no escape", 300)
    ck.require("catchable type", 100)
    ck.assumptions = ["errors of the standard library and of fmt (allocation failure, bad_variant_access, format errors) are not library errors",
                      "the denominator of a rational_constant is never zero or negative (its only constructors canonicalise it)",
                      "blocks_ and values_ own no null pointer (they are filled from make_unique only)"]
    return ck.finish(p)


def derives(p, t, depth=6):
    if t in ("std::exception",) or t.startswith("std::"):
        return True
    r = p.recs.get(t)
    if r is None or depth == 0:
        return False
    return any(derives(p, bare(b if isinstance(b, str) else b.get("t")), depth - 1) for b in r.get("bases") or ())
