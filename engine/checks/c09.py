"""C09: an option the caller chose governs every nested step.

Option-flow analysis over the resolved call graph of the core library and its Python bindings, plus the Python package's
syntax trees.  Options are recognised by type (differentiation behaviour, optimisation parameters, generator styles) or
by name.  Wherever an option is available (parameter, captured parameter, member of the object, or further up the
call chain), a nested call that takes the same option must receive a value computed from it: not a default argument,
not a constant.  Every option that is accepted is read, and the binding from Python's flags keeps the direction."""
import ast, collections, glob, os
from wfa.program import load_core, load_wrapper, AnalysisBroken, walk, rel, REPO
from wfa.report import Check

TYPES = ("wf::non_differentiable_behavior", "wf::optimization_params", "wf::python_generator_target",
         "wf::python_generator_float_width", "wf::cpp_matrix_type_behavior")
NAMES = ("convert_ternaries", "use_output_arguments", "use_abstract", "indent")


def bare(t):
    t = (t or "").replace("const ", "").replace("&", "").replace("*", "").strip()
    if t.startswith("std::optional<"):
        t = t[len("std::optional<"):-1].strip()
    return t


def option(t, n):
    b = bare(t)
    if b in TYPES:
        return b
    n = (n or "").rstrip("_")
    return n if n in NAMES else None


class Flow:
    def __init__(self, ck, p, tag):
        self.ck, self.p, self.tag = ck, p, tag
        self.members = collections.defaultdict(dict)
        for q, r in p.recs.items():
            if isinstance(r, dict) and bare(q) not in TYPES:
                for x in r.get("fields") or ():
                    o = option(x["t"], x["n"])
                    if o:
                        self.members[q][o] = x["n"]
        self.by_parent = {}

    def owner(self, f):
        """the function whose body a lambda is written in"""
        seen = set()
        while f is not None and f.lambda_ and f.id not in seen:
            seen.add(f.id)
            f = self.outer.get(f.id) or None
        return f

    def prepare(self):
        self.outer = {}
        for f in self.p.fns.values():
            for part in [f.body] + [i.get("e") for i in f.inits]:
                for n in walk(part):
                    if n.get("k") == "Lambda":
                        for o in n.get("ops") or ():
                            self.outer[o] = f
        self.avail = {}
        for f in self.p.fns.values():
            self.avail[f.id] = self.available(f)

    def available(self, f, depth=6):
        out = {}
        while f is not None and depth:
            depth -= 1
            for x in f.params:
                o = option(x["t"], x["n"])
                if o:
                    out.setdefault(o, "parameter %s" % x["n"])
            if f.rt and not f.static:
                for o, m in self.members.get(bare(f.rt), {}).items():
                    if not f.ctor:
                        out.setdefault(o, "member %s" % m)
            f = self.outer.get(f.id)
        return out

    def derived(self, o, e, defs, depth=8):
        """the value is computed from a variable holding the option"""
        if depth == 0 or not isinstance(e, dict):
            return False
        if e.get("k") in ("DefArg", "DefInit", "Enum", "Int", "Bool", "Global", "FnRef"):
            return False
        if e.get("k") in ("Cast", "Paren", "Copy", "Move") and isinstance(e.get("e"), dict):
            return self.derived(o, e["e"], defs, depth)
        if e.get("k") == "Un" and e.get("op") == "!" or e.get("k") == "Bin" and e.get("op") in ("&&", "||"):
            return False        # inverted or weakened
        if e.get("k") == "Cond":
            if self.derived(o, e.get("x"), defs, depth) and self.derived(o, e.get("y"), defs, depth):
                return True
            return self.derived(o, strip_test(e.get("cond")), defs, depth)
        for n in walk(e):
            k = n.get("k")
            if k in ("Ref", "Member") and option(n.get("t"), n.get("n")) == o:
                i = defs.get(n.get("id")) if k == "Ref" else None
                if i is None or self.derived(o, i, defs, depth - 1):
                    return True
            elif k == "Ref" and n.get("id") in defs and self.derived(o, defs[n["id"]], defs, depth - 1):
                return True
            elif k == "Member" and bare(n.get("rt")) == o:
                return True
            elif k == "Ref" and n.get("n") == "use_abstract" and o == TYPES[0]:
                return True
            elif k == "Call" and option(n.get("t"), (n.get("fn") or "").rsplit("::", 1)[-1]) == o and n.get("obj") is not None and not n.get("static"):
                return True     # accessor of the option
        return False

    def member_option(self, rt, name):
        for o, m in self.members.get(bare(rt or ""), {}).items():
            if m == name:
                return o
        return None

    def signature(self, n):
        g = self.p.fns.get(n.get("id")) or self.p.decls.get(n.get("id"))
        return g

    def calls(self, f):
        defs = {}
        parts = [f.body] + [i.get("e") for i in f.inits]
        for part in parts:
            for n in walk(part):
                if n.get("k") == "Var" and n.get("i") is not None:
                    defs[n["id"]] = n["i"]
        for part in parts:
            for n in walk(part):
                if n.get("k") in ("Call", "Construct") and n.get("id"):
                    g = self.signature(n)
                    if g is None or not g.q.startswith("wf::"):
                        continue
                    for i, a in enumerate(n.get("a") or ()):
                        if i >= len(g.params):
                            break
                        o = option(g.params[i]["t"], g.params[i]["n"])
                        if o is None or bare(g.rt or "") in TYPES:
                            continue
                        yield n, g, i, o, a, defs

    def run(self):
        self.prepare()
        ck = self.ck
        # options that reach a function that does not carry them itself
        reach = collections.defaultdict(dict)
        work = [(f.id, o) for f in self.p.fns.values() for o in self.avail[f.id] if o in TYPES[:2]]
        seen = set(work)
        while work:
            i, o = work.pop()
            f = self.p.fns[i]
            for part in [f.body] + [x.get("e") for x in f.inits]:
                for n in walk(part):
                    ids = [n["id"]] if n.get("k") in ("Call", "Construct") and n.get("id") else n.get("ops") or [] if n.get("k") == "Lambda" else []
                    for j in ids:
                        g = self.p.fns.get(j)
                        if g is None or not g.q.startswith("wf::") or (j, o) in seen or o in self.avail[j]:
                            continue
                        if helper(g, f):
                            seen.add((j, o))
                            reach[j].setdefault(o, f)
                            work.append((j, o))
        done = set()
        for f in sorted(self.p.fns.values(), key=lambda f: (f.file, f.line, f.id)):
            if f.implicit or "/tests/" in f.file:
                continue
            av = self.avail[f.id]
            for n, g, i, o, a, defs in self.calls(f):
                where = "%s:%s" % (rel(f.file), n.get("l"))
                who = short(f.q)
                key = (where, g.q, i)
                if key in done:
                    continue
                if o in av:
                    done.add(key)
                    ck.check(self.derived(o, a, defs), self.tag, "%s passes %s to %s" % (who, short(o), short(g.q)), where,
                             lambda: "the %s given to %s is %s although the caller's is available (%s)" % (short(o), short(g.q), describe(a), av[o]))
                elif o in reach.get(f.id, {}):
                    done.add(key)
                    ck.check(self.derived(o, a, defs), self.tag, "%s passes %s to %s" % (who, short(o), short(g.q)), where,
                             lambda: "the %s given to %s is %s although the caller %s has one" % (short(o), short(g.q), describe(a), short(reach[f.id][o].q)))
        # an option, once received, is not overwritten
        for f in sorted(self.p.fns.values(), key=lambda f: (f.file, f.line, f.id)):
            if f.implicit or not self.avail[f.id] or "/wrapper/" in f.file or bare(f.rt or "") in TYPES:
                continue
            defs = {n["id"]: n["i"] for n in walk(f.body) if n.get("k") == "Var" and n.get("i") is not None}
            for n in walk(f.body):
                if n.get("k") != "Assign":
                    continue
                x = n.get("x") or {}
                o = option(x.get("t"), x.get("n")) if x.get("k") in ("Ref", "Member") else None
                if o is None and x.get("k") == "Member" and bare(x.get("rt")) in TYPES:
                    o = bare(x["rt"])
                if o in self.avail[f.id]:
                    ck.check(self.derived(o, n.get("y"), defs), self.tag, "%s keeps %s" % (short(f.q), short(o)), "%s:%s" % (rel(f.file), n.get("l")),
                             "the option the caller chose is overwritten")
        # stored options are the ones received
        for f in sorted(self.p.fns.values(), key=lambda f: (f.file, f.line, f.id)):
            if not f.ctor or f.implicit or f.defaulted:
                continue
            got = {option(x["t"], x["n"]) for x in f.params}
            for i in f.inits:
                o = self.member_option(f.rt, i.get("f"))
                if o and o in got:
                    ck.check(self.derived(o, i.get("e"), {}), self.tag, "%s stores %s" % (short(f.q), short(o)), f.loc, "the stored option is not the one received")
        # accepted options are used
        done = set()
        for f in sorted(self.p.fns.values(), key=lambda f: (f.file, f.line, f.id)):
            if f.implicit or f.defaulted or not f.body and not f.inits:
                continue
            for x in f.params:
                o = option(x["t"], x["n"])
                if not o or not x["n"] or bare(f.rt or "") in TYPES or not f.q.startswith("wf::") or "::order_struct" in f.q:
                    continue
                key = (f.file, f.line, x["n"])
                if key in done:
                    continue
                done.add(key)
                used = any(n.get("k") == "Ref" and n.get("n") == x["n"] for part in [f.body] + [i.get("e") for i in f.inits] for n in walk(part))
                used = used or any(n.get("k") == "Ref" and n.get("n") == x["n"] for g in self.p.fns.values() if self.outer.get(g.id) is f for n in walk(g.body))
                ck.check(used, "option read", "%s(%s)" % (short(f.q), x["n"]), f.loc, "the option is accepted and never read")


def strip_test(c):
    """`use_abstract` or `behavior == abstract`: the tested value alone decides"""
    while isinstance(c, dict) and (c.get("k") in ("Cast", "Paren") or c.get("k") == "Un" and c.get("op") == "!"):
        c = c.get("e") or c.get("x")
    if isinstance(c, dict) and c.get("k") == "Bin" and c.get("op") in ("==", "!="):
        return c.get("x") if (c.get("y") or {}).get("k") == "Enum" else c.get("y")
    return c


def helper(g, f):
    """functions of the same source file, through which a step of the operation may have been moved"""
    return g.file == f.file


def short(q):
    return q.split("(")[0].replace("wf::", "")


def describe(a):
    k = a.get("k")
    return "the default argument" if k in ("DefArg", "DefInit") else "the constant %s" % short(a["n"]) if k == "Enum" else "not computed from it"


def simplifications(ck, p):
    """every optimisation setting controls its pass"""
    fs = [f for f in p.fns.values() if f.q == "wf::control_flow_graph::apply_simplifications"]
    fields = [(x["n"], x["t"]) for x in (p.rec("wf::optimization_params") or {}).get("fields", ())]
    if not fs or not fields:
        raise AnalysisBroken("optimisation settings not found")
    f = fs[0]
    for n, t in fields:
        uses = [m for m in walk(f.body) if m.get("k") == "Member" and m.get("n") == n]
        ck.check(bool(uses), "setting", n, f.loc, "the setting is never read by the optimiser")
        if not uses:
            continue
        if t == "bool":
            pos = neg = False
            for s in walk(f.body):
                if s.get("k") in ("If", "Cond"):
                    pol = polarity(s.get("cond"), n)
                    br = s.get("then") if s.get("k") == "If" else s.get("x")
                    other = s.get("else") if s.get("k") == "If" else s.get("y")
                    if pol is not None:
                        on, off = (br, other) if pol else (other, br)
                        pos = pos or named_call(on, n)
                        neg = neg or named_call(off, n)
            total = sum(1 for m in walk(f.body) if m.get("k") == "Call" and (m.get("fn") or "").endswith("::" + n))
            if total:
                ck.check(pos and not neg, "setting", n + " controls its pass", f.loc, "the pass named like the setting does not run exactly when the setting is on")


def polarity(c, n):
    if not isinstance(c, dict):
        return None
    if c.get("k") == "Member" and c.get("n") == n:
        return True
    if c.get("k") == "Un" and c.get("op") == "!":
        r = polarity(c.get("e") or c.get("x"), n)
        return None if r is None else not r
    if c.get("k") in ("Cast", "Paren"):
        return polarity(c.get("e"), n)
    return None


def named_call(s, n):
    return isinstance(s, dict) and any(m.get("k") == "Call" and (m.get("fn") or "").endswith("::" + n) for m in walk(s))


def ternaries(ck, p):
    """convert_ternaries: conditional values become branches exactly when it is set"""
    hit = 0
    for f in p.fns.values():
        if f.rt != "wf::ir_control_flow_converter":
            continue
        for n in walk(f.body):
            if n.get("k") == "If" and any(m.get("k") == "Member" and (m.get("n") or "").startswith("convert_ternaries") for m in walk(n.get("cond"))):
                hit += 1
                neg = any(m.get("k") == "Un" and m.get("op") == "!" and any(z.get("k") == "Member" and (z.get("n") or "").startswith("convert_ternaries") for z in walk(m)) for m in walk(n.get("cond")))
                both = any(m.get("k") == "Bin" and m.get("op") == "||" for m in walk(n.get("cond")))
                queue = any(m.get("k") == "Call" and (m.get("fn") or "").rsplit("::", 1)[-1] in ("push_back", "emplace_back") for m in walk(n.get("then")))
                extra = [c for c in conjuncts(n.get("cond")) if not tests_kind(c)]
                if queue and not both:
                    ck.check(len(extra) == 0, "setting", "convert_ternaries alone decides", "%s:%s" % (rel(f.file), n["l"]), "conditionals are queued for branching under a further condition than the option")
                    ck.check(not neg, "setting", "convert_ternaries", "%s:%s" % (rel(f.file), n["l"]), "conditionals are queued for branching when the option is off")
    if not hit:
        ck.check(any(m.get("k") == "Member" and (m.get("n") or "").startswith("convert_ternaries") for f in p.fns.values() if f.rt == "wf::ir_control_flow_converter" for m in walk(f.body)),
                 "setting", "convert_ternaries", "ir_control_flow_converter.cc", "the option is never read")


def conjuncts(c):
    if isinstance(c, dict) and c.get("k") == "Bin" and c.get("op") == "&&":
        return conjuncts(c.get("x")) + conjuncts(c.get("y"))
    if isinstance(c, dict) and c.get("k") in ("Cast", "Paren"):
        return conjuncts(c.get("e"))
    return [c]


def tests_kind(c):
    names = {(n.get("fn") or n.get("n") or "").rsplit("::", 1)[-1] for n in walk(c) if n.get("k") in ("Call", "Member")}
    return any(n.startswith(("convert_ternaries", "is_op", "is_type", "get_if", "holds_alternative")) for n in names) or not any(n.get("k") in ("Call", "Member", "Bin") for n in walk(c))


def direction(ck, w):
    """use_abstract=True selects the abstract behaviour"""
    seen = set()
    for f in w.fns.values():
        for n in walk(f.body):
            if n.get("k") == "Cond" and bare(n.get("t")) == TYPES[0]:
                c = n.get("cond")
                neg = False
                while isinstance(c, dict) and (c.get("k") in ("Cast", "Paren") or c.get("k") == "Un" and c.get("op") == "!"):
                    neg ^= c.get("k") == "Un"
                    c = c.get("e") or c.get("x")
                if not isinstance(c, dict) or c.get("n") != "use_abstract":
                    continue
                on, off = (n.get("y"), n.get("x")) if neg else (n.get("x"), n.get("y"))
                key = (f.file, n["l"])
                if key in seen:
                    continue
                seen.add(key)
                ok = (on or {}).get("n", "").endswith("::abstract") and (off or {}).get("n", "").endswith("::constant")
                ck.check(ok, "binding direction", "use_abstract in " + short(f.q).split("(")[0], "%s:%s" % (rel(f.file), n["l"]), "use_abstract does not select the abstract behaviour")


def python_package(ck):
    """keyword options handed on by the Python package's own functions"""
    funcs = {}
    trees = {}
    for path in sorted(glob.glob(REPO + "/components/python/wrenfold/*.py")):
        trees[path] = ast.parse(open(path).read())
        for n in ast.walk(trees[path]):
            if isinstance(n, ast.FunctionDef):
                args = n.args
                pos = [a.arg for a in args.args]
                d = set(pos[len(pos) - len(args.defaults):]) if args.defaults else set()
                kw = {a.arg for a, v in zip(args.kwonlyargs, args.kw_defaults) if v is not None}
                funcs.setdefault(n.name, []).append((pos, d | kw))
    # native functions reached from Python, by the names of their options
    native = {"transpile": (["desc", "optimization_params", "convert_ternaries"], {"optimization_params", "convert_ternaries"}),
              "cse_function_description": (["desc", "params"], {"params"})}
    count = 0
    for path, tree in trees.items():
        for fn in [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]:
            mine = [a.arg for a in fn.args.args + fn.args.kwonlyargs]
            opts = [a for a in mine if a in ("optimization_params", "convert_ternaries", "generator", "use_abstract", "context", "import_target_module")]
            if not opts:
                continue
            names = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
            for o in opts:
                count += 1
                ck.check(o in names or doc_only(fn), "option read", "%s(%s)" % (fn.name, o), "%s:%d" % (rel(path), fn.lineno), "the option is accepted and never read")
            for c in [n for n in ast.walk(fn) if isinstance(n, ast.Call)]:
                nm = c.func.id if isinstance(c.func, ast.Name) else c.func.attr if isinstance(c.func, ast.Attribute) else None
                sigs = funcs.get(nm) or ([native[nm]] if nm in native else [])
                if not sigs or nm == fn.name:
                    continue
                for pos, dflt in sigs:
                    for o in [o for o in opts if o in dflt]:
                        v = next((k.value for k in c.keywords if k.arg == o), None)
                        if v is None and o in pos and pos.index(o) < len(c.args):
                            v = c.args[pos.index(o)]
                        if v is None and any(k.arg is None for k in c.keywords):
                            continue
                        good = v is not None and depends(fn, v, o)
                        count += 1
                        ck.check(good, "python option", "%s passes %s to %s" % (fn.name, o, nm), "%s:%d" % (rel(path), c.lineno),
                                 "the caller's %s is not handed on" % o)
    return count


def doc_only(fn):
    return all(isinstance(s, (ast.Expr, ast.Pass, ast.Raise)) for s in fn.body)


def depends(fn, v, o):
    names = {n.id for n in ast.walk(v) if isinstance(n, ast.Name)}
    for _ in range(4):
        if o in names:
            return True
        new = set(names)
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id in names for t in n.targets):
                new |= {m.id for m in ast.walk(n.value) if isinstance(m, ast.Name)}
        if new == names:
            return False
        names = new
    return o in names


def run(tier):
    ck = Check("C09", tier, __doc__)
    p = load_core()
    Flow(ck, p, "option flow").run()
    simplifications(ck, p)
    ternaries(ck, p)
    w = load_wrapper(only=["scalar_wrapper.cc", "matrix_wrapper.cc", "codegen_wrapper.cc", "geometry_wrapper.cc"])
    Flow(ck, w, "binding option flow").run()
    direction(ck, w)
    python_package(ck)
    ck.analysed([f.id for f in p.fns.values() if not f.implicit])
    ck.require("option flow", 15)
    ck.require("binding direction", 3)
    ck.require("python option", 1)
    return ck.finish(p)
