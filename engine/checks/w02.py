"""W02: SymPy conversion maps every function and constant to its counterpart.

(1) to SymPy: the converting visitor is evaluated on an instance of every node kind (for every enumerator, where it has
one); the SymPy object it names and the order of what it passes must be the counterpart's.  (2) from SymPy: the Python
converter is interpreted abstractly - its tables are built from its own constructor - on an object of every SymPy class
the first direction produces (and those it additionally accepts), and must give the wrenfold counterpart with converted
arguments in their roles; both directions together are thus inverse.  (3) bindings: the wrenfold names the converter
uses are bound to the library functions and constants they stand for."""
import ast, os, re
from wfa.program import load_core, load_wrapper, walk as walk_all, rel, REPO, AnalysisBroken
from wfa.vg import *
from wfa.shapes import instances, EXPR, NODES
from wfa.report import Check
from wfa.algebra import PRIMS
from wfa import pyabs
from wfa.pyabs import Interp, Term, Obj, Cls, Bound, Fun, Unread, Raised
from checks.c10 import join

V = "wf::sympy_conversion_visitor"
PY = "components/python/wrenfold/sympy_conversion.py"
TUS = ["sympy_conversion.cc", "scalar_wrapper.cc", "boolean_expression_wrapper.cc", "matrix_wrapper.cc", "symbolic_functions_wrapper.cc"]

# enumerator of wf::built_in_function -> (SymPy class, wrenfold.sym function)
FN = {"cos": ("cos", "cos"), "sin": ("sin", "sin"), "tan": ("tan", "tan"), "arccos": ("acos", "acos"), "arcsin": ("asin", "asin"),
      "arctan": ("atan", "atan"), "cosh": ("cosh", "cosh"), "sinh": ("sinh", "sinh"), "tanh": ("tanh", "tanh"), "arccosh": ("acosh", "acosh"),
      "arcsinh": ("asinh", "asinh"), "arctanh": ("atanh", "atanh"), "ln": ("log", "log"), "log": ("log", "log"), "abs": ("Abs", "abs"), "signum": ("sign", "sign"),
      "sign": ("sign", "sign"), "floor": ("floor", "floor"), "arctan2": ("atan2", "atan2"), "atan2": ("atan2", "atan2"), "exp": ("exp", "exp")}
REL = {"less_than": ("StrictLessThan", "lt"), "less_than_or_equal": ("LessThan", "le"), "equal": ("Equality", "eq")}
KONST = {"euler": ("E", "E"), "pi": ("pi", "pi")}
SETS = {"real_positive": {"positive": True}, "real_non_negative": {"nonnegative": True}, "real": {"real": True}, "complex": {"complex": True}, "unknown": {}}
FLAGS = ("positive", "nonnegative", "real", "complex")
# wrenfold.sym name -> library function(s) it must be bound to
BIND = {n: ["wf::" + n] for n in ("log exp pow cos sin tan acos asin atan cosh sinh tanh acosh asinh atanh sqrt abs floor atan2 max min where iverson".split())}
BIND.update({"sign": ["wf::signum"], "lt": ["wf::operator<"], "le": ["wf::operator<="], "gt": ["wf::operator>"], "ge": ["wf::operator>="], "eq": ["wf::operator=="],
             "unevaluated": ["wf::make_unevaluated"], "stop_derivative": ["wf::stop_diff"], "substitution": ["wf::substitution::create"], "derivative": ["wf::derivative::create"]})
ATTR = {"E": "euler", "pi": "pi", "zoo": "complex_infinity", "one": "one", "zero": "zero", "I": "imaginary_unit", "imaginary_unit": "imaginary_unit", "nan": "undefined",
        "true": "boolean_true", "false": "boolean_false"}


def walk(n):
    return (x for x in walk_all(n) if "k" in x)


def run(tier):
    ck = Check("W02", tier, __doc__)
    w = load_wrapper(only=TUS)
    p = load_core()
    join(p, w)
    outward(ck, p)
    inward(ck, p)
    bindings(ck, w)
    for g, m in (("to sympy", 40), ("from sympy", 60), ("binding", 25)):
        ck.require(g, m)
    return ck.finish(p)


# ---------------------------------------------------------------------------------------------------- to SymPy
def sp_tree(t):
    """nested (name, [arguments]) of a value built by the visitor; conv(x) for converted pieces"""
    t0 = t
    if t.op == "call":
        q = t.a[0]
        a = t.a[2:]
        if q == "nanobind::getattr":
            s = [x.a[0] for x in walk_terms(t) if x.op == "str"]
            if len(s) == 1 and a[0].op == "field" and a[0].a[1] == "sp_":
                return ("attr", pyabs.CANON.get(s[0], s[0]))
            return ("?", show(t)[:80])
        if q.endswith("::operator()"):
            f = sp_tree(a[0])
            args = []
            for x in a[1:]:
                y = sp_tree(x)
                args += y[1] if y[0] == "star" else [y]
            return ("call", f, args)
        if q == "nanobind::make_tuple":
            return ("tuple", [sp_tree(x) for x in a])
        if q.endswith("::operator*"):
            y = sp_tree(a[0])
            return ("star", y[1]) if y[0] == "list" else ("star", [("?", show(a[0])[:80])])
    if t.op == "after":
        t = t.a[0]
        if t.op == "call" and t.a[0].endswith("::append"):
            b = sp_tree(t.a[2])
            if b[0] == "list":
                return ("list", b[1] + [sp_tree(t.a[3])])
    if t.op == "new":
        return ("list", []) if t.a[0] == "nanobind::list" else ("star", []) if "dict" in t.a[0] else ("?", show(t)[:80])
    if t.op == "conv":
        return ("conv", t.a[0])
    if t.op == "c":
        return ("const", t.a[0])
    if t.op == "field" and t.a[1] == "evaluate_":
        return ("evaluate",)
    return ("value", t0)


def shown(x):
    if isinstance(x, tuple) and x and x[0] in ("conv", "value"):
        return ("" if x[0] == "value" else "") + show(x[1])[:60]
    if x[0] == "attr":
        return "sympy." + str(x[1])
    if x[0] == "call":
        return "%s(%s)" % (shown(x[1]), ", ".join(shown(y) for y in x[2]))
    if x[0] in ("tuple", "list"):
        return "(%s)" % ", ".join(shown(y) for y in x[1])
    return str(x[1]) if len(x) > 1 else x[0]


def visitor_prims():
    pr = dict(PRIMS)

    def op(ev, st, fr, e, fid, o, al):
        if al and bare(e["a"][0].get("t", "")) in EXPR:
            return mk("conv", ev.argval(st, al[0]))
        return None
    pr[V + "::operator()"] = op
    for o in ("<", ">", "<=", ">=", "=="):
        def rel_(ev, st, fr, e, fid, ob, al, o=o):
            if len(al) == 2 and all("scalar_expr" in str(x.get("t", "")) for x in e["a"][:2]):
                x, y = ev.argval(st, al[0]), ev.argval(st, al[1])
                return mk("rel", "<" if o in "<>" else o, *((y, x) if o == ">" else (x, y)))
            return None
        pr["wf::operator" + o] = rel_

    def ident(ev, st, fr, e, fid, ob, al):
        return mk("identical", ev.read(st, ob) if ob is not None else VOID, ev.argval(st, al[0]))
    for b in ("scalar_expr", "boolean_expr"):
        for m in ("scalar_meta_type", "boolean_meta_type"):
            pr["wf::expression_base<wf::%s, wf::%s>::is_identical_to" % (b, m)] = ident
    return pr


def outward(ck, p):
    fs = {}
    for f in p.method(V, "operator()"):
        t = bare(f.params[0]["t"])
        fs.setdefault(t, []).append(f)
    this = mk("sym", "this", V)
    unread = done = 0
    for n in NODES:
        t = "wf::" + n
        if t not in fs:
            continue
        # the overload for this very type rather than the template for the unsupported ones
        f = sorted(fs[t], key=lambda x: bool(x.ta))[0]
        if f.ta:
            continue
        enums_ = {"built_in_function_invocation": ("wf::built_in_function", FN), "relational": ("wf::relational_operation", REL),
                  "symbolic_constant": ("wf::symbolic_constant_enum", KONST), "variable": ("wf::number_set", SETS)}.get(n)
        for ins in instances(p, t):
            if n == "matrix":
                continue
            vals = [None]
            if enums_:
                vals = [x["n"] if isinstance(x, dict) else x[0] for x in p.enum(enums_[0])["vals"]]
            for v in vals:
                node = ins.node
                if v is not None:
                    k = [x for x in walk_terms(node) if x.op == "sym" and bare(str(x.a[1])) == enums_[0]]
                    if len(k) != 1:
                        unread += 1
                        continue
                    node = subst(node, {k[0]: enumc(enums_[0] + "::" + v, idx(p, enums_[0], v))})
                lab = "%s%s" % (ins.label, " " + v if v else "")
                log = {}
                try:
                    if n == "rational_constant":
                        node = mk("sym", "r", t)
                    e_ = Ev(p, dict(visitor_prims(), **(kw_prims(log) if n == "variable" else {})), max_depth=22, budget=200000)
                    s = e_.summarize(f, this=this, args=[node])
                    ck.analysed(e_.inlined)
                except AnalysisBroken as e:
                    ck.notes.append("undecided: %s (%s)" % (lab, str(e)[:80]))
                    unread += 1
                    continue
                done += 1
                one(ck, n, v, ins, node, s, f, lab, log)
    matrices(ck, p, fs, this)
    if unread > done:
        raise AnalysisBroken("the converting visitor cannot be evaluated (%d of %d)" % (unread, unread + done))


def idx(p, e, v):
    for i, x in enumerate(p.enum(e)["vals"]):
        n = x["n"] if isinstance(x, dict) else x[0]
        if n == v:
            return x.get("v", i) if isinstance(x, dict) else x[1]


def subst(t, m):
    if t in m:
        return m[t]
    if not any(type(x) is type(t) for x in t.a):
        return t
    return mk(t.op, *[subst(x, m) if type(x) is type(t) else x for x in t.a])


def kw_prims(log):
    """records the items assigned to a keyword dictionary"""
    def put(ev, st, fr, e, fid, o, al):
        t = ev.read(st, o)
        k = [x.a[0] for x in walk_terms(t) if x.op == "str"]
        v = ev.argval(st, al[0])
        log.setdefault("items", []).append((k[0] if len(k) == 1 else show(t), v))
        return VOID
    return {"nanobind::detail::accessor<nanobind::detail::%s>::operator=" % k: put for k in ("str_item", "obj_item", "str_attr", "obj_attr")}


def one(ck, n, v, ins, node, s, f, lab, log):
    where = f.loc
    tree = sp_tree(s.val)
    kids = [("conv", k) for k in ins.kids]
    F = lambda name, *a: ("call", ("attr", name), list(a))
    ev = ("evaluate",)
    if n in ("addition", "multiplication"):
        want = [F("Add" if n == "addition" else "Mul", *kids, ev)]
        got = tree
        if tree[0] == "call" and tree[2]:
            got = ("call", tree[1], sorted(tree[2][:-1], key=str) + tree[2][-1:])
            want = [("call", x[1], sorted(x[2][:-1], key=str) + [ev]) for x in want]
        tree = got
    elif n == "boolean_constant":
        c = [x for x in walk_terms(s.val) if x.op == "ite"]
        good = False
        if len(c) >= 1:
            i = c[0]
            st = lambda x: [y.a[0] for y in walk_terms(x) if y.op == "str"]
            neg = i.a[0].op == "not"
            good = (st(i.a[1]), st(i.a[2])) == ((["false"], ["true"]) if neg else (["true"], ["false"]))
            ck.check(good, "to sympy", lab, where, lambda: "gives %s" % show(s.val)[:200])
        else:
            ck.check(not [x for x in walk_terms(s.val) if x.op == "str"] or False, "to sympy", lab, where, lambda: "gives %s" % show(s.val)[:200])
        return
    elif n == "built_in_function_invocation":
        if v not in FN:
            ck.notes.append("undecided: no known counterpart of %s" % v)
            return
        want = [F(FN[v][0], *kids, ev)]
    elif n == "complex_infinity":
        want = [("attr", "zoo")]
    elif n == "conditional":
        return conditional(ck, s, ins, lab, where)
    elif n == "derivative":
        o = [("value", x) for x in ins.content]
        want = [F("Derivative", *kids, *o), F("Derivative", kids[0], ("tuple", [kids[1]] + o))]
    elif n in ("float_constant", "integer_constant"):
        want = None
        good = tree[0] == "call" and tree[1] == ("attr", "Float" if n[0] == "f" else "Integer") and len(tree[2]) == 1 and tree[2][0][0] == "value" and \
            (tree[2][0][1] in ins.content or (tree[2][0][1].op == "field" and any(x in ins.content for x in walk_terms(tree[2][0][1]))))
        ck.check(good, "to sympy", lab, where, lambda: "gives %s" % shown(tree))
        return
    elif n == "imaginary_unit":
        want = [("attr", "I")]
    elif n == "iverson_bracket":
        want = [F("Piecewise", ("tuple", [("const", 1), kids[0]]), ("tuple", [("const", 0), ("const", True)]), ev)]
    elif n == "power":
        want = [F("Pow", *kids, ev)]
    elif n == "rational_constant":
        vs = [x[1] for x in tree[2]] if tree[0] == "call" and tree[1] == ("attr", "Rational") and len(tree[2]) == 2 and all(x[0] == "value" for x in tree[2]) else None
        ok = vs is not None
        if ok:
            reads = [{x.a[1] for x in walk_terms(y) if x.op == "field" and x.a[0].op != "field" and x.a[1][:1] in "nd"} |
                     {x.a[1] for x in walk_terms(y) if x.op == "field" and x.a[1][:1] in "nd"} for y in vs]
            if all(len(x) == 1 for x in reads):
                ok = [next(iter(x))[0] for x in reads] == ["n", "d"]
            else:
                ck.notes.append("undecided: parts of a rational constant")
                return
        ck.check(ok, "to sympy", lab, where, lambda: "gives %s" % shown(tree))
        return
    elif n == "relational":
        want = [F(REL[v][0], *kids, ev)]
    elif n == "substitution":
        want = [F("Subs", *kids, ev), F("Subs", *kids)]
    elif n == "symbolic_constant":
        want = [("attr", KONST[v][0])]
    elif n == "symbolic_function_invocation":
        good = tree[0] == "call" and tree[2] == kids and tree[1][0] == "call" and tree[1][1] == ("attr", "Function") and len(tree[1][2]) == 1 and "name" in shown(tree[1][2][0])
        ck.check(good, "to sympy", lab, where, lambda: "gives %s" % shown(tree))
        return
    elif n == "undefined":
        want = [("attr", "nan")]
    elif n == "unevaluated":
        good = tree[0] == "call" and tree[1] == ("attr", "UnevaluatedExpr")
        ck.check(good, "to sympy", lab, where, lambda: "gives %s" % shown(tree))
        return
    elif n == "variable":
        good = tree[0] == "call" and tree[1] in (("attr", "symbols"), ("attr", "Symbol")) and tree[2] and tree[2][0][0] == "value" and tree[2][0][1] in [x for x in ins.content]
        ck.check(good, "to sympy", lab, where, lambda: "gives %s" % shown(tree))
        it = log.get("items", [])
        if any(not isinstance(k, str) or v_ not in (TRUE, FALSE) for k, v_ in it) or (not it and v != "unknown"):
            ck.notes.append("undecided: assumptions of %s" % lab)
        else:
            got = {k: v_ is TRUE for k, v_ in it}
            ck.check(got == SETS[v], "to sympy", lab + " assumptions", where, lambda: "gives the assumptions %s" % got)
        return
    else:
        return
    ck.check(tree in want, "to sympy", lab, where, lambda: "gives %s where %s is its counterpart" % (shown(tree), shown(want[0])))


def conditional(ck, s, ins, lab, where):
    c, x, y = ins.kids
    # under each possible meaning of the condition
    conds = {"general": None, "y<x": mk("rel", "<", y, x), "x<y": mk("rel", "<", x, y), "y<=x": mk("rel", "<=", y, x), "x<=y": mk("rel", "<=", x, y)}
    for nm, k in conds.items():
        def ident(t):
            if t.op == "identical":
                a = [z for z in t.a if z is not c]
                return k is not None and len(a) == 1 and a[0] is k
            return None
        v = s.val
        while v.op == "ite":
            b = truth(v.a[0], ident)
            if b is None:
                ck.notes.append("undecided: %s: %s" % (lab, show(v.a[0])[:100]))
                return
            v = v.a[1 if b else 2]
        tree = sp_tree(v)
        cx, cy, cc = ("conv", x), ("conv", y), ("conv", c)
        pw = ("call", ("attr", "Piecewise"), [("tuple", [cx, cc]), ("tuple", [cy, ("const", True)]), ("evaluate",)])
        want = [pw]
        if nm in ("y<x", "y<=x"):
            want += [("call", ("attr", "Max"), [a, b, ("evaluate",)]) for a, b in ((cx, cy), (cy, cx))]
        if nm in ("x<y", "x<=y"):
            want += [("call", ("attr", "Min"), [a, b, ("evaluate",)]) for a, b in ((cx, cy), (cy, cx))]
        ck.check(tree in want, "to sympy", "%s condition %s" % (lab, nm), where, lambda: "gives %s" % shown(tree))


def truth(t, atom):
    v = atom(t)
    if v is not None:
        return v
    if t is TRUE or t is FALSE:
        return t is TRUE
    if t.op == "not":
        x = truth(t.a[0], atom)
        return None if x is None else not x
    if t.op in ("and", "or"):
        xs = [truth(x, atom) for x in t.a]
        if (t.op == "or") in xs:
            return t.op == "or"
        return None if None in xs else t.op == "and"
    return None


def matrices(ck, p, fs, this):
    f = [x for x in fs.get("wf::matrix", []) if not x.ta]
    if not f:
        return
    from wfa.matrices import Matrices
    try:
        m = Matrices(p)
        for r, c in ((1, 3), (2, 3), (3, 2), (2, 2)):
            a = m.sym("a", r, c)
            s = Ev(p, visitor_prims(), max_depth=22, budget=200000).summarize(f[0], this=this, args=[a])
            tree = sp_tree(s.val)
            want = ("call", ("attr", "Matrix"), [("list", [("list", [("conv", m.el("a", i, j)) for j in range(c)]) for i in range(r)])])
            ck.check(tree == want, "to sympy", "matrix %dx%d" % (r, c), f[0].loc, lambda: "gives %s" % shown(tree)[:200])
    except (AnalysisBroken, AttributeError, TypeError) as e:
        ck.notes.append("undecided: matrix (%s)" % str(e)[:100])


# ---------------------------------------------------------------------------------------------------- from SymPy
SP, SYM = Term("name", "sp"), Term("name", "sym")


def spa(n):
    t = SP
    for x in n.split("."):
        t = Term("att", t, pyabs.CANON.get(x, x))
    return t


def symf(n, *a, **kw):
    return Term("call", Term("att", SYM, n), tuple(a), tuple(sorted(kw.items())))


def leaf(n, **attrs):
    return Obj(Term("leafclass", n), attrs, key=Term("leaf", n))


def sobj(cls, args, **attrs):
    d = {"args": tuple(args)}
    d.update(attrs)
    return Obj(spa(cls), d, key=Term("sympy", cls, tuple(a.key if isinstance(a, Obj) else pyabs.freeze(a) for a in args), tuple(sorted((k, repr(v)) for k, v in attrs.items()))))


def conv(x):
    return Term("conv", x.key if isinstance(x, Obj) else pyabs.freeze(x))


class Reader:
    def __init__(self):
        path = os.path.join(REPO, PY)
        if not os.path.exists(path):
            raise AnalysisBroken("anchor vanished: %s" % PY)
        self.tree = ast.parse(open(path).read())
        names = [n for n in self.tree.body if isinstance(n, ast.ClassDef) and any(isinstance(m, ast.FunctionDef) and m.name == "__call__" for m in n.body)]
        if len(names) != 1:
            raise AnalysisBroken("anchor vanished: the converter class of %s" % PY)
        self.cls = names[0]

    def outcomes(self, inputs, nested=False):
        """all outcomes of converting the inputs, in this order, with one converter; the last result counts"""
        it = Interp(self.tree, None, type_of)
        top = [None]

        def opaque(i, f, a, kw):
            if isinstance(f, Obj) and isinstance(f.cls, Cls) and f.cls.node is self.cls and top[0] is not None:
                x = (list(a) + list(kw.values()))[0]
                if not (isinstance(x, Obj) and any(x is y for y in inputs)):
                    return conv(x)
            if isinstance(f, Term) and f.k == "name" and f.a[0] in ("int", "float", "str"):
                return Term("cast", f.a[0], pyabs.freeze(a[0]))
            return NotImplemented
        it.opaque = opaque

        def run():
            top[0] = None
            c = it.new(it.env[self.cls.name], [SP], {})
            top[0] = c
            r = None
            for x in inputs:
                r = it.apply(c, [x], {})
            return r
        return it.paths(run)


def type_of(v, c):
    """type(v) when c is None, else isinstance(v, c)"""
    if c is None:
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, Term):
            return Term("typeof", v)
        return Term("name", type(v).__name__)
    if c == Term("att", Term("name", "typing"), "Hashable"):
        return not (isinstance(v, Obj) and v.attrs.get("unhashable"))
    cls = v.cls if isinstance(v, Obj) else None
    if cls == c:
        return True
    if isinstance(c, Term) and c.k == "att" and cls is not None:
        return c.a[1] in v.attrs.get("bases", ())
    return Term("isinstance", pyabs.freeze(v), c)


def strip(v):
    """calls with keyword arguments as positional ones where the order is known"""
    order = {"derivative": ("function", "arg", "order"), "rational": ("n", "d"), "substitution": ("input", "target", "replacement"), "symbol": ("name", "set"), "where": ("condition", "a", "b")}
    if isinstance(v, Term) and v.k == "call":
        f, a, kw = v.a
        a = [strip(x) for x in a]
        kw = dict((k, strip(x)) for k, x in kw)
        if isinstance(f, Term) and f.k == "att" and f.a[1] in order:
            for k in order[f.a[1]][len(a):]:
                if k in kw:
                    a.append(kw.pop(k))
                else:
                    break
        return Term("call", strip(f), tuple(a), tuple(sorted(kw.items())))
    if isinstance(v, (list, tuple)):
        return tuple(strip(x) for x in v)
    if isinstance(v, Obj) and v.key is not None:
        return v.key
    return v


def inward(ck, p):
    r = Reader()
    where = "%s:%d" % (PY, r.cls.lineno)
    a, b, c, d = leaf("a"), leaf("b"), leaf("c"), leaf("d")
    A, B, Cc, D = conv(a), conv(b), conv(c), conv(d)
    stats = [0, 0]

    def expect(lab, inputs, want, raise_ok=False, filt=None):
        try:
            outs = r.outcomes(inputs if isinstance(inputs, list) else [inputs])
        except Unread as e:
            ck.notes.append("undecided: %s (%s)" % (lab, str(e)[:90]))
            stats[1] += 1
            return
        stats[0] += 1
        for conds, (k, v) in outs:
            if filt is not None:
                w = filt(conds)
                if w is None:
                    continue
            else:
                w = want
            if k == "raise":
                ck.check(raise_ok, "from sympy", lab, where, "raises %s" % v)
                continue
            v = strip(v)
            ck.check(v in w, "from sympy", lab, where, lambda: "gives %r where %r is its counterpart" % (v, w[0] if w else None))

    for en, (s, f) in sorted(FN.items()):
        if s == "atan2":
            expect(s, sobj(s, [a, b]), [symf(f, A, B)])
        else:
            expect(s, sobj(s, [a]), [symf(f, A)])
            expect(s + " after another", [sobj(s, [b]), sobj(s, [a])], [symf(f, A)])
    for s, f, alt in (("StrictLessThan", "lt", "gt"), ("LessThan", "le", "ge"), ("StrictGreaterThan", "gt", "lt"), ("GreaterThan", "ge", "le"), ("Equality", "eq", "eq")):
        cmp_ = {"lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "eq": "Eq"}
        expect(s, sobj(s, [a, b]), [symf(f, A, B), symf(alt, B, A), Term("cmp", cmp_[f], A, B), Term("cmp", cmp_[alt], B, A)])
    expect("Pow", sobj("Pow", [a, b]), [symf("pow", A, B), Term("op", "Pow", A, B)])
    expect("UnevaluatedExpr", sobj("UnevaluatedExpr", [a]), [symf("unevaluated", A)])
    for s, f in (("Add", "addition"), ("Mul", "multiplication")):
        expect(s, sobj(s, [a, b, c]), [symf(f, t) for t in perms((A, B, Cc))])
    for s, f in (("Min", "min"), ("Max", "max")):
        expect(s, sobj(s, [a, b]), [symf(f, A, B), symf(f, B, A)])
        expect(s + "/3", sobj(s, [a, b, c]), [symf(f, x, symf(f, y, z)) for x, y, z in perms((A, B, Cc))] + [symf(f, symf(f, x, y), z) for x, y, z in perms((A, B, Cc))], raise_ok=True)
    K = lambda s, *x: Obj(Term("singleton", s, x), {}, key=Term("call", spa(s), x, ()) if x else spa(s))
    for s, f in (("E", ["E"]), ("pi", ["pi"]), ("zoo", ["zoo"]), ("I", ["I", "imaginary_unit"]), ("nan", ["nan"]), ("true", ["true"]), ("false", ["false"])):
        expect(s, K(s), [Term("att", SYM, x) for x in f])
    att = lambda x: Term("att", SYM, x)
    expect("0", K("Integer", 0), [att("zero"), symf("integer", 0)])
    expect("1", K("Integer", 1), [att("one"), symf("integer", 1)])
    expect("-1", K("Integer", -1), [symf("integer", -1), Term("neg", att("one"))])
    expect("1/2", K("Rational", 1, 2), [symf("rational", 1, 2)])
    i = sobj("Integer", [])
    expect("Integer", i, [symf("integer", Term("cast", "int", i.key)), symf("integer", Term("att", i.key, "p"))])
    fl = sobj("Float", [])
    expect("Float", fl, [symf("float_constant", Term("cast", "float", fl.key))])
    q = sobj("Rational", [])
    expect("Rational", q, [symf("rational", Term("att", q.key, x), Term("att", q.key, y)) for x in ("numerator", "p") for y in ("denominator", "q")])
    derivative_chain(expect, a, b, c, A, B, Cc)
    expect("Subs", Obj(spa("Subs"), {"expr": a, "bound_symbols": (b,), "variables": (b,), "point": (c,), "args": (a, (b,), (c,))}, key=Term("sympy", "Subs", ())), [symf("substitution", A, B, Cc)])
    fcls = Obj(Term("leafclass", "FunctionClass"), {"name": "f", "__name__": "f", "default_assumptions": {}}, key=Term("leaf", "f"))
    expect("applied function", Obj(Term("leafclass", "f"), {"args": (a, b), "func": fcls, "name": "f", "bases": ("AppliedUndef",)}, key=Term("sympy", "f", (a.key, b.key))),
           [Term("call", symf("Function", "f"), (A, B), ())])
    expect("applied function with assumptions", Obj(Term("leafclass", "f"), {"args": (a, b), "func": Obj(Term("leafclass", "FunctionClass"), {"name": "f", "__name__": "f", "default_assumptions": {"real": True}}, key=Term("leaf", "f+")), "name": "f", "bases": ("AppliedUndef",)}, key=Term("sympy", "f+", (a.key, b.key))),
           [], raise_ok=True)
    symbol(ck, r, where, stats)
    piecewise(ck, r, where, stats, a, b, c, d)
    heaviside(ck, r, where, stats, a, b)
    for rows, cols in ((1, 3), (2, 3), (3, 2)):
        el = [[leaf("m%d%d" % (i, j)) for j in range(cols)] for i in range(rows)]
        m = Obj(Term("leafclass", "Matrix"), {"shape": (rows, cols), "rows": rows, "cols": cols, "unhashable": True, "bases": ("MatrixBase",), "__getitem__": lambda k: item(el, k)}, key=None)
        expect("Matrix %dx%d" % (rows, cols), m, [symf("matrix", tuple(tuple(conv(x) for x in row) for row in el))])
    expect("unknown class", Obj(Term("leafclass", "Unknown"), {"args": (a,)}, key=Term("leaf", "unknown")), [], raise_ok=True)
    if stats[1] > stats[0]:
        raise AnalysisBroken("the converter of %s cannot be interpreted (%d of %d cases)" % (PY, stats[1], sum(stats)))


def item(el, k):
    try:
        if isinstance(k, tuple):
            return el[k[0]][k[1]]
        return [x for row in el for x in row][k]
    except IndexError:
        raise Raised("IndexError")


def perms(xs):
    import itertools
    return list(itertools.permutations(xs))


def derivative_chain(expect, a, b, c, A, B, Cc):
    expect("Derivative", sobj("Derivative", [a, (b, 2)]), [symf("derivative", A, B, 2)])
    expect("Derivative/2", sobj("Derivative", [a, (b, 2), (c, 1)]), [symf("derivative", symf("derivative", A, B, 2), Cc, 1), symf("derivative", symf("derivative", A, B, 2), Cc),
                                                                     symf("derivative", symf("derivative", A, Cc, 1), B, 2), symf("derivative", symf("derivative", A, Cc), B, 2)])


def symbol(ck, r, where, stats):
    order = [("real_positive", "RealPositive"), ("real_non_negative", "RealNonNegative"), ("real", "Real"), ("complex", "Complex"), (None, "Unknown")]
    implied = {"RealPositive": ("positive", "nonnegative", "real", "complex"), "RealNonNegative": ("nonnegative", "real", "complex"), "Real": ("real", "complex"), "Complex": ("complex",), "Unknown": ()}
    for _, nm in order:
        for extended in (False, True):
            attrs = {"is_" + f: (True if f in implied[nm] else (None if nm != "RealNonNegative" or f != "positive" else None)) for f in FLAGS}
            for n in ("is_extended_real", "is_finite", "is_integer", "is_negative", "is_zero", "is_rational", "is_imaginary"):
                attrs[n] = None if n != "is_negative" or nm in ("Unknown", "Real", "Complex") else False
            attrs["name"] = "x"
            o = Obj(spa("Symbol"), attrs, key=Term("leaf", "x"))
            try:
                outs = r.outcomes([o])
            except Unread as e:
                ck.notes.append("undecided: Symbol %s (%s)" % (nm, str(e)[:90]))
                stats[1] += 1
                break
            stats[0] += 1
            for conds, (k, v) in outs:
                v = strip(v) if k == "value" else v
                want = symf("symbol", "x", Term("att", Term("att", Term("name", "enumerations"), "NumberSet"), nm))
                alt = [want] + ([symf("symbol", "x")] if nm == "Unknown" else [])
                ck.check(k == "value" and v in alt, "from sympy", "Symbol %s" % nm, where, lambda: "gives %r" % (v,))
            break


def cond_eval(v, assign):
    """value of a where/iverson tree when the converted conditions have the given truth"""
    if isinstance(v, Term) and v.k == "call" and isinstance(v.a[0], Term) and v.a[0].k == "att" and v.a[0].a[0] == SYM:
        n, a = v.a[0].a[1], v.a[1]
        if n == "where" and len(a) == 3:
            t = assign(a[0])
            return None if t is None else cond_eval(a[1] if t else a[2], assign)
        if n == "iverson" and len(a) == 1:
            t = assign(a[0])
            return None if t is None else (1 if t else 0)
    return v


def piecewise(ck, r, where, stats, a, b, c, d):
    import itertools
    for n in (2, 3, 4):
        vals, cs = [leaf("v%d" % i) for i in range(n)], [leaf("c%d" % i) for i in range(n - 1)]
        true = Obj(Term("singleton", "true"), {}, key=spa("true"))
        args = [(v, x) for v, x in zip(vals, cs + [true])]
        o = Obj(spa("Piecewise"), {"args": tuple(args)}, key=Term("sympy", "Piecewise", n))
        try:
            outs = r.outcomes([o])
        except Unread as e:
            ck.notes.append("undecided: Piecewise/%d (%s)" % (n, str(e)[:90]))
            stats[1] += 1
            continue
        stats[0] += 1
        for conds, (k, v) in outs:
            if k == "raise":
                ck.bad("from sympy", "Piecewise/%d" % n, where, "raises %s" % v)
                continue
            v = strip(v)
            known = {}
            for t, val in conds:
                if t.k == "cmp" and t.a[0] == "Eq" and val:
                    x, y = t.a[1], t.a[2]
                    known[x if isinstance(x, Term) else y] = y if isinstance(x, Term) else x
            for tv in itertools.product((True, False), repeat=n - 1):
                m = {conv(x): t for x, t in zip(cs, tv)}
                got = cond_eval(v, lambda x: m.get(x))
                first = next((i for i, t in enumerate(tv) if t), n - 1)
                want = [conv(vals[first])]
                if vals[first].key in known:
                    want.append(known[vals[first].key])
                ck.check(got in want, "from sympy", "Piecewise/%d %s" % (n, "".join("TF"[not t] for t in tv)), where, lambda: "gives %r where the value is %r" % (got, want[0]))


def heaviside(ck, r, where, stats, a, b):
    o = sobj("Heaviside", [a, b])
    try:
        outs = r.outcomes([o])
    except Unread as e:
        ck.notes.append("undecided: Heaviside (%s)" % str(e)[:90])
        stats[1] += 1
        return
    stats[0] += 1
    A, B = conv(a), conv(b)
    for conds, (k, v) in outs:
        if k == "raise":
            ck.bad("from sympy", "Heaviside", where, "raises %s" % v)
            continue
        v = strip(v)
        for sign, want in ((1, 1), (-1, 0), (0, B)):
            def truth_(c):
                if isinstance(c, Term) and c.k == "call" and isinstance(c.a[0], Term) and c.a[0].a[0] == SYM and c.a[0].a[1] in ("lt", "le", "gt", "ge", "eq"):
                    c = Term("cmp", {"lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "eq": "Eq"}[c.a[0].a[1]], *c.a[1])
                if isinstance(c, Term) and c.k == "cmp" and A in c.a[1:] and any(x in (0, Term("att", SYM, "zero")) for x in c.a[1:] if x != A):
                    x, y = (sign, 0) if c.a[1] == A else (0, sign)
                    return {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y, "Eq": x == y}.get(c.a[0])
                return None
            got = cond_eval(v, truth_)
            got = {Term("att", SYM, "one"): 1, Term("att", SYM, "zero"): 0}.get(got, got)
            ck.check(got == want, "from sympy", "Heaviside %+d" % sign, where, lambda: "gives %r where the value is %r" % (got, want))


# ---------------------------------------------------------------------------------------------------- bindings
def string(n):
    while n is not None and n["k"] in ("Cast", "Copy", "Move", "Construct"):
        n = n.get("e") or (n.get("a") or [None])[0]
    return n["v"] if n is not None and n["k"] == "Str" else None


def fnref(n):
    while n is not None and n["k"] in ("Cast", "Copy", "Move", "Un", "Paren") or (n is not None and n["k"] == "Construct" and len(n.get("a") or []) == 1):
        n = n.get("e") or (n.get("a") or [None])[0]
    return n if n is not None and n["k"] in ("FnRef", "Lambda") else None


def bindings(ck, w):
    seen = set()
    got = {}
    for f in w.fns.values():
        if f.body is None or not f.file or "/components/wrapper/" not in f.file:
            continue
        for n in walk(f.body):
            if n["k"] != "Call" or not n.get("fn"):
                continue
            key = (f.file, n.get("l"), n["fn"], n.get("ft"))
            if n["fn"] == "nanobind::module_::def" and len(n.get("a") or []) >= 2:
                nm, t = string(n["a"][0]), fnref(n["a"][1])
                if nm is None or t is None or key in seen:
                    continue
                seen.add(key)
                where = "%s:%s" % (rel(f.file), n.get("l", f.line))
                if t["k"] == "FnRef":
                    got.setdefault(nm, []).append((t["fn"], where))
                    if nm in BIND and not t["fn"].endswith(tuple(x.split("::")[-1] for x in BIND[nm])) or nm in BIND and t["fn"] not in BIND[nm]:
                        ck.bad("binding", nm, where, "bound to %s, which is not %s" % (t["fn"], BIND[nm][0]))
                    elif nm in BIND:
                        ck.ok("binding", nm, where)
                h = w.fns.get(t["id"] if t["k"] == "FnRef" else t["ops"][0])
                names = [x.a0 for x in ()]
                argn = []
                for x in n["a"][2:]:
                    for y in walk(x):
                        if y["k"] == "Str" and (x["k"] != "Str"):
                            argn.append(y["v"])
                            break
                if h is not None and len(argn) == len(h.params) and sorted(argn) == sorted(y["n"] or "" for y in h.params):
                    ck.check(argn == [y["n"] for y in h.params], "argument order", nm, where, "named %s but passed as %s" % (argn, [y["n"] for y in h.params]))
            elif n.get("op") == "=" and n["fn"].startswith("nanobind::") and n.get("obj") is not None and n.get("a"):
                s = [y["v"] for y in walk(n["obj"]) if y["k"] == "Str"]
                r = [y for y in walk(n["a"][0]) if y["k"] in ("Ref", "Global", "Member", "RefOther") and y.get("n")]
                if len(s) == 1 and s[0] in ATTR and key not in seen and r:
                    seen.add(key)
                    c = r[0]["n"].rsplit("::", 1)[-1]
                    where = "%s:%s" % (rel(f.file), n.get("l", f.line))
                    known = set(ATTR.values())
                    if c in known:
                        ck.check(c == ATTR[s[0]], "binding", s[0], where, "bound to the constant %s" % c)
