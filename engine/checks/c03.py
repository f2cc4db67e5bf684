"""C03: composite expressions are only built through simplifying factories.

(1) Who may construct: every place in the library and the Python binding that wraps operands directly into a simplifiable
node (make_expr<T>, an in-place construction, a node object turned into an expression) lies in that kind's factory, or in
code that can only be reached through it: every caller, transitively over the call graph, is a factory.  (2) The factories
fold and validate: each is evaluated on the operands it must not wrap (nested derivatives and wrappers, constant
conditions, invalid targets, orders, indices and dimensions).  (3) Rebuilding a function call goes through the factory
of the very function."""
import re
from wfa.program import load_core, load_wrapper, walk, rel, AnalysisBroken
from wfa.vg import *
from wfa.shapes import instances, NODES
from wfa.algebra import PRIMS
from wfa.report import Check
from checks.c10 import join

FUNCS = {"cos": "cos", "sin": "sin", "tan": "tan", "arccos": "acos", "arcsin": "asin", "arctan": "atan", "cosh": "cosh", "sinh": "sinh", "tanh": "tanh", "arccosh": "acosh",
         "arcsinh": "asinh", "arctanh": "atanh", "ln": "log", "log": "log", "exp": "exp", "abs": "abs", "signum": "signum", "floor": "floor", "arctan2": "atan2"}
# kind -> the functions that canonicalise operands of that kind
FACTORY = {
    "addition": {"wf::addition::from_operands", "wf::addition_parts::create_addition"},
    "multiplication": {"wf::multiplication::from_operands", "wf::multiplication::from_two_operands", "wf::multiplication_parts::create_multiplication",
                       "wf::addition_parts::create_addition", "wf::power::create", "wf::pow_maybe_simplify"},
    "power": {"wf::power::create", "wf::pow_maybe_simplify"},
    "relational": {"wf::relational::create"},
    "conditional": {"wf::conditional::create"},
    "derivative": {"wf::derivative::create"},
    "substitution": {"wf::substitution::create"},
    "unevaluated": {"wf::unevaluated::create"},
    "stop_derivative": {"wf::stop_derivative::create"},
    "iverson_bracket": {"wf::iverson"},
    "custom_type_construction": {"wf::custom_type_construction::create"},
    "compound_expression_element": {"wf::compound_expression_element::create"},
    "built_in_function_invocation": {"wf::" + f for f in FUNCS.values()},
}
# classes that deliberately put already canonical operands back together
REASSEMBLE = {"addition": ["wf::expression_sorter"], "multiplication": ["wf::expression_sorter", "wf::as_coeff_and_mul"],
              "compound_expression_element": ["wf::expression_from_ir_visitor", "wf::external_function"]}
INFRA = ("wf::make_expr", "wf::expression_base<", "wf::expression_variant<")
HOLDER = ("wf::scalar_expr", "wf::boolean_expr", "wf::compound_expr", "wf::any_expression")
TAG = re.compile(r"^(?:const )?std::in_place_type_t<(?:class |struct )?(wf::[\w:]+)>(?: const)? ?&{0,2}$")


def run(tier):
    ck = Check("C03", tier, __doc__)
    p = load_core()
    w = load_wrapper()
    join(p, w)
    for k, fs in FACTORY.items():
        if not any(p.named(q) for q in fs):
            raise AnalysisBroken("anchor vanished: no factory of %s" % k)
    sites(ck, p)
    folds(ck, p)
    rebuild(ck, p)
    ck.assumptions.append("multiplication of a coefficient and a coefficient-free term inside addition_parts::create_addition, the factors "
                          "as_coeff_and_mul divides over two products, and the operands expression_sorter, expression_from_ir_visitor and "
                          "external_function put together, are canonical already")
    ck.require("construction", 30)
    ck.require("factory", 20)
    return ck.finish(p)


# ------------------------------------------------------------------------------------------------ who may construct
def tree(f):
    out = [f.body] if f.body else []
    for i in f.inits or []:
        if isinstance(i, dict):
            out += [x for x in i.values() if isinstance(x, dict)]
    return out


def found(f):
    """(kind, line, enumerator or None) of each direct construction in the function"""
    for b in tree(f):
        for n in walk(b):
            k = n.get("k")
            if k == "Call" and n.get("fn") == "wf::make_expr" and n.get("ta"):
                yield str(n["ta"][0]), n.get("l"), first_enum(n.get("a") or [])
            if k in ("Call", "Construct"):
                a = [x for x in n.get("a") or [] if isinstance(x, dict)]
                for i, x in enumerate(a):
                    m = TAG.match(str(x.get("t", "")))
                    if m:
                        yield m.group(1), n.get("l"), first_enum(a[i + 1:])
                # a node object that becomes an expression
                t = bare(str(n.get("rt") or n.get("t") or ""))
                if k == "Construct" and (t in HOLDER or t.startswith("wf::expression_base<")) and len(a) == 1:
                    at = bare(str(a[0].get("t", "")))
                    if at[4:] in FACTORY and at.startswith("wf::"):
                        yield at, n.get("l"), None


def first_enum(a):
    for x in a[:1]:
        while isinstance(x, dict) and x.get("k") in ("Cast", "Copy", "Move", "Construct"):
            x = x.get("e") or (x.get("a") or [None])[0]
        if isinstance(x, dict) and x.get("k") == "Enum":
            return x["n"].split("::")[-1]
    return None


def callers(p):
    """function id -> ids of the functions that call it, name it, or (for a functor) create it"""
    by = {}
    functor = {}
    made = {}
    for f in p.fns.values():
        if f.name == "operator()" and f.rt:
            functor.setdefault(f.rt, []).append(f.id)
    for f in p.fns.values():
        for b in tree(f):
            for n in walk(b):
                k = n.get("k")
                if k in ("Call", "Construct") and n.get("id"):
                    by.setdefault(n["id"], set()).add(f.id)
                if k == "FnRef" and n.get("id"):
                    by.setdefault(n["id"], set()).add(f.id)
                if k == "Lambda":
                    for o in n.get("ops") or []:
                        by.setdefault(o, set()).add(f.id)
                t = bare(str(n.get("rt") or n.get("t") or "")) if k in ("Construct", "Var") else None
                if t in functor:
                    made.setdefault(t, set()).add(f.id)
    for t, fs in functor.items():
        for i in fs:
            by.setdefault(i, set()).update(made.get(t, ()))
    return by


def sites(ck, p):
    by = callers(p)
    ck.analysed(p.fns.keys())
    ids = {}
    for f in p.fns.values():
        ids.setdefault((f.q, f.file, f.line), []).append(f.id)

    def allowed(f, kind, en):
        if kind == "built_in_function_invocation" and en is not None:
            return f.q == "wf::" + FUNCS.get(en, "?")
        return f.q in FACTORY[kind] or any(f.rt == c or f.q == c or f.q.startswith(c + "::") for c in REASSEMBLE.get(kind, ()))

    def escape(f, kind, en):
        """a chain of callers from f to a function without callers that meets no factory; None if there is none"""
        seen = {f.id}
        todo = [(f, [f])]
        while todo:
            g, path = todo.pop()
            if allowed(g, kind, en):
                continue
            up = by.get(g.id, set()) - {g.id}
            if not up:
                return path
            for u in up:
                if u not in seen:
                    seen.add(u)
                    todo.append((p.fns[u], path + [p.fns[u]]))
        return None

    seen = set()
    for f in p.fns.values():
        if f.q.startswith(INFRA):
            continue
        for t, line, en in found(f):
            kind = t[4:] if t.startswith("wf::") else t
            if kind not in FACTORY:
                continue
            key = (f.id, line, kind, en)
            if key in seen:
                continue
            seen.add(key)
            path = escape(f, kind, en)
            ck.check(path is None, "construction", "%s in %s" % (kind, f.q), "%s:%s" % (rel(f.file), line),
                     lambda: "wraps operands into a %s outside %s; reached through %s" % (
                         kind if en is None else "call of " + en, " / ".join(sorted(x.split("wf::")[-1] for x in (FACTORY[kind] if en is None else ["wf::" + FUNCS.get(en, "?")]))),
                         " <- ".join(x.q.split("wf::", 1)[-1] for x in path[:4])))


# ------------------------------------------------------------------------------------------------ what factories refuse to wrap
def prims():
    pr = dict(PRIMS)

    def ident(ev, st, fr, e, fid, o, al):
        a, b = ev.read(st, o) if o is not None else None, ev.argval(st, al[0])
        if a is not b and a is not None and a.op == b.op == "glob":
            return FALSE
        return TRUE if a is b else None
    for b, m in (("scalar_expr", "scalar_meta_type"), ("boolean_expr", "boolean_meta_type"), ("compound_expr", "compound_meta_type"), ("matrix_expr", "matrix_meta_type")):
        pr["wf::expression_base<wf::%s, wf::%s>::is_identical_to" % (b, m)] = ident
    return pr


def folds(ck, p):
    S = lambda n: mk("sym", n, "wf::scalar_expr")
    B = lambda n: mk("sym", n, "wf::boolean_expr")
    pr = prims()
    one = lambda n, k=0: instances(p, "wf::" + n)[k]
    stats = [0, 0]

    def ask(q, args):
        fs = [f for f in p.named(q) if f.body is not None and len(f.params) == len(args)]
        if len(fs) != 1:
            raise AnalysisBroken("factory %s has %d definitions" % (q, len(fs)))
        return fs[0], Ev(p, pr, max_depth=20).summarize(fs[0], args=args)

    def refuses(s):
        return any(t.kind == "throw" and t.guard is TRUE and t.val is not None and t.val.op == "thrown" and "assert" not in t.val.a[0] for t in s.throws)

    def case(label, q, args, want=None, throws=False):
        try:
            f, s = ask(q, args)
        except AnalysisBroken as e:
            ck.notes.append("undecided: %s (%s)" % (label, str(e)[:80]))
            stats[1] += 1
            return
        stats[0] += 1
        if throws:
            ck.check(refuses(s), "factory", label, f.loc, lambda: "is accepted: gives %s" % show(s.val)[:160])
        else:
            good = want(s) if callable(want) else s.val is want
            if good is None:
                ck.notes.append("undecided: %s" % label)
                stats[1] += 1
                return
            ck.check(good, "factory", label, f.loc, lambda: "gives %s" % show(s.val)[:200])

    a, b, c = S("a"), S("b"), S("c")
    T, F = mk("glob", "wf::constants::boolean_true"), mk("glob", "wf::constants::boolean_false")
    case("condition true", "wf::conditional::create", [T, a, b], a)
    case("condition false", "wf::conditional::create", [F, a, b], b)
    case("equal branches", "wf::conditional::create", [B("c"), a, a], lambda s: s.val is a or (s.val.op == "ite" and all(x is a for x in leaves(s.val))))
    for q, n in (("wf::unevaluated::create", "unevaluated"), ("wf::stop_derivative::create", "stop_derivative")):
        i = one(n)
        case("nested " + n, q, [i.node], i.node)
    for v in (True, False):
        n = one("boolean_constant")
        k = [x for x in walk_terms(n.node) if x.op == "sym" and x.a[1] == "bool"]
        if len(k) == 1:
            case("iverson of %s" % v, "wf::iverson", [replace(n.node, k[0], TRUE if v else FALSE)], mk("glob", "wf::constants::one" if v else "wf::constants::zero"))
    # derivatives
    ok = ("variable", "unique_variable", "function_argument_variable", "symbolic_function_invocation")
    scal = [n for n in NODES if n not in ("matrix", "boolean_constant", "relational", "custom_type_argument", "custom_type_construction", "external_function_invocation")]
    for n in scal:
        if n in ok:
            continue
        try:
            i = one(n)
        except AnalysisBroken:
            continue
        case("derivative with respect to %s" % n, "wf::derivative::create", [a, i.node, C(1)], throws=True)
    x = one("variable").node
    for o in (0, -1, -(1 << 31)):
        case("derivative of order %d" % o, "wf::derivative::create", [a, x, C(o)], throws=True)
    d = one("derivative")
    if len(d.kids) == 2:
        order = [k for k in d.content]
        arg = d.kids[1]
        xs = one("variable").node
        dd = replace(d.node, arg, xs)

        def merged(s):
            v = s.val
            if v.op != "obj" or v.a[0] != "wf::derivative":
                return None
            lv = list(walk_terms(v))
            nested = [y for y in lv if y.op == "obj" and y.a[0] == "wf::derivative" and y is not v]
            ds = [y for y in v.a[2:]]
            sums = [y for y in ds if any(o in walk_terms(y) for o in order)]
            return not nested and len(sums) == 1 and sums[0] is arith("+", order[0], C(2)) and d.kids[0] in lv and xs in lv
        case("derivative of a derivative with respect to the same variable", "wf::derivative::create", [dd, xs, C(2)], merged)
    # substitution
    for n in ("integer_constant", "rational_constant", "float_constant"):
        case("substitution for a %s" % n, "wf::substitution::create", [one("addition").node, one(n).node, b], throws=True)
        case("substitution into a %s" % n, "wf::substitution::create", [one(n).node, x, b], one(n).node)
    i = one("addition").node
    case("substitution of an expression for itself", "wf::substitution::create", [i, x, x], i)
    # comparisons
    for n in ("undefined", "complex_infinity"):
        for k in (0, 1):
            args = [one(n).node, a] if k == 0 else [a, one(n).node]
            case("comparison %s %s" % ("of" if k == 0 else "with", n), "wf::relational::create", [enumc("wf::relational_operation::less_than", 0)] + args, throws=True)
    # elements of a construction
    cc = one("custom_type_construction")

    def element(s):
        v = s.val
        if v is cc.kids[1]:
            return True
        return False if any(y.op == "obj" and y.a[0] == "wf::compound_expression_element" for y in walk_terms(v)) or v in cc.kids else None
    if len(cc.kids) >= 2:
        case("element of a construction", "wf::compound_expression_element::create", [cc.node, C(1)], element)
    # terms of a sum
    q = "wf::addition_parts::create_addition"
    k, m, v = one("integer_constant").node, instances(p, "wf::multiplication", (2,))[0].node, x
    for label, base, coeff in (("coefficient and product", m, k), ("product as coefficient", v, m), ("two products", m, instances(p, "wf::multiplication", (3,))[0].node)):
        pair = obj("std::pair", {"first": base, "second": coeff})
        this = obj("wf::addition_parts", {"coeff": k, "terms": mk("list", pair)})
        try:
            f = [f for f in p.named(q) if f.body is not None][0]
            s = Ev(p, pr, max_depth=20).summarize(f, this=this, args=[])
        except (AnalysisBroken, IndexError) as e:
            ck.notes.append("undecided: term of a sum: %s (%s)" % (label, str(e)[:80]))
            continue
        raw = [y for y in walk_terms(s.val) if (y.op == "new" or y.op == "obj" and y.a[0] == "wf::multiplication" and y not in (m, coeff)) and any(
            z.op == "obj" and z.a[0] == "wf::multiplication" for g in y.a if isinstance(g, type(y)) for z in walk_terms(g))]
        seen = any(z.op == "call" and z.a[0].startswith("wf::multiplication::") for z in walk_terms(s.val))
        if not raw and not seen:
            ck.notes.append("undecided: term of a sum: %s" % label)
            continue
        ck.check(not raw, "factory", "term of a sum: " + label, f.loc, lambda: "a product is wrapped unflattened into %s" % show(raw[0])[:160])
    # matrices
    for r_, c_, n in ((-1, 2, 2), (2, -1, 2), (2, 2, 3), (2, 2, 5), (1, 2, 0)):
        case("matrix %dx%d of %d elements" % (r_, c_, n), "wf::matrix_expr::create", [C(r_), C(c_), mk("list", *[S("e%d" % i) for i in range(n)])], throws=True)
    if stats[1] > stats[0]:
        raise AnalysisBroken("factories cannot be evaluated (%d of %d cases)" % (stats[1], sum(stats)))


def leaves(t):
    return leaves(t.a[1]) + leaves(t.a[2]) if t.op == "ite" else [t]


def replace(t, a, b):
    if t is a:
        return b
    if not any(isinstance(x, type(t)) for x in t.a):
        return t
    return mk(t.op, *[replace(x, a, b) if isinstance(x, type(t)) else x for x in t.a])


# ------------------------------------------------------------------------------------------------ rebuilding a call
def rebuild(ck, p):
    fs = [f for f in p.by_rt.get("wf::built_in_function_invocation", []) if f.name == "create" and f.body is not None]
    fs += [f for f in p.fns.values() if f.name == "create" and f.q == "wf::built_in_function_invocation::create" and f not in fs and f.body is not None]
    vals = [x["n"] if isinstance(x, dict) else x[0] for x in p.enum("wf::built_in_function")["vals"]]
    if not fs:
        ck.notes.append("undecided: no dispatch over built-in functions")
        return
    pr = dict(prims())
    for q in set(FUNCS.values()):
        def call(ev, st, fr, e, fid, o, al, q=q):
            return mk("call", "wf::" + q, "", *[ev.argval(st, x) for x in al])
        pr["wf::" + q] = call
    for f in fs:
        e_i = [i for i, x in enumerate(f.params) if "built_in_function" in x["t"] and "invocation" not in x["t"]]
        if len(e_i) != 1:
            continue
        for k, v in enumerate(vals):
            if v not in FUNCS:
                ck.notes.append("undecided: unknown built-in function " + v)
                continue
            xs = [mk("sym", "x%d" % i, "wf::scalar_expr") for i in range(2 if v in ("arctan2", "atan2") else 1)]
            args = [enumc("wf::built_in_function::" + v, k) if i == e_i[0] else mk("list", *xs) for i in range(len(f.params))]
            try:
                s = Ev(p, pr, max_depth=20).summarize(f, args=args)
            except AnalysisBroken as ex:
                ck.notes.append("undecided: rebuilding %s (%s)" % (v, str(ex)[:80]))
                continue
            if s.val.op != "call" or not s.val.a[0].startswith("wf::"):
                ck.notes.append("undecided: rebuilding %s: %s" % (v, show(s.val)[:80]))
                continue
            ck.check(s.val.a[0] == "wf::" + FUNCS[v] and list(s.val.a[2:]) == xs, "rebuild", v, f.loc, lambda: "gives %s" % show(s.val)[:120])
