"""Gated value graphs.

Turns a function of the resolved program into one term per result: a static data-flow construction in the
style of gated SSA (branches become `ite`, loops become `map`/`fold`/`exists` summaries, calls to repository
functions are integrated, everything else stays an uninterpreted `call`).  Nothing is executed and no path
is enumerated; a parameter may be fixed to one member of a finite domain (an enumerator or a node kind), which
is ordinary constant propagation.

Terms are hash-consed, so equal terms are the same object.
"""
import itertools, re, sys
from .program import AnalysisBroken

sys.setrecursionlimit(30000)


class T:
    __slots__ = ("op", "a", "id", "_s")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
_cnt = itertools.count(1)


def mk(op, *a):
    k = (op,) + tuple((x.id,) if type(x) is T else (type(x).__name__, x) for x in a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = next(_cnt)
        t._s = None
        _tab[k] = t
    return t


def show(t, depth=12):
    if type(t) is not T:
        return repr(t)
    if depth == 0:
        return "..."
    if t.op == "c":
        return repr(t.a[0])
    if t.op == "enum":
        return t.a[0].rsplit("::", 1)[-1]
    if t.op == "sym":
        return str(t.a[0])
    if t.op == "field":
        return "%s.%s" % (show(t.a[0], depth - 1), t.a[1])
    if t.op == "call":
        return "%s(%s)" % (t.a[0].replace("wf::", ""), ", ".join(show(x, depth - 1) for x in t.a[2:]))
    if t.op == "ite":
        return "(%s ? %s : %s)" % tuple(show(x, depth - 1) for x in t.a)
    if t.op == "obj":
        return "%s{%s}" % (t.a[0].replace("wf::", ""), ", ".join("%s=%s" % (n, show(x, depth - 1)) for n, x in zip(t.a[1], t.a[2:])))
    return "%s(%s)" % (t.op, ", ".join(show(x, depth - 1) if type(x) is T else repr(x) for x in t.a))


def C(v):
    return mk("c", v)


TRUE = mk("c", True)
FALSE = mk("c", False)
NULL = mk("null")
VOID = mk("void")
UNREACH = mk("unreachable")


def const(t):
    return t.op == "c"


def isnum(t):
    return t.op == "c" and type(t.a[0]) in (int, float) and type(t.a[0]) is not bool


def enumc(q, v):
    return mk("enum", q, v)


def lit(t):
    """True if the term is a definite constant (two different ones are unequal)."""
    return t.op in ("c", "enum", "null") or (t.op == "str" and all(type(x) is str for x in t.a))


def b_not(x):
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    if x.op == "not":
        return x.a[0]
    if x.op == "ite" and lit(x.a[1]) and lit(x.a[2]):
        return ite(x.a[0], b_not(x.a[1]), b_not(x.a[2]))
    if x.op == "c":
        return FALSE if x.a[0] else TRUE
    return mk("not", x)


def _nary(op, xs, unit, zero):
    out = []
    for x in xs:
        if x is unit:
            continue
        if x is zero:
            return zero
        for y in (x.a if x.op == op else (x,)):
            if b_not(y) in out:
                return zero
            if y not in out:
                out.append(y)
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    return mk(op, *out)


def b_and(*xs):
    return _nary("and", xs, TRUE, FALSE)


def b_or(*xs):
    return _nary("or", xs, FALSE, TRUE)


SYMS = False   # strings with holes are sequences of characters and (indivisible, non-newline) holes


def hole(*a):
    """an opaque piece of text"""
    return mk("hole", *a)


def str_syms(t):
    out = []
    for x in t.a:
        if type(x) is str:
            out.extend(C(ch) for ch in x)
        else:
            out.append(x)
    return out


VALUE_TYPES = ("wf::ast::ast_element",)


def opaque_value(x):
    return x.op == "sym" and len(x.a) > 1 and x.a[1] in VALUE_TYPES


def distinct(x, y):
    if (x.op == "hole" and y.op == "c") or (y.op == "hole" and x.op == "c"):
        return True
    if (x.op == "null" and opaque_value(y)) or (y.op == "null" and opaque_value(x)):
        return True
    if x.op in ("null",) and y.op in ("obj", "c", "enum", "lam", "fn", "new", "list", "str"):
        return True
    if y.op in ("null",) and x.op in ("obj", "c", "enum", "lam", "fn", "new", "list", "str"):
        return True
    if not (lit(x) and lit(y)):
        return False
    if x.op == "c" and y.op == "c":
        return x.a[0] != y.a[0]
    if x.op == "enum" and y.op == "enum":
        return x.a[1] != y.a[1]
    if {x.op, y.op} == {"c", "enum"}:
        e, c = (x, y) if x.op == "enum" else (y, x)
        return e.a[1] != c.a[0]
    return x is not y


def eq(x, y):
    if x is y:
        return TRUE
    if distinct(x, y):
        return FALSE
    if {x.op, y.op} == {"c", "enum"}:
        return TRUE
    if x.op == "c" and y.op == "c" and x.a[0] == y.a[0]:
        return TRUE
    if x is TRUE:
        return y
    if y is TRUE:
        return x
    if x is FALSE:
        return b_not(y)
    if y is FALSE:
        return b_not(x)
    if x.op == "it" and y.op == "it" and x.a[0] is y.a[0] and x.a[2:] == y.a[2:]:
        return eq(x.a[1], y.a[1])
    for p, q in ((x, y), (y, x)):
        if p.op == "ite" and (lit(q)) and (lit(p.a[1]) or lit(p.a[2]) or p.a[1].op == "ite" or p.a[2].op == "ite"
                                           or distinct(p.a[1], q) or distinct(p.a[2], q)
                                           or (q is NULL)):
            return ite(p.a[0], eq(p.a[1], q), eq(p.a[2], q))
    if x.op in ("as", "new", "elemptr", "lvref") and y is NULL or y.op in ("as", "new", "elemptr", "lvref") and x is NULL:
        return FALSE
    if x.id > y.id:
        x, y = y, x
    return mk("eq", x, y)


def lt(x, y):
    if x is y:
        return FALSE
    if isnum(x) and isnum(y):
        return C(x.a[0] < y.a[0])
    if x.op == "enum" and y.op == "enum":
        return C(x.a[1] < y.a[1])
    return mk("lt", x, y)


def ite(c, x, y):
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    if x is UNREACH:
        return y
    if y is UNREACH:
        return x
    if c.op == "not":
        return ite(c.a[0], y, x)
    if x is TRUE and y is FALSE:
        return c
    if x is FALSE and y is TRUE:
        return b_not(c)
    if x is TRUE:
        return b_or(c, y)
    if y is FALSE:
        return b_and(c, x)
    if x is FALSE:
        return b_and(b_not(c), y)
    if y is TRUE:
        return b_or(b_not(c), x)
    if y.op == "ite" and y.a[1] is x:
        return ite(b_or(c, y.a[0]), x, y.a[2])
    if x.op == "ite" and x.a[0] is c:
        x = x.a[1]
    if y.op == "ite" and y.a[0] is c:
        y = y.a[2]
    if x is y:
        return x
    return mk("ite", c, x, y)


def arith(op, x, y):
    if isnum(x) and isnum(y):
        a, b = x.a[0], y.a[0]
        try:
            if op == "+":
                return C(a + b)
            if op == "-":
                return C(a - b)
            if op == "*":
                return C(a * b)
            if op == "/" and b != 0 and type(a) is int and type(b) is int:
                q = abs(a) // abs(b)
                return C(q if (a < 0) == (b < 0) else -q)
            if op == "%" and b != 0 and type(a) is int and type(b) is int:
                q = abs(a) // abs(b)
                q = q if (a < 0) == (b < 0) else -q
                return C(a - b * q)
            if op == "<<":
                return C(a << b)
            if op == ">>":
                return C(a >> b)
            if op == "&":
                return C(a & b)
            if op == "|":
                return C(a | b)
            if op == "^":
                return C(a ^ b)
        except Exception:
            pass
    if op == "+":
        if isnum(x) and x.a[0] == 0:
            return y
        if isnum(y) and y.a[0] == 0:
            return x
        # fold constants: (t + k1) + k2
        if isnum(y) and x.op == "bin" and x.a[0] == "+" and isnum(x.a[2]):
            return arith("+", x.a[1], C(x.a[2].a[0] + y.a[0]))
        if isnum(x):
            x, y = y, x
    if op == "-":
        if isnum(y):
            return arith("+", x, C(-y.a[0]))
        if x is y:
            return C(0)
        if x.op == "bin" and x.a[0] == "+":
            if x.a[1] is y:
                return x.a[2]
            if x.a[2] is y:
                return x.a[1]
    if op == "*":
        if isnum(x) and x.a[0] == 1:
            return y
        if isnum(y) and y.a[0] == 1:
            return x
    if op in ("+", "*", "&", "|", "^") and not isnum(y) and x.id > y.id:
        x, y = y, x
    return mk("bin", op, x, y)


def s_cat(*parts):
    out = []
    for p in parts:
        if type(p) is T and p.op == "str":
            items = p.a
        elif type(p) is T and p.op == "c" and type(p.a[0]) is str:
            items = (p.a[0],)
        elif type(p) is T and p.op == "c" and type(p.a[0]) is int:
            items = (str(p.a[0]),)
        else:
            items = (p,)
        for i in items:
            if type(i) is str:
                if not i:
                    continue
                if out and type(out[-1]) is str:
                    out[-1] += i
                    continue
            out.append(i)
    if len(out) == 1 and type(out[0]) is T:
        return mk("str", out[0]) if out[0].op != "str" else out[0]
    return mk("str", *out)


def strval(t):
    """python string if t is a literal string, else None"""
    if t.op == "str" and all(type(x) is str for x in t.a):
        return "".join(t.a)
    if t.op == "c" and type(t.a[0]) is str:
        return t.a[0]
    return None


def reverse(t):
    """sequence t from back to front"""
    if t.op == "list":
        return mk("list", *t.a[::-1])
    if t.op == "reverse":
        return t.a[0]
    if t.op == "ite":
        return ite(t.a[0], reverse(t.a[1]), reverse(t.a[2]))
    return mk("reverse", t)


def size(t):
    if t.op == "list":
        return C(len(t.a))
    if t.op == "c" and type(t.a[0]) is str:
        return C(len(t.a[0]))
    if t.op == "reverse":
        return size(t.a[0])
    if t.op == "str":
        s = strval(t)
        if s is not None:
            return C(len(s))
        if SYMS:
            return C(len(str_syms(t)))
    if t.op == "hole" and SYMS:
        return C(1)
    if t.op == "map":
        return t.a[1]
    if t.op == "push":
        return arith("+", size(t.a[0]), C(1))
    if t.op == "cat":
        return arith("+", size(t.a[0]), size(t.a[1]))
    if t.op == "ite":
        return ite(t.a[0], size(t.a[1]), size(t.a[2]))
    if t.op == "setat":
        return size(t.a[0])
    if t.op == "slice":
        return t.a[2]
    return mk("size", t)


def at(t, i):
    if t.op == "list" and isnum(i) and 0 <= i.a[0] < len(t.a):
        return t.a[i.a[0]]
    if t.op == "str" and isnum(i) and (SYMS or strval(t) is not None):
        q = str_syms(t)
        if 0 <= i.a[0] < len(q):
            return q[i.a[0]]
    if t.op == "map":
        return subst(t.a[2], {t.a[0]: i})
    if t.op == "setat":
        if t.a[1] is i:
            return t.a[2]
        if distinct(t.a[1], i):
            return at(t.a[0], i)
    if t.op == "push":
        n = size(t.a[0])
        if n is i:
            return t.a[1]
        if isnum(n) and isnum(i):
            return at(t.a[0], i)
    if t.op == "slice":
        return at(t.a[0], arith("+", t.a[1], i))
    return mk("at", t, i)


def setat(t, i, v):
    if t.op == "list" and isnum(i) and 0 <= i.a[0] < len(t.a):
        l = list(t.a)
        l[i.a[0]] = v
        return mk("list", *l)
    if t.op == "setat" and t.a[1] is i:
        return mk("setat", t.a[0], i, v)
    return mk("setat", t, i, v)


def push(t, v):
    if t.op == "list":
        return mk("list", *(t.a + (v,)))
    return mk("push", t, v)


def cat(a, b):
    if a.op == "list" and b.op == "list":
        return mk("list", *(a.a + b.a))
    if a.op == "list" and not a.a:
        return b
    if b.op == "list" and not b.a:
        return a
    if b.op == "list":
        for x in b.a:
            a = push(a, x)
        return a
    return mk("cat", a, b)


def slice_(t, b, n):
    """the n elements of t starting at b"""
    if isnum(b) and isnum(n):
        if n.a[0] == 0:
            return mk("list")
        if t.op == "list" and 0 <= b.a[0] and b.a[0] + n.a[0] <= len(t.a):
            return mk("list", *t.a[b.a[0]:b.a[0] + n.a[0]])
        sv = strval(t)
        if sv is not None and 0 <= b.a[0]:
            return C(sv[b.a[0]:b.a[0] + n.a[0]])
    if isnum(b) and b.a[0] == 0 and n is size(t):
        return t
    return mk("slice", t, b, n)


unseen_field = None      # set by checks that identify an expression handle with the node it holds


def field(o, n):
    if o.op == "obj":
        if n in o.a[1]:
            return o.a[2 + o.a[1].index(n)]
        if n == "impl_" and unseen_field is not None:
            h = unseen_field(o)
            if h is not None:
                return h
    if o.op == "upd":
        if o.a[1] == n:
            return o.a[2]
        return field(o.a[0], n)
    if o.op == "ite":
        x, y = o.a[1], o.a[2]
        if x is NULL:
            return field(y, n)
        if y is NULL:
            return field(x, n)
        if x.op in ("obj", "upd", "ite") or y.op in ("obj", "upd", "ite"):
            return ite(o.a[0], field(x, n), field(y, n))
    return mk("field", o, n)


def upd(o, n, v):
    if o.op == "obj" and n in o.a[1]:
        i = 2 + o.a[1].index(n)
        return mk("obj", *(o.a[:i] + (v,) + o.a[i + 1:]))
    if o.op == "upd" and o.a[1] == n:
        return upd(o.a[0], n, v)
    if field(o, n) is v:
        return o
    return mk("upd", o, n, v)


def obj(ty, fields):
    return mk("obj", ty, tuple(fields), *fields.values())


_REB = {"not": b_not, "and": b_and, "or": b_or, "eq": eq, "lt": lt, "ite": ite, "at": at, "size": size,
        "field": field, "upd": upd, "push": push, "cat": cat, "setat": setat, "slice": slice_}


def rebuild(op, a):
    f = _REB.get(op)
    if f:
        return f(*a)
    if op == "bin":
        return arith(*a)
    if op == "str":
        return s_cat(*[C(x) if type(x) is str else x for x in a])
    return mk(op, *a)


def subst(t, m, memo=None):
    """Replace sub-terms (m: T -> T), re-simplifying."""
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif not t.a or not any(type(x) is T for x in t.a):
        r = t
    else:
        na = tuple(subst(x, m, memo) if type(x) is T else x for x in t.a)
        if all(p is q for p, q in zip(na, t.a)):
            r = t
        else:
            r = rebuild(t.op, na)
    memo[t.id] = r
    return r


def contains(t, s, memo=None):
    if memo is None:
        memo = {}
    if t is s:
        return True
    r = memo.get(t.id)
    if r is not None:
        return r
    memo[t.id] = False
    r = any(type(x) is T and contains(x, s, memo) for x in t.a)
    memo[t.id] = r
    return r


def walk_terms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        for y in x.a:
            if type(y) is T:
                st.append(y)


def leaves(t):
    """(guards, leaf) pairs of a gated term: the alternatives of its top-level ite structure."""
    out = []

    def go(x, g):
        if x.op == "ite":
            go(x.a[1], g + [x.a[0]])
            go(x.a[2], g + [b_not(x.a[0])])
        else:
            out.append((g, x))
    go(t, [])
    return out


class State:
    __slots__ = ("cells", "facts", "path", "dead")

    def __init__(self, cells=None, facts=None, path=()):
        self.cells = cells if cells is not None else {}
        self.facts = facts if facts is not None else {}
        self.path = path
        self.dead = False

    def copy(self):
        return State(dict(self.cells), dict(self.facts), self.path)

    def become(self, o):
        self.cells, self.facts, self.path, self.dead = o.cells, o.facts, o.path, o.dead


class Frame:
    __slots__ = ("fn", "vars", "this", "exits", "brk", "cont", "depth", "parent_stack")

    def __init__(self, fn):
        self.fn = fn
        self.vars = {}
        self.this = None
        self.exits = []
        self.brk = []
        self.cont = []


class Exit:
    __slots__ = ("guard", "kind", "val", "cells", "loc")

    def __init__(self, guard, kind, val, cells, loc):
        self.guard, self.kind, self.val, self.cells, self.loc = guard, kind, val, cells, loc


REF = re.compile(r"&+$")
TARGS = {}


def split_targs(s):
    """'std::variant<A, B<C,D>>' -> ['A','B<C,D>']"""
    i = s.find("<")
    if i < 0:
        return []
    out, d, cur = [], 0, ""
    for ch in s[i + 1:s.rfind(">")]:
        if ch in "<([{":
            d += 1
        elif ch in ">)]}":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def bare(ty):
    ty = ty.strip()
    while True:
        o = ty
        ty = re.sub(r"(\s*[&*]|\s+const)+$", "", ty).strip()
        if ty.startswith("const "):
            ty = ty[6:]
        if ty == o:
            return ty


def params_of(ft):
    """parameter type strings of a printed function type 'R (A, B) const'"""
    d = 0
    # find the last top-level '(' group
    i = len(ft) - 1
    while i >= 0 and ft[i] != ")":
        i -= 1
    j = i
    while j >= 0:
        if ft[j] == ")":
            d += 1
        elif ft[j] == "(":
            d -= 1
            if d == 0:
                break
        j -= 1
    return split_targs("<" + ft[j + 1:i] + ">")


STOP = object()
PURE = object()  # prims value: keep the call uninterpreted and free of side effects


class Ev:
    """One evaluation context.  `prims`: qualified name -> handler(ev, st, fr, node, fnid, objlv, argnodes)
    or None (= keep the call uninterpreted)."""

    def __init__(self, prog, prims=None, max_depth=60, budget=3000000, hook=None, log_effects=False, max_rec=1):
        self.p = prog
        self.prims = prims or {}
        self.hook = hook
        self.ncell = itertools.count(1)
        self.closures = {}
        self.nclos = itertools.count(1)
        self.stack = []
        self.max_depth = max_depth
        self.max_rec = max_rec
        self.budget = budget
        self.loopdepth = 0
        self.effects = []
        self.log_effects = log_effects
        self.gcache = {}
        self.inlined = set()
        self.opaque = {}

    # ------------------------------------------------------------------ cells and lvalues
    def new_cell(self, st, v):
        i = next(self.ncell)
        st.cells[i] = v
        return (i, ())

    def read(self, st, lv):
        v = st.cells.get(lv[0])
        if v is None:
            v = mk("uninit", lv[0])
        for k, n in lv[1]:
            if v.op == "lvref":
                v = self.read(st, v.a[0])
            if k == "f":
                v = field(v, n)
            else:
                v = at(v, n)
        while v.op == "lvref":
            v = self.read(st, v.a[0])
        return v

    def raw(self, st, lv):
        """Like read, but keeps a final lvref (pointer value)."""
        v = st.cells.get(lv[0], None)
        if v is None:
            v = mk("uninit", lv[0])
        for k, n in lv[1]:
            if v.op == "lvref":
                v = self.read(st, v.a[0])
            v = field(v, n) if k == "f" else at(v, n)
        return v

    def write(self, st, lv, val):
        c, path = lv
        # follow pointers stored on the way
        v = st.cells.get(c)
        if v is not None and v.op == "lvref" and path:
            t = v.a[0]
            return self.write(st, (t[0], t[1] + path), val)
        if not path:
            st.cells[c] = val
            return
        if v is None:
            v = mk("uninit", c)

        def go(v, path):
            k, n = path[0]
            if len(path) == 1:
                nv = val
            else:
                sub = field(v, n) if k == "f" else at(v, n)
                if sub.op == "lvref":
                    t = sub.a[0]
                    self.write(st, (t[0], t[1] + path[1:]), val)
                    return v
                nv = go(sub, path[1:])
            return upd(v, n, nv) if k == "f" else setat(v, n, nv)
        st.cells[c] = go(v, path)

    def deref_lv(self, st, lv):
        """lvalue denoted by *p where p is the pointer stored at lv"""
        v = self.raw(st, lv)
        if v.op == "lvref":
            return v.a[0]
        return lv

    # ------------------------------------------------------------------ merging
    def rel_guard(self, st, n0):
        return b_and(*st.path[n0:])

    def merge(self, into, alts, n0):
        """alts: list of live states in first-match order; into := merged"""
        alts = [a for a in alts if not a.dead]
        if not alts:
            into.dead = True
            return
        res = alts[-1]
        cells = dict(res.cells)
        facts = dict(res.facts)
        for s in reversed(alts[:-1]):
            g = self.rel_guard(s, n0)
            for k, v in s.cells.items():
                w = cells.get(k)
                if w is None:
                    cells[k] = v
                elif w is not v:
                    cells[k] = self.ite_val(g, v, w)
            facts = {k: v for k, v in facts.items() if s.facts.get(k) is v}
        into.cells = cells
        into.facts = facts
        into.path = into.path[:n0] if len(into.path) > n0 else into.path
        into.dead = False

    def ite_val(self, g, v, w):
        return ite(g, v, w)

    # ------------------------------------------------------------------ facts
    def simp(self, st, c):
        """simplify a boolean with the facts that hold on the current path"""
        if c.op in ("c",):
            return TRUE if c.a[0] else FALSE
        v = st.facts.get(c)
        if v is not None:
            return v
        if c.op == "not":
            return b_not(self.simp(st, c.a[0]))
        if c.op == "and":
            return b_and(*[self.simp(st, x) for x in c.a])
        if c.op == "or":
            return b_or(*[self.simp(st, x) for x in c.a])
        if c.op == "ite":
            k = self.simp(st, c.a[0])
            if k is TRUE:
                return self.simp(st, c.a[1])
            if k is FALSE:
                return self.simp(st, c.a[2])
        if c.op == "eq":
            for x, y in ((c.a[0], c.a[1]), (c.a[1], c.a[0])):
                k = st.facts.get(("val", x))
                if k is not None and lit(y):
                    return eq(k, y)
        if c.op == "istype":
            k = st.facts.get(("type", c.a[0]))
            if k is not None:
                return TRUE if k == c.a[1] else FALSE
        return c

    def assume(self, st, c, val):
        if c.op == "c":
            return
        if c.op == "not":
            return self.assume(st, c.a[0], not val)
        st.facts[c] = TRUE if val else FALSE
        if (c.op == "and" and val) or (c.op == "or" and not val):
            for x in c.a:
                self.assume(st, x, val)
        if c.op == "eq" and val:
            for x, y in ((c.a[0], c.a[1]), (c.a[1], c.a[0])):
                if lit(y):
                    st.facts[("val", x)] = y
        if c.op == "istype" and val:
            st.facts[("type", c.a[0])] = c.a[1]

    def truth(self, v):
        if v.op == "c":
            return TRUE if v.a[0] else FALSE
        if v is NULL:
            return FALSE
        if v.op in ("eq", "lt", "not", "and", "or", "istype", "exists", "has", "sym"):
            return v
        if v.op == "enum":
            return TRUE if v.a[1] else FALSE
        return v

    def truthy_ptr(self, v):
        """value used as a pointer/optional in a boolean context"""
        return b_not(eq(v, NULL))

    # ------------------------------------------------------------------ function calls
    def call_fn(self, fn, st, this, args, loc=None, caps=None):
        """Integrate a call.  this: lvalue or None; args: list of ('lv', lv) / ('v', T)"""
        if len(self.stack) > self.max_depth or self.stack.count(fn.id) > self.max_rec:
            return None
        self.stack.append(fn.id)
        self.inlined.add(fn.id)
        fr = Frame(fn)
        fr.this = this
        if caps:
            fr.vars.update(caps[0])
            if this is None or fn.lambda_:
                fr.this = caps[1]
        for p, a in zip(fn.params, args):
            if a[0] == "lv" and REF.search(p["t"]):
                fr.vars[p["id"]] = a[1]
            else:
                v = self.raw(st, a[1]) if a[0] == "lv" else a[1]
                if v.op == "lvref" and "*" not in p["t"] and not REF.search(p["t"]):
                    v = self.read(st, v.a[0])
                fr.vars[p["id"]] = self.new_cell(st, v)
        saved_path = st.path
        n0 = 0
        inner = State(st.cells, st.facts, ())
        if fn.ctor:
            self.run_ctor_inits(fn, inner, fr)
        if fn.body is not None:
            self.exec(fn.body, inner, fr)
        if not inner.dead:
            fr.exits.append(Exit(TRUE, "ret", VOID, inner.cells, fn.line))
        val, cells = self.collapse(fr.exits, st, saved_path, loc or fn.line)
        self.stack.pop()
        st.path = saved_path
        if cells is None:
            st.dead = True
            return UNREACH
        st.cells = cells
        st.facts = {k: v for k, v in st.facts.items()}
        return val

    def collapse(self, exits, st, outer_path, loc):
        """value and cells after the call; throws are forwarded to the enclosing frame via self.pending"""
        val, cells = None, None
        earlier_ret = []
        for e in exits:
            if e.kind == "throw":
                g = b_and(*(outer_path + (e.guard,) + tuple(b_not(x) for x in earlier_ret)))
                if g is not FALSE:
                    self.throws[-1].append(Exit(g, "throw", e.val, None, e.loc))
            elif e.guard is not FALSE:
                earlier_ret.append(e.guard)
        for e in reversed(exits):
            if e.kind != "ret":
                continue
            if e.guard is FALSE:
                continue
            if val is None:
                val, cells = e.val, dict(e.cells)
            else:
                val = self.ite_val(e.guard, e.val, val)
                for k, v in e.cells.items():
                    w = cells.get(k)
                    if w is None:
                        cells[k] = v
                    elif w is not v:
                        cells[k] = self.ite_val(e.guard, v, w)
        return val, cells

    def run_ctor_inits(self, fn, st, fr):
        rec = self.p.recs.get(fn.rt)
        fields = {}
        deleg = False
        for i in fn.inits:
            if i.get("deleg"):
                v = self.eval(i["e"], st, fr)
                self.write(st, fr.this, v)
                deleg = True
        if deleg:
            return
        base_obj = None
        for i in fn.inits:
            if "base" in i and i.get("e"):
                e = i["e"]
                if e.get("inherited") and not e.get("a"):
                    # an inherited constructor forwards its own parameters
                    e = dict(e, a=[{"k": "Ref", "id": x["id"], "n": x["n"], "t": x["t"], "l": e.get("l", 0)} for x in fn.params])
                v = self.eval(e, st, fr)
                if v.op == "obj":
                    for n, x in zip(v.a[1], v.a[2:]):
                        fields[n] = x
                else:
                    fields["<base>"] = v
        self.write(st, fr.this, obj(fn.rt, fields))
        for i in fn.inits:
            if "f" in i and i.get("e"):
                e = i["e"]
                ft = None
                if rec:
                    for fd in rec["fields"]:
                        if fd["n"] == i["f"]:
                            ft = fd["t"]
                if ft and REF.search(ft):
                    v = mk("lvref", self.lv(e, st, fr))
                elif ft and ft.endswith("*"):
                    v = self.eval(e, st, fr)
                else:
                    v = self.val(e, st, fr)
                fields[i["f"]] = v
                self.write(st, fr.this, obj(fn.rt, fields))
        if rec:
            for fd in rec["fields"]:
                if fd["n"] not in fields and fd["n"]:
                    fields[fd["n"]] = mk("uninit_field", fd["n"])
            self.write(st, fr.this, obj(fn.rt, fields))

    # entry point -----------------------------------------------------------------------------
    def summarize(self, fn, this=None, args=None, facts=None, argcells=None):
        """Term for the return value of `fn` on symbolic inputs.
        this: T or None; args: list of T (default: symbols named after the parameters).
        Returns Summary."""
        st = State()
        self.throws = [[]]
        self.stack = []
        self.effects = []
        thislv = self.new_cell(st, this if this is not None else mk("sym", "this", bare(fn.rt) if fn.rt else ""))
        al = []
        for i, p in enumerate(fn.params):
            v = args[i] if args and i < len(args) and args[i] is not None else mk("sym", p["n"] or "arg%d" % i, bare(p["t"]))
            al.append(("lv", self.new_cell(st, v)))
        if facts:
            for c, v in facts:
                self.assume(st, c, v)
        val = self.call_fn(fn, st, thislv, al)
        if val is not None and val.op == "lvref" and not st.dead:
            val = self.read(st, val.a[0])
        s = Summary()
        s.fn = fn
        s.val = val
        s.throws = self.throws[0]
        s.this = self.read(st, thislv) if not st.dead else None
        s.args = [self.read(st, a[1]) if not st.dead else None for a in al]
        s.effects = self.effects
        s.state = st
        return s

    # ------------------------------------------------------------------ statements
    def exec(self, s, st, fr):
        if s is None or st.dead:
            return
        self.budget -= 1
        if self.budget < 0:
            raise AnalysisBroken("evaluation budget exhausted in %s" % (fr.fn.q if fr.fn else "?"))
        k = s["k"]
        m = getattr(self, "x_" + k, None)
        if m:
            return m(s, st, fr)
        # expression statement
        self.eval(s, st, fr)

    def x_Block(self, s, st, fr):
        for c in s["c"]:
            if st.dead:
                return
            self.exec(c, st, fr)

    def x_Null(self, s, st, fr):
        if "t" in s:
            return
        return

    def x_Decl(self, s, st, fr):
        for v in s["c"]:
            self.declare(v, st, fr)
            if st.dead:
                return

    def declare(self, v, st, fr):
        t = v["t"]
        i = v.get("i")
        if v.get("k") != "Var":
            return
        if REF.search(t):
            fr.vars[v["id"]] = self.lv(i, st, fr) if i is not None else self.new_cell(st, mk("uninit", v["n"]))
        else:
            if i is None:
                val = self.default_value(t, st, fr, v["n"])
            elif t.endswith("*"):
                val = self.eval(i, st, fr)
            else:
                val = self.val(i, st, fr)
            fr.vars[v["id"]] = self.new_cell(st, val)
        for b in v.get("binds", []):
            e = b.get("hv") or b.get("e")
            if e is not None:
                fr.vars[b["id"]] = self.lv(e, st, fr)

    def default_value(self, t, st, fr, name=""):
        return mk("uninit", name)

    def x_If(self, s, st, fr):
        if s.get("init"):
            self.exec(s["init"], st, fr)
        if s.get("cx") and s.get("taken") is None and "then" not in s:
            return
        if s.get("taken"):
            return self.exec(s.get("then"), st, fr)
        if s.get("cx") and "cond" not in s:
            return
        if s.get("var"):
            self.declare(s["var"], st, fr)
        c = self.cond(s["cond"], st, fr)
        if st.dead:
            return
        if c is TRUE:
            return self.exec(s.get("then"), st, fr)
        if c is FALSE:
            return self.exec(s.get("else"), st, fr)
        n0 = len(st.path)
        a, b = st.copy(), st.copy()
        a.path += (c,)
        b.path += (b_not(c),)
        self.assume(a, c, True)
        self.assume(b, c, False)
        self.exec(s.get("then"), a, fr)
        self.exec(s.get("else"), b, fr)
        a.path = a.path[:n0] + (c,)
        b.path = b.path[:n0] + (b_not(c),)
        self.merge(st, [a, b], n0)
        st.path = st.path[:n0]

    def x_Switch(self, s, st, fr):
        if s.get("init"):
            self.exec(s["init"], st, fr)
        if s.get("var"):
            self.declare(s["var"], st, fr)
        v = self.val(s["cond"], st, fr)
        # push switches over gated constants
        segs = []  # (labels or None, stmts)
        body = s["body"]["c"] if s["body"]["k"] == "Block" else [s["body"]]
        for c in body:
            labels = []
            dflt = False
            x = c
            islabel = False
            while x is not None and x["k"] in ("Case", "Default"):
                islabel = True
                if x["k"] == "Case":
                    labels.append(x["v"])
                else:
                    dflt = True
                x = x.get("s")
            if islabel:
                segs.append([labels, dflt, []])
            if x is not None:
                if not segs:
                    continue
                segs[-1][2].append(x)
        lv = [[self.val(l, st, fr) for l in g[0]] for g in segs]
        n0 = len(st.path)
        outs = []
        fr.brk.append(outs)
        allc = [x for g in lv for x in g]
        entered = []
        ndef = None
        order = [i for i, g in enumerate(segs) if not g[1]] + [i for i, g in enumerate(segs) if g[1]]
        for i in order:
            if segs[i][1]:
                c = b_and(*[b_not(self.simp(st, eq(v, x))) for x in allc if x not in lv[i]])
            else:
                c = b_or(*[self.simp(st, eq(v, x)) for x in lv[i]])
            if c is FALSE:
                continue
            a = st.copy()
            a.path += (c,)
            self.assume(a, c, True)
            j = i
            while j < len(segs) and not a.dead:
                for x in segs[j][2]:
                    self.exec(x, a, fr)
                    if a.dead:
                        break
                j += 1
            if not a.dead:
                a.path = a.path[:n0] + (c,)
                outs.append(a)
            if c is TRUE:
                break
            entered.append(c)
        else:
            if not any(g[1] for g in segs):
                c = b_and(*[b_not(x) for x in entered])
                exhaustive = s.get("allenum") and v.op != "enum" and False
                if c is not FALSE and not exhaustive:
                    a = st.copy()
                    a.path += (c,)
                    self.assume(a, c, True)
                    outs.append(a)
        fr.brk.pop()
        if not outs:
            st.dead = True
            return
        self.merge(st, outs, n0)
        st.path = st.path[:n0]

    def x_Return(self, s, st, fr):
        e = s.get("e")
        if e is None:
            v = VOID
        elif REF.search(fr.fn.ret) and not self.is_lambda_ret_val(fr.fn):
            v = mk("lvref", self.lv(e, st, fr))
        elif fr.fn.ret.endswith("*"):
            v = self.eval(e, st, fr)
        else:
            v = self.val(e, st, fr)
        if st.dead:
            return
        fr.exits.append(Exit(b_and(*st.path), "ret", v, st.cells, s["l"]))
        st.cells = dict(st.cells)
        st.dead = True

    def is_lambda_ret_val(self, fn):
        return False

    def x_Break(self, s, st, fr):
        if fr.brk:
            c = st.copy()
            fr.brk[-1].append(c)
        st.dead = True

    def x_Continue(self, s, st, fr):
        if fr.cont:
            c = st.copy()
            fr.cont[-1].append(c)
        st.dead = True

    def x_Do(self, s, st, fr):
        c = s["cond"]
        if c["k"] == "Bool" and not c["v"] or c.get("cv") == "0":
            outs = []
            fr.brk.append(outs)
            fr.cont.append(outs)
            n0 = len(st.path)
            self.exec(s["body"], st, fr)
            fr.brk.pop()
            fr.cont.pop()
            if outs:
                if not st.dead:
                    outs.append(st.copy())
                self.merge(st, outs, n0)
                st.path = st.path[:n0]
            return
        return self.loop(s, st, fr, None, s["cond"], None, s["body"], post=True)

    def x_While(self, s, st, fr):
        return self.loop(s, st, fr, s.get("var"), s["cond"], None, s["body"])

    def x_For(self, s, st, fr):
        if s.get("init"):
            self.exec(s["init"], st, fr)
        return self.loop(s, st, fr, None, s.get("cond"), s.get("inc"), s["body"])

    def x_ForRange(self, s, st, fr):
        if s.get("init"):
            self.exec(s["init"], st, fr)
        rlv = self.lv(s["range"], st, fr)
        r = self.read(st, rlv)
        v = s["var"]
        isref = bool(REF.search(v["t"]))
        r = self.as_range(r, st, bare(s["range"].get("t", "")))

        own = r is self.read(st, rlv)

        def bind(state, idx):
            mine = own if idx.op == "c" else r is self.read(state, rlv)
            el = (rlv[0], rlv[1] + (("i", idx),)) if mine else None
            if isref and el is not None:
                fr.vars[v["id"]] = el
            else:
                fr.vars[v["id"]] = self.new_cell(state, at(self.read(state, rlv) if mine else r, idx))
            for b in v.get("binds", []):
                e = b.get("hv") or b.get("e")
                if e is not None:
                    # the holding expressions refer to the loop variable itself
                    fr.vars[b["id"]] = self.lv(e, state, fr)
        n = size(r)
        if isnum(n) and n.a[0] <= 64 and r.op in ("list", "str"):
            outs = []
            n0 = len(st.path)
            fr.brk.append(outs)
            for i in range(n.a[0]):
                conts = []
                fr.cont.append(conts)
                bind(st, C(i))
                self.exec(s["body"], st, fr)
                fr.cont.pop()
                if conts:
                    if not st.dead:
                        conts.append(st.copy())
                    self.merge(st, conts, n0)
                    st.path = st.path[:n0]
                if st.dead:
                    break
            fr.brk.pop()
            if outs:
                if not st.dead:
                    outs.append(st.copy())
                self.merge(st, outs, n0)
                st.path = st.path[:n0]
            return
        self.abstract_loop(st, fr, n, bind, s["body"], s["l"])

    def as_range(self, r, st, ty=""):
        """container iterated by a range-for over an object of a repository class (via its begin/end)"""
        if r.op == "list" or not ty:
            return r
        ms = [m for m in self.p.by_rt.get(ty, []) if m.name in ("begin", "end") and not m.params]
        b = [m for m in ms if m.name == "begin"]
        e = [m for m in ms if m.name == "end"]
        if b and e and self.prims.get(b[0].q, STOP) is STOP:
            lv = self.new_cell(st, r)
            x = self.call_fn(b[0], st, lv, [])
            y = self.call_fn(e[0], st, lv, [])
            if x is not None and y is not None:
                from .stdmodel import range_of
                while x.op == "lvref":
                    x = self.read(st, x.a[0])
                while y.op == "lvref":
                    y = self.read(st, y.a[0])
                if x.op == "it":
                    return range_of(x, y)
        return r

    # counting loops: for (init; i < n; ++i) and iterator loops
    def loop(self, s, st, fr, var, cond, inc, body, post=False):
        # try constant unrolling
        if not post and var is None and cond is not None:
            probe = st.copy()
            c = self.cond(cond, probe, fr)
            if c in (TRUE, FALSE):
                ok = self.unroll(st, fr, cond, inc, body)
                if ok:
                    return
        if not post and var is None and cond is None and self.unroll(st, fr, None, inc, body):
            return

        def bind(state, idx):
            return None
        self.abstract_loop(st, fr, None, bind, body, s["l"], cond=cond, inc=inc, var=var, post=post)

    def unroll(self, st, fr, cond, inc, body, limit=70):
        if SYMS:
            limit = 4000
        trial = st.copy()
        ex0, b0 = len(fr.exits), self.budget
        thr0 = len(self.throws[-1])
        eff0 = len(self.effects)
        outs = []
        n0 = len(st.path)
        fr.brk.append(outs)
        ok = False
        for _ in range(limit):
            c = TRUE if cond is None else self.cond(cond, trial, fr)
            if c is FALSE:
                ok = True
                break
            if c is not TRUE:
                break
            conts = []
            fr.cont.append(conts)
            self.exec(body, trial, fr)
            fr.cont.pop()
            if conts:
                if not trial.dead:
                    conts.append(trial.copy())
                self.merge(trial, conts, n0)
                trial.path = trial.path[:n0]
            if trial.dead:
                ok = True
                break
            if cond is None and (outs or len(fr.exits) > ex0):
                break
            if inc is not None:
                self.eval(inc, trial, fr)
        fr.brk.pop()
        if not ok:
            del fr.exits[ex0:]
            del self.throws[-1][thr0:]
            del self.effects[eff0:]
            return False
        if outs:
            if not trial.dead:
                outs.append(trial)
            self.merge(st, outs, n0)
            st.path = st.path[:n0]
        else:
            st.become(trial)
        return True

    def abstract_loop(self, st, fr, n, bind, body, line, cond=None, inc=None, var=None, post=False):
        d = self.loopdepth
        self.loopdepth += 1
        idx = mk("idx", d)
        n0 = len(st.path)
        base = st.copy()
        known = set(base.cells)

        def run(presets):
            s = base.copy()
            s.path = ()
            for c, v in presets.items():
                s.cells[c] = v
            exits0 = fr.exits
            fr.exits = []
            self.throws.append([])
            eff0 = len(self.effects)
            brk, cont = [], []
            fr.brk.append(brk)
            fr.cont.append(cont)
            bind(s, idx)
            if var is not None:
                self.declare(var, s, fr)
            g = TRUE
            if cond is not None:
                if not post:
                    g = self.cond(cond, s, fr)
                if g is not TRUE and g is not FALSE:
                    self.assume(s, g, True)
            entry = s.copy()
            self.exec(body, s, fr)
            fr.cont.pop()
            fr.brk.pop()
            if cont:
                if not s.dead:
                    cont.append(s.copy())
                for c in cont:
                    c.path = c.path
                self.merge(s, cont, 0)
                s.path = ()
            if inc is not None and not s.dead:
                self.eval(inc, s, fr)
            ex = fr.exits
            fr.exits = exits0
            th = self.throws.pop()
            eff = self.effects[eff0:]
            del self.effects[eff0:]
            return s, g, brk, ex, th, eff

        changed = {}
        for _ in range(6):
            presets = {c: mk("phi", d, c) for c in changed}
            s, g, brk, ex, th, eff = run(presets)
            new = False
            srcs = ([s] if not s.dead else []) + brk
            for e in ex:
                pass
            for q in srcs:
                for c in known:
                    v = q.cells.get(c)
                    ref = presets.get(c, base.cells[c])
                    if v is not None and v is not ref and c not in changed:
                        changed[c] = True
                        new = True
            if not new:
                break
        # classify
        phi = {c: mk("phi", d, c) for c in changed}
        ind = {}
        if not s.dead:
            for c in changed:
                v = s.cells[c]
                step = self.step_of(v, phi[c])
                if step is not None:
                    ind[c] = step
        if ind:
            presets = dict(phi)
            for c, k in ind.items():
                presets[c] = self.advance(base.cells[c], arith("*", idx, C(k)))
            s, g, brk, ex, th, eff = run(presets)
        trip = n
        if trip is None:
            trip = self.trip_count(g, idx, d)
        if trip is None:
            trip = mk("trip", d, g)
        dirty = any(True for b in brk)
        stop = b_or(*[self.rel_guard(b, 0) for b in brk]) if brk else FALSE
        full = trip
        if brk:
            trip = mk("until", d, full, stop)
        # exits inside the loop
        for e in ex:
            gg = e.guard
            cells = dict(base.cells)
            for c, v in e.cells.items():
                if c in known and v is not base.cells.get(c) and c in phi:
                    cells[c] = mk("loopval", d, full, v)
                elif c not in known:
                    cells[c] = v
            v = e.val
            if v.op == "lvref":
                pass
            elif contains(v, idx):
                v = mk("first", d, full, gg, v)
            elif v.op != "c":
                pass
            guard = b_and(*(st.path + (self.exists(d, idx, full, gg),)))
            if e.kind == "ret":
                fr.exits.append(Exit(guard, "ret", v, cells, e.loc))
            else:
                fr.exits.append(Exit(guard, "throw", e.val, cells, e.loc))
        for e in th:
            self.throws[-1].append(Exit(b_and(*(st.path + (self.exists(d, idx, full, e.guard),))), "throw", e.val, None, e.loc))
        for (gd, t, loc, extra) in eff:
            self.effects.append((b_and(*(st.path + (mk("foreach", d, full, gd),))), t, loc, extra))
        # final cell values
        st.cells = dict(base.cells)
        for c in changed:
            init = base.cells[c]
            if c in ind:
                st.cells[c] = self.advance(init, arith("*", trip, C(ind[c])))
                continue
            live = ([s] if not s.dead else [])
            if not live and not brk:
                continue
            if live:
                v = s.cells[c]
            else:
                v = phi[c]
            if brk:
                # value at the end of the last iteration, including break paths
                w = v
                for b in reversed(brk):
                    w = ite(self.rel_guard(b, 0), b.cells.get(c, init), w)
                st.cells[c] = self.close(d, idx, full, phi[c], init, w, stop)
            else:
                st.cells[c] = self.close(d, idx, full, phi[c], init, v, None)
        for c, v in s.cells.items():
            if c not in st.cells:
                st.cells[c] = v
        st.facts = {k: v for k, v in base.facts.items()}
        self.loopdepth -= 1
        if s.dead and not brk and n is None and cond is None:
            st.dead = True

    def exists(self, d, idx, n, g):
        if g is FALSE:
            return FALSE
        if isnum(n) and n.a[0] == 0:
            return FALSE
        return mk("exists", d, n, g)

    def step_of(self, v, phi):
        if v.op == "bin" and v.a[0] == "+":
            if v.a[1] is phi and isnum(v.a[2]):
                return v.a[2].a[0]
            if v.a[2] is phi and isnum(v.a[1]):
                return v.a[1].a[0]
        if v.op == "iter+" and v.a[0] is phi and isnum(v.a[1]):
            return v.a[1].a[0]
        return None

    def advance(self, init, k):
        if init.op == "it":
            return mk("it", init.a[0], arith("+", init.a[1], k)) if init.a[2:] == () else mk("it", init.a[0], arith("+", init.a[1], k), *init.a[2:])
        if init.op in ("c", "bin", "size", "sym", "field", "idx", "call") or isnum(init):
            return arith("+", init, k)
        return arith("+", init, k)

    def trip_count(self, g, idx, d):
        """number of iterations if g is `idx*k + a < b` or `it(x, idx) != it(x, n)`"""
        if g is TRUE:
            return None
        if g.op == "lt" and self.linear(g.a[0], idx) is not None and not contains(g.a[1], idx):
            a, k = self.linear(g.a[0], idx)
            if k == 1:
                return arith("-", g.a[1], a)
        if g.op == "not" and g.a[0].op == "eq":
            for x, y in (g.a[0].a, g.a[0].a[::-1]):
                if x.op == "it" and y.op == "it":
                    if x.a[0] is y.a[0] and not contains(y.a[1], idx):
                        l = self.linear(x.a[1], idx)
                        if l is not None and l[1] == 1:
                            return arith("-", y.a[1], l[0])
                else:
                    l = self.linear(x, idx)
                    if l is not None and l[1] == 1 and not contains(y, idx):
                        return arith("-", y, l[0])
        if g.op == "and":
            ks = [self.trip_count(x, idx, d) for x in g.a]
            if all(k is not None for k in ks):
                return mk("min", *sorted(ks, key=lambda t: t.id))
        return None

    def linear(self, t, idx):
        if t is idx:
            return (C(0), 1)
        if t.op == "bin" and t.a[0] == "+":
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if x is idx and not contains(y, idx):
                    return (y, 1)
        return None

    def close(self, d, idx, n, phi, init, v, stop):
        """Value of a loop-carried cell after the loop."""
        if stop is None:
            r = self.close_append(d, idx, n, phi, init, v)
            if r is not None:
                return r
            if not contains(v, phi):
                # last assignment wins
                pass
        # boolean accumulation: any / all
        return mk("fold", d, n, init, phi, v) if stop is None else mk("foldb", d, n, init, phi, v, stop)

    def close_append(self, d, idx, n, phi, init, v):
        if v.op == "push" and v.a[0] is phi and not contains(v.a[1], phi):
            return cat(init, mk("map", idx, n, v.a[1]))
        if v.op == "push" and v.a[0].op == "push" and v.a[0].a[0] is phi and not contains(v.a[1], phi) and not contains(v.a[0].a[1], phi):
            return cat(init, mk("flatmap", idx, n, mk("list", v.a[0].a[1], v.a[1])))
        if v.op == "cat" and v.a[0] is phi and not contains(v.a[1], phi):
            return cat(init, mk("flatmap", idx, n, v.a[1]))
        if v.op == "ite":
            if not contains(v.a[0], phi):
                x = self._tail(v.a[1], phi)
                y = self._tail(v.a[2], phi)
                if x is not None and y is not None:
                    return cat(init, mk("flatmap", idx, n, ite(v.a[0], x, y)))
        if v.op == "setat" and v.a[0] is phi and not contains(v.a[2], phi) and v.a[1] is idx:
            return mk("setrange", init, idx, n, v.a[2])
        if v.op == "str" and v.a and v.a[0] is phi and not any(type(x) is T and contains(x, phi) for x in v.a[1:]):
            return s_cat(init, mk("strjoin", idx, n, rebuild("str", v.a[1:])))
        if v.op == "ite" and not contains(v.a[0], phi):
            x, y = self._stail(v.a[1], phi), self._stail(v.a[2], phi)
            if x is not None and y is not None:
                return s_cat(init, mk("strjoin", idx, n, ite(v.a[0], x, y)))
        return None

    def _tail(self, v, phi):
        if v is phi:
            return mk("list")
        if v.op == "push":
            t = self._tail(v.a[0], phi)
            if t is not None and not contains(v.a[1], phi):
                return push(t, v.a[1])
        if v.op == "cat":
            t = self._tail(v.a[0], phi)
            if t is not None and not contains(v.a[1], phi):
                return cat(t, v.a[1])
        if v.op == "ite" and not contains(v.a[0], phi):
            x, y = self._tail(v.a[1], phi), self._tail(v.a[2], phi)
            if x is not None and y is not None:
                return ite(v.a[0], x, y)
        return None

    def _stail(self, v, phi):
        if v is phi:
            return mk("str")
        if v.op == "str" and v.a and v.a[0] is phi and not any(type(x) is T and contains(x, phi) for x in v.a[1:]):
            return rebuild("str", v.a[1:])
        return None

    def x_Try(self, s, st, fr):
        self.throws.append([])
        ex0 = len(fr.exits)
        n0 = len(st.path)
        start = st.copy()
        self.exec(s["body"], st, fr)
        th = self.throws.pop()
        mine = [e for e in fr.exits[ex0:] if e.kind == "throw"]
        fr.exits[ex0:] = [e for e in fr.exits[ex0:] if e.kind != "throw"]
        g = mk("caught", s["l"], b_or(*[e.guard for e in th + mine]) if th + mine else FALSE)
        outs = []
        if not st.dead:
            a = st.copy()
            a.path = a.path[:n0] + (b_not(g),)
            outs.append(a)
        for h in s["handlers"]:
            b = start.copy()
            b.path += (g,)
            if h.get("var"):
                fr.vars[h["var"]] = self.new_cell(b, mk("exception", h["t"]))
            self.exec(h["body"], b, fr)
            if not b.dead:
                b.path = b.path[:n0] + (g,)
                outs.append(b)
        self.merge(st, outs, n0)
        st.path = st.path[:n0]

    # ------------------------------------------------------------------ expressions
    def cond(self, e, st, fr):
        v = self.val(e, st, fr)
        if st.dead:
            return FALSE
        return self.simp(st, self.truth(v))

    def val(self, e, st, fr):
        v = self.eval(e, st, fr)
        n = 0
        while v.op == "lvref" and n < 20:
            v = self.read(st, v.a[0])
            n += 1
        return v

    def eval(self, e, st, fr):
        if e is None:
            return VOID
        self.budget -= 1
        if self.budget < 0:
            raise AnalysisBroken("evaluation budget exhausted in %s" % (fr.fn.q if fr.fn else "?"))
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            return mk("expr?", e["k"], e.get("l", 0))
        return m(e, st, fr)

    LVK = {"Ref", "Member", "Index", "Un", "Call", "Cond", "Copy_", "Global", "Cast", "Assign", "This"}

    def lv(self, e, st, fr):
        """lvalue denoted by e; a temporary cell if e is a prvalue"""
        if e is None:
            return self.new_cell(st, VOID)
        k = e["k"]
        if k == "Ref":
            lv = fr.vars.get(e["id"])
            if lv is None:
                lv = self.free_var(e, st, fr)
            return lv
        if k == "Member" and "fn" not in e and not e.get("smem"):
            if e["n"] == "":
                return self.lv(e["e"], st, fr)
            b = self.lv(e["e"], st, fr)
            if e.get("arrow"):
                b = self.deref_lv(st, b)
            return (b[0], b[1] + (("f", e["n"]),))
        if k == "This":
            return self.this_lv(st, fr)
        if k == "Index":
            b = self.lv(e["x"], st, fr)
            b = self.deref_lv(st, b)
            i = self.val(e["y"], st, fr)
            return (b[0], b[1] + (("i", i),))
        if k == "Un" and e["op"] == "*":
            b = self.lv(e["e"], st, fr)
            v = self.raw(st, b)
            if v.op == "it":
                return self.it_lv(st, fr, v) or self.new_cell(st, self.deref_it(v))
            return self.deref_lv(st, b)
        if k == "Un" and e["op"] in ("++", "--") and not e.get("post"):
            b = self.lv(e["e"], st, fr)
            self.e_Un(e, st, fr)
            return b
        if k == "Assign":
            b = self.lv(e["x"], st, fr)
            self.e_Assign(e, st, fr, b)
            return b
        if k == "Cast":
            if e["ck"] in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase", "BaseToDerived", "LValueToRValue", "UserDefinedConversion", "ConstructorConversion", "LValueBitCast", "BitCast"):
                return self.lv(e["e"], st, fr)
        if k == "Cond":
            c = self.cond(e["cond"], st, fr)
            if c is TRUE:
                return self.lv(e["x"], st, fr)
            if c is FALSE:
                return self.lv(e["y"], st, fr)
        v = self.eval(e, st, fr)
        if v.op == "lvref" and not e.get("t", "").endswith("*"):
            return v.a[0]
        return self.new_cell(st, v)

    def it_lv(self, st, fr, v):
        """lvalue of the element an iterator over a local container designates"""
        if len(v.a) > 2 or not v.a[0].a and v.a[0].op == "list":
            return None
        for lv in reversed(list(fr.vars.values())):
            if lv is not None and not lv[1] and st.cells.get(lv[0]) is v.a[0]:
                return (lv[0], (("i", v.a[1]),))
        if fr.this is not None:
            o = self.read(st, fr.this)
            if o.op == "obj":
                for n, x in zip(o.a[1], o.a[2:]):
                    if x is v.a[0]:
                        return (fr.this[0], fr.this[1] + (("f", n), ("i", v.a[1])))
        return None

    def this_lv(self, st, fr):
        # expression `this` is a pointer: cell holding lvref
        if fr.this is None:
            fr.this = self.new_cell(st, mk("sym", "this", bare(fr.fn.rt or "")))
        return self.new_cell(st, mk("lvref", fr.this))

    def free_var(self, e, st, fr):
        # a static local, a captured variable of an unknown closure...
        lv = self.new_cell(st, mk("free", e["n"], fr.fn.id if fr.fn else ""))
        fr.vars[e["id"]] = lv
        return lv

    def e_Ref(self, e, st, fr):
        if e.get("cv") is not None and not e.get("cap") and e["id"] not in fr.vars:
            return self.const_of(e)
        lv = fr.vars.get(e["id"])
        if lv is None:
            if e.get("cv") is not None:
                return self.const_of(e)
            lv = self.free_var(e, st, fr)
        return self.raw(st, lv)

    def const_of(self, e):
        v = int(e["cv"])
        if e["t"] == "bool" or e["t"] == "const bool":
            return C(bool(v))
        q = bare(e["t"])
        if q in self.p.enums:
            return self.enum_val(q, v)
        return C(v)

    def enum_val(self, q, v):
        for n, x in self.p.enums[q]["vals"]:
            if x == v:
                return enumc(q + "::" + n, v)
        return C(v)

    def e_Global(self, e, st, fr):
        if e.get("cv") is not None:
            return self.const_of(e)
        q = e["n"]
        h = self.prims.get(q, STOP)
        if h is None:
            return mk("glob", q)
        if h is not STOP:
            return h(self, st, fr, e)
        key = (q, e.get("rt"))
        if key in self.gcache:
            return self.gcache[key]
        r = mk("glob", q if not e.get("rt") else e["rt"] + "::" + q.rsplit("::", 1)[-1])
        self.gcache[key] = r
        for d in self.p.vars.get(q, []):
            if d.get("rt") == e.get("rt") and d.get("i") is not None and (d.get("cx") or d.get("const")):
                s2 = State()
                f2 = Frame(None)
                f2.fn = fr.fn
                try:
                    v = self.val(d["i"], s2, f2)
                except RecursionError:
                    break
                if self.keep_global(q, d, v):
                    r = v
                break
        self.gcache[key] = r
        return r

    def keep_global(self, q, d, v):
        """use the initialiser of a constant only when it is a plain value"""
        if q.startswith("wf::constants::"):
            return False
        return v.op in ("c", "enum", "str", "list", "lam", "obj", "null")

    def e_Member(self, e, st, fr):
        if "fn" in e:
            return mk("fn", e["id"], e["fn"])
        if e.get("smem"):
            if e.get("cv") is not None:
                return self.const_of(e)
            return self.e_Global({"n": (bare(e.get("rt", "")) + "::" + e["n"]), "rt": e.get("rt"), "t": e["t"]}, st, fr)
        return self.raw(st, self.lv(e, st, fr))

    def e_This(self, e, st, fr):
        if fr.this is None:
            fr.this = self.new_cell(st, mk("sym", "this", bare(fr.fn.rt or "")))
        return mk("lvref", fr.this)

    def e_Int(self, e, st, fr):
        return C(int(e["v"]))

    def e_Float(self, e, st, fr):
        return C(float(e["v"]))

    def e_Bool(self, e, st, fr):
        return C(bool(e["v"]))

    def e_Char(self, e, st, fr):
        return C(chr(e["v"]))

    def e_TypeId(self, e, st, fr):
        return mk("typeid", bare(e["ty"])) if "ty" in e else mk("expr?", "TypeId", e.get("l", 0))

    def e_Str(self, e, st, fr):
        return s_cat(C(e.get("v", "")))

    def e_Null(self, e, st, fr):
        return NULL

    def e_Zero(self, e, st, fr):
        t = bare(e.get("t", ""))
        if t in ("int", "unsigned long", "long", "unsigned int", "char"):
            return C(0)
        if t in ("double", "float"):
            return C(0.0)
        if t == "bool":
            return FALSE
        return mk("zero", t)

    def e_Enum(self, e, st, fr):
        return enumc(e["n"], int(e["v"]))

    def e_FnRef(self, e, st, fr):
        return mk("fn", e["id"], e["fn"])

    def e_DefArg(self, e, st, fr):
        return self.eval(e.get("e"), st, fr)

    def e_DefInit(self, e, st, fr):
        return self.eval(e.get("e"), st, fr)

    def e_Copy(self, e, st, fr):
        h = self.prims.get("<copy>")
        v = self.val(e["e"], st, fr)
        return h(self, e, v) if h else v

    e_Move = e_Copy

    def e_StdInit(self, e, st, fr):
        return self.val(e["e"], st, fr)

    def e_Cast(self, e, st, fr):
        ck = e["ck"]
        if e.get("cv") is not None and ck not in ("UserDefinedConversion", "ConstructorConversion"):
            return self.const_of(e)
        if ck in ("IntegralToBoolean", "FloatingToBoolean"):
            v = self.val(e["e"], st, fr)
            if v.op == "c":
                return C(bool(v.a[0]))
            return b_not(eq(v, C(0)))
        if ck == "PointerToBoolean":
            v = self.eval(e["e"], st, fr)
            if v.op == "lvref":
                return TRUE
            return self.truthy_ptr(v)
        if ck in ("IntegralCast", "FloatingCast", "IntegralToFloating", "FloatingToIntegral"):
            v = self.val(e["e"], st, fr)
            q = bare(e["t"])
            if v.op == "c" and q in self.p.enums:
                return self.enum_val(q, int(v.a[0]))
            if v.op == "enum" and q not in self.p.enums:
                return C(v.a[1])
            if v.op == "c" and ck == "IntegralToFloating":
                return C(float(v.a[0]))
            if v.op == "c" and ck == "IntegralCast":
                if v.a[0] is True:
                    return C(1)
                if v.a[0] is False:
                    return C(0)
                if type(v.a[0]) is str and len(v.a[0]) == 1 and q != "char":
                    return C(ord(v.a[0]))
                if type(v.a[0]) is int and q == "char" and 0 <= v.a[0] < 256:
                    return C(chr(v.a[0]))
                return v
            if ck in ("FloatingToIntegral",):
                return mk("toint", v, q)
            if ck == "IntegralToFloating":
                return C(float(v.a[0])) if isnum(v) and type(v.a[0]) is int else mk("tofloat", v)
            return v
        if ck == "ToVoid":
            self.eval(e["e"], st, fr)
            return VOID
        return self.eval(e["e"], st, fr)

    def e_Un(self, e, st, fr):
        op = e["op"]
        if e.get("cv") is not None and op not in ("++", "--"):
            return self.const_of(e)
        if op == "&":
            return mk("lvref", self.lv(e["e"], st, fr))
        if op == "*":
            return self.raw(st, self.lv(e, st, fr))
        if op in ("++", "--"):
            lv = self.lv(e["e"], st, fr)
            old = self.read(st, lv)
            new = self.add_value(old, C(1 if op == "++" else -1))
            self.write(st, lv, new)
            return old if e.get("post") else new
        v = self.val(e["e"], st, fr)
        if op == "!":
            return b_not(self.simp(st, self.truth(v)))
        if op == "-":
            if isnum(v):
                return C(-v.a[0])
            return mk("neg", v)
        if op == "+":
            return v
        if op == "~":
            return mk("bnot", v)
        return mk("un", op, v)

    def add_value(self, v, k):
        if v.op == "it":
            return mk("it", v.a[0], arith("+", v.a[1], k), *v.a[2:])
        if v.op == "phi":
            return arith("+", v, k)
        return arith("+", v, k)

    def e_Bin(self, e, st, fr):
        op = e["op"]
        if e.get("cv") is not None:
            return self.const_of(e)
        if op in ("&&", "||"):
            a = self.cond(e["x"], st, fr)
            if st.dead:
                return UNREACH
            if op == "&&" and a is FALSE:
                return FALSE
            if op == "||" and a is TRUE:
                return TRUE
            if a.op == "c":
                return self.cond(e["y"], st, fr)
            n0 = len(st.path)
            s2 = st.copy()
            c = a if op == "&&" else b_not(a)
            s2.path += (c,)
            self.assume(s2, c, True)
            b = self.cond(e["y"], s2, fr)
            s3 = st.copy()
            s3.path += (b_not(c),)
            dead2 = s2.dead
            s2.path = s2.path[:n0] + (c,)
            self.merge(st, [s2, s3], n0)
            st.path = st.path[:n0]
            if dead2:
                return a
            return b_and(a, b) if op == "&&" else b_or(a, b)
        if op == ",":
            self.eval(e["x"], st, fr)
            return self.eval(e["y"], st, fr)
        if op in (".*", "->*"):
            o = self.lv(e["x"], st, fr)
            return mk("memptr", self.read(st, o), self.val(e["y"], st, fr))
        xt = e["x"].get("t", "")
        if xt.endswith("*") or xt == "std::nullptr_t":
            x = self.eval(e["x"], st, fr)
            y = self.eval(e["y"], st, fr)
            if op in ("==", "!="):
                r = self.ptr_eq(st, x, y)
                return r if op == "==" else b_not(r)
            x = x if x.op != "lvref" else self.read(st, x.a[0])
            y = y if y.op != "lvref" else self.read(st, y.a[0])
            if op in ("+", "-") and x.op == "it":
                return self.add_value(x, y if op == "+" else mk("neg", y))
            if op == "-" and y.op == "it":
                return arith("-", x, y)
            return mk("bin", "p" + op, x, y)
        x = self.val(e["x"], st, fr)
        y = self.val(e["y"], st, fr)
        return self.binop(op, x, y)

    def ptr_eq(self, st, x, y):
        for p, q in ((x, y), (y, x)):
            if q is NULL:
                if p.op == "lvref":
                    return FALSE
                return eq(p, NULL)
        if x.op == "it" and y.op == "it" and x.a[0] is y.a[0] and x.a[2:] == y.a[2:]:
            return eq(x.a[1], y.a[1])
        if x.op == "lvref" and y.op == "lvref":
            if x is y:
                return TRUE
            x = mk("addr", self.read(st, x.a[0]))
            y = mk("addr", self.read(st, y.a[0]))
        else:
            x = x if x.op != "lvref" else mk("addr", self.read(st, x.a[0]))
            y = y if y.op != "lvref" else mk("addr", self.read(st, y.a[0]))
        if x.id > y.id:
            x, y = y, x
        if x is y:
            return TRUE
        return mk("peq", x, y)

    def binop(self, op, x, y):
        if op == "==":
            return eq(x, y)
        if op == "!=":
            return b_not(eq(x, y))
        if op == "<":
            return lt(x, y)
        if op == ">":
            return lt(y, x)
        if op == "<=":
            return b_not(lt(y, x))
        if op == ">=":
            return b_not(lt(x, y))
        if op == "<=>":
            return mk("cmp3", x, y)
        if op in ("&", "|", "^") and (x.op in ("eq", "lt", "not", "and", "or") or y.op in ("eq", "lt", "not", "and", "or")):
            if op == "&":
                return b_and(x, y)
            if op == "|":
                return b_or(x, y)
        if op == "/" and (isnum(x) and type(x.a[0]) is float):
            if isnum(y) and type(y.a[0]) is float and y.a[0] != 0:
                return C(x.a[0] / y.a[0])
            return mk("bin", op, x, y)
        return arith(op, x, y)

    def e_Assign(self, e, st, fr, lv=None):
        op = e["op"]
        if lv is None:
            if op == "=":
                # C++17: right side first
                isptr = e["x"].get("t", "").endswith("*")
                v = self.eval(e["y"], st, fr) if isptr else self.val(e["y"], st, fr)
                lv = self.lv(e["x"], st, fr)
                self.write(st, lv, v)
                return v
            lv = self.lv(e["x"], st, fr)
        isptr = e["x"].get("t", "").endswith("*")
        v = self.eval(e["y"], st, fr) if isptr else self.val(e["y"], st, fr)
        if op != "=":
            old = self.read(st, lv)
            if old.op == "it":
                v = self.add_value(old, v if op == "+=" else mk("neg", v))
            else:
                v = self.binop(op[:-1], old, v)
        self.write(st, lv, v)
        return v

    def e_Cond(self, e, st, fr):
        c = self.cond(e["cond"], st, fr)
        if st.dead:
            return UNREACH
        if c is TRUE:
            return self.eval(e["x"], st, fr)
        if c is FALSE:
            return self.eval(e["y"], st, fr)
        n0 = len(st.path)
        a, b = st.copy(), st.copy()
        a.path += (c,)
        b.path += (b_not(c),)
        self.assume(a, c, True)
        self.assume(b, c, False)
        ptr = e.get("t", "").endswith("*")
        x = self.eval(e["x"], a, fr) if ptr else self.val(e["x"], a, fr)
        y = self.eval(e["y"], b, fr) if ptr else self.val(e["y"], b, fr)
        a.path = a.path[:n0] + (c,)
        b.path = b.path[:n0] + (b_not(c),)
        da, db = a.dead, b.dead
        self.merge(st, [a, b], n0)
        st.path = st.path[:n0]
        if da:
            return y
        if db:
            return x
        if x.op == "lvref":
            x = self.read(st, x.a[0])
        if y.op == "lvref":
            y = self.read(st, y.a[0])
        return ite(c, x, y)

    def e_Lambda(self, e, st, fr):
        cid = next(self.nclos)
        vars_ = {}
        this = fr.this
        copies = []
        for c in e["caps"]:
            if c.get("this"):
                continue
            if "i" in c and c["i"] is not None:
                if c.get("byref"):
                    vars_[c["id"]] = self.lv(c["i"], st, fr)
                else:
                    vars_[c["id"]] = self.new_cell(st, self.val(c["i"], st, fr))
                copies.append(vars_[c["id"]])
                continue
            if "id" not in c:
                continue
            lv = fr.vars.get(c["id"])
            if lv is None:
                lv = self.free_var({"n": c["n"], "id": c["id"]}, st, fr)
            if c.get("byref"):
                vars_[c["id"]] = lv
            else:
                vars_[c["id"]] = self.new_cell(st, self.raw(st, lv))
        self.closures[cid] = (e["ops"], vars_, this, e)
        return mk("lam", cid)

    def e_InitList(self, e, st, fr):
        t = bare(e.get("t", ""))
        if "fields" in e:
            rec = self.p.recs.get(e.get("rt", t))
            types = {}
            if rec:
                types = {f["n"]: f["t"] for f in rec["fields"]}
            fields = {}
            for n, x in zip(e["fields"], e["a"]):
                ft = types.get(n, "")
                if n == "<base>":
                    v = self.val(x, st, fr)
                    if v.op == "obj":
                        for k, y in zip(v.a[1], v.a[2:]):
                            fields[k] = y
                    continue
                if REF.search(ft):
                    fields[n] = mk("lvref", self.lv(x, st, fr))
                elif ft.endswith("*"):
                    fields[n] = self.eval(x, st, fr)
                else:
                    fields[n] = self.val(x, st, fr)
            if t.startswith("std::array<"):
                l = list(fields.values())
                if len(l) == 1:
                    return l[0]
            if t.startswith("std::integral_constant"):
                return C(0)
            return obj(t, fields)
        if len(e["a"]) == 1 and not t.endswith("]") and not t.startswith("std::"):
            return self.val(e["a"][0], st, fr)
        return mk("list", *[self.val(x, st, fr) for x in e["a"]])

    def e_Throw(self, e, st, fr):
        fr.exits.append(Exit(b_and(*st.path), "throw", mk("thrown", e.get("tt", "rethrow")), dict(st.cells), e["l"]))
        st.dead = True
        return UNREACH

    def e_New(self, e, st, fr):
        return self.val(e["i"], st, fr) if e.get("i") else mk("new", e["nt"])

    def e_Index(self, e, st, fr):
        return self.raw(st, self.lv(e, st, fr))

    def e_Construct(self, e, st, fr):
        from . import stdmodel
        return stdmodel.construct(self, e, st, fr)

    def e_Call(self, e, st, fr):
        from . import stdmodel
        return stdmodel.call(self, e, st, fr)

    def deref_it(self, v):
        if v.op == "it":
            if len(v.a) > 2 and v.a[2] == "rev":
                return at(v.a[0], arith("-", arith("-", size(v.a[0]), C(1)), v.a[1]))
            return at(v.a[0], v.a[1])
        return v

    # generic application of a callable term to value arguments
    def apply(self, st, fr, f, args, loc=0, want=None, at=None):
        """args: list of ('lv',lv)/('v',T).  want: optional list of argument type strings."""
        while f.op == "lvref":
            f = self.read(st, f.a[0])
        if f.op == "fn":
            fn = self.p.fns.get(f.a[0])
            h = self.prims.get(f.a[1], STOP)
            if h is None or h is PURE or fn is None:
                return mk("call", f.a[1], "", *[self.argval(st, a) for a in args])
            if h is not STOP:
                return h(self, st, fr, None, f.a[0], None, args)
            r = self.hooked(st, fr, fn, None, args)
            if r is not None:
                return r
            r = self.call_fn(fn, st, None, args, loc)
            if r is not None:
                return r
            return mk("call", f.a[1], "", *[self.argval(st, a) for a in args])
        if f.op == "overload":
            # overload resolution over the lambdas of wf::make_overloaded: the one with a matching parameter type
            hit = []
            for g in f.a:
                while g.op == "lvref":
                    g = self.read(st, g.a[0])
                if g.op != "lam":
                    continue
                for o in self.closures[g.a[0]][0]:
                    fn = self.p.fns.get(o)
                    if fn and len(fn.params) == len(args) and want and all(w is None or bare(p["t"]) == bare(w) for p, w in zip(fn.params, want)):
                        hit.append(g)
                        break
            if hit:
                return self.apply(st, fr, hit[0], args, loc, want)
            return mk("call", "<apply>", "", f, *[self.argval(st, a) for a in args])
        if f.op == "lam":
            ops, vars_, this, node = self.closures[f.a[0]]
            cand = [self.p.fns[o] for o in ops if o in self.p.fns]
            cand = [c for c in cand if len(c.params) == len(args)]
            if len(cand) > 1 and want:
                best = [c for c in cand if all(w is None or bare(p["t"]) == bare(w) for p, w in zip(c.params, want))]
                cand = best or cand
            if cand:
                r = self.call_fn(cand[0], st, None, args, loc, caps=(vars_, this))
                if r is not None:
                    return r
        if f.op == "obj" or f.op == "sym":
            ty = f.a[0] if f.op == "obj" else (f.a[1] if len(f.a) > 1 else "")
            ms = [m for m in self.p.by_rt.get(ty, []) if m.name == "operator()" and len(m.params) == len(args)]
            if len(ms) > 1 and not want:
                want = []
                for a in args:
                    v = self.argval(st, a)
                    want.append(v.a[0] if v.op in ("obj", "new") else v.a[1] if v.op == "sym" and len(v.a) > 1 and v.a[1] else None)
            if len(ms) > 1 and want:
                ms = [c for c in ms if all(w is None or bare(p["t"]) == bare(w) for p, w in zip(c.params, want))] or ms
            if ms:
                olv = at or self.new_cell(st, f)
                r = self.hooked(st, fr, ms[0], olv, args)
                if r is None:
                    r = self.call_fn(ms[0], st, olv, args, loc)
                if r is not None:
                    return r
        return mk("call", "<apply>", "", f, *[self.argval(st, a) for a in args])

    def hooked(self, st, fr, fn, objlv, args):
        if self.hook:
            return self.hook(self, st, fr, fn, objlv, args)
        return None

    def argval(self, st, a):
        v = self.read(st, a[1]) if a[0] == "lv" else a[1]
        while v.op == "lvref":
            v = self.read(st, v.a[0])
        return v


class Summary:
    pass
