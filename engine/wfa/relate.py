"""Two-instance reasoning about identity, hash and order traits: every value type is instantiated twice with fresh
symbols (A.* and B.*) and the trait is read off the source as a closed term over those symbols. Nested values that have a
trait of their own stay opaque: their relation is one atom (and one obligation of its own elsewhere)."""
import re
from .vg import *
from .program import AnalysisBroken
from .shapes import keyed

TRAITS = ("wf::is_identical_struct<", "wf::order_struct<", "wf::hash_struct<", "wf::is_identical_variant<", "wf::order_variant<", "wf::hash_variant<")


def split_args(t):
    """top-level template arguments of a type string"""
    i = t.index("<")
    out, d, cur = [], 0, ""
    for ch in t[i + 1:t.rindex(">")]:
        if ch == "," and d == 0:
            out.append(cur.strip()); cur = ""
            continue
        d += ch in "<("
        d -= ch in ">)"
        cur += ch
    return out + [cur.strip()]


class Side:
    def __init__(self, p, tag, n=2):
        self.p, self.tag, self.n = p, tag, n
        self.atoms = {}   # component path -> term

    def leaf(self, path, t):
        s = mk("sym", self.tag + "." + path, t)
        self.atoms[path] = s
        return s

    def value(self, t, path, depth=0):
        t = bare(t)
        if t.startswith("std::array<"):
            e, n = split_args(t)
            return mk("list", *[self.value(e, "%s[%d]" % (path, i), depth + 1) for i in range(int(n))])
        if t.startswith("std::tuple<"):
            return mk("list", *[self.value(e, "%s[%d]" % (path, i), depth + 1) for i, e in enumerate(split_args(t))])
        if t.startswith("absl::InlinedVector<") or t.startswith("std::vector<"):
            e = split_args(t)[0]
            return mk("list", *[self.value(e, "%s[%d]" % (path, i), depth + 1) for i in range(self.n)])
        r = self.p.recs.get(t)
        if r and r["fields"] and t.startswith("wf::") and depth < 4 and not t.endswith("_expr") and \
                not any("_ptr<" in x["t"] or "non_null<" in x["t"] for x in r["fields"]):
            return obj(t, {x["n"]: self.value(x["t"], path + "." + x["n"], depth + 1) for x in r["fields"]})
        return self.leaf(path, t)

    def instance(self, rt):
        fl = self.fields(rt)
        return obj(rt, {x["n"]: self.value(x["t"], x["n"]) for x in fl})

    def fields(self, rt):
        r = self.p.recs.get(rt)
        if r is None:
            raise AnalysisBroken("no record " + rt)
        return r["fields"]


WHOLE = ("scalar_expr", "boolean_expr", "matrix_expr", "compound_expr", "std::basic_string", "non_null<wf::ir::value", "std::variant<")


def opaque(t):
    return t.op not in ("list", "obj", "c", "str", "new", "push")


def root_type(rt):
    return rt[rt.index("<") + 1:]


def trait_hook(root):
    def hook(ev, st, fr, f, objlv, al):
        if f.id == root or not f.rt or not f.q.endswith("::operator()"):
            return None
        for k in TRAITS:
            if f.rt.startswith(k):
                xs = [ev.argval(st, a) for a in al]
                x0 = root_type(f.rt)
                if all(opaque(x) for x in xs) or any(x0.startswith(w) or x0.startswith("wf::" + w) for w in WHOLE):
                    return mk("call", "trait:" + k[4:k.index("<")].replace("_struct", "").replace("_variant", ""), "", *xs)
        return None
    return hook


# ---- interpretation of a relation/hash term for one assignment of component values
class Unsure(Exception):
    pass


ORD = {-1: "less_than", 0: "equal", 1: "greater_than"}
BYNAME = {v: k for k, v in ORD.items()}


def path_of(t):
    """(side, path) when t is an access path from one of the two instances"""
    if t.op == "sym" and (t.a[0].startswith("A.") or t.a[0].startswith("B.")):
        return t.a[0][0], t.a[0][2:]
    if t.op == "field":
        b = path_of(t.a[0])
        return b and (b[0], b[1] + "." + str(t.a[1]))
    if t.op == "deref" or t.op == "addr":
        return path_of(t.a[0])
    return None


class Model:
    """assign: {(side, path): value}. inject: unknown functions are injective (True) or constant (False)."""

    def __init__(self, assign, inject=True, default=None, ptr_eq=False):
        self.assign, self.inject, self.default, self.ptr_eq = assign, inject, default, ptr_eq
        self.idx = {}
        self.used = set()

    def prefix(self, pa):
        return any(k[0] == pa[0] and k[1].startswith(pa[1] + ".") for k in self.assign)

    def eqv(self, x, y):
        if isinstance(x, tuple) and x and x[0] == "dbl" and isinstance(y, tuple) and y and y[0] == "dbl":
            return x[1] == y[1]
        return x == y

    def ev(self, t):
        pa = path_of(t)
        if pa is not None:
            self.used.add(pa[1])
            if pa in self.assign:
                return self.assign[pa]
            if self.prefix(pa):
                return ("ptr", pa[1], 0 if self.ptr_eq else pa[0])
            q = pa[1]
            while "." in q:
                q = q.rsplit(".", 1)[0]
                if (pa[0], q) in self.assign:
                    v = self.assign[(pa[0], q)]
                    if isinstance(v, tuple) and v[:1] == ("var",):
                        v = v[2]
                    return ("fld", pa[1], v) if self.inject else ("fld", pa[1])
            if self.default is not None:
                return self.default(pa)
            raise Unsure(show(t))
        o = t.op
        if o == "c":
            return t.a[0]
        if o == "enum":
            n = t.a[0].rsplit("::", 1)[-1]
            if t.a[0].startswith("wf::relative_order::"):
                return BYNAME[n]
            return ("enum", t.a[0])
        if o == "str":
            return ("str",) + t.a
        if o == "ite":
            return self.ev(t.a[1] if self.ev(t.a[0]) else t.a[2])
        if o == "not":
            return not self.ev(t.a[0])
        if o == "and":
            return all(self.ev(x) for x in t.a)
        if o == "or":
            return any(self.ev(x) for x in t.a)
        if o in ("eq", "peq"):
            a, b = self.ev(t.a[0]), self.ev(t.a[1])
            if (a == 0 or a == 1) and isinstance(b, bool):
                return bool(a) == b
            if (b == 0 or b == 1) and isinstance(a, bool):
                return bool(b) == a
            if o == "peq" and not self.ptr_eq and a == b:
                return False if path_side(t.a[0]) != path_side(t.a[1]) else True
            return self.eqv(a, b)
        if o == "lt":
            a, b = self.ev(t.a[0]), self.ev(t.a[1])
            if isinstance(a, tuple) and a[:1] == ("dbl",):
                return a[1] < b[1]
            return key(a) < key(b)
        if o == "list":
            return ("list",) + tuple(self.ev(x) for x in t.a)
        if o == "obj":
            return ("obj", t.a[0]) + tuple(self.ev(x) for x in t.a[2:])
        if o == "cmp3":
            a, b = self.ev(t.a[0]), self.ev(t.a[1])
            return 0 if a == b else -1 if key(a) < key(b) else 1
        if o == "idx":
            return self.idx.get(t.a[0], ("idx", t.a[0]))
        if o == "size" and t.a[0].op == "list":
            return len(t.a[0].a)
        if o in ("size", "at") and path_of(t.a[0]):
            v = self.ev(t.a[0])
            if isinstance(v, tuple) and v[:1] == ("list",):
                if o == "size":
                    return len(v) - 1
                i = self.ev(t.a[1])
                if isinstance(i, int) and 0 <= i < len(v) - 1:
                    return v[i + 1]
        if o == "size" and t.a[0].op == "obj" and len(t.a[0].a) == 3 and t.a[0].a[2].op == "list":
            return len(t.a[0].a[2].a)
        if o == "at":
            l, i = t.a[0], self.ev(t.a[1])
            while l.op == "obj" and len(l.a) == 3:
                l = l.a[2]
            if l.op == "list" and isinstance(i, int) and 0 <= i < len(l.a):
                return self.ev(l.a[i])
        if o == "exists":
            n = self.ev(t.a[1])
            if isinstance(n, int):
                for i in range(n):
                    self.idx[t.a[0]] = i
                    if self.ev(t.a[2]):
                        self.idx.pop(t.a[0], None)
                        return True
                self.idx.pop(t.a[0], None)
                return False
            raise Unsure(show(t))
        if o == "vindex":
            v = self.ev(t.a[0])
            if isinstance(v, tuple) and v[:1] == ("var",):
                return v[1]
        if o == "istype":
            v = self.ev(t.a[0])
            if isinstance(v, tuple) and v[:1] == ("var",):
                return alt(t.a[0], t.a[1]) == v[1]
        if o == "as":
            v = self.ev(t.a[0])
            if isinstance(v, tuple) and v[:1] == ("var",):
                return v[2]
        if o == "call":
            n, xs = t.a[0], [x for x in t.a[2:]]
            if t.a[1] is not None and type(t.a[1]) is T:
                xs = [t.a[1]] + xs
            if n == "<apply>":
                f, xs = xs[0], xs[1:]
                n = f.a[0] if f.op in ("obj", "new") else f.a[1] if f.op == "sym" else n
            vs = [self.ev(x) for x in xs]
            if "identical" in n and len(vs) == 2:
                return self.eqv(vs[0], vs[1])
            if "operator==" in n and len(vs) == 2:
                return self.eqv(vs[0], vs[1])
            if ("order" in n and len(vs) == 2) or n.endswith("::compare") and len(vs) == 2:
                a, b = (v[1] if isinstance(v, tuple) and v[:1] == ("dbl",) else v for v in vs)
                return 0 if a == b else -1 if key(a) < key(b) else 1
            if "std::hash<double>" in n or "hash<double" in n:
                vs = [v[1] if isinstance(v, tuple) and v[:1] == ("dbl",) else v for v in vs]
            return ("f", n) + tuple(vs) if self.inject else ("f", n)
        vs = tuple(self.ev(x) if type(x) is T else x for x in t.a)
        if o == "bin" and t.a[0] in ("*", "+", "-") and all(isinstance(v, int) for v in vs[1:]) and len(vs) == 3:
            a, b = vs[1:]
            return a * b if t.a[0] == "*" else a + b if t.a[0] == "+" else a - b
        return ("f", o) + vs if self.inject or o in ("field",) else ("f", o)


def path_side(t):
    p = path_of(t)
    if p:
        return p[0]
    for x in t.a:
        if type(x) is T:
            s = path_side(x)
            if s:
                return s
    return None


def key(v):
    """an arbitrary fixed total order on model values"""
    if isinstance(v, (int, float)):
        return (0, v)
    if isinstance(v, tuple):
        return (1,) + tuple(key(x) if not isinstance(x, str) else (2, x) for x in v)
    return (3, repr(v))


def alt(t, ty):
    """index of alternative ty in the variant-typed term t"""
    s = t
    while s.op in ("field", "deref"):
        s = s.a[0]
    t = VARIANTS.get(path_of(t)[1]) if path_of(t) else None
    if t is None:
        raise Unsure("variant type of " + show(s))
    al = split_args(t)
    return al.index(ty) if ty in al else -1


VARIANTS = {}


def components(p, rt, n=2, depth=0):
    """component paths of an instance of rt: [(path suffix, type)] in terms of record fields; shared state is followed"""
    out = []
    for x in p.recs[rt]["fields"]:
        t = bare(x["t"])
        m = re.search(r"shared_ptr<const ([\w:]+)>", t)
        if m and m.group(1) in p.recs and p.recs[m.group(1)]["fields"]:
            out += [(x["n"], q, ty) for _, q, ty in components(p, m.group(1), n, depth + 1)]
        else:
            out.append(("", x["n"], x["t"]))
    return out


def rename(t, memo=None):
    """the same term over instance B"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    if t.op == "sym" and t.a[0].startswith("A."):
        r = mk("sym", "B." + t.a[0][2:], *t.a[1:])
    else:
        r = mk(t.op, *[rename(x, memo) if type(x) is T else x for x in t.a])
    memo[t] = r
    return r


def norm(t):
    """t with loop-variable identities renumbered in order of first use"""
    ids, memo = {}, {}

    def go(t):
        if t in memo:
            return memo[t]
        if t.op == "phi":
            r = mk("phi", t.a[0], ids.setdefault(t.a[1:], len(ids)))
        elif t.op == "lvref" and type(t.a[0]) is tuple:
            r = mk("lvref", (ids.setdefault(("obj", t.a[0][0]), len(ids)),) + t.a[0][1:])
        else:
            r = mk(t.op, *[go(x) if type(x) is T else x for x in t.a])
        memo[t] = r
        return r
    return go(t)


class Pair:
    """a type with its trait terms over two instances"""

    def __init__(self, p, rt, ident=None, hsh=None, order=None, n=(2, 2)):
        self.p, self.rt = p, rt
        self.A, self.B = Side(p, "A", n[0]), Side(p, "B", n[1])
        a, b = self.A.instance(rt), self.B.instance(rt)
        self.fns = set()

        def term(f, args):
            ev = Ev(p, {}, hook=trait_hook(f.id))
            this = mk("sym", "trait", f.rt) if f.rt else None
            if f.rt == rt:  # a member comparing *this with its argument
                this, args = args[0], args[1:]
            s = ev.summarize(f, this=this, args=args)
            self.fns |= set(ev.inlined) | {f.id}
            return s.val
        self.ident = term(ident, [a, b]) if ident else None
        before, self.fns = self.fns, set()
        self.hashA = term(hsh, [a]) if hsh else None
        self.hash_fns = self.fns
        self.fns = before | self.hash_fns
        self.hashB = rename(self.hashA) if hsh else None
        self.order = term(order, [a, b]) if order else None
        self.rev = term(order, [b, a]) if order else None
        found = set()
        for t in (self.ident, self.hashA, self.hashB, self.order):
            if t is not None:
                leaves(t, found)
        self.comps = {}
        for side in (self.A, self.B):
            for k, s in side.atoms.items():
                m = re.search(r"shared_ptr<const ([\w:]+)>", s.a[1])
                if m and m.group(1) in p.recs and p.recs[m.group(1)]["fields"]:
                    pre = [q for q in found if q.startswith(k + ".") or q == k]
                    for x in p.recs[m.group(1)]["fields"]:
                        hit = [q for q in pre if q.endswith("." + x["n"])]
                        self.comps[min(hit, key=len) if hit else k + "." + x["n"]] = bare(x["t"])
                else:
                    self.comps[k] = bare(s.a[1])


def leaves(t, out, seen=None):
    """all access paths in a term, and their extensions"""
    if seen is None:
        seen = set()
    if t in seen:
        return
    seen.add(t)
    pa = path_of(t)
    if pa:
        out.add(pa[1])
    for x in t.a:
        if type(x) is T:
            leaves(x, out, seen)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return seen
    seen.add(t)
    for x in t.a:
        if type(x) is T:
            subterms(x, seen)
    return seen


def mentions(t):
    s = set()
    leaves(t, s)
    return s


def base_value(p, i, t):
    if t.startswith("std::variant<"):
        return ("var", i % len(split_args(t)), 100 * i)
    if t.startswith("std::vector<") or t.startswith("absl::InlinedVector<"):
        return ("list", 100 * i, 100 * i + 1)
    e = p.enums_of(t)
    if e:
        return ("enum", t + "::" + e[0])
    return 100 * i


def differ(p, v, t):
    """other values of a component"""
    if isinstance(v, tuple) and v[0] == "var":
        return [("var", v[1], v[2] + 7), ("var", v[1] + 1, v[2])]
    if isinstance(v, tuple) and v[0] == "list":
        return [("list", v[1] + 7, v[2]), ("list", v[1], v[2] + 7), ("list", v[1]), ("list", v[2], v[1])]
    if isinstance(v, tuple) and v[0] == "enum":
        return [x for x in (("enum", t + "::" + n) for n in p.enums_of(t)) if x != v]
    return [v + 7]
