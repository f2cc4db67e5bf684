"""Meaning of the standard-library, absl and fmt calls the repository uses, as term constructors."""
import math
import re
from .vg import *
from . import vg

IDENT1 = {"std::move", "std::forward", "std::as_const", "std::ref", "std::cref", "std::addressof", "std::launder",
          "std::__addressof", "fmt::runtime", "std::forward_like", "std::move_if_noexcept", "std::static_pointer_cast",
          "std::const_pointer_cast", "std::dynamic_pointer_cast", "std::to_underlying", "absl::MakeSpan", "absl::MakeConstSpan",
          "fmt::make_format_args", "std::__niter_base", "std::make_move_iterator"}

SMART = ("std::shared_ptr", "std::unique_ptr", "std::optional", "std::reference_wrapper", "std::__shared_ptr",
         "std::__shared_ptr_access", "std::weak_ptr")
CONT = ("std::vector", "absl::InlinedVector", "std::array", "std::basic_string", "std::basic_string_view", "absl::Span", "std::deque",
        "std::initializer_list", "std::list", "std::set", "std::map", "std::unordered_map", "std::unordered_set", "std::multimap",
        "absl::flat_hash_map", "absl::flat_hash_set", "std::queue", "std::stack", "std::span", "std::bitset", "fmt::basic_memory_buffer",
        "fmt::detail::buffer", "std::priority_queue", "std::ranges::iota_view")
MAPS = ("std::map", "std::unordered_map", "std::set", "std::unordered_set", "absl::flat_hash_map", "absl::flat_hash_set", "std::multimap")


def tname(t):
    t = bare(t or "")
    i = t.find("<")
    return t if i < 0 else t[:i]


def keyeq(x, y):
    if x.op == "list" and y.op == "list" and len(x.a) == len(y.a):
        return b_and(*[keyeq(p, q) for p, q in zip(x.a, y.a)])
    if x.op == "obj" and y.op == "obj" and x.a[:2] == y.a[:2]:
        return TRUE if x is y else b_and(*[keyeq(p, q) for p, q in zip(x.a[2:], y.a[2:])])
    return eq(x, y)


def haskey(m, k):
    """whether map m (built up by insertions) holds key k"""
    if m.op == "list" and not m.a:
        return FALSE
    if m.op == "mapset":
        h = keyeq(m.a[1], k)
        if h is TRUE:
            return TRUE
        if h is FALSE:
            return haskey(m.a[0], k)
    return mk("haskey", m, k)


def lookup(m, k):
    if m.op == "mapset":
        h = keyeq(m.a[1], k)
        if h is TRUE:
            return m.a[2]
        if h is FALSE:
            return lookup(m.a[0], k)
    return mk("lookup", m, k)


def it_eq(x, y):
    if x.op == "it" and y.op == "it":
        if x.a[0] is y.a[0] and x.a[2:] == y.a[2:]:
            return eq(x.a[1], y.a[1])
    for p, q in ((x, y), (y, x)):
        if p.op == "find" and q.op == "it" and q.a[0] is p.a[0]:
            return b_not(haskey(p.a[0], p.a[1]))
        if p.op == "findif" and q.op == "it" and q.a[0] is p.a[1]:
            return b_not(mk("exists", p.a[0], size(p.a[1]), p.a[2]))
    if x is y:
        return TRUE
    if x.op == "ite" and y.op == "it":
        return ite(x.a[0], it_eq(x.a[1], y), it_eq(x.a[2], y))
    return eq(x, y)


def range_of(b, e):
    """term of the container denoted by an iterator pair"""
    if b.op == "it" and e.op == "it" and b.a[0] is e.a[0] and b.a[2:] == e.a[2:]:
        n = size(b.a[0])
        r = b.a[0]
        if b.a[2:] == ("rev",):
            r = reverse(r)
        if b.a[1] is C(0) and e.a[1] is n:
            return r
        return slice_(r, b.a[1], arith("-", e.a[1], b.a[1]))
    if b.op == "it" and b.a[1] is C(0):
        return mk("until_it", b.a[0], e)
    return mk("range", b, e)


def fold_lambda(ev, st, fr, f, lst, want=None):
    """(idx, body) of applying f to the elements of lst"""
    d = ev.loopdepth
    ev.loopdepth += 1
    idx = mk("idx", d)
    s = st.copy()
    cell = ev.new_cell(s, at(lst, idx))
    v = ev.apply(s, fr, f, [("lv", cell)], want=want)
    n = 0
    while v.op == "lvref" and n < 9:
        v = ev.read(s, v.a[0])
        n += 1
    ev.loopdepth -= 1
    # cells created inside stay readable
    for k, x in s.cells.items():
        if k not in st.cells:
            st.cells[k] = x
        elif st.cells[k] is not x:
            st.cells[k] = mk("foldcell", idx, size(lst), st.cells[k], x)
    return idx, v


def elems(lst):
    return list(lst.a) if lst.op == "list" else None


def map_term(ev, st, fr, f, lst):
    el = elems(lst)
    if el is not None:
        out = []
        for x in el:
            v = ev.apply(st, fr, f, [("lv", ev.new_cell(st, x))])
            while v.op == "lvref":
                v = ev.read(st, v.a[0])
            out.append(v)
        return mk("list", *out)
    idx, v = fold_lambda(ev, st, fr, f, lst)
    return mk("map", idx, size(lst), v)


def exists_term(ev, st, fr, f, lst, neg=False):
    el = elems(lst)
    if el is not None:
        out = []
        for x in el:
            v = ev.apply(st, fr, f, [("lv", ev.new_cell(st, x))])
            while v.op == "lvref":
                v = ev.read(st, v.a[0])
            v = ev.truth(v)
            out.append(b_not(v) if neg else v)
        return b_or(*out)
    idx, v = fold_lambda(ev, st, fr, f, lst)
    v = ev.truth(v)
    if neg:
        v = b_not(v)
    return ev.exists(idx.a[0], idx, size(lst), v)


FMT = re.compile(r"\{\{|\}\}|\{([^{}:]*)(:[^{}]*(?:\{[^{}]*\})?[^{}]*)?\}")


def fmt_format(fs, args):
    """fs: format string term, args: terms"""
    s = strval(fs)
    if s is None:
        return mk("fmt", fs, *args)
    out, pos, n = [], 0, 0
    for m in FMT.finditer(s):
        out.append(s[pos:m.start()])
        pos = m.end()
        g = m.group(0)
        if g == "{{":
            out.append("{")
            continue
        if g == "}}":
            out.append("}")
            continue
        key = m.group(1)
        if key == "":
            i = n
            n += 1
        elif key.isdigit():
            i = int(key)
        else:
            i = None
            for j, a in enumerate(args):
                if a.op == "fmtarg" and a.a[0] == key:
                    i = j
        if i is None or i >= len(args):
            out.append(mk("badfmt", key))
            continue
        a = args[i]
        if a.op == "fmtarg":
            a = a.a[1]
        spec = m.group(2)
        if spec and "{}" in spec:   # width or precision taken from the next argument
            w = args[n] if n < len(args) else None
            n += 1
            if w is not None and isnum(w):
                spec = spec.replace("{}", str(w.a[0]))
            else:
                spec = spec.replace("{}", "?")
        m2 = re.match(r":(\d+)$", spec or "")
        if m2 and strval(a) is not None:
            out.append(strval(a).ljust(int(m2.group(1))))
            continue
        if spec and spec not in (":", ":s", ":d"):
            a = mk("fmtspec", spec, a)
        out.append(a)
    out.append(s[pos:])
    return s_cat(*[C(x) if type(x) is str else x for x in out])


def construct(ev, e, st, fr):
    rt = bare(e.get("rt") or e["t"])
    q = e.get("fn", "")
    args = e["a"]
    h = ev.prims.get("ctor:" + rt, STOP)
    if h is STOP:
        h = ev.prims.get("ctor:" + tname(rt), STOP)
    if h is not STOP and h is not None:
        r = h(ev, st, fr, e)
        if r is not None:
            return r
    fn = ev.p.fns.get(e.get("id"))
    if h is None:
        return mk("new", rt, *[ev.val(a, st, fr) for a in args])
    if rt.startswith("std::ranges::iota_view<") and len(args) == 2:
        a, b = ev.val(args[0], st, fr), ev.val(args[1], st, fr)
        if isnum(a) and isnum(b):
            return mk("list", *[C(i) for i in range(a.a[0], b.a[0])])
        return mk("map", mk("idx", ev.loopdepth), arith("-", b, a), arith("+", a, mk("idx", ev.loopdepth)))
    if fn is not None and ev.hook:
        al = [("lv", ev.lv(a, st, fr)) for a in args]
        r = ev.hook(ev, st, fr, fn, None, al)
        if r is not None:
            return r
        cell = ev.new_cell(st, mk("uninit", rt))
        v = ev.call_fn(fn, st, cell, al, e["l"])
        if v is not None:
            return ev.read(st, cell) if not st.dead else UNREACH
        return mk("new", rt, *[ev.argval(st, a) for a in al])
    if fn is not None:
        al = [("lv", ev.lv(a, st, fr)) for a in args]
        if st.dead:
            return UNREACH
        cell = ev.new_cell(st, mk("uninit", rt))
        v = ev.call_fn(fn, st, cell, al, e["l"])
        if v is not None:
            return ev.read(st, cell) if not st.dead else UNREACH
        return mk("new", rt, *[ev.argval(st, a) for a in al])
    rec = ev.p.recs.get(rt)
    b = tname(rt)
    if rec is not None and not args:
        fields = {}
        for fd in rec["fields"]:
            if fd.get("i") is not None:
                fields[fd["n"]] = ev.val(fd["i"], st, fr)
            else:
                fields[fd["n"]] = mk("uninit_field", fd["n"])
        return obj(rt, fields)
    if b in ("std::optional", "std::shared_ptr", "std::unique_ptr", "std::function", "absl::AnyInvocable", "std::__shared_ptr") or b.startswith("std::_Optional"):
        if not args:
            return NULL
        if len(args) >= 1:
            lvv = ev.lv(args[0], st, fr)
            v = ev.read(st, lvv)
            t0 = bare(args[0].get("t", ""))
            if t0 in ("std::nullopt_t", "std::nullptr_t"):
                return NULL
            if t0.startswith("std::in_place"):
                return mk("new", rt, *[ev.val(a, st, fr) for a in args[1:]]) if len(args) != 2 else ev.val(args[1], st, fr)
            return v
    if b in ("std::variant", "std::basic_string_view", "absl::Span", "std::span", "std::reference_wrapper",
             "std::initializer_list", "absl::FunctionRef", "std::_Variant_base") or b.startswith("fmt::basic_format_string") or b == "fmt::basic_string_view" \
            or b.startswith("fmt::fstring") or b == "std::move_iterator":
        if len(args) == 1:
            if bare(args[0].get("t", "")) in ("std::in_place_t",):
                return mk("new", rt)
            return ev.val(args[0], st, fr)
        if not args:
            if b == "std::variant":
                return mk("default", rt)
            return mk("list") if b in ("absl::Span", "std::span", "std::initializer_list") else s_cat()
        vs = [ev.val(a, st, fr) for a in args]
        if b == "std::variant" and vs:
            ta = args[0].get("t", "")
            m = re.match(r"std::in_place_type_t<(.*)>$", bare(ta))
            if m:
                T_ = bare(m.group(1))
                if len(vs) == 2:
                    return vs[1] if True else None
                return make_object(ev, st, fr, T_, [("v", v) for v in vs[1:]])
        if len(vs) == 2 and b in ("absl::Span", "std::basic_string_view", "std::span"):
            if vs[0].op == "data" and vs[1] is size(vs[0].a[0]):
                return vs[0].a[0]
            if vs[0].op == "it":
                return slice_(vs[0].a[0], vs[0].a[1], vs[1])
            one = vs[1].op == "bin" and vs[1].a[0] == "p+" and vs[1].a[1] is vs[0] and vs[1].a[2] is C(1)
            if (one or vs[1] is C(1)) and (vs[0].op == "obj" or vs[0].op == "sym" and bare(str(vs[0].a[1])) == bare(args[0].get("t", "").rstrip("* "))):
                return mk("list", vs[0])  # a view of one object
            return slice_(vs[0], C(0), vs[1])
        return mk("new", rt, *vs)
    if b == "std::basic_string":
        args = [a for a in args if not a.get("t", "").startswith(("std::allocator", "const std::allocator"))]
        if not args:
            return s_cat()
        vs = [ev.val(a, st, fr) for a in args]
        if len(vs) == 1:
            return vs[0]
        if len(vs) == 2 and vs[0].op == "it":
            return range_of(vs[0], vs[1])
        if len(vs) == 2 and isnum(vs[0]) and strval(vs[1]) is not None:
            return s_cat(C(strval(vs[1]) * vs[0].a[0]))
        if len(vs) == 2:
            return s_cat(mk("repeat", vs[1], vs[0]))
        return mk("new", rt, *vs)
    if b in ("std::vector", "absl::InlinedVector", "std::deque", "std::list", "std::array", "std::set", "std::unordered_set", "std::map",
             "std::unordered_map", "std::queue", "std::stack", "std::multimap", "absl::flat_hash_map"):
        args = [a for a in args if not re.match(r"(const )?(std::(allocator|hash|equal_to|less)|wf::stl_stack)", a.get("t", ""))
                and a["k"] != "DefArg"]
        if not args:
            return mk("list")
        vs = [ev.val(a, st, fr) for a in args]
        if len(vs) == 1:
            t0 = bare(args[0].get("t", ""))
            if args[0]["k"] in ("StdInit", "InitList") or tname(t0) in CONT:
                return vs[0]
            if t0 in ("unsigned long", "int", "long", "unsigned int"):
                if isnum(vs[0]) and vs[0].a[0] <= 64:
                    return mk("list", *[mk("zero", rt) for _ in range(vs[0].a[0])])
                return mk("map", mk("idx", ev.loopdepth), vs[0], mk("zero", rt))
            return vs[0]
        if len(vs) >= 2 and vs[0].op == "it":
            return range_of(vs[0], vs[1])
        if b in ("std::vector", "absl::InlinedVector") and bare(args[0].get("t", "")) in ("unsigned long", "int", "long", "unsigned int"):
            if isnum(vs[0]) and vs[0].a[0] <= 64:
                return mk("list", *[vs[1]] * vs[0].a[0])
            return mk("map", mk("idx", ev.loopdepth), vs[0], vs[1])
        return mk("new", rt, *vs)
    if b == "std::pair" and len(args) == 2:
        vs = [ev.val(a, st, fr) for a in args]
        return obj(rt, {"first": vs[0], "second": vs[1]})
    if b == "std::tuple":
        return mk("list", *[ev.val(a, st, fr) for a in args])
    if b == "std::integral_constant":
        m = re.match(r"std::integral_constant<.*, (-?\d+|true|false)[UL]*>$", rt)
        if m:
            return C({"true": True, "false": False}.get(m.group(1)) if m.group(1) in ("true", "false") else int(m.group(1)))
    if len(args) == 1 and (b.startswith("std::_") or b.startswith("__gnu_cxx::__normal_iterator")):
        return ev.val(args[0], st, fr)
    if b.startswith("std::in_place") or b.startswith("std::nullopt") or b.startswith("std::less") or b.startswith("std::equal_to"):
        if b.startswith("std::nullopt"):
            return NULL
        return mk("tag", rt)
    return mk("new", rt, *[ev.val(a, st, fr) for a in args])


def make_object(ev, st, fr, ty, args, loc=0, held=False):
    """construct a repository type from argument values (make_shared, emplace, in_place)"""
    ty = bare(ty)
    h = ev.prims.get("ctor:" + ty, STOP)
    if h is None:
        return mk("new", ty, *[ev.argval(st, a) for a in args])
    if len(args) == 1 and not held:
        v = ev.argval(st, args[0])
        if v.op == "obj" and v.a[0] == ty or v.op == "enum" and v.a[0].rsplit("::", 1)[0] == ty:
            return v
    cs = [f for f in ev.p.by_rt.get(ty, []) if f.ctor and len(f.params) == len(args) and not (f.implicit)]
    if len(cs) == 1 or cs and len({(f.file, f.line) for f in cs}) == 1:
        cell = ev.new_cell(st, mk("uninit", ty))
        v = ev.call_fn(cs[0], st, cell, args, loc)
        if v is not None:
            return ev.read(st, cell) if not st.dead else UNREACH
    rec = ev.p.recs.get(ty)
    if rec and rec.get("aggregate") and len(rec["fields"]) == len(args) and args:
        return obj(ty, {f["n"]: ev.argval(st, a) for f, a in zip(rec["fields"], args)})
    vs = [ev.argval(st, a) for a in args]
    if tname(ty) in ("std::basic_string", "std::variant", "std::optional") and len(vs) == 1:
        return vs[0]
    return mk("new", ty, *vs)


def call(ev, e, st, fr):
    q = e.get("fn")
    if q is None:
        # call through an expression (function pointer, member pointer, pseudo destructor)
        f = ev.val(e["calleeE"], st, fr) if e.get("calleeE") else mk("unknown_callee")
        al = [("lv", ev.lv(a, st, fr)) for a in e["a"]]
        if st.dead:
            return UNREACH
        return ev.apply(st, fr, f, al, e["l"])
    if e.get("cv") is not None and e["t"] != "bool" and not e.get("in"):
        pass
    h = ev.prims.get(q, STOP)
    pure = h is PURE
    if pure:
        h = None
    fn = ev.p.fns.get(e["id"])
    objlv = None
    if e.get("obj") is not None:
        objlv = ev.lv(e["obj"], st, fr)
        if e.get("arrow") or bare(e["obj"].get("t", "")) != e["obj"].get("t", "") and e["obj"].get("t", "").endswith("*"):
            objlv = ev.deref_lv(st, objlv)
        if st.dead:
            return UNREACH
    if h is not STOP and h is not None:
        al = [("lv", ev.lv(a, st, fr)) for a in e["a"]]
        if st.dead:
            return UNREACH
        r = h(ev, st, fr, e, e["id"], objlv, al)
        if r is not None:
            return r
    if q == "wf::make_overloaded" and h is STOP:
        return mk("overload", *[ev.argval(st, ("lv", ev.lv(a, st, fr))) for a in e["a"]])
    if h is STOP and fn is not None and fn.name == "operator=" and (fn.implicit or fn.defaulted) and len(e["a"]) == 1 and objlv is not None:
        v = ev.val(e["a"][0], st, fr)
        if st.dead:
            return UNREACH
        ev.write(st, objlv, v)
        return mk("lvref", objlv)
    if h is STOP and fn is not None:
        al = []
        for p, a in zip(fn.params, e["a"]):
            if REF.search(p["t"]):
                al.append(("lv", ev.lv(a, st, fr)))
            elif p["t"].endswith("*"):
                al.append(("v", ev.eval(a, st, fr)))
            else:
                al.append(("v", ev.val(a, st, fr)))
            if st.dead:
                return UNREACH
        if ev.hook:
            r = ev.hook(ev, st, fr, fn, objlv, al)
            if r is not None:
                return r
        caps = None
        if fn.lambda_ and objlv is not None:
            o = ev.read(st, objlv)
            if o.op == "lam":
                ops, vars_, this, node = ev.closures[o.a[0]]
                caps = (vars_, this)
            elif o.op == "overload":
                for g in o.a:
                    while g.op == "lvref":
                        g = ev.read(st, g.a[0])
                    if g.op == "lam" and fn.id in ev.closures[g.a[0]][0]:
                        caps = ev.closures[g.a[0]][1:3]
        r = ev.call_fn(fn, st, objlv, al, e["l"], caps=caps)
        if r is not None:
            return r
        return opaque(ev, e, st, fr, q, objlv, al)
    al = [("lv", ev.lv(a, st, fr)) for a in e["a"]]
    if st.dead:
        return UNREACH
    if h is STOP:
        r = std_call(ev, e, st, fr, q, objlv, al)
        if r is not None:
            return r
    if e.get("nr"):
        fr.exits.append(vg.Exit(b_and(*st.path), "throw", mk("thrown", "noreturn:" + q), dict(st.cells), e["l"]))
        st.dead = True
        return UNREACH
    return opaque(ev, e, st, fr, q, objlv, al, pure)


def opaque(ev, e, st, fr, q, objlv, al, pure=False):
    vs = [ev.argval(st, a) for a in al]
    o = ev.read(st, objlv) if objlv is not None else None
    ta = ",".join(e.get("ta") or [])
    t = mk("call", q, ta, *([o] if o is not None else []), *vs)
    ev.opaque[q] = ev.opaque.get(q, 0) + 1
    if pure:
        if ev.log_effects:
            ev.effects.append((b_and(*st.path), t, e["l"], fr.fn.id if fr.fn else None))
        return t
    pts = params_of(e.get("ft", "()"))
    eff = False
    for i, (pt, a) in enumerate(zip(pts, al)):
        if pt.endswith("&") and not pt.endswith("&&") and not pt.startswith("const "):
            ev.write(st, a[1], mk("mut", t, i))
            eff = True
    if objlv is not None and not e.get("constm") and not e.get("static"):
        if objlv is not None and not (o is not None and o.op in ("lam",)):
            ev.write(st, objlv, mk("after", t)) if ev.log_effects is not True else None
        eff = True
    if ev.log_effects:
        ev.effects.append((b_and(*st.path), t, e["l"], fr.fn.id if fr.fn else None))
    return t


def lvref(lv):
    return mk("lvref", lv)


def std_call(ev, e, st, fr, q, objlv, al):
    """None = no model"""
    rd = lambda i: ev.argval(st, al[i])
    n = len(al)
    if q in IDENT1 and n >= 1:
        return lvref(al[0][1])
    last = q.rsplit("::", 1)[-1]
    if objlv is not None:
        cls = tname(e.get("rt", ""))
        r = method(ev, e, st, fr, cls, last, objlv, al)
        if r is not None:
            return r
    op = e.get("op")
    if op:
        if op in ("==", "!=") and n == 2:
            x, y = rd(0), rd(1)
            r = it_eq(x, y)
            return r if op == "==" else b_not(r)
        if op in ("<", ">", "<=", ">=") and n == 2:
            x, y = rd(0), rd(1)
            if x.op == "it" and y.op == "it":
                x, y = x.a[1], y.a[1]
            return ev.binop(op, x, y)
        if op == "<=>" and n == 2:
            return mk("cmp3", rd(0), rd(1))
        if op == "+" and n == 2:
            x, y = rd(0), rd(1)
            if "basic_string" in e["t"]:
                return s_cat(x, y)
            if x.op == "it":
                return ev.add_value(x, y)
            if y.op == "it":
                return ev.add_value(y, x)
        if op == "-" and n == 2:
            x, y = rd(0), rd(1)
            if x.op == "it" and y.op == "it" and x.a[0] is y.a[0]:
                return arith("-", x.a[1], y.a[1])
            return arith("-", x, y)
        if op == "<<":
            pass
    f = STD.get(q)
    if f:
        return f(ev, e, st, fr, al)
    return None


def method(ev, e, st, fr, cls, name, olv, al):
    rd = lambda i: ev.argval(st, al[i])
    o = ev.read(st, olv)
    n = len(al)
    op = e.get("op")
    if cls in SMART or cls.startswith("std::_Optional") or cls.startswith("std::__shared_ptr") or cls.startswith("std::__uniq_ptr"):
        if name in ("operator*", "operator->", "value", "get", "lock"):
            return lvref(olv) if name != "get" else lvref(olv) if o.op != "null" else NULL
        if name == "operator bool" or name == "has_value":
            return ev.simp(st, ev.truthy_ptr(o))
        if name == "value_or":
            return ite(ev.simp(st, ev.truthy_ptr(o)), o, rd(0))
        if name == "operator=" :
            v = rd(0)
            ev.write(st, olv, v)
            return lvref(olv)
        if name == "reset":
            ev.write(st, olv, rd(0) if n else NULL)
            return VOID
        if name == "emplace":
            tas = split_targs(e.get("rt", ""))
            v = make_object(ev, st, fr, tas[0], al) if tas else rd(0)
            ev.write(st, olv, v)
            return lvref(olv)
        if name in ("operator==",):
            return eq(o, rd(0))
        return None
    if cls in ("std::function", "absl::AnyInvocable", "absl::FunctionRef", "std::reference_wrapper") and name == "operator()":
        return ev.apply(st, fr, o, al, e["l"])
    if name == "operator=" and n == 1:
        v = rd(0)
        if o.op == "binsert" or (o.op == "it" and cls.startswith("std::back_insert")):
            ev.write(st, o.a[0], push(ev.read(st, o.a[0]), v))
            return lvref(olv)
        ev.write(st, olv, v)
        return lvref(olv)
    if cls == "std::variant" or cls.startswith("std::_Variant"):
        if name == "index":
            ta = split_targs(e.get("rt", ""))
            if o.op in ("obj", "new") and o.a[0] in [bare(x) for x in ta]:
                return C([bare(x) for x in ta].index(o.a[0]))
            return mk("vindex", o)
        if name == "emplace":
            v = make_object(ev, st, fr, (e.get("ta") or [""])[0], al)
            ev.write(st, olv, v)
            return lvref(olv)
        if name == "valueless_by_exception":
            return FALSE
        return None
    # range adaptors
    if cls.startswith("std::ranges::views::__adaptor::_RangeAdaptor") and name == "operator()" and n == 1:
        return mk("adapt", bare(e.get("rt", "")), rd(0))
    m = re.match(r"std::ranges::__(\w+)_fn$", cls)
    if m and name == "operator()" and n >= 1 and "std::" + m.group(1) in STD:
        r0, rest = rd(0), list(al[1:])
        if r0.op not in ("it", "find", "findif", "binsert", "ite"):
            rest = [("val", mk("it", r0, C(0))), ("val", mk("it", r0, size(r0)))] + rest
        else:
            rest = [al[0]] + rest
        e2 = dict(e)
        e2["fn"] = "std::" + m.group(1)
        return STD[e2["fn"]](ev, e2, st, fr, rest)
    # iterators
    if "iterator" in cls or bare(e.get("rt", "")).endswith("::_Iterator") or cls.startswith("std::_Node") or cls.startswith("std::__detail::_Node") or cls.startswith("std::_Rb_tree"):
        if name == "operator*":
            l = ev.it_lv(st, fr, o) if o.op == "it" else None
            if l is not None:
                return lvref(l)
            return it_deref(ev, st, o)
        if name == "operator->":
            return it_deref(ev, st, o)
        if name == "operator++" or name == "operator--":
            new = ev.add_value(o, C(1 if name == "operator++" else -1))
            ev.write(st, olv, new)
            return o if n == 1 else lvref(olv)
        if name in ("operator+", "operator-") and n == 1:
            v = rd(0)
            if v.op == "it":
                return arith("-", o.a[1], v.a[1]) if o.op == "it" else mk("bin", "-", o, v)
            return ev.add_value(o, v if name == "operator+" else (C(-v.a[0]) if isnum(v) else mk("neg", v)))
        if name in ("operator+=", "operator-=") and n == 1:
            v = rd(0)
            ev.write(st, olv, ev.add_value(o, v if name == "operator+=" else mk("neg", v)))
            return lvref(olv)
        if name == "base":
            if o.op == "it" and o.a[2:] == ("rev",):
                return mk("it", o.a[0], arith("-", size(o.a[0]), o.a[1]))
            return o
        if name in ("operator==", "operator!="):
            r = it_eq(o, rd(0))
            return r if name == "operator==" else b_not(r)
        if name == "operator[]":
            return it_deref(ev, st, ev.add_value(o, rd(0)))
        return None
    if cls == "std::pair" or cls == "std::tuple":
        return None
    if cls.startswith("std::back_insert_iterator"):
        return lvref(olv)
    if cls in ("std::less", "std::equal_to", "std::plus", "std::greater") and name == "operator()":
        a, b = rd(0), rd(1)
        return {"std::less": lambda: lt(a, b), "std::equal_to": lambda: eq(a, b), "std::greater": lambda: lt(b, a),
                "std::plus": lambda: arith("+", a, b)}[cls]()
    if cls == "std::integral_constant":
        m = re.match(r"std::integral_constant<.*, (-?\d+|true|false)[UL]*>$", bare(e.get("rt", "")))
        if m:
            g = m.group(1)
            return C(True) if g == "true" else C(False) if g == "false" else C(int(g))
    # containers
    base = cls
    if base.startswith("std::_Vector_base") or base.startswith("std::__cxx11"):
        base = "std::basic_string" if "string" in base else "std::vector"
    if base in CONT or base.startswith("absl::inlined_vector"):
        return container(ev, e, st, fr, base, name, olv, o, al)
    return None


def it_deref(ev, st, o):
    if o.op == "it":
        if ev_is_cell(o):
            pass
        return ev.deref_it(o)
    if o.op == "find":
        return obj("std::pair", {"first": o.a[1], "second": lookup(o.a[0], o.a[1])})
    if o.op == "findif":
        return mk("first", o.a[0], size(o.a[1]), o.a[2], at(o.a[1], mk("idx", o.a[0])))
    if o.op == "ite":
        return ite(o.a[0], it_deref(ev, st, o.a[1]), it_deref(ev, st, o.a[2]))
    return mk("deref", o)


def ev_is_cell(o):
    return False


def zero_of(ty):
    """the value a container's new elements start with"""
    t = split_targs(ty)[0].strip() if "<" in ty else ""
    if t in ("int", "long", "unsigned long", "unsigned int", "short", "char", "unsigned char", "long long"):
        return C(0)
    return mk("zero", ty)


def container(ev, e, st, fr, base, name, olv, o, al):
    rd = lambda i: ev.argval(st, al[i])
    n = len(al)
    is_map = base in MAPS
    isstr = "string" in base or "memory_buffer" in base or base == "fmt::detail::buffer"
    w = lambda v: ev.write(st, olv, v)
    if name in ("size", "length"):
        return size(o)
    if name == "empty":
        s = size(o)
        return ev.simp(st, eq(s, C(0)))
    if name in ("begin", "cbegin"):
        return mk("it", o, C(0))
    if name in ("end", "cend"):
        return mk("it", o, size(o))
    if name in ("rbegin", "crbegin"):
        return mk("it", o, C(0), "rev")
    if name in ("rend", "crend"):
        return mk("it", o, size(o), "rev")
    if name in ("data", "c_str"):
        if isstr:
            return o
        return mk("it", o, C(0))
    if name in ("reserve", "shrink_to_fit", "rehash"):
        return VOID
    if name == "clear":
        w(s_cat() if isstr else mk("list"))
        return VOID
    if name in ("operator[]", "at") and n == 1:
        return lvref((olv[0], olv[1] + (("i", rd(0)),)))
    if name == "front":
        return lvref((olv[0], olv[1] + (("i", C(0)),)))
    if name == "back":
        return lvref((olv[0], olv[1] + (("i", arith("-", size(o), C(1))),)))
    if name == "top" and base == "std::stack":
        return lvref((olv[0], olv[1] + (("i", arith("-", size(o), C(1))),)))
    if isstr:
        if name in ("append", "operator+="):
            if n == 1:
                w(s_cat(o, rd(0)))
                return lvref(olv)
            if n == 2:
                a, b = rd(0), rd(1)
                if a.op == "it":
                    w(s_cat(o, range_of(a, b)))
                elif strval(b) is not None and isnum(a):
                    w(s_cat(o, C(strval(b) * a.a[0])))
                else:
                    w(s_cat(o, mk("repeat", b, a) if not isnum(b) else slice_(a, C(0), b)))
                return lvref(olv)
        if name == "push_back":
            w(s_cat(o, rd(0)))
            return VOID
        if name == "assign" and n == 1:
            w(rd(0))
            return lvref(olv)
        if name == "insert" and n == 2 and isnum(rd(0)) and rd(0).a[0] == 0:
            w(s_cat(rd(1), o))
            return lvref(olv)
        if name == "insert" and n == 3 and rd(0).op == "it" and isnum(rd(1)) and rd(0).a[1] is size(o):
            w(s_cat(o, *[rd(2)] * rd(1).a[0]))
            return mk("it", ev.read(st, olv), size(o))
        if name == "substr":
            s = strval(o)
            if s is not None and all(isnum(rd(i)) for i in range(n)) and n:
                a = rd(0).a[0]
                return s_cat(C(s[a:a + rd(1).a[0]] if n > 1 and rd(1).a[0] >= 0 else s[a:]))
            return s_cat(mk("substr", o, *[rd(i) for i in range(n)]))
        if name == "operator basic_string_view":
            return o
        if name == "compare":
            return mk("cmp3", o, rd(0))
        return None
    if name == "operator Span" or name.startswith("operator "):
        if n == 0:
            return o
    if name in ("subspan", "first", "last"):
        if name == "subspan":
            off = rd(0)
            ln = rd(1) if n > 1 and e["a"][1]["k"] != "DefArg" else arith("-", size(o), off)
            return slice_(o, off, ln)
        if name == "first":
            return slice_(o, C(0), rd(0))
        return slice_(o, arith("-", size(o), rd(0)), rd(0))
    if is_map:
        if name == "find":
            return mk("find", o, rd(0))
        if name in ("count", "contains"):
            h = haskey(o, rd(0))
            return h if name == "contains" else ite(h, C(1), C(0))
        if name in ("emplace", "try_emplace", "insert", "emplace_hint", "insert_or_assign"):
            if n == 1:
                p = rd(0)
                if base in ("std::set", "std::unordered_set", "absl::flat_hash_set"):
                    k, v = p, p
                else:
                    k, v = field(p, "first"), field(p, "second")
            elif n >= 2:
                if rd(0).op == "it" and name == "insert":
                    w(mk("insrange", o, range_of(rd(0), rd(1))))
                    return VOID
                k, v = rd(0), rd(1)
                if n > 2:
                    v = mk("pack", *[rd(i) for i in range(1, n)])
            else:
                return None
            new = mk("mapset", o, k, v)
            w(new)
            has = haskey(o, k)
            f = obj("std::pair", {"first": k, "second": ite(has, lookup(o, k), v)})
            it = mk("entry", o, k, v)
            return obj("std::pair", {"first": f, "second": b_not(has)})
        if name == "erase":
            w(mk("mapdel", o, rd(0)))
            return mk("erased", o, rd(0))
        return None
    if name in ("push_back", "push", "emplace_back", "emplace"):
        if name in ("emplace_back", "emplace"):
            tas = split_targs(e.get("rt", ""))
            el = tas[0] if tas else ""
            if n == 1:
                v = rd(0)
                if el and bare(el) in ev.p.recs and v.op not in ("obj",) :
                    v = v
            else:
                v = make_object(ev, st, fr, el, al)
        else:
            v = rd(0)
        w(push(o, v))
        if name == "emplace_back":
            return lvref((olv[0], olv[1] + (("i", size(o)),)))
        return VOID
    if name in ("pop_back", "pop"):
        if o.op == "push":
            w(o.a[0])
        elif o.op == "list" and o.a:
            w(mk("list", *o.a[:-1]))
        else:
            w(mk("popped", o))
        return VOID
    if name == "insert":
        if n == 3 and rd(1).op in ("it",):
            pos, r = rd(0), range_of(rd(1), rd(2))
            if it_eq(pos, mk("it", o, size(o))) is TRUE:
                w(cat(o, r))
                return VOID
            if it_eq(pos, mk("it", o, C(0))) is TRUE:
                w(cat(r, o))
                return VOID
            w(mk("insertat", o, pos, r))
            return VOID
        if n == 3 and rd(1).op == "c" and type(rd(1).a[0]) is int and 0 <= rd(1).a[0] <= 64:
            if it_eq(rd(0), mk("it", o, size(o))) is TRUE:
                for _ in range(rd(1).a[0]):
                    o = push(o, rd(2))
                w(o)
                return VOID
        if n == 2:
            pos, v = rd(0), rd(1)
            if it_eq(pos, mk("it", o, size(o))) is TRUE:
                w(push(o, v))
                return VOID
            if it_eq(pos, mk("it", o, C(0))) is TRUE:
                w(cat(mk("list", v), o))
                return VOID
            w(mk("insertat", o, pos, mk("list", v)))
            return VOID
        return None
    if name == "erase":
        old = o
        w(mk("erase", o, *[rd(i) for i in range(n)]))
        return mk("it", ev.read(st, olv), rd(0).a[1]) if rd(0).op == "it" else mk("erased", o)
    if name == "resize":
        if n >= 1 and isnum(rd(0)) and rd(0).a[0] <= 64 and o.op == "list" and not o.a:
            v = rd(1) if n > 1 else zero_of(e.get("rt", ""))
            w(mk("list", *[v] * rd(0).a[0]))
        else:
            w(mk("resize", o, *[rd(i) for i in range(n)]))
        return VOID
    if name == "assign" and n == 2:
        if rd(0).op == "it":
            w(range_of(rd(0), rd(1)))
        else:
            w(mk("map", mk("idx", ev.loopdepth), rd(0), rd(1)))
        return VOID
    if name == "swap":
        other = rd(0)
        ev.write(st, al[0][1], o)
        w(other)
        return VOID
    return None


# ---------------------------------------------------------------------------------------- free functions
STD = {}


def std(*names):
    def deco(f):
        for nm in names:
            STD[nm] = f
        return f
    return deco


def _rng(ev, st, al, i=0):
    return range_of(ev.argval(st, al[i]), ev.argval(st, al[i + 1]))


@std("std::all_of")
def _(ev, e, st, fr, al):
    return b_not(exists_term(ev, st, fr, ev.argval(st, al[2]), _rng(ev, st, al), neg=True))


@std("std::any_of")
def _(ev, e, st, fr, al):
    return exists_term(ev, st, fr, ev.argval(st, al[2]), _rng(ev, st, al))


@std("std::none_of")
def _(ev, e, st, fr, al):
    return b_not(exists_term(ev, st, fr, ev.argval(st, al[2]), _rng(ev, st, al)))


@std("std::count_if")
def _(ev, e, st, fr, al):
    r = _rng(ev, st, al)
    if elems(r) is not None:
        m = map_term(ev, st, fr, ev.argval(st, al[2]), r)
        n = C(0)
        for x in m.a:
            n = arith("+", n, ite(ev.truth(x), C(1), C(0)))
        return n
    idx, v = fold_lambda(ev, st, fr, ev.argval(st, al[2]), r)
    return mk("count", idx.a[0], size(r), v)


@std("std::find_if", "std::find_if_not")
def _(ev, e, st, fr, al):
    r = _rng(ev, st, al)
    if elems(r) is not None and r.op == "list":
        m = map_term(ev, st, fr, ev.argval(st, al[2]), r)
        if m.op == "list":
            out = mk("it", r, C(len(m.a)))
            for i in reversed(range(len(m.a))):
                t = ev.truth(m.a[i])
                out = ite(b_not(t) if e["fn"].endswith("_not") else t, mk("it", r, C(i)), out)
            return out
    idx, v = fold_lambda(ev, st, fr, ev.argval(st, al[2]), r)
    v = ev.truth(v)
    if e["fn"].endswith("_not"):
        v = b_not(v)
    return mk("findif", idx.a[0], r, v)


@std("std::find")
def _(ev, e, st, fr, al):
    r = _rng(ev, st, al)
    if elems(r) is not None and r.op == "list" and all(isnum(x) for x in r.a) and isnum(ev.argval(st, al[2])):
        for i, x in enumerate(r.a):
            if x is ev.argval(st, al[2]):
                return mk("it", r, C(i))
        return mk("it", r, C(len(r.a)))
    d = ev.loopdepth
    return mk("findif", d, r, eq(at(r, mk("idx", d)), ev.argval(st, al[2])))


@std("std::count")
def _(ev, e, st, fr, al):
    r, v = _rng(ev, st, al), ev.argval(st, al[2])
    if r.op == "list":
        n = C(0)
        for x in r.a:
            n = arith("+", n, ite(eq(x, v), C(1), C(0)))
        return n
    return None


def out_write(ev, st, outlv, lst):
    o = ev.argval(st, outlv)
    if o.op == "binsert":
        ev.write(st, o.a[0], cat(ev.read(st, o.a[0]), lst))
    elif o.op == "it":
        pass
    return o


@std("std::transform")
def _(ev, e, st, fr, al):
    r = _rng(ev, st, al)
    if len(al) == 4:
        m = map_term(ev, st, fr, ev.argval(st, al[3]), r)
        o = ev.argval(st, al[2])
        if o.op == "binsert":
            out_write(ev, st, al[2], m)
            return o
        if o.op == "it":
            # writes over an existing container: find the cell that holds it
            v = o.a[0]
            replace_container(ev, st, v, m if (o.a[1] is C(0) and size(m) is size(v)) else mk("overwrite", v, o.a[1], m), e, fr, 2)
            return mk("it", m, size(m))
        return mk("transformed", r, m)
    if len(al) == 5:
        b = ev.argval(st, al[2])
        o = ev.argval(st, al[3])
        if r.op == "list" and b.op == "it" and b.a[0].op == "list" and isnum(b.a[1]) and len(b.a) == 2 and o.op == "binsert":
            f = ev.argval(st, al[4])
            out = []
            for i, x in enumerate(r.a):
                v = ev.apply(st, fr, f, [("lv", ev.new_cell(st, x)), ("lv", ev.new_cell(st, at(b.a[0], C(b.a[1].a[0] + i))))])
                while v.op == "lvref":
                    v = ev.read(st, v.a[0])
                out.append(v)
            out_write(ev, st, al[3], mk("list", *out))
            return o
    return None


@std("std::copy", "std::copy_n", "std::copy_if", "std::move_range")
def _(ev, e, st, fr, al):
    q = e["fn"]
    if q == "std::copy_n":
        b, n = ev.argval(st, al[0]), ev.argval(st, al[1])
        r = slice_(b.a[0], b.a[1], n) if b.op == "it" else slice_(b, C(0), n)
        if b.op == "it" and b.a[1] is C(0) and n is size(b.a[0]):
            r = b.a[0]
        return out_write(ev, st, al[2], r)
    r = _rng(ev, st, al)
    if q == "std::copy_if":
        idx, v = fold_lambda(ev, st, fr, ev.argval(st, al[3]), r)
        r = mk("filter", idx.a[0], r, v)
    return out_write(ev, st, al[2], r)


@std("std::for_each")
def _(ev, e, st, fr, al):
    r = _rng(ev, st, al)
    f = ev.argval(st, al[2])
    el = elems(r)
    if el is not None:
        for x in el:
            ev.apply(st, fr, f, [("lv", ev.new_cell(st, x))])
        return VOID
    cell = ev.new_cell(st, VOID)

    def bind(s, idx):
        s.cells[cell[0]] = at(r, idx)
    ev.abstract_loop(st, fr, size(r), bind, {"k": "ApplyStmt", "f": f, "cell": cell, "l": e["l"]}, e["l"])
    return VOID


def _apply_stmt(self, s, st, fr):
    self.apply(st, fr, s["f"], [("lv", s["cell"])])


vg.Ev.x_ApplyStmt = _apply_stmt


@std("std::equal")
def _(ev, e, st, fr, al):
    a = _rng(ev, st, al)
    b = ev.argval(st, al[2])
    extra = TRUE
    i = 3
    if len(al) > 3 and "iterator" in (e["a"][3].get("t", "")) or (len(al) > 3 and ev.argval(st, al[3]).op == "it"):
        br = range_of(b, ev.argval(st, al[3]))
        extra = eq(size(a), size(br))
        i = 4
    else:
        br = b.a[0] if b.op == "it" and b.a[1] is C(0) else b
    d = ev.loopdepth
    ev.loopdepth += 1
    idx = mk("idx", d)
    s = st.copy()
    x, y = at(a, idx), at(br, idx)
    if len(al) > i:
        v = ev.apply(s, fr, ev.argval(st, al[i]), [("lv", ev.new_cell(s, x)), ("lv", ev.new_cell(s, y))])
        while v.op == "lvref":
            v = ev.read(s, v.a[0])
        v = ev.truth(v)
    else:
        v = eq(x, y)
    ev.loopdepth -= 1
    for k, z in s.cells.items():
        st.cells.setdefault(k, z)
    return b_and(extra, b_not(ev.exists(d, idx, size(a), b_not(v))))


@std("std::accumulate")
def _(ev, e, st, fr, al):
    r = _rng(ev, st, al)
    init = ev.argval(st, al[2])
    el = elems(r)
    f = ev.argval(st, al[3]) if len(al) > 3 else None

    def step(s, acc, x):
        if f is None:
            return arith("+", acc, x)
        v = ev.apply(s, fr, f, [("v", acc), ("v", x)])
        while v.op == "lvref":
            v = ev.read(s, v.a[0])
        return v
    if el is not None:
        for x in el:
            init = step(st, init, x)
        return init
    d = ev.loopdepth
    ev.loopdepth += 1
    phi = mk("phi", d, "acc")
    s = st.copy()
    v = step(s, phi, at(r, mk("idx", d)))
    ev.loopdepth -= 1
    for k, z in s.cells.items():
        st.cells.setdefault(k, z)
    return mk("fold", d, size(r), init, phi, v)


@std("std::gcd")
def _(ev, e, st, fr, al):
    x, y = (ev.argval(st, a) for a in al)
    x, y = (v.a[2] if v.op == "obj" and len(v.a) == 3 else v for v in (x, y))
    if all(v.op == "c" and type(v.a[0]) is int for v in (x, y)):
        return C(math.gcd(x.a[0], y.a[0]))
    return mk("call", "std::gcd", "", x, y)


@std("std::max", "std::min")
def _(ev, e, st, fr, al):
    k = e["fn"].rsplit("::", 1)[-1]
    vs = [ev.argval(st, a) for a in al]
    if len(vs) == 1:
        el = elems(vs[0])
        if el is None:
            return mk(k + "of", vs[0])
        vs = el
    if len(vs) == 3 and len(al) == 3:
        return None
    return fold_minmax(k, vs)


def fold_minmax(k, vs):
    out = []
    for v in vs:
        if v.op == k:
            out.extend(v.a)
        else:
            out.append(v)
    key = lambda t: t.a[1] if t.op == "enum" else t.a[0]
    consts = [v for v in out if v.op == "enum" or isnum(v)]
    rest = []
    for v in out:
        if v not in consts and v not in rest:
            rest.append(v)
    if consts:
        c = (max if k == "max" else min)(consts, key=key)
        if not rest:
            return c
        rest.append(c)
    if len(rest) == 1:
        return rest[0]
    return mk(k, *sorted(rest, key=lambda t: t.id))


@std("std::invoke", "std::__invoke")
def _(ev, e, st, fr, al):
    f = ev.argval(st, al[0])
    if f.op == "fn":
        fn = ev.p.fns.get(f.a[0])
        if fn is not None and fn.rt and not fn.static and not fn.lambda_:
            r = ev.call_fn(fn, st, al[1][1], al[2:], e["l"])
            if r is not None:
                return r
    return ev.apply(st, fr, f, al[1:], e["l"])


@std("std::apply")
def _(ev, e, st, fr, al):
    t = ev.argval(st, al[1])
    if t.op == "list":
        return ev.apply(st, fr, ev.argval(st, al[0]), [("lv", (al[1][1][0], al[1][1][1] + (("i", C(i)),))) for i in range(len(t.a))], e["l"])
    if t.op == "obj" and len(t.a) == 4:
        return ev.apply(st, fr, ev.argval(st, al[0]), [("v", x) for x in t.a[2:]], e["l"])
    return None


@std("std::make_pair")
def _(ev, e, st, fr, al):
    return obj("std::pair", {"first": ev.argval(st, al[0]), "second": ev.argval(st, al[1])})


@std("std::make_tuple")
def _(ev, e, st, fr, al):
    return mk("list", *[ev.argval(st, a) for a in al])


@std("std::tie", "std::forward_as_tuple")
def _(ev, e, st, fr, al):
    return mk("list", *[lvref(a[1]) for a in al])


@std("std::get")
def _(ev, e, st, fr, al):
    ta = (e.get("ta") or [""])[0]
    t0 = tname(e["a"][0].get("t", ""))
    m = re.match(r"(\d+)", ta)
    lv = al[0][1]
    if m:
        i = int(m.group(1))
        if t0 == "std::pair":
            return lvref((lv[0], lv[1] + (("f", "first" if i == 0 else "second"),)))
        if t0 == "std::variant":
            tas = split_targs(bare(e["a"][0]["t"]))
            return as_type(ev.argval(st, al[0]), bare(tas[i]))
        return lvref((lv[0], lv[1] + (("i", C(i)),)))
    v = ev.argval(st, al[0])
    if t0 == "std::tuple":
        tas = [bare(x) for x in split_targs(bare(e["a"][0]["t"]))]
        if bare(ta) in tas:
            return lvref((lv[0], lv[1] + (("i", C(tas.index(bare(ta)))),)))
    # std::get<T>(variant): throws when it holds something else
    ist = ev.simp(st, istype(v, bare(ta)))
    if ist is not TRUE:
        ev.throws[-1].append(vg.Exit(b_and(*(st.path + (b_not(ist),))), "throw", mk("thrown", "std::bad_variant_access"), None, e["l"]))
    return as_type(v, bare(ta))


HOLDERS = ("wf::scalar_expr", "wf::matrix_expr", "wf::compound_expr", "wf::boolean_expr")


def istype(v, ty):
    ty = bare(ty)
    if v.op in ("obj", "new"):
        if v.a[0] == ty:
            return TRUE
        return FALSE
    if v.op == "str" and "basic_string" in ty:
        return TRUE
    if v.op == "as":
        return TRUE if v.a[1] == ty else mk("istype", v, ty)
    if v.op == "sym" and len(v.a) > 1 and v.a[1] == ty:
        return TRUE
    if v.op == "sym" and len(v.a) > 1 and v.a[1] in HOLDERS and ty in HOLDERS:
        return FALSE
    if v.op == "ite":
        return ite(v.a[0], istype(v.a[1], ty), istype(v.a[2], ty))
    if v.op == "null":
        return FALSE
    return mk("istype", v, ty)


def as_type(v, ty):
    if v.op in ("obj", "new", "sym") and len(v.a) > 0 and (v.a[0] if v.op != "sym" else (v.a[1] if len(v.a) > 1 else "")) == ty:
        return v
    if v.op == "as" and v.a[1] == ty:
        return v
    if v.op == "ite":
        a, b = v.a[1], v.a[2]
        if istype(a, ty) is FALSE:
            return as_type(b, ty)
        if istype(b, ty) is FALSE:
            return as_type(a, ty)
        return ite(v.a[0], as_type(a, ty), as_type(b, ty))
    if v.op == "str":
        return v
    return mk("as", v, ty)


@std("std::get_if")
def _(ev, e, st, fr, al):
    ta = (e.get("ta") or [""])[0]
    v = ev.argval(st, al[0])
    m = re.match(r"(\d+)[UL]*$", ta)
    if m:
        t = bare(e["a"][0].get("t", "")).rstrip("*").strip()
        tas = split_targs(bare(t))
        ty = bare(tas[int(m.group(1))])
    else:
        ty = bare(ta)
    c = ev.simp(st, istype(v, ty))
    return ite(c, as_type(v, ty), NULL)


@std("std::holds_alternative")
def _(ev, e, st, fr, al):
    return ev.simp(st, istype(ev.argval(st, al[0]), bare((e.get("ta") or [""])[0])))


_family = {}


def family(p, rt):
    if rt not in _family:
        from .shapes import wrapper_of
        _family[rt] = wrapper_of(p, rt)[0]
    return _family[rt]


@std("std::visit")
def _(ev, e, st, fr, al):
    f = ev.argval(st, al[0])
    here = al[0][1] if al[0][0] == "lv" else None    # a functor is called where it lives
    while here is not None and ev.raw(st, here).op == "lvref":
        here = ev.raw(st, here).a[0]
    if len(al) > 2:
        vs = [ev.argval(st, a) for a in al[1:]]
        if all(v.op in ("obj", "new") for v in vs):
            return ev.apply(st, fr, f, [("lv", a[1]) for a in al[1:]], e["l"], want=[v.a[0] for v in vs], at=here)
        return None
    v = ev.argval(st, al[1])
    t = bare(e["a"][1].get("t", ""))
    alts = [bare(x) for x in split_targs(t)] if t.startswith("std::variant") else None
    if v.op in ("obj", "new"):
        want = v.a[0]
        if alts and want not in alts and v.op == "obj":
            # an expression handle identified with the node it holds
            w = family(ev.p, want)
            want = w if w in alts else want
        return ev.apply(st, fr, f, [("lv", al[1][1])], e["l"], want=[want], at=here)
    if not alts:
        # class derived from / wrapping a variant
        return None
    known = st.facts.get(("type", v))
    outs, vals = [], []
    n0 = len(st.path)
    for a in alts:
        c = ev.simp(st, istype(v, a))
        if c is FALSE:
            continue
        s = st.copy()
        s.path += (c,)
        ev.assume(s, c, True)
        x = ev.apply(s, fr, f, [("lv", ev.new_cell(s, as_type(v, a)))], e["l"], want=[a], at=here)
        while x.op == "lvref":
            x = ev.read(s, x.a[0])
        s.path = s.path[:n0] + (c,)
        if not s.dead:
            outs.append(s)
            vals.append((c, x))
        if c is TRUE:
            break
    if not outs:
        st.dead = True
        return UNREACH
    ev.merge(st, outs, n0)
    st.path = st.path[:n0]
    r = vals[-1][1]
    for c, x in reversed(vals[:-1]):
        r = ite(c, x, r)
    return r


@std("std::ranges::views::__adaptor::operator|")
def _(ev, e, st, fr, al):
    r, a = ev.argval(st, al[0]), ev.argval(st, al[1])
    if a.op == "adapt" and "_Transform" in a.a[0]:
        return map_term(ev, st, fr, a.a[1], r)
    return None


@std("std::back_inserter", "fmt::appender")
def _(ev, e, st, fr, al):
    return mk("binsert", al[0][1])


@std("fmt::format")
def _(ev, e, st, fr, al):
    return fmt_format(ev.argval(st, al[0]), [ev.argval(st, a) for a in al[1:]])


@std("fmt::to_string", "std::to_string")
def _(ev, e, st, fr, al):
    return s_cat(ev.argval(st, al[0]))


@std("fmt::arg")
def _(ev, e, st, fr, al):
    s = strval(ev.argval(st, al[0]))
    return mk("fmtarg", s or "", ev.argval(st, al[1]))


@std("fmt::join")
def _(ev, e, st, fr, al):
    if len(al) == 2:
        r, sep = ev.argval(st, al[0]), ev.argval(st, al[1])
    else:
        r, sep = _rng(ev, st, al), ev.argval(st, al[2])
    el = elems(r)
    if el is not None:
        out = []
        for i, x in enumerate(el):
            if i:
                out.append(sep)
            out.append(x)
        return s_cat(*out)
    return mk("join", r, sep)


@std("fmt::format_to", "fmt::vformat_to")
def _(ev, e, st, fr, al):
    s = fmt_format(ev.argval(st, al[1]), [ev.argval(st, a) for a in al[2:]])
    o = ev.argval(st, al[0])
    if o.op == "binsert":
        ev.write(st, o.a[0], s_cat(ev.read(st, o.a[0]), s))
        return o
    # format context output iterators: the text becomes part of the result
    if o.op == "outit":
        return mk("outit", s_cat(o.a[0], s))
    return mk("outit", s_cat(o, s))


@std("std::begin", "std::cbegin")
def _(ev, e, st, fr, al):
    return mk("it", own_range(ev, st, al[0]), C(0))


def own_range(ev, st, a):
    """the sequence an object of a repository class iterates over"""
    v = ev.argval(st, a)
    return ev.as_range(v, st, v.a[0]) if v.op == "obj" else v


@std("std::end", "std::cend")
def _(ev, e, st, fr, al):
    v = own_range(ev, st, al[0])
    return mk("it", v, size(v))


@std("std::size")
def _(ev, e, st, fr, al):
    return size(ev.argval(st, al[0]))


@std("std::distance")
def _(ev, e, st, fr, al):
    a, b = ev.argval(st, al[0]), ev.argval(st, al[1])
    if a.op == "it" and b.op == "it" and a.a[0] is b.a[0]:
        return arith("-", b.a[1], a.a[1])
    if a.op == "it" and b.op in ("find", "findif"):
        return mk("posof", b)
    return mk("distance", a, b)


@std("std::next", "std::prev")
def _(ev, e, st, fr, al):
    v = ev.argval(st, al[0])
    k = ev.argval(st, al[1]) if len(al) > 1 else C(1)
    if e["fn"].endswith("prev"):
        k = C(-k.a[0]) if isnum(k) else mk("neg", k)
    return ev.add_value(v, k)


@std("std::advance")
def _(ev, e, st, fr, al):
    ev.write(st, al[0][1], ev.add_value(ev.argval(st, al[0]), ev.argval(st, al[1])))
    return VOID


@std("std::swap", "std::iter_swap")
def _(ev, e, st, fr, al):
    a, b = ev.read(st, al[0][1]), ev.read(st, al[1][1])
    ev.write(st, al[0][1], b)
    ev.write(st, al[1][1], a)
    return VOID


@std("std::exchange")
def _(ev, e, st, fr, al):
    a = ev.read(st, al[0][1])
    ev.write(st, al[0][1], ev.argval(st, al[1]))
    return a


@std("std::make_shared", "std::make_unique", "std::make_optional")
def _(ev, e, st, fr, al):
    ta = (e.get("ta") or [""])[0]
    if not ta:
        return ev.argval(st, al[0])
    return make_object(ev, st, fr, bare(ta), al, e["l"])


def _sorted(ev, e, st, fr, al):
    r = _rng(ev, st, al)
    extra = [ev.argval(st, a) for a in al[2:]]
    cmp = mk("cmp", *extra)
    for c, v in list(st.cells.items()):
        pass
    b = ev.argval(st, al[0])
    new = mk("sorted", r, key_of(ev, st, fr, extra))
    replace_container(ev, st, b.a[0] if b.op == "it" else b, new, e, fr)
    return VOID


def key_of(ev, st, fr, extra):
    if not extra:
        return mk("tag", "<")
    f = extra[0]
    if f.op in ("lam", "fn", "obj", "new", "tag", "sym"):
        s = st.copy()
        x, y = mk("sym", "$x", ""), mk("sym", "$y", "")
        v = ev.apply(s, fr, f, [("v", x), ("v", y)])
        return mk("cmpfn", x, y, v)
    return f


def replace_container(ev, st, old, new, e=None, fr=None, k=0):
    """in-place algorithms receive iterators: update the container argument `k` of the call `e` was taken from, or,
    when the iterator does not come straight from a container, every cell that holds the same value"""
    x = e["a"][k] if e is not None and len(e.get("a") or []) > k else None
    while x is not None and x["k"] in ("Cast", "Copy", "Move") and x.get("e"):
        x = x["e"]
    if x is not None and x["k"] == "Call" and x["fn"].rsplit("::", 1)[-1] in ("begin", "data"):
        o = x.get("obj") or (x["a"][0] if x.get("a") else None)
        while o is not None and o["k"] == "Call":
            o = None
        if o is not None:
            lv = ev.lv(o, st, fr)
            if ev.read(st, lv) is old:
                ev.write(st, lv, new)
                return
    for c, v in list(st.cells.items()):
        if v is old:
            st.cells[c] = new
        elif v.op in ("obj", "upd") and contains(v, old):
            st.cells[c] = subst(v, {old: new})


STD["std::sort"] = STD["std::stable_sort"] = _sorted


@std("std::reverse")
def _(ev, e, st, fr, al):
    b = ev.argval(st, al[0])
    if b.op == "it":
        replace_container(ev, st, b.a[0], reverse(b.a[0]), e, fr)
    return VOID


@std("std::iota")
def _(ev, e, st, fr, al):
    b, v = ev.argval(st, al[0]), ev.argval(st, al[2])
    if b.op == "it" and b.a[0].op == "list" and isnum(v):
        replace_container(ev, st, b.a[0], mk("list", *[C(v.a[0] + i) for i in range(len(b.a[0].a))]), e, fr)
        return VOID
    return None


@std("std::fill")
def _(ev, e, st, fr, al):
    b = ev.argval(st, al[0])
    if b.op == "it":
        replace_container(ev, st, b.a[0], mk("map", mk("idx", ev.loopdepth), size(b.a[0]), ev.argval(st, al[2])), e, fr)
    return VOID


@std("std::abs")
def _(ev, e, st, fr, al):
    return mk("abs", ev.argval(st, al[0]))


@std("std::isnan", "std::isinf", "std::isfinite", "std::signbit")
def _(ev, e, st, fr, al):
    return mk(e["fn"].rsplit("::", 1)[-1], ev.argval(st, al[0]))
