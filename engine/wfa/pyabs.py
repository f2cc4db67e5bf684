"""Abstract interpretation of Python syntax trees: values are constants, containers of values, and terms over unknown
objects; a condition that is not decided splits the evaluation (all paths are enumerated)."""
import ast


class Unread(Exception):
    pass


class Raised(Exception):
    def __init__(self, what):
        self.what = what


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Term:
    """att(base, name), call(f, args, kw), name(n), op(o, ...), leaf(n)"""
    __slots__ = ("k", "a")

    def __init__(self, k, *a):
        self.k, self.a = k, a

    def __eq__(self, o):
        return isinstance(o, Term) and self.k == o.k and self.a == o.a

    def __hash__(self):
        return hash((self.k, self.a))

    def __repr__(self):
        if self.k == "att":
            return "%r.%s" % self.a
        if self.k == "call":
            return "%r(%s)" % (self.a[0], ", ".join([repr(x) for x in self.a[1]] + ["%s=%r" % x for x in self.a[2]]))
        if self.k in ("name", "leaf"):
            return str(self.a[0])
        return "%s(%s)" % (self.k, ", ".join(map(repr, self.a)))


class Obj:
    """an object of a known class with known attributes"""

    def __init__(self, cls, attrs=None, key=None):
        self.cls, self.attrs, self.key = cls, attrs or {}, key

    def __eq__(self, o):
        return self is o or (isinstance(o, Obj) and self.key is not None and self.key == o.key) or (isinstance(o, Term) and self.key == o)

    def __hash__(self):
        return hash(self.key) if self.key is not None else id(self)

    def __repr__(self):
        return "<%r>" % self.cls


class Fun:
    def __init__(self, node, env, self_=None):
        self.node, self.env, self_ = node, env, self_
        self.self_ = self_


class Bound:
    def __init__(self, fun, obj):
        self.fun, self.obj = fun, obj


class Builtin:
    def __init__(self, f):
        self.f = f


class Cls:
    def __init__(self, node, env):
        self.node, self.env = node, env
        self.methods = {n.name: n for n in node.body if isinstance(n, ast.FunctionDef)}

    def __repr__(self):
        return self.node.name


CANON = {"Lt": "StrictLessThan", "Le": "LessThan", "Gt": "StrictGreaterThan", "Ge": "GreaterThan", "Eq": "Equality", "Ne": "Unequality"}
SINGLE = {"Zero": (0,), "One": (1,), "NegativeOne": (-1,)}


def const(v):
    return v is None or isinstance(v, (bool, int, float, str))


class Interp:
    def __init__(self, module, opaque=None, type_of=None, budget=200000):
        """opaque(interp, f, args, kw) -> value or NotImplemented; type_of(value) -> class"""
        self.mod, self.opaque, self.type_of = module, opaque, type_of
        self.env = {}
        self.choices, self.pos, self.conds = [], 0, []
        self.budget = budget
        for n in module.body:
            if isinstance(n, ast.FunctionDef):
                self.env[n.name] = Fun(n, self.env)
            elif isinstance(n, ast.ClassDef):
                self.env[n.name] = Cls(n, self.env)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    nm = a.asname or a.name.split(".")[0]
                    self.env[nm] = Term("name", nm)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                try:
                    self.env[n.targets[0].id] = self.ev(n.value, self.env)
                except (Unread, Raised):
                    pass

    # --- choice enumeration
    def paths(self, run):
        """all outcomes of run(): list of (conditions, ('value', v) | ('raise', what))"""
        out, stack = [], [[]]
        while stack:
            pre = stack.pop()
            self.choices, self.pos, self.conds = list(pre), 0, []
            try:
                r = ("value", run())
            except Raised as e:
                r = ("raise", e.what)
            out.append((list(self.conds), r))
            for i in range(len(pre), len(self.choices)):
                stack.append(self.choices[:i] + [False])
            if len(out) > 400:
                raise Unread("too many paths")
        return out

    def decide(self, c):
        if isinstance(c, bool):
            return c
        if const(c):
            return bool(c)
        if isinstance(c, (list, tuple, dict, set)):
            return bool(c)
        if isinstance(c, (Obj, Fun, Bound, Builtin, Cls)):
            return True
        if isinstance(c, Term) and c.k == "not":
            return not self.decide(c.a[0])
        for k, v in self.conds:
            if k == c:
                return v
        if self.pos < len(self.choices):
            v = self.choices[self.pos]
        else:
            v = True
            self.choices.append(True)
        self.pos += 1
        self.conds.append((c, v))
        return v

    # --- calls
    def new(self, cls, args, kw):
        o = Obj(cls)
        if "__init__" in cls.methods:
            self.apply(Fun(cls.methods["__init__"], cls.env), [o] + args, kw)
        return o

    def apply(self, f, args, kw):
        self.budget -= 1
        if self.budget < 0:
            raise Unread("budget")
        if self.opaque is not None:
            r = self.opaque(self, f, args, kw)
            if r is not NotImplemented:
                return r
        if isinstance(f, Builtin):
            return f.f(*args, **kw)
        if isinstance(f, Bound):
            return self.apply(f.fun, [f.obj] + args, kw)
        if isinstance(f, Cls):
            return self.new(f, args, kw)
        if isinstance(f, Obj) and isinstance(f.cls, Cls) and "__call__" in f.cls.methods:
            return self.apply(Fun(f.cls.methods["__call__"], f.cls.env), [f] + args, kw)
        if isinstance(f, Fun):
            a = f.node.args
            env = {}
            names = [x.arg for x in a.posonlyargs + a.args]
            if len(args) > len(names) and not a.vararg:
                raise Raised("TypeError")
            for n, v in zip(names, args):
                env[n] = v
            if a.vararg:
                env[a.vararg.arg] = tuple(args[len(names):])
            for n, v in kw.items():
                env[n] = v
            for n, d in zip(reversed(names), reversed(a.defaults)):
                if n not in env:
                    env[n] = self.ev(d, f.env)
            for n, d in zip(a.kwonlyargs, a.kw_defaults):
                if n.arg not in env and d is not None:
                    env[n.arg] = self.ev(d, f.env)
            sc = Scope(env, f.env)
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, sc)
            try:
                self.block(f.node.body, sc)
            except Ret as r:
                return r.v
            return None
        if isinstance(f, Term):
            return Term("call", f, tuple(freeze(x) for x in args), tuple(sorted((k, freeze(v)) for k, v in kw.items())))
        raise Unread("call of %r" % (f,))

    # --- statements
    def block(self, ss, env):
        for s in ss:
            self.stmt(s, env)

    def stmt(self, s, env):
        if isinstance(s, ast.Expr):
            if not isinstance(s.value, ast.Constant):
                self.ev(s.value, env)
        elif isinstance(s, ast.Return):
            raise Ret(self.ev(s.value, env) if s.value else None)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, v, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env)
        elif isinstance(s, ast.AugAssign):
            cur = self.ev(_load(s.target), env)
            v = self.ev(s.value, env)
            if isinstance(cur, list) and isinstance(s.op, ast.Add):
                cur.extend(self.iter(v))
            else:
                self.assign(s.target, self.binop(s.op, cur, v), env)
        elif isinstance(s, ast.If):
            self.block(s.body if self.decide(self.ev(s.test, env)) else s.orelse, env)
        elif isinstance(s, ast.For):
            try:
                for x in self.iter(self.ev(s.iter, env)):
                    self.assign(s.target, x, env)
                    try:
                        self.block(s.body, env)
                    except Cont:
                        pass
                else:
                    self.block(s.orelse, env)
            except Brk:
                pass
        elif isinstance(s, ast.While):
            n = 0
            while self.decide(self.ev(s.test, env)):
                n += 1
                if n > 50:
                    raise Unread("loop")
                try:
                    self.block(s.body, env)
                except Cont:
                    continue
                except Brk:
                    break
        elif isinstance(s, ast.Raise):
            e = self.ev(s.exc, env) if s.exc else None
            raise Raised(repr(e.a[0]) if isinstance(e, Term) and e.k == "call" else repr(e))
        elif isinstance(s, ast.Break):
            raise Brk()
        elif isinstance(s, ast.Continue):
            raise Cont()
        elif isinstance(s, ast.Assert):
            if not self.decide(self.ev(s.test, env)):
                raise Raised("AssertionError")
        elif isinstance(s, ast.FunctionDef):
            env[s.name] = Fun(s, env)
        elif isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal)):
            pass
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                nm = a.asname or a.name.split(".")[0]
                env[nm] = Term("name", nm)
        elif isinstance(s, ast.Try):
            try:
                self.block(s.body, env)
            except Raised:
                raise Unread("try")
            self.block(s.orelse, env)
            self.block(s.finalbody, env)
        elif isinstance(s, ast.Match):
            raise Unread("match")
        else:
            raise Unread(type(s).__name__)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(self.iter(v))
            st = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if st:
                i = st[0]
                k = len(t.elts) - i - 1
                vs = vs[:i] + [vs[i:len(vs) - k]] + vs[len(vs) - k:]
            if len(vs) != len(t.elts):
                raise Raised("ValueError")
            for x, y in zip(t.elts, vs):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if not isinstance(o, Obj):
                raise Unread("attribute of %r" % (o,))
            o.attrs[t.attr] = v
        elif isinstance(t, ast.Subscript):
            o, k = self.ev(t.value, env), self.ev(t.slice, env)
            if isinstance(o, (dict, list)):
                o[k] = v
            else:
                raise Unread("item of %r" % (o,))
        else:
            raise Unread(type(t).__name__)

    def iter(self, v):
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, (list, tuple, set, range)):
            return list(v)
        raise Unread("iteration over %r" % (v,))

    # --- expressions
    def ev(self, e, env):
        m = getattr(self, "v_" + type(e).__name__, None)
        if m is None:
            raise Unread(type(e).__name__)
        return m(e, env)

    def v_Constant(self, e, env):
        return e.value

    def v_Name(self, e, env):
        if e.id in env:
            return env[e.id]
        b = self.builtins().get(e.id)
        return b if b is not None else Term("name", e.id)

    def builtins(self):
        def rev(x):
            return list(reversed(self.iter(x)))

        def isinst(v, c):
            if isinstance(c, (tuple, list)):
                return any(self.decide(isinst(v, x)) for x in c)
            return self.type_of(v, c) if self.type_of else Term("isinstance", v, c)
        return {"reversed": Builtin(rev), "len": Builtin(lambda x: len(self.iter(x)) if not isinstance(x, Term) else Term("len", x)),
                "range": Builtin(lambda *a: list(range(*a)) if all(isinstance(x, int) for x in a) else Term("range", *a)),
                "zip": Builtin(lambda *a, strict=False: [tuple(x) for x in zip(*[self.iter(y) for y in a])]),
                "enumerate": Builtin(lambda x, start=0: list(enumerate(self.iter(x), start))),
                "list": Builtin(lambda x=(): list(self.iter(x))), "tuple": Builtin(lambda x=(): tuple(self.iter(x))),
                "dict": Builtin(lambda x=(), **kw: dict(self.iter(x) if not isinstance(x, dict) else x, **kw)),
                "map": Builtin(lambda f, x: [self.apply(f, [y], {}) for y in self.iter(x)]),
                "type": Builtin(lambda x: self.type_of(x, None) if self.type_of else Term("type", x)),
                "isinstance": Builtin(isinst), "sorted": Builtin(lambda x, **kw: list(self.iter(x))),
                "getattr": Builtin(lambda o, n, *d: self.attr(o, n))}

    def v_Attribute(self, e, env):
        return self.attr(self.ev(e.value, env), e.attr)

    def attr(self, o, n):
        if isinstance(o, Obj):
            if n in o.attrs:
                return o.attrs[n]
            if isinstance(o.cls, Cls) and n in o.cls.methods:
                m = o.cls.methods[n]
                if any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in m.decorator_list):
                    return Fun(m, o.cls.env)
                if any(isinstance(d, ast.Name) and d.id == "property" for d in m.decorator_list):
                    return self.apply(Fun(m, o.cls.env), [o], {})
                return Bound(Fun(m, o.cls.env), o)
            if n == "func" and not isinstance(o.cls, Cls):
                return o.cls
            return Term("att", o.key if o.key is not None else Term("obj", id(o)), n)
        if isinstance(o, Cls):
            if n in o.methods:
                return Fun(o.methods[n], o.env)
        if isinstance(o, dict):
            if n == "get":
                return Builtin(lambda k, d=None: o.get(freeze(k), d))
            if n == "update":
                return Builtin(lambda x=(), **kw: o.update(x, **kw))
            if n in ("items", "keys", "values"):
                return Builtin(lambda: [tuple(x) if n == "items" else x for x in getattr(o, n)()])
            if n == "setdefault":
                return Builtin(lambda k, d=None: o.setdefault(freeze(k), d))
        if isinstance(o, list):
            if n in ("append", "extend", "insert", "reverse"):
                return Builtin(getattr(o, n))
        if isinstance(o, Term):
            if o.k == "att" and o.a[1] == "S" and n in SINGLE:
                return Term("call", Term("att", o.a[0], "Integer"), SINGLE[n], ())
            if o.k == "att" and o.a[1] == "S" and n == "Half":
                return Term("call", Term("att", o.a[0], "Rational"), (1, 2), ())
            return Term("att", o, CANON.get(n, n) if o == Term("name", "sp") or o == Term("name", "sympy") else n)
        raise Unread("attribute %s of %r" % (n, o))

    def v_Call(self, e, env):
        f = self.ev(e.func, env)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                if isinstance(v, Term):
                    raise Unread("star of %r" % v)
                args += self.iter(v)
            else:
                args.append(self.ev(a, env))
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.ev(k.value, env))
            else:
                kw[k.arg] = self.ev(k.value, env)
        return self.apply(f, args, kw)

    def v_Tuple(self, e, env):
        return tuple(self.elts(e, env))

    def v_List(self, e, env):
        return self.elts(e, env)

    def v_Set(self, e, env):
        return set(self.elts(e, env))

    def elts(self, e, env):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out += self.iter(self.ev(x.value, env))
            else:
                out.append(self.ev(x, env))
        return out

    def v_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, env))
            else:
                d[freeze(self.ev(k, env))] = self.ev(v, env)
        return d

    def comp(self, gens, env, emit):
        if not gens:
            emit(env)
            return
        g = gens[0]
        for x in self.iter(self.ev(g.iter, env)):
            sc = Scope({}, env)
            self.assign(g.target, x, sc)
            if all(self.decide(self.ev(c, sc)) for c in g.ifs):
                self.comp(gens[1:], sc, emit)

    def v_ListComp(self, e, env):
        out = []
        self.comp(e.generators, env, lambda sc: out.append(self.ev(e.elt, sc)))
        return out

    v_GeneratorExp = v_ListComp

    def v_DictComp(self, e, env):
        out = {}

        def put(sc):
            out[freeze(self.ev(e.key, sc))] = self.ev(e.value, sc)
        self.comp(e.generators, env, put)
        return out

    def v_Lambda(self, e, env):
        return Fun(e, env)

    def v_IfExp(self, e, env):
        return self.ev(e.body if self.decide(self.ev(e.test, env)) else e.orelse, env)

    def v_BoolOp(self, e, env):
        v = None
        for x in e.values:
            v = self.ev(x, env)
            d = self.decide(v)
            if d == isinstance(e.op, ast.Or):
                return v if const(v) or not isinstance(v, Term) else d
        return v if not isinstance(v, Term) else self.decide(v)

    def v_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.decide(v)
        if const(v):
            return -v if isinstance(e.op, ast.USub) else +v if isinstance(e.op, ast.UAdd) else ~v
        if isinstance(e.op, ast.USub) and isinstance(v, Term) and v.k == "call" and len(v.a[1]) and isinstance(v.a[1][0], int):
            return Term("call", v.a[0], (-v.a[1][0],) + v.a[1][1:], v.a[2])
        return Term("neg", freeze(v))

    def v_BinOp(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env))

    def binop(self, op, x, y):
        n = type(op).__name__
        if isinstance(x, (list, tuple)) and type(x) is type(y) and n == "Add":
            return x + y
        if const(x) and const(y):
            try:
                return {"Add": lambda: x + y, "Sub": lambda: x - y, "Mult": lambda: x * y, "Mod": lambda: x % y, "FloorDiv": lambda: x // y, "Div": lambda: x / y, "Pow": lambda: x ** y, "BitOr": lambda: x | y}[n]()
            except Exception:
                raise Unread("operator %s" % n)
        return Term("op", n, freeze(x), freeze(y))

    def v_Compare(self, e, env):
        x = self.ev(e.left, env)
        r = True
        for op, c in zip(e.ops, e.comparators):
            y = self.ev(c, env)
            r = self.compare(op, x, y)
            if len(e.ops) > 1 and not self.decide(r):
                return False
            x = y
        return r

    def compare(self, op, x, y):
        n = type(op).__name__
        if n in ("Is", "IsNot") and (x is None or y is None):
            if isinstance(x, Term) and x.k == "maybe" or isinstance(y, Term) and y.k == "maybe":
                return Term("cmp", n, x, y)
            return (x is None and y is None) == (n == "Is")
        if n in ("In", "NotIn"):
            if isinstance(y, (dict, list, tuple, set)):
                return (freeze(x) in y) == (n == "In")
            return Term("cmp", n, freeze(x), freeze(y))
        if const(x) and const(y):
            return {"Eq": lambda: x == y, "NotEq": lambda: x != y, "Lt": lambda: x < y, "LtE": lambda: x <= y, "Gt": lambda: x > y, "GtE": lambda: x >= y, "Is": lambda: x is y, "IsNot": lambda: x is not y}[n]()
        if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)) and n in ("Eq", "NotEq"):
            return (list(x) == list(y)) == (n == "Eq")
        if n in ("Eq", "Is") and x == y:
            return True
        if n in ("NotEq", "IsNot") and x == y:
            return False
        if n in ("NotEq", "IsNot"):
            return Term("not", Term("cmp", "Eq", freeze(x), freeze(y)))
        return Term("cmp", "Eq" if n == "Is" else n, freeze(x), freeze(y))

    def v_Subscript(self, e, env):
        o = self.ev(e.value, env)
        if isinstance(e.slice, ast.Slice):
            lo, hi, st = [self.ev(x, env) if x is not None else None for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            if isinstance(o, (list, tuple)):
                return o[slice(lo, hi, st)]
            raise Unread("slice")
        k = self.ev(e.slice, env)
        if isinstance(o, Obj) and "__getitem__" in o.attrs:
            return o.attrs["__getitem__"](k)
        if isinstance(o, (list, tuple)) and isinstance(k, int):
            if not -len(o) <= k < len(o):
                raise Raised("IndexError")
            return o[k]
        if isinstance(o, dict):
            if freeze(k) in o:
                return o[freeze(k)]
            raise Raised("KeyError")
        if isinstance(o, Term):
            return Term("item", o, freeze(k))
        raise Unread("subscript of %r" % (o,))

    def v_JoinedStr(self, e, env):
        return Term("text")

    def v_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def v_Starred(self, e, env):
        return self.ev(e.value, env)


class Scope(dict):
    """local scope over an enclosing one"""

    def __init__(self, own, outer):
        super().__init__(own)
        self.outer = outer

    def __contains__(self, k):
        return dict.__contains__(self, k) or k in self.outer

    def __getitem__(self, k):
        return dict.__getitem__(self, k) if dict.__contains__(self, k) else self.outer[k]


def _load(t):
    import copy
    t = copy.deepcopy(t)
    t.ctx = ast.Load()
    return t


def freeze(v):
    if isinstance(v, list):
        return tuple(freeze(x) for x in v)
    if isinstance(v, tuple):
        return tuple(freeze(x) for x in v)
    if isinstance(v, Obj) and v.key is not None:
        return v.key
    return v
