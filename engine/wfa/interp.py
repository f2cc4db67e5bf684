"""Scenario interpreter: reads a value-graph term as a formula, resolving its guards in a scenario.

A scenario gives every symbolic leaf a sympy value (env) and a way to read the calls left uninterpreted.
Guards that the scenario does not determine fork; every feasible leaf is returned with its assumptions."""
import sympy as sp
from .vg import *
from . import algebra
from .algebra import Unknown


class Fork(Exception):
    def __init__(self, c):
        self.c = c


class Interp:
    def __init__(self, env, calls=None, truths=None, positive=True):
        self.env = dict(env)
        self.calls = calls or (lambda self, t: None)
        self.truths = truths or (lambda self, c: None)
        self.assume = {}

    def formula(self, t):
        if t in self.env:
            return self.env[t]
        if t.op == "ite":
            return self.formula(t.a[1] if self.truth(t.a[0]) else t.a[2])
        r = self.calls(self, t)
        if r is not None:
            return r
        if t.op == "call":
            q, args = t.a[0], t.a[2:]
            n = q.rsplit("::", 1)[-1]
            if q in ("wf::scalar_expr::from_int", "wf::scalar_expr::from_float"):
                return self.formula(args[0])
            if n == "operator-" and len(args) == 1:
                return -self.formula(args[0])
            if n in ("operator+", "operator-", "operator*", "operator/") and len(args) == 2:
                x, y = self.formula(args[0]), self.formula(args[1])
                return x + y if n == "operator+" else x - y if n == "operator-" else x * y if n == "operator*" else x / y
            if q in ("wf::pow", "wf::power::create"):
                return sp.Pow(self.formula(args[0]), self.formula(args[1]))
            if q == "wf::atan2":
                return sp.atan2(self.formula(args[0]), self.formula(args[1]))
            if q == "wf::multiplication::from_two_operands":
                return self.formula(args[0]) * self.formula(args[1])
            if q in ("wf::multiplication::from_operands", "wf::addition::from_operands"):
                xs = [self.formula(x) for x in self.items(args[0])]
                return sp.Mul(*xs) if "multiplication" in q else sp.Add(*xs)
            if q in ("wf::where", "wf::conditional::create"):
                return sp.Function("Where")(*[self.formula(x) for x in args])
            if q.startswith("wf::") and n in algebra.FN1 and len(args) == 1:
                return algebra.FN1[n](self.formula(args[0]))
        if t.op == "c":
            if type(t.a[0]) is int:
                return sp.Integer(t.a[0])
            if type(t.a[0]) is float:
                return sp.nsimplify(t.a[0])
        if t.op == "glob":
            q = t.a[0]
            if q in algebra.ONE:
                return sp.Integer(algebra.ONE[q])
            if q in algebra.GLOB:
                return algebra.GLOB[q]
        if t.op == "bin":
            op, xs = t.a[0], t.a[1:]
            xs = [self.formula(x) for x in xs]
            if op == "+":
                return sp.Add(*xs)
            if op == "*":
                return sp.Mul(*xs)
            if op == "-" and len(xs) == 2:
                return xs[0] - xs[1]
        if t.op == "obj" and len(t.a) == 3:
            return self.formula(t.a[2])
        if t.op == "new" and len(t.a) == 2:
            return self.formula(t.a[1])
        if t.op == "field" and t.a[1] in ("value", "value_", "val_"):
            return self.formula(t.a[0])
        raise Unknown(t)

    def items(self, t):
        """concrete sequence of terms"""
        if t.op == "ite":
            return self.items(t.a[1] if self.truth(t.a[0]) else t.a[2])
        if t.op == "list":
            return list(t.a)
        if t.op == "push":
            return self.items(t.a[0]) + [t.a[1]]
        if t.op == "cat":
            return [y for x in t.a for y in self.items(x)]
        if t.op == "obj" and len(t.a) == 3:
            return self.items(t.a[2])
        raise Unknown(t)

    def truth(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c.op == "not":
            return not self.truth(c.a[0])
        if c.op == "and":
            return all([self.truth(x) for x in c.a]) if False else all(self.truth(x) for x in c.a)
        if c.op == "or":
            return any(self.truth(x) for x in c.a)
        if c.op == "ite":
            return self.truth(c.a[1] if self.truth(c.a[0]) else c.a[2])
        if c in self.assume:
            return self.assume[c]
        r = self.truths(self, c)
        if r is not None:
            return r
        if c.op == "call":
            n = c.a[0].rsplit("::", 1)[-1]
            if n in ("is_zero", "is_one", "is_negative_one", "is_identical_to", "are_identical"):
                try:
                    x = self.formula(c.a[2])
                    y = {"is_zero": sp.Integer(0), "is_one": sp.Integer(1), "is_negative_one": sp.Integer(-1)}.get(n)
                    if y is None:
                        y = self.formula(c.a[3])
                    return bool(sp.simplify(x - y) == 0)
                except Unknown:
                    pass
        if c.op in ("eq", "lt"):
            try:
                x, y = self.formula(c.a[0]), self.formula(c.a[1])
                if x.is_number and y.is_number:
                    return bool(x == y) if c.op == "eq" else bool(x < y)
            except Unknown:
                pass
        raise Fork(c)

    def cases(self, f, limit=64):
        """all (assumptions, f(self)) over the guards the scenario leaves open"""
        out, work = [], [{}]
        while work:
            a = work.pop()
            self.assume = a
            try:
                out.append((a, f(self)))
            except Fork as k:
                for v in (True, False):
                    b = dict(a)
                    b[k.c] = v
                    work.append(b)
            except Unknown as u:
                out.append((a, u))
            if len(out) + len(work) > limit:
                break
        self.assume = {}
        return out


def equal_at(x, y, points):
    """formula identity: structural first, then exact evaluation at rational points of the domain"""
    d = x - y
    if d == 0:
        return True
    try:
        if sp.simplify(d) == 0:
            return True
    except Exception:
        pass
    if d.has(sp.Function("Deriv")) or d.has(sp.zoo) or d.has(sp.nan):
        return False
    for pt in points:
        try:
            n = complex(d.subs(pt).evalf(40))
        except Exception:
            return False
        if not abs(n) < 1e-20:
            return False
    return True
