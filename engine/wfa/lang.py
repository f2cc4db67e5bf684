"""Just enough of the three target languages to read generated text: tokens, expressions with each language's
operator precedence, and the statement forms the generators use.  Text may contain holes (one private-use
character each).  Trees are nested tuples; parentheses leave no trace except through grouping."""
import re


class ParseError(Exception):
    pass


PUA = "\ue000-\uf8ff"
TOK = re.compile(r"""
  (?P<ws>[ \t\r]+) | (?P<nl>\n)
 |(?P<com>//[^\n]*|\#(?![\[!])[^\n]*)
 |(?P<str>f?"(?:[^"\\\n]|\\.)*")
 |(?P<num>\d+(?:\.\d+)?(?:[eE][+-]?\d+)?(?:f64|i64|f32)?)
 |(?P<id>[A-Za-z_%s][A-Za-z0-9_%s]*(?:::[A-Za-z_%s][A-Za-z0-9_%s]*)*)
 |(?P<op><<=|->|=>|::|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||\*\*|//|[-+*/%%<>=!&|^~?:;,.()\[\]{}\#@])
""" % ((PUA,) * 4), re.X)

CPP_BIN = {"||": 3, "&&": 4, "|": 5, "^": 6, "&": 7, "==": 8, "!=": 8, "<": 9, "<=": 9, ">": 9, ">=": 9, "<<": 10, ">>": 10,
           "+": 11, "-": 11, "*": 12, "/": 12, "%": 12}
RUST_BIN = {"||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "|": 6, "^": 7, "&": 8, "<<": 9, ">>": 9,
            "+": 11, "-": 11, "*": 12, "/": 12, "%": 12, "as": 13}
PY_BIN = {"or": 3, "and": 4, "==": 6, "!=": 6, "<": 6, "<=": 6, ">": 6, ">=": 6, "is": 6, "in": 6, "|": 7, "^": 8, "&": 9,
          "<<": 10, ">>": 10, "+": 11, "-": 11, "*": 12, "/": 12, "//": 12, "%": 12, "**": 15}
CMP = {"==", "!=", "<", "<=", ">", ">="}
UNARY_BP = {"cpp": 13, "rust": 14, "py": 13}


def tokens(text, lang):
    out, pos = [], 0
    depth, col0 = 0, True
    while pos < len(text):
        m = TOK.match(text, pos)
        if not m:
            raise ParseError("unreadable text at %r" % text[pos:pos + 20])
        k = m.lastgroup
        v = m.group(0)
        if k == "com" and lang != "py" and v.startswith("#"):
            k, v = "op", "#"
            pos += 1
            out.append((k, v))
            continue
        if k == "com" and lang == "py" and v.startswith("//"):
            k, v = "op", "//"
            pos += 2
            out.append((k, v))
            continue
        pos = m.end()
        if k == "ws":
            continue
        if k == "nl":
            if lang == "py":
                out.append(("nl", "\n"))
            continue
        out.append((k, v))
    return out


class Parser:
    def __init__(self, text, lang):
        self.lang = lang
        self.t = [x for x in tokens(text, lang) if x[0] != "com"]
        self.i = 0
        self.depth = 0
        self.bins = {"cpp": CPP_BIN, "rust": RUST_BIN, "py": PY_BIN}[lang]

    def peek(self, k=0):
        i = self.i
        while True:
            if self.depth and i < len(self.t) and self.t[i][0] == "nl":
                i += 1
                continue
            if k == 0:
                break
            k -= 1
            i += 1
        return self.t[i] if i < len(self.t) else ("eof", "")

    def next(self):
        while self.depth and self.i < len(self.t) and self.t[self.i][0] == "nl":
            self.i += 1
        x = self.t[self.i] if self.i < len(self.t) else ("eof", "")
        self.i += 1
        return x

    def at(self, v):
        return self.peek()[1] == v and self.peek()[0] in ("op", "id")

    def eat(self, v):
        if not self.at(v):
            raise ParseError("expected %r, found %r" % (v, self.peek()[1]))
        return self.next()

    def maybe(self, v):
        if self.at(v):
            self.next()
            return True
        return False

    # ---- types: printed as a flat string
    def type_(self):
        s = ""
        k, v = self.next()
        while v in ("const", "&", "mut", "*"):
            s += v + " "
            k, v = self.next()
        if k != "id":
            raise ParseError("type expected, found %r" % v)
        s += v
        if self.at("<"):
            self.next()
            xs = []
            while not self.at(">"):
                if self.peek()[0] == "num" or is_hole(self.peek()[1]):
                    xs.append(self.next()[1])
                else:
                    xs.append(self.type_())
                if not self.maybe(","):
                    break
            self.eat(">")
            s += "<" + ", ".join(xs) + ">"
        while self.peek()[1] in ("&", "*", "const", "&&"):
            s += self.next()[1]
        return s

    def args(self, close):
        xs = []
        self.depth += 1
        while not self.at(close):
            if self.lang == "py" and self.peek()[0] == "id" and self.peek(1)[1] == "=":
                n = self.next()[1]
                self.next()
                xs.append(("kw", n, self.expr(0)))
            else:
                xs.append(self.expr(0))
            if not self.maybe(","):
                break
        self.eat(close)
        self.depth -= 1
        return tuple(xs)

    def primary(self):
        L = self.lang
        k, v = self.peek()
        if k == "num":
            self.next()
            return ("num", v)
        if k == "str":
            self.next()
            return ("text", v)
        if v == "(":
            self.depth += 1
            self.next()
            if self.at(")"):
                self.next()
                self.depth -= 1
                return ("tuple",)
            e = self.expr(0)
            if self.at(","):
                xs = [e]
                while self.maybe(","):
                    if self.at(")"):
                        break
                    xs.append(self.expr(0))
                e = ("tuple",) + tuple(xs)
            self.eat(")")
            self.depth -= 1
            return e
        if v == "[" and L in ("py", "rust"):
            self.next()
            return ("list",) + self.args("]")
        if L == "rust" and v == "if":
            self.next()
            c = self.expr(0, nostruct=True)
            self.eat("{")
            a = self.expr(0)
            self.eat("}")
            self.eat("else")
            self.eat("{")
            b = self.expr(0)
            self.eat("}")
            return ("cond", c, a, b)
        if k == "id":
            if L == "cpp" and v in ("static_cast",):
                self.next()
                self.eat("<")
                t = self.type_()
                self.eat(">")
                self.eat("(")
                a = self.args(")")
                if len(a) != 1:
                    raise ParseError("cast of %d operands" % len(a))
                return ("cast", t, a[0])
            if L == "cpp" and (v in ("Eigen::Matrix",) or (self.peek(1)[1] == "<" and v.startswith("wf::"))):
                return ("name", self.type_().replace("wf::", "wf::"))
            self.next()
            return ("name", v)
        raise ParseError("operand expected, found %r" % (v or "end of text"))

    def postfix(self, e, nostruct=False):
        L = self.lang
        while True:
            v = self.peek()[1]
            if self.peek()[0] != "op":
                return e
            if v == "(":
                self.next()
                e = ("call", e) + self.args(")")
            elif v == "[":
                self.next()
                if L == "py" and self.at(":"):
                    self.next()
                    self.eat("]")
                    e = ("all", e)
                else:
                    e = ("index", e) + self.args("]")
            elif v == ".":
                self.next()
                k, n = self.next()
                if L == "cpp" and n == "operator":
                    raise ParseError("unexpected operator member")
                if k not in ("id", "num"):
                    raise ParseError("member expected, found %r" % n)
                e = ("member", e, n)
            elif v == "->" and L == "cpp":
                self.next()
                k, n = self.next()
                if n == "operator":
                    self.eat("(")
                    self.eat(")")
                    e = ("deref", e)
                else:
                    e = ("member", ("deref", e), n)
            elif v == "{" and L in ("cpp", "rust") and e[0] == "name" and not nostruct:
                self.next()
                if L == "cpp":
                    e = ("construct", e) + self.args("}")
                else:
                    xs = []
                    while not self.at("}"):
                        n = self.next()[1]
                        self.eat(":")
                        xs.append(("kw", n, self.expr(0)))
                        if not self.maybe(","):
                            break
                    self.eat("}")
                    e = ("construct", e) + tuple(xs)
            else:
                return e

    def unary(self, nostruct):
        L = self.lang
        k, v = self.peek()
        if k == "op" and v == "-":
            self.next()
            return ("neg", self.expr(UNARY_BP[L], nostruct))
        if k == "op" and v == "--":
            if L == "py":
                self.next()
                return ("neg", ("neg", self.expr(13, nostruct)))
            if L == "rust":
                self.next()
                return ("neg", ("neg", self.expr(14, nostruct)))
            raise ParseError("decrement of a value")
        if k == "op" and v == "++":
            raise ParseError("increment of a value")
        if k == "op" and v == "+":
            self.next()
            return self.expr(UNARY_BP[L], nostruct)
        if L in ("cpp", "rust") and k == "op" and v in ("*", "&", "!"):
            self.next()
            if L == "rust" and v == "&" and self.at("mut"):
                self.next()
                v = "&mut"
            return ({"*": "deref", "&": "ref", "&mut": "mutref", "!": "not"}[v], self.expr(UNARY_BP[L], nostruct))
        if L == "py" and v == "not":
            self.next()
            return ("not", self.expr(5))
        return self.postfix(self.primary(), nostruct)

    def expr(self, bp, nostruct=False):
        L = self.lang
        e = self.unary(nostruct)
        lastcmp = False
        ascast = False
        while True:
            k, v = self.peek()
            if L == "cpp" and v == "?" and bp <= 2:
                self.next()
                a = self.expr(0)
                self.eat(":")
                b = self.expr(2)
                e = ("cond", e, a, b)
                continue
            if L == "cpp" and v == "=" and bp <= 1:
                return e
            if L == "py" and v == "if" and bp <= 2 and k == "id":
                self.next()
                c = self.expr(3)
                self.eat("else")
                e = ("cond", c, e, self.expr(2))
                continue
            b = self.bins.get(v)
            if b is None or k not in ("op", "id") or b < bp or (b == bp and bp not in (0,)):
                # operators equal to the minimum bind to the left operand already built
                if b is not None and b == bp:
                    return e
                return e
            if L == "rust" and v == "as":
                self.next()
                e = ("cast", self.type_rust(), e)
                ascast = True
                lastcmp = False
                continue
            if ascast and v in ("<", "<<"):
                raise ParseError("'<' after a cast starts a generic argument list")
            if v in CMP and lastcmp and L in ("rust", "py"):
                raise ParseError("chained comparison")
            self.next()
            if v == "is":
                neg = self.maybe("not")
                r = self.expr(b, nostruct)
                e = ("is not" if neg else "is", e, r)
                continue
            if v == "**":
                r = self.expr(b - 1, nostruct)
            else:
                r = self.expr(b, nostruct)
            lastcmp = v in CMP
            ascast = False
            e = ("bin", v, e, r)

    def type_rust(self):
        k, v = self.next()
        if k != "id":
            raise ParseError("type expected after 'as'")
        return v

    def done(self):
        while self.i < len(self.t) and self.t[self.i][0] == "nl":
            self.i += 1
        return self.i >= len(self.t)


def is_hole(s):
    return len(s) == 1 and "\ue000" <= s <= "\uf8ff"


def parse_expr(text, lang):
    p = Parser(text, lang)
    p.depth += 1  # an expression may span lines
    e = p.expr(0)
    p.depth -= 1
    if not p.done():
        raise ParseError("trailing text %r" % p.peek()[1])
    return e


# ---- statements ---------------------------------------------------------------------------------
class Stmts(Parser):
    """statement sequences; each bare hole is a whole statement"""

    def block(self, stop):
        out = []
        while not self.at(stop) and self.peek()[0] != "eof":
            out.append(self.stmt(stop))
        return tuple(out)

    def stmt(self, stop=None):
        L = self.lang
        k, v = self.peek()
        if k == "id" and is_hole(v) and self.peek(1)[1] not in ("=", "(", ".", "[", "->", ":", ";"):
            self.next()
            return ("stmt", v)
        if v == "if":
            self.next()
            if L == "cpp":
                self.eat("(")
                c = self.expr(0)
                self.eat(")")
            elif self.at("let"):
                self.next()
                self.eat("Some")
                self.eat("(")
                n = self.next()[1]
                self.eat(")")
                self.eat("=")
                c = ("some", n, self.expr(0, nostruct=True))
            else:
                c = self.expr(0, nostruct=True)
            self.eat("{")
            a = self.block("}")
            self.eat("}")
            b = ()
            if self.maybe("else"):
                self.eat("{")
                b = self.block("}")
                self.eat("}")
            return ("if", c, a, b)
        if v == "return":
            self.next()
            e = self.expr(0)
            self.maybe(";") if L == "rust" else self.eat(";")
            return ("return", e)
        if L == "rust" and v == "let":
            self.next()
            self.maybe("mut")
            n = self.next()[1]
            t = None
            if self.maybe(":"):
                t = self.type_()
            e = None
            if self.maybe("="):
                e = self.expr(0)
            self.eat(";")
            return ("declare", n, t, e)
        if L == "cpp" and self.is_decl():
            const = self.maybe("const")
            t = "auto" if self.maybe("auto") else self.type_()
            n = self.next()[1]
            e = None
            if self.maybe("="):
                e = self.expr(0)
            self.eat(";")
            if e is not None or not const:
                return ("declare", n, t, e)
            raise ParseError("constant without a value")
        e = self.expr(0)
        if self.maybe("="):
            r = self.expr(0)
            self.eat(";")
            return ("assign", e, r)
        if L == "rust" and (self.at(stop) if stop else False or self.peek()[0] == "eof"):
            return ("return", e)
        if self.peek()[0] == "eof" and L == "rust":
            return ("return", e)
        self.eat(";")
        return ("eval", e)

    def is_decl(self):
        i = self.i
        try:
            if self.at("const") or self.at("auto"):
                return True
            self.type_()
            return self.peek()[0] == "id" and self.peek(1)[1] in ("=", ";")
        except ParseError:
            return False
        finally:
            self.i = i


def parse_stmts(text, lang):
    if lang == "py":
        return py_block([l for l in text.split("\n")])
    p = Stmts(text, lang)
    out = p.block("\0")
    if not p.done():
        raise ParseError("trailing text %r" % p.peek()[1])
    return out


def _indent(l):
    return len(l) - len(l.lstrip(" "))


def py_logical(lines):
    """join physical lines inside brackets; returns (indent, text)"""
    out, cur, depth, ind = [], "", 0, 0
    for l in lines:
        s = re.sub(r"#.*$", "", l) if '"' not in l else l
        if depth == 0:
            if not s.strip():
                continue
            ind = _indent(s)
            cur = s.strip()
        else:
            cur += " " + s.strip()
        t = re.sub(r'f?"(?:[^"\\]|\\.)*"', "", s)
        depth += sum(t.count(c) for c in "([{") - sum(t.count(c) for c in ")]}")
        if depth < 0:
            raise ParseError("unbalanced bracket")
        if depth == 0:
            out.append((ind, cur))
            cur = ""
    if depth:
        raise ParseError("unbalanced bracket")
    return out


def py_block(lines):
    ls = py_logical(lines)
    if not ls:
        return ()
    base = ls[0][0]
    out, i = [], 0
    while i < len(ls):
        ind, s = ls[i]
        if ind != base:
            raise ParseError("inconsistent indentation at %r" % s)
        j = i + 1
        while j < len(ls) and ls[j][0] > base:
            j += 1
        body = ls[i + 1:j]
        if s.endswith(":"):
            if not body:
                raise ParseError("empty block after %r" % s)
            b = py_block([" " * n + x for n, x in body])
            if s.startswith("if "):
                out.append(("if", parse_expr(s[3:-1], "py"), b, ()))
            elif s in ("else:", "else :"):
                if not out or out[-1][0] != "if" or out[-1][3]:
                    raise ParseError("else without if")
                out[-1] = out[-1][:3] + (b,)
            elif s.startswith("def "):
                out.append(("def", s, b))
            else:
                raise ParseError("unknown block %r" % s)
        else:
            if body:
                raise ParseError("unexpected indentation after %r" % s)
            out.append(py_simple(s))
        i = j
    return tuple(out)


def py_simple(s):
    if is_hole(s):
        return ("stmt", s)
    if s.startswith("assert "):
        return ("assert", s)
    if s.startswith("return"):
        r = s[6:].strip()
        return ("return", parse_expr(r, "py") if r else None)
    p = Parser(s, "py")
    e = p.expr(0)
    if p.maybe("="):
        p.depth += 1
        r = p.expr(0)
        p.depth -= 1
        if not p.done():
            raise ParseError("trailing text %r" % p.peek()[1])
        return ("assign", e, r)
    if not p.done():
        raise ParseError("trailing text %r" % p.peek()[1])
    return ("eval", e)
