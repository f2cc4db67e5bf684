"""The text every generator emits for every kind of syntax element, next to what the target language requires."""
from .vg import *
from .emit import generators, Rejected, Unread
from .target import cases, parsed, callee_free
from .lang import ParseError
from .program import AnalysisBroken


class Out:
    """one element rendered by one generator. status: text | rejected | unread | garbled"""

    def __init__(self, g, c):
        self.g, self.c = g, c
        self.where, self.text, self.tree, self.alts, self.why = "", None, None, [], ""
        try:
            self.text = g.render(c.ob)
            self.status = "text"
        except Rejected as x:
            self.status, self.why = "rejected", str(x)
        except Unread as x:
            self.status, self.why = "unread", str(x)
        self.where = getattr(g, "where", "")
        if self.status == "text" and c.kind != "reject":
            self.alts = [parsed(a, c.kind, g.lang) for a in c.alts]
            try:
                self.tree = parsed(self.text, c.kind, g.lang)
            except ParseError as x:
                self.status, self.why = "garbled", str(x)

    @property
    def inst(self):
        return "%s: %s, %s" % (self.g.label, self.c.elem, self.c.label)

    def shown(self, t=None):
        """text with the opaque pieces named"""
        t = self.text if t is None else t
        for term, ch in self.g.table.items():
            if ch in t:
                nm = term.a[0] if term.op == "sym" else show(term, 3)
                t = t.replace(ch, "<%s>" % nm)
        return t

    def wanted(self):
        return " or ".join(repr(self.shown(a)) for a in self.c.alts)


def rendered(p, ck, tier):
    outs, unread = [], 0
    for g in generators(p, tier == "thorough"):
        for c in cases(p, g, tier):
            o = Out(g, c)
            if o.status == "unread":
                unread += 1
                ck.notes.append("undecided: %s: %s" % (o.inst, o.why))
            outs.append(o)
        ck.analysed(g.inlined)
    if unread * 2 > len(outs):
        raise AnalysisBroken("the text of %d of %d elements could not be read from the generators" % (unread, len(outs)))
    return outs
