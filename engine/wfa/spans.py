"""Model of wf::span over a container (writes land in the container at sum of stride times index)."""
import re
from .vg import *
from .vg import PURE


def p_value_pack(ev, st, fr, e, fid, objlv, al):
    out = []
    for a, x in zip(e["a"], al):
        m = re.match(r"wf::constant<(-?\d+)>", bare(a.get("t", "")))
        out.append(C(int(m.group(1))) if m else ev.argval(st, x))
    return mk("list", *out)


def p_make_span(ev, st, fr, e, fid, objlv, al):
    d = e["a"][0]
    while d["k"] in ("Cast", "Copy", "Paren") and d.get("e"):
        d = d["e"]
    if d["k"] == "Call" and d.get("fn", "").endswith("::data") and d.get("obj"):
        return mk("wfspan", ev.lv(d["obj"], st, fr), ev.argval(st, al[1]), ev.argval(st, al[2]))
    return None


def span_hook(ev, st, fr, f, objlv, al):
    if not (f.q.startswith("wf::span<") and f.name == "operator()") or objlv is None:
        return None
    s = ev.read(st, objlv)
    if s.op != "wfspan" or s.a[2].op != "list" or len(s.a[2].a) != len(al):
        return None
    k = C(0)
    for stv, a in zip(s.a[2].a, al):
        k = arith("+", k, arith("*", stv, ev.argval(st, a)))
    lv = s.a[0]
    return mk("lvref", (lv[0], lv[1] + (("i", k),)))


SPAN_PRIMS = {"wf::make_value_pack": p_value_pack, "wf::make_span": p_make_span}
