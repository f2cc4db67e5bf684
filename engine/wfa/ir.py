"""Value-graph (IR) values as objects, and the conversion of values to syntax elements."""
from .vg import *
from . import vg, emit
from .emit import en, scalar_type, matrix_type
from .nodes import build
from .program import AnalysisBroken

V = "wf::ir::value"
VIS = "wf::ast::ast_form_visitor"
OPS = ("add", "call_external_function", "call_std_function", "cast", "compare", "cond", "copy", "construct", "div", "get", "jump_condition",
       "load", "mul", "neg", "output_required", "phi", "save")


def op(p, name, **fields):
    rt = "wf::ir::" + name
    have = [f["n"] for f in p.rec(rt)["fields"]]
    if sorted(have) != sorted(fields):
        raise AnalysisBroken("%s has fields %s" % (rt, ", ".join(have)))
    return obj(rt, fields)


def nn(ty, v):
    return obj("wf::non_null<%s>" % ty, {"ptr_": v})


_n = [0]


def value(p, o, operands, ty, name=None):
    """a value computing operation o from operand values"""
    have = {f["n"] for f in p.rec(V)["fields"]}
    if have != {"name_", "parent_", "op_", "operands_", "consumers_", "type_"}:
        raise AnalysisBroken("%s has fields %s" % (V, ", ".join(sorted(have))))
    if name is None:
        _n[0] += 1
        name = _n[0]
    ops = mk("list", *[obj("wf::ir::operand_ptr", {"operand_": nn("wf::ir::value *", x), "consumer_index_": C(i)}) for i, x in enumerate(operands)])
    return obj(V, {"name_": C(name), "parent_": mk("sym", "block", "wf::ir::block"), "op_": o, "operands_": ops,
                   "consumers_": mk("sym", "consumers", "wf::ir::consumer_vector"), "type_": ty})


def variable(p, nm, ty):
    """a value reading a named input"""
    vt = obj("wf::variable", {f["n"]: mk("sym", f["n"], f["t"]) for f in p.rec("wf::variable")["fields"]})
    return value(p, op(p, "load", variant_=vt), [], ty), vt


def visitor(p, declared=(), signature=None):
    d = {}
    for f in p.rec(VIS)["fields"]:
        d[f["n"]] = mk("sym", f["n"], f["t"])
    d["declared_values_"] = mk("list", *declared)
    d["operations_"] = mk("list")
    d["non_traversable_blocks_"] = mk("list")
    if signature is not None:
        d["signature_"] = signature
    return obj(VIS, d)
