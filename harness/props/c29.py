import ast
import math
import re

from hypothesis import strategies as st

import gen
import ref
from core import Sub, Violation, call, eq, require, sut
from props import c20
from props.c06 import request
from world import AS, GA, World, decode, dpt_of, make_state, observe, ref_cemi

ID = "C29"
ASSUME = ["An access point has one name throughout a case; statuses of KNXnet/IP messages print as their name or number.",
          "The order of a datapoint's fields is not stated."]


def ga_text(n):
    return "(0x%04X %d/%d %d/%d/%d)" % (n, n >> 11, n & 0x7FF, n >> 11, n >> 8 & 7, n & 255)


def asap_text(a, names):
    return "%d (%s)" % (a, names[a]) if names.get(a) else "%d" % a


def table_text(w):
    s = "AddressTable: individual address: 0x%04X, max_size=%d\n\n    tsap -> individual address\n    0 -> 0x%04X\n" % (w.ia, w.cap, w.ia)
    s += "    tsap -> group address (hex_free_style two_level_style three_level_style)\n"
    return s + "".join("    %d -> %s\n" % (i + 1, ga_text(g)) for i, g in enumerate(w.groups))


def lines_of(text, head):
    """The entries of one listing, by their left side."""
    lines = text.split("\n")
    require(lines and lines[0] == head and lines[-1] == "", "printed %r", text)
    return lines[1:-1]


class Named(World):
    """A world whose access points carry names."""

    def __init__(self, cfg, names):
        self.names = names
        K = sut()
        given = {"groups": [GA(g) for g in cfg["groups"]], "assoc": [], "dpts": {self.point(a): getattr(K.datapointtypes, n) for a, n in cfg["dpts"]}}
        super().__init__(dict(cfg, assoc=[], ops=[]), given)
        for a, g in cfg["assoc"]:
            self.apply(["a", a, [g]])
        for op in cfg["ops"]:
            self.apply(op)

    def point(self, a):
        return AS(a, self.names.get(a))

    def apply(self, op):
        if op[0] == "a":
            return super().apply(op[:3] + [self.names.get(op[1])])
        if op[0] == "dpt":
            self.got.associate(self.point(op[1]), getattr(sut().datapointtypes, op[2]))
            self.dpts[op[1]] = op[2]
            return "dpt"
        return super().apply(op)


def check_tables(w):
    for f in (repr, str):
        eq("printed address table", call("printing the address table", f, w.table), table_text(w))
        text = call("printing the association table", f, w.at)
        tail = table_text(w)
        require(text.endswith(tail), "the association table prints as %r, with %r expected at its end", text, tail)
        lines = lines_of(text[:len(text) - len(tail)], "AssociationTable: asap -> addresses")
        names = w.names
        must = {"    %s -> [%s]" % (asap_text(a, names), ", ".join(map(ga_text, w.assoc[a]))) for a in w.assoc if w.assoc[a]}
        may = {"    %s -> []" % asap_text(a, names) for a in w.assoc if not w.assoc[a]}
        rest = [l for l in lines if l not in may and not l.startswith("    0 ")]
        eq("association lines printed", sorted(rest), sorted(must))
        require(len(lines) == len(set(lines)), "lines printed twice: %r", lines)
        want = ["    %s -> %s" % (asap_text(a, names), n) for a, n in w.dpts.items()]
        lines = lines_of(call("printing the group object table", f, w.got), "GroupObjectTable: ASAP -> datapointtype")
        eq("group object lines printed", sorted(lines), sorted(want))


def same_number(a, b):
    return a == b or (isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b))


def check_dpt(text, name, dpt):
    """`name {...}` or `name: {...}` with exactly the described fields."""
    K = sut()
    m = re.fullmatch(re.escape(name) + r":? (\{.*\})", text)
    require(m, "a %s prints as %r", name, text)
    try:
        got = ast.literal_eval(re.sub(r"(?<=: )(-?)(nan|inf)(?=[,}])", r"\g<1>1e999", m.group(1)))
    except (ValueError, SyntaxError):
        raise Violation("a %s prints as %r" % (name, text))
    d = ref.DPTS[name]
    raw = dpt.value
    eq("fields printed by %r" % text, sorted(got), sorted(f.name for f in d.fields) if d.kind == "packed" else ["value"] if d.kind == "plain" else ["decoded_value"])
    for f in d.fields:
        v = f.get(raw)
        if f.names and v not in f.names:
            continue  # reserved
        want = v / f.div if f.div else f.names.get(v, v) if f.names else v
        require(abs(got[f.name] - want) < 1e-9 if f.div else got[f.name] == want, "%s of %#x printed as %r, expected %r", f.name, raw, got[f.name], want)
    if d.kind == "plain":
        eq("value printed", got["value"], raw)
    if d.kind.startswith("float"):
        v = dpt.decode()
        if math.isfinite(v):
            require(same_number(got["decoded_value"], v), "decoded value printed as %r, expected %r", got["decoded_value"], v)
        else:
            require(str(v) in text, "%r for the value %r", text, v)


KINDS = {"Read": "Read", "Resp": "Response", "Write": "Write"}


def check_message(m, names):
    o = observe(m)
    k = o["kind"]
    text = call("printing a message", repr, m)
    eq("str and repr of a message", call("printing a message", str, m), text)
    if k.startswith("Group") or k.startswith("Prop"):
        stem = "GroupValue" if k.startswith("Group") else "PropertyValue"
        svc = next(v for s, v in KINDS.items() if s in k)
        head = stem + svc + k[-3:]
        status = " status %d" % o["status"] if k.endswith("Con") else ""
    if k.startswith("Group"):
        pre, post = "%s%s (" % (head, status), " for asap %s)" % asap_text(o["asap"], names)
        require(text.startswith(pre) and text.endswith(post), "%r, expected %r ... %r", text, pre, post)
        check_dpt(text[len(pre):-len(post)], o["dpt"], m.dpt)
    elif k.startswith("Prop"):
        data = " " + o["data"].upper() if "data" in o else ""
        want = "%s%s%s (object index %d, property id %d, number of elements %d, start index %d for asap " % (head, data, status, o["oi"], o["pid"], o["noe"], o["si"])
        require(text.startswith(want) and text.endswith(")"), "%r, expected %r", text, want)
    else:
        head = {"TunReq": "TunnelingReq", "TunAck": "TunnelingAck", "ConnstateRes": "ConnectionstateRes"}.get(k, k)
        if head not in ("ConnectionStatus", "EMIType"):
            require(text.startswith(head + "("), "%r, expected %s(...)", text, head)
            for field, want in (("ip=", o.get("ip")), ("port=", o.get("port")), ("sequence counter=", o.get("seq"))):
                if want is not None:
                    require(re.search(r"[( ]%s%s[,)]" % (field, re.escape(str(want))), text), "%r without %s%s", text, field, want)
            if o.get("ia") is not None:
                require("individual address=0x%04X" % o["ia"] in text, "%r without 0x%04X", text, o["ia"])
    return k


def check(case, ctx):
    names = {a: n for a, n in case["names"] if n is not None}
    w = Named(case["tables"], names)
    check_tables(w)
    m = case["medium"]
    state = make_state(m, w.at, w.got)
    n = 0
    for op in case["ops"]:
        if op[0] == "rx":
            data = c20.build(w, m, op[1])
            if data is None:
                continue
            if m == "ip":
                state.sequence_counter_remote = op[1]["seq"]
            for x in decode(state, m, data):
                ctx.label(check_message(x, names))
                n += 1
        else:
            w.apply(op)
            check_tables(w)
            ctx.label("table change")
    ctx.nontrivial(n > 0 and len(w.groups) > 1 and len(names) > 0)


def check_request(case, ctx):
    """Requests of a program."""
    K = sut()
    a = K.layer.application
    names = {case["asap"]: case["name"]} if case["name"] else {}
    A = AS(case["asap"], case["name"])
    raw = case["raw"] & ref.DPTS[case["dpt"]].maxraw
    d = dpt_of(case["dpt"], raw)
    tail = " for asap %s)" % asap_text(case["asap"], names)
    for f in (repr, str):
        eq("read request", f(a.a_group_value_read.req.Msg(asap=A)), "GroupValueReadReq (for asap %s)" % asap_text(case["asap"], names))
        t = f(a.a_group_value_write.req.Msg(asap=A, dpt=d))
        require(t.startswith("GroupValueWriteReq (") and t.endswith(tail), "%r, expected ...%r", t, tail)
        check_dpt(t[len("GroupValueWriteReq ("):-len(tail)], case["dpt"], d)
        oi, pid, noe, si = case["prop"]
        p = dict(asap=A, object_index=oi, property_id=pid, number_of_elements=noe, start_index=si)
        body = "(object index %d, property id %d, number of elements %d, start index %d%s" % (oi, pid, noe, si, tail)
        eq("property read request", f(a.a_property_value_read.req.Msg(**p)), "PropertyValueReadReq " + body)
        eq("property write request", f(a.a_property_value_write.req.Msg(data=case["data"], **p)), "PropertyValueWriteReq %s %s" % (case["data"], body))
        c = K.knxnet_ip.core
        e1, e2 = case["ends"]
        eq("search request", f(c.search.req.Msg(*e1)), "SearchReq (%s:%d)" % tuple(e1))
        eq("connect request", f(c.connect.req.Msg(*(e1 + e2))), "ConnectReq (control endpoint = %s:%d data endpoint %s:%d)" % tuple(e1 + e2))
        eq("connection-state request", f(c.connectionstate.req.Msg(*e1)), "ConnectionstateReq (control endpoint = %s:%d)" % tuple(e1))
        eq("disconnect request", f(c.disconnect.req.Msg(*e1)), "DisconnectReq (control endpoint = %s:%d)" % tuple(e1))
    ctx.label(case["dpt"])
    ctx.nontrivial(bool(case["name"]) and raw > 0)


NAMES = st.one_of(st.none(), st.sampled_from(["", "lamp", "floor light (2)", "{}", "%s %d", "ü", "a -> b"]), st.text(st.characters(codec="utf8", exclude_characters="\n\r"), max_size=8))


@st.composite
def cases(draw):
    cfg = draw(gen.config(max_ops=3))
    cfg["assoc"] = cfg["assoc"] if cfg["cap"] > 9 else []
    a = cfg["asaps"][0]
    m = draw(st.sampled_from(["usb", "ip"]))
    if all(d[0] != a for d in cfg["dpts"]):
        cfg["dpts"].append([a, draw(gen.name)])
    cfg["ops"] = [["a", a, [draw(st.sampled_from(cfg["pool"]))]]] + cfg["ops"]
    f = gen.weighted((3, c20.deliverable()), (1, c20.frame(m)))
    op = gen.weighted((3, st.tuples(st.just("rx"), f)), (2, gen.table_op(st.sampled_from(cfg["asaps"]), st.sampled_from(cfg["pool"])))).map(list)
    return {"tables": cfg, "medium": m, "names": [[x, draw(NAMES)] for x in cfg["asaps"]], "ops": draw(gen.some(op, 3, 10))}


def requests():
    end = st.tuples(gen.ipv4, gen.port).map(list)
    return st.fixed_dictionaries({"asap": st.integers(0, 70000), "name": NAMES, "dpt": gen.name, "raw": st.integers(0, 2 ** 32 - 1), "data": gen.long_hexes(0, 8, 200).map(str.upper),
                                  "prop": st.tuples(gen.byte, gen.byte, st.integers(0, 15), st.integers(0, 4095)).map(list), "ends": st.tuples(end, end).map(list)})


SUBS = [Sub("history", check, "a message, two addresses and a named access point", cases, quick=1500),
        Sub("requests", check_request, "a named access point and a value other than zero", requests, quick=1500)]
