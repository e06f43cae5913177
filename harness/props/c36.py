import ast
import ctypes
import enum

from hypothesis import strategies as st

import gen
import ref
from core import Sub, call, eq, require, sut
from world import AS, GA, IA, decode, encode, make_state

ID = "C36"
ASSUME = ["A type is made as the package makes its own: a union of its fields and its value of one, two or four octets, less than a byte meaning at most six bits, or a subclass of one of the package's types.",
          "The dictionary factory knows the package's types only."]
C = {1: ctypes.c_uint8, 2: ctypes.c_uint16, 4: ctypes.c_uint32}


def getter(f, names):
    return lambda self: names(getattr(self.bits, f)) if names else getattr(self.bits, f)


def setter(f, names):
    def put(self, v):
        setattr(self.bits, f, int(getattr(names, v)) if names else v)
    return put


def build(t):
    """A datapoint type of a program's own."""
    K = sut().datapointtypes
    name, base = t["name"], t["base"]
    attrs = {}
    fields = layout(t)
    for f in fields:
        if f.names is not None:
            attrs[f.name + "Names"] = enum.IntEnum(f.name + "Names", {n: v for v, n in f.names.items()})
        if f.shown:
            e = attrs.get(f.name + "Names")
            attrs[f.name] = property(getter(f.name, e), setter(f.name, e))
    if base:
        return type(getattr(K, base))(name, (getattr(K, base),), attrs if base in ref.SHORT else {})
    bits = type(ctypes.LittleEndianStructure)("_" + name, (ctypes.LittleEndianStructure,), {"_fields_": [(f.name, ctypes.c_uint8, f.width) for f in fields]})
    attrs["_fields_"] = [("bits", bits), ("value", C[t["size"]])]
    if t["short"] or t["flag"]:
        attrs["length"] = K.DPT.Length.LESS_THAN_A_BYTE if t["short"] else K.DPT.Length.A_BYTE_OR_MORE
    return type(ctypes.Union)(name, (ctypes.Union, K.DPT), attrs)


def layout(t):
    """Its fields, lowest bits first."""
    out, lo = [], 0
    if t["base"]:
        return []
    for i, (width, names, shown) in enumerate(t["fields"]):
        if lo // 8 != (lo + width - 1) // 8 and lo % 8:
            lo += 8 - lo % 8  # fields do not cross octets
        f = ref.F(t["words"][i], lo, width, {v: n for v, n in enumerate(names)} if names else None)
        f.shown = shown
        out.append(f)
        lo += width
    return out


def described(t, raw):
    d = {}
    for f in layout(t):
        if f.shown:
            d[f.name] = f.names[f.get(raw)] if f.names else f.get(raw)
    return d


def judge_value(t, cls, what, d, raw):
    K = sut().datapointtypes
    require(type(d) is cls, "%s: %r instead of the program's type", what, type(d))
    if t["base"]:
        plain = getattr(K, t["base"])()
        plain.value = d.value
        want = K.Description_Factory.make(plain)[1]
    else:
        for f in layout(t):
            eq("%s: field %s" % (what, f.name), int(getattr(d.bits, f.name)), f.get(raw))
            if f.shown:
                eq("%s: %s" % (what, f.name), int(getattr(d, f.name)), f.get(raw))
        want = described(t, raw) or {"value": d.value}
    if not t["short"]:
        eq("%s: value" % what, d.value, raw)
    name, fields = call("describing", K.Description_Factory.make, d)
    eq("%s: name in the description" % what, name, t["name"])
    bound = repr if t["base"] else dict  # not a number is not equal to itself
    eq("%s: description" % what, bound(fields), bound(want))
    text = call("printing", repr, d)
    head, _, rest = text.partition(" ")
    eq("%s: printed name" % what, head.rstrip(":"), t["name"])
    eq("%s: printed fields" % what, rest if t["base"] else ast.literal_eval(rest), bound(want))
    return text


def check(case, ctx):
    K = sut()
    types = [(t, build(t)) for t in case["types"]]
    at = K.AddressTable(IA(0x1101), [], 255)
    assoc = K.AssociationTable(at, [])
    got = K.GroupObjectTable({AS(1): types[0][1]} if case["initial"] else None)
    for i, (t, cls) in enumerate(types):
        call("associating", assoc.associate, AS(i + 1), [GA(case["dst"] + i)])
        call("giving a type", got.associate, AS(i + 1), cls)
    text = call("printing the table", repr, got)
    eq("printed types", [l.split(" -> ")[1] for l in text.splitlines()[1:] if l.strip()], [t["name"] for t, _ in types])
    for i, kind, raw, medium in case["ops"]:
        i %= len(types)
        t, cls = types[i]
        state = make_state(medium, assoc, got)
        bits = 6 if t["short"] else 8 * t["size"]
        raw &= (1 << bits) - 1
        dst = case["dst"] + i
        octets = b"" if t["short"] else raw.to_bytes(t["size"], "big")
        if kind in ("send", "ind"):
            d = cls()
            d.value = raw
            judge_value(t, cls, "a new %s" % t["name"], d, raw)
            if not t["base"] and case["by_field"]:
                d = cls()
                raw2 = 0
                for f in layout(t):
                    v = f.get(raw)
                    if f.shown:
                        setattr(d, f.name, f.names[v] if f.names else v)
                        raw2 = f.put(raw2, v)
                eq("value of a %s set field by field" % t["name"], d.value, raw2)
                raw, octets = raw2, b"" if t["short"] else raw2.to_bytes(t["size"], "big")
            m = getattr(K.layer.application.a_group_value_write, "req" if kind == "send" else "ind").Msg(asap=AS(i + 1), dpt=d)
            c = ref.cemi(ref.REQ if kind == "send" else ref.IND, ref.ldata(0x96, 0xE0, 0, dst, ref.apdu(ref.WRITE | (raw if t["short"] else 0), octets)))
            eq("frame of a %s %#x" % (t["name"], raw), encode(state, m).hex(), ref.wrap(medium, c).hex())
        else:
            service = ref.WRITE if kind == "write" else ref.RESPONSE
            c = ref.cemi(ref.IND, ref.ldata(0xBC, 0xE0, 0x1203, dst, ref.apdu(service | (raw if t["short"] else 0), octets)))
            if medium == "tp":
                medium = "usb"
                state = make_state(medium, assoc, got)
            r = decode(state, medium, ref.wrap(medium, c))[1 if medium == "ip" else 0:]
            eq("messages of a telegram for a %s" % t["name"], len(r), 1)
            eq("its access point", r[0].asap.value, i + 1)
            text = judge_value(t, cls, "a received %s" % t["name"], r[0].dpt, raw)
            p = call("printing a message", repr, r[0])
            require(t["name"] in p, "%s is not in %s", t["name"], p)
    ctx.label("fields", sum(len(layout(t)) for t, _ in types))
    ctx.nontrivial(any(raw for _, _, raw, _ in case["ops"]))


WORDS = ["level", "mode", "scene", "alarm", "index", "zeit", "heating", "a", "fan", "x1", "decoded", "colour", "red", "status_", "lock", "Level", "PRESET", "name", "size", "type", "maxValue", "_spare", "größe", "count", "encoded"]


@st.composite
def a_type(draw, n):
    base = draw(gen.weighted((3, st.none()), (1, st.sampled_from(["DPT_Float_16", "DPT_Value_Temp", "DPT_Float_32", "DPT_Brightness", "DPT_Switch", "DPTSetupClima", "DPT_Control_Dimming"]))))
    name = draw(st.sampled_from(["DPT_Percent", "DPT_Mode", "Rollo", "DPT_Colour", "MyType", "DPT_Value_Temp2", "DPT_Switch"])) + draw(st.sampled_from(["", str(n)]))
    short, size = draw(st.booleans()), 1
    if base:
        size = {"DPT_Float_16": 2, "DPT_Float_32": 4}.get(base) or ref.DPTS[base].size
        short = base in ref.SHORT
    elif not short:
        size = draw(st.sampled_from([1, 2, 2, 4, 4]))
    fields, room = [], 6 if short else 8 * size
    most = draw(st.integers(1, 8))
    while not base and room > 0 and len(fields) < most:
        w = draw(st.integers(1, min(8, room)))
        used = (6 if short else 8 * size) - room
        if used % 8 and used % 8 + w > 8:
            w = 8 - used % 8
        names = None
        if w <= 2 and draw(st.booleans()):
            names = ["n%d" % i for i in range(1 << w)]
            names[0] = draw(st.sampled_from(["off", "none", "auto", "Auto", "OFF", "Aus_1"]))
            if draw(st.integers(0, 3)) == 0:
                names[1] = draw(st.sampled_from(["ON", "on", "Ein", "größer", "_on"]))
        fields.append([w, names, draw(gen.weighted((4, st.just(True)), (1, st.just(False))))])
        room -= w
    return {"name": name, "base": base, "short": short, "size": size, "fields": fields, "flag": draw(st.booleans()),
            "words": draw(st.permutations(WORDS))[:len(fields)]}


@st.composite
def cases(draw):
    n = draw(st.integers(1, 3))
    op = st.tuples(st.integers(0, 2), st.sampled_from(["send", "send", "ind", "write", "write", "response"]), st.integers(0, 2 ** 32 - 1), st.sampled_from(["usb", "ip", "tp"])).map(list)
    return {"types": [draw(a_type(i)) for i in range(n)], "dst": draw(st.integers(1, 0xFF00)), "initial": draw(st.booleans()), "by_field": draw(st.booleans()),
            "ops": draw(gen.some(op, 2, 8))}


SUBS = [Sub("own types", check, "a value other than zero", cases, quick=1500)]
