import struct

from hypothesis import strategies as st

import gen
import ref
from core import Sub, call, eq, require, sut
from world import frame_bytes

ID = "C27"
ASSUME = ["Setting a transport service is stated for frames whose address type (and, for broadcast and group, destination) is that of the service; for connected data, acknowledge and negative acknowledge the sequence number stays as it is.",
          "The application code is the ten bits shared by the transport and application octets; the data is the low six bits of the application octet.",
          "What follows the application octet is returned; when nothing follows, the application octet itself or nothing may be returned."]
NAMES = ["T_Data_Broadcast_PDU", "T_Data_Group_PDU", "T_Data_Tag_Group_PDU", "T_Data_Individual_PDU", "T_Data_Connected_PDU", "T_Connect_PDU", "T_Disconnect_PDU",
         "T_ACK_PDU", "T_NACK_PDU"]


def classify(group, dst, tpci):
    """03_03_04 Transport Layer: the service of a transport octet."""
    control, numbered, seq, low = tpci >> 7, tpci >> 6 & 1, tpci >> 2 & 15, tpci & 3
    if group:
        if control or numbered:
            return None
        if seq == 0:
            return "T_Data_Broadcast_PDU" if dst == 0 else "T_Data_Group_PDU"
        return "T_Data_Tag_Group_PDU" if seq == 1 else None
    if not control:
        if numbered:
            return "T_Data_Connected_PDU"
        return "T_Data_Individual_PDU" if seq == 0 else None
    return {(0, 0): "T_Connect_PDU", (0, 1): "T_Disconnect_PDU", (1, 2): "T_ACK_PDU", (1, 3): "T_NACK_PDU"}.get((numbered, low))


def set_service(tpci, name):
    """Transport octet after setting a service."""
    control, numbered, seq, low = {"T_Data_Broadcast_PDU": (0, 0, 0, None), "T_Data_Group_PDU": (0, 0, 0, None), "T_Data_Tag_Group_PDU": (0, 0, 1, None),
                                   "T_Data_Individual_PDU": (0, 0, 0, None), "T_Data_Connected_PDU": (0, 1, None, None), "T_Connect_PDU": (1, 0, None, 0),
                                   "T_Disconnect_PDU": (1, 0, None, 1), "T_ACK_PDU": (1, 1, None, 2), "T_NACK_PDU": (1, 1, None, 3)}[name]
    tpci = tpci & 0x3F | control << 7 | numbered << 6
    if seq is not None:
        tpci = tpci & ~0x3C | seq << 2
    if low is not None:
        tpci = tpci & ~3 | low
    return tpci


def nsdu(l):
    n = call("classifying", lambda: l.nsdu)
    return None if n is None else n.name


def view(l):
    """Everything a frame says about itself."""
    def f():
        return {"source": l.source, "destination": l.destination, "group": int(l.address_type), "status": int(l.status), "tpci": l.tpci, "apci": l.apci,
                "low": l.apci_value, "data": l.data, "connected": bool(l.connected)}
    v = call("reading a frame's fields", f)
    v["nsdu"] = nsdu(l)
    return v


def want_view(f):
    c1, c2, src, dst, tpci, low = f
    return {"source": src, "destination": dst, "group": c2 >> 7, "status": c1 & 1, "tpci": tpci, "apci": (tpci & 3) << 8 | low, "low": low, "data": low & 0x3F,
            "connected": tpci >= 128, "nsdu": classify(c2 >> 7, dst, tpci)}


def parse(f, rest, control=False):
    c1, c2, src, dst, tpci, low = f
    body = bytes([tpci]) if control else bytes([tpci, low]) + rest
    data = bytes([c1, c2]) + struct.pack(">HHB", src, dst, len(body) - 1) + body
    K = sut()
    L = K.layer.L_Data
    m = K.Msg.make_from_str(data.hex())
    l, r = call("parsing %s" % data.hex(), L.make_from, m)
    want = want_view((c1, c2, src, dst, tpci, 0 if control else low))
    eq("fields of %s" % data.hex(), view(l), want)
    r = frame_bytes(r)
    if rest and not control:
        eq("octets after the header of %s" % data.hex(), r.hex(), rest.hex())
    else:
        require(r == b"" or (not control and r == bytes([low])), "octets after the header of %s: %s", data.hex(), r.hex())
    eq("the message itself", frame_bytes(m).hex(), data.hex())
    return l


def check(case, ctx):
    rest = bytes.fromhex(case["rest"])
    f = case["frame"]
    control = case["control"] and f[4] >= 128
    l = parse(f, rest, control)
    cur = list(f)
    if control:
        cur[5] = 0
    K = sut()
    N = K.layer.NSDU
    A = K.layer.AddressType
    if case["fresh"]:  # a frame under construction instead
        l = call("a new frame", K.layer.L_Data)
        v = view(l)
        eq("addresses and codes of a new frame", [v[k] for k in ("source", "destination", "group", "tpci", "apci", "status")], [0] * 6)
        cur = [0, 0, 0, 0, 0, 0]
    sets = 0
    for op in case["ops"]:
        k = op[0]
        if k == "nsdu":
            name = NAMES[op[1]]
            group = name in NAMES[:3]
            l.address_type = A.group if group else A.individual
            cur[1] = cur[1] & 0x7F | group << 7
            if op[1] == 0 or (op[1] == 1 and cur[3] == 0):
                cur[3] = 0 if op[1] == 0 else 0x0901
                l.destination = cur[3]
            call("setting the service", setattr, l, "nsdu", N[name])
            cur[4] = set_service(cur[4], name)
            eq("service after setting it", nsdu(l), name)
        elif k == "apci":
            call("setting the application code", setattr, l, "apci", op[1])
            cur[4] = cur[4] & 0xFC | op[1] >> 8
            cur[5] = op[1] & 0xFF
            eq("application code after setting it", l.apci, op[1])
        elif k == "data":
            call("setting the data", setattr, l, "data", op[1])
            cur[5] = cur[5] & 0xC0 | op[1]
            eq("data after setting it", l.data, op[1])
        elif k == "type":
            call("setting the address type", setattr, l, "address_type", A(op[1]))
            cur[1] = cur[1] & 0x7F | op[1] << 7
        elif k == "dst":
            call("setting the destination", setattr, l, "destination", op[1])
            cur[3] = op[1]
        elif k == "src":
            call("setting the source", setattr, l, "source", op[1])
            cur[2] = op[1]
        sets += 1
        eq("fields after %r" % (op,), view(l), want_view(cur))
        ctx.label("set " + k)
    ctx.label("parsed %s" % classify(f[1] >> 7, f[3], f[4]))
    ctx.nontrivial(sets > 0)


def check_class(case, ctx):
    """Every transport octet, both address types, some destinations and application octets."""
    tpci, group = case
    for dst in (0, 1, 0x0100, 0xFFFF):
        for c1 in (0xBC, 0x01):
            for low in (0, 0x81, 0xFF):
                parse([c1, (group << 7) | 0x60, 0x1101, dst, tpci, low], b"")
                parse([c1, (group << 7) | 0x0F, 0xFFFF, dst, tpci, low], b"\x00\x12")
            if tpci >= 128:
                parse([c1, (group << 7) | 0x60, 0x1101, dst, tpci, 0], b"", True)
    ctx.nontrivial(True)


def classes():
    for tpci in range(256):
        for group in (0, 1):
            yield [tpci, group]


@st.composite
def cases(draw):
    b, w = gen.byte, gen.word
    frame = st.tuples(b, b, w, gen.weighted((3, w), (1, st.just(0))), b, b).map(list)
    op = gen.weighted((3, st.tuples(st.just("nsdu"), st.integers(0, 8))), (3, st.tuples(st.just("apci"), st.integers(0, 1023))),
                      (2, st.tuples(st.just("data"), st.integers(0, 63))), (1, st.tuples(st.just("type"), st.integers(0, 1))),
                      (1, st.tuples(st.just("dst"), w)), (1, st.tuples(st.just("src"), w))).map(list)
    return {"frame": draw(frame), "rest": draw(gen.hexes(0, 240)) if draw(st.integers(0, 9)) == 0 else draw(gen.hexes(0, 14)),
            "control": draw(st.booleans()), "fresh": draw(st.booleans()), "ops": draw(st.lists(op, max_size=8))}


SUBS = [Sub("fields and setters", check, "at least one field set after parsing", cases, quick=4000),
        Sub("every transport octet", check_class, "all", cases=classes)]
