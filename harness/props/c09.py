from hypothesis import strategies as st

import gen
import ref
from core import Sub, eq, refused, require, sut
from world import AS, World, encode, frame_bytes, make_state

ID = "C09"
ASSUME = ["255 octets is taken for a length a frame can have, although KNX reserves the code."]


def states(case):
    world = World(case["tables"])
    out = {m: make_state(m, world.at, world.got) for m in ("usb", "ip", "tp")}
    out["ip"].communication_channel_id = case["chan"]
    out["ip"].sequence_counter_local = case["seq"]
    out["ip"].sequence_counter_remote = case["seq"] * 5 + 255 & 255
    return world, out


def check_prop(case, ctx):
    world, sts = states(case)
    a = sut().layer.application
    for asap, ia, oi, pid, noe, si, data in case["reqs"]:
        if ia is not None:
            world.apply(["ia", ia])
        r = a.a_property_value_read.req.Msg(asap=AS(asap), object_index=oi, property_id=pid,
                                            number_of_elements=noe, start_index=si)
        w = a.a_property_value_write.req.Msg(asap=AS(asap), object_index=oi, property_id=pid,
                                             number_of_elements=noe, start_index=si, data=data)
        for m, state in sts.items():
            want = ref.wrap(m, ref.out_individual(ref.prop_apdu(ref.PREAD, oi, pid, noe, si), world.ia), case["chan"], case["seq"])
            eq("property read over %s" % m, encode(state, r).hex(), want.hex())
            n = len(data) // 2
            if n + 5 > 255 or m == "usb" and n + 23 > 255:
                require(refused(sut().encode_msg, state, w), "%d data octets, more than the lengths in a frame over %s can count, were not refused", n, m)
                ctx.label("more than fits")
                continue
            want = ref.wrap(m, ref.out_individual(ref.prop_apdu(ref.PWRITE, oi, pid, noe, si, bytes.fromhex(data)), world.ia),
                            case["chan"], case["seq"])
            eq("property write over %s" % m, encode(state, w).hex(), want.hex())
        ctx.nontrivial(len({oi, pid, noe, si, 0}) >= 4)
        ctx.label("%d data octets" % (len(data) // 2) if len(data) < 4 else "2+ data octets")


def check_transport(case, ctx):
    world, sts = states(case)
    t = sut().encode.layer.transport
    K = sut()
    if case["ia"] is not None:
        world.apply(["ia", case["ia"]])
    for m, state in sts.items():
        cls = K.knxnet_ip.Msg if m == "ip" else K.Msg
        for req, tpci in ((t.t_connect, 0x80), (t.t_disconnect, 0x81)):
            got = frame_bytes(req.req.encode(state, cls([])))
            want = ref.wrap(m, ref.out_individual(bytes([tpci]), world.ia), case["chan"], case["seq"])
            eq("control frame %#x over %s" % (tpci, m), got.hex(), want.hex())
    ctx.nontrivial(True)


@st.composite
def base(draw):
    return {"tables": draw(gen.config(max_ops=2)), "chan": draw(gen.byte), "seq": draw(gen.byte)}


def edge(bits):
    hi = (1 << bits) - 1
    return st.one_of(st.integers(0, hi), st.sampled_from([0, 1, hi, hi - 1, 1 << (bits - 1)]))


@st.composite
def s_prop(draw):
    c = draw(base())
    c["reqs"] = draw(st.lists(st.tuples(
        st.integers(0, 9), st.one_of(st.none(), gen.address), edge(8), edge(8), edge(4), edge(12), gen.weighted((20, gen.long_hexes(0, 10, 232)), (1, gen.long_hexes(225, 260, 400, 4)))).map(list),
        min_size=1, max_size=3))
    return c


@st.composite
def s_transport(draw):
    c = draw(base())
    c["ia"] = draw(st.one_of(st.none(), gen.word))
    return c


SUBS = [
    Sub("property requests", check_prop, "at least three different non-zero fields", s_prop, quick=2000),
    Sub("transport control", check_transport, "each case", s_transport, quick=400),
]
