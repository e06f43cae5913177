import math
import struct

from hypothesis import strategies as st

import gen
import ref
from core import Sub, call, eq, require
from props.c06 import request
from props.c08 import carry, unwrap
from world import World, decode, dpt_class, encode, make_state

ID = "C12"
ASSUME = ["Numbers are taken up to the largest finite single; what happens beyond is not stated."]
T = "DPT_Value_Power"
FMAX = struct.unpack(">f", b"\x7f\x7f\xff\xff")[0]


def bits(v):
    return struct.unpack(">I", struct.pack(">f", v))[0]


def single(raw):
    return struct.unpack(">f", raw.to_bytes(4, "big"))[0]


def same(a, b):
    return math.isnan(a) and math.isnan(b) or (a == b and math.copysign(1, a) == math.copysign(1, b))


def check_raw(case, ctx):
    raw = case["raw"]
    d = dpt_class(T)()
    d.value = raw
    v = call("decoding", d.decode)
    want = single(raw)
    require(isinstance(v, float) and same(v, want), "%#010x decodes to %r, not %r", raw, v, want)
    eq("raw value after decoding", d.value, raw)
    if math.isfinite(want):
        e = dpt_class(T)()
        e.value = case["before"]
        call("encoding %r" % v, e.encode, v)
        eq("raw value after encoding %r" % v, e.value, raw)
    # on the bus
    world = World({"ia": 0x1001, "cap": 5, "assoc": [[1, case["dst"]]], "dpts": [[1, T]], "ops": []})
    m = case["medium"]
    state = make_state(m, world.at, world.got)
    c = unwrap(m, encode(state, request("write", 1, T, raw)))
    eq("octets on the bus", c[-4:].hex(), "%08x" % raw)
    peer = "ip" if m == "usb" else "usb"
    rx = make_state(peer, world.at, world.got)
    got = decode(rx, peer, ref.wrap(peer, carry(c, ref.IND, 0x1203, b"")))
    vals = [x.dpt for x in got if hasattr(x, "dpt")]
    eq("messages", len(vals), 1)
    eq("value received by the peer", vals[0].value, raw)
    require(same(vals[0].decode(), want), "the peer reads %r, not %r", vals[0].decode(), want)
    kind = "nan" if math.isnan(want) else "inf" if math.isinf(want) else "subnormal" if 0 < abs(want) < 2 ** -126 else "normal"
    ctx.label(kind)
    ctx.nontrivial(len(set(raw.to_bytes(4, "big"))) >= 3)


def check_number(v, ctx):
    d = dpt_class(T)()
    call("encoding %r" % v, d.encode, v)
    eq("bits of %r" % v, d.value, bits(v))
    eq("number decoded after encoding %r" % v, d.decode(), single(bits(v)))
    ctx.label("exact" if single(bits(v)) == v else "rounded")
    ctx.nontrivial(v != 0)


def raws():
    r = st.one_of(gen.raw_for(T), st.floats(width=32).map(bits), st.sampled_from(
        [0x7F800000, 0xFF800000, 0x7FC00000, 0x7F800001, 0xFFFFFFFF, 0x80000000, 1, 0x80000001, 0x7F7FFFFF, 0x00800000, 0x3F800000]))
    return st.fixed_dictionaries({"raw": r, "before": st.integers(0, 2 ** 32 - 1), "dst": gen.address, "medium": st.sampled_from(["usb", "ip"])})


def numbers():
    return st.one_of(st.floats(min_value=-FMAX, max_value=FMAX), st.floats(-1e6, 1e6), st.integers(-2 ** 60, 2 ** 60),
                     st.integers(0, 2 ** 32 - 1).map(lambda r: single(r) if math.isfinite(single(r)) else 1.5).flatmap(
                         lambda v: st.sampled_from([v, v * (1 + 2 ** -25), v * (1 - 2 ** -25), v * (1 + 2 ** -24)])).filter(lambda v: abs(v) <= FMAX))


SUBS = [
    Sub("raw values", check_raw, "at least three different octets", raws, quick=4000),
    Sub("numbers", check_number, "not zero", numbers, quick=12000),
]
