import struct

from hypothesis import strategies as st

import gen
import ref
from core import Sub, require, sut
from props.c06 import request
from world import World, compare, decode, encode, make_state

ID = "C08"
ASSUME = ["The bus between the stacks turns a request into an indication or confirmation by changing the message code, and sets the source address; the rest is carried unchanged."]


def unwrap(medium, data):
    c = ref.unusb(data) if medium == "usb" else (ref.untun(data) or [None] * 4)[3]
    require(c is not None, "frame %s is not framed as its lengths say", data.hex())
    return c


def carry(c, code, src, info):
    """What a gateway makes of a request."""
    require(len(c) >= 10 and c[0] == ref.REQ, "request %s is not a link-layer data request", c.hex())
    ld = c[2 + c[1]:]
    return ref.cemi(code, ld[:2] + struct.pack(">H", src) + ld[4:], info)


def expect(world, dst, svc, suffix, name, raw):
    out = []
    for a in world.typed(dst):
        n = world.dpts[a]
        rd = ref.reading(n, ref.DPTS[name].wire_raw(raw)) if svc == "Write" and n == name else None
        m = {"kind": "Group" + svc + suffix, "asap": a, "dpt": n, "reading": rd}
        if suffix == "Con":
            m["status"] = 0
        out.append(m)
    return out


def rx(world, state, medium, c, want, seq):
    if medium == "ip":
        state.sequence_counter_remote = seq
        data = ref.tun_req(9, seq, c)
        want = [{"kind": "TunReq", "seq": seq, "status": 0}] + want
    else:
        data = ref.usb(c)
    compare("carried frame %s" % c.hex(), decode(state, medium, data), want)


def check(case, ctx):
    tx, rxw = World(case["tx"]), World(case["rx"])
    mt, mr = case["media"]
    st_tx, st_rx = make_state(mt, tx.at, tx.got), make_state(mr, rxw.at, rxw.got)
    reached = 0
    for asap in sorted(tx.assoc):
        if not tx.assoc[asap]:
            continue
        dst = tx.assoc[asap][0]
        src = case["src"]
        name = tx.dpts.get(asap)
        for kind in ("read", "write"):
            if kind == "write" and not name:
                continue
            raw = case["raw"] & ref.DPTS[name].maxraw if name else 0
            data = encode(st_tx, request(kind, asap, name, raw))
            c = unwrap(mt, data)
            svc = kind.capitalize()
            ind = expect(rxw, dst, svc, "Ind", name, raw)
            rx(rxw, st_rx, mr, carry(c, ref.IND, src, bytes.fromhex(case["info"])), ind, case["seq"])
            con = expect(tx, dst, svc, "Con", name, raw)
            rx(tx, st_tx, mt, carry(c, ref.CON, src, b""), con, case["seq"])
            reached += sum(1 for m in ind if m["reading"] is not None)
            ctx.label("%s to %s %s" % (mt, mr, kind))
        if name:  # a simulated indication decodes on the stack itself
            raw = case["raw"] & ref.DPTS[name].maxraw
            if mt == "ip":
                st_tx.sequence_counter_local = case["seq"]
                st_tx.sequence_counter_remote = case["seq"]
            data = encode(st_tx, request("ind", asap, name, raw))
            want = expect(tx, dst, "Write", "Ind", name, raw)
            if mt == "ip":
                want = [{"kind": "TunReq", "seq": case["seq"], "status": 0}] + want
            compare("simulated indication %s" % data.hex(), decode(st_tx, mt, data), want)
    ctx.nontrivial(reached > 0)
    ctx.label("received by a like type" if reached else "not received")


@st.composite
def cases(draw):
    tx = draw(gen.config(max_ops=3, direct=False))
    rx_ = draw(gen.config(max_ops=3, direct=False))
    # share an address: the receiver gets one of the sender's addresses with one of its types
    for asap, n in tx["dpts"][:2]:
        g = [p[1] for p in tx["assoc"] if p[0] == asap] + tx["pool"][:1]
        tx["assoc"].append([asap, g[0]])
        b = draw(gen.asap)
        rx_["assoc"].append([b, g[0]])
        if draw(st.integers(0, 3)):
            rx_["dpts"] = [d for d in rx_["dpts"] if d[0] != b] + [[b, n]]
    return {"tx": tx, "rx": rx_, "media": [draw(st.sampled_from(["usb", "ip"])), draw(st.sampled_from(["usb", "ip"]))],
            "src": draw(gen.word), "info": draw(gen.additional()), "seq": draw(gen.byte), "raw": draw(st.integers(0, 2**32 - 1))}


SUBS = [Sub("two stacks", check, "a written value is received by an access point of the same type", cases, quick=2000)]
