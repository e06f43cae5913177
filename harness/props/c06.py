from hypothesis import strategies as st

import gen
import ref
from core import Sub, eq, refused, require, sut
from world import AS, World, dpt_of, encode, make_state

ID = "C06"
ASSUME = ["The first address is the one associated earliest among those still associated."]


def request(kind, asap, name, raw):
    a = sut().layer.application
    A = AS(asap)
    if kind == "read":
        return a.a_group_value_read.req.Msg(asap=A)
    m = a.a_group_value_write.req if kind == "write" else a.a_group_value_write.ind
    return m.Msg(asap=A, dpt=dpt_of(name, raw))


def check(case, ctx):
    world = World(case["tables"])
    states = {}
    for m in ("usb", "ip", "tp"):
        states[m] = make_state(m, world.at, world.got)
    states["ip"].communication_channel_id = case["chan"]
    states["ip"].sequence_counter_local = case["seq"]
    states["ip"].sequence_counter_remote = case["seq"] * 5 + 255 & 255
    n = multi = 0
    for op in [None] + case["ops"]:
        if op:
            world.apply(op)
        for asap in sorted(world.assoc):
            addrs = world.assoc[asap]
            for kind in ("read", "write", "ind"):
                name = world.dpts.get(asap)
                if kind != "read" and not name:
                    continue
                raw = case["raw"] & ref.DPTS[name].maxraw if name else 0
                msg = request(kind, asap, name, raw)
                for m, state in states.items():
                    if not addrs:
                        require(refused(sut().encode_msg, state, msg),
                                "%s request for access point %d, which has no address, was not refused", kind, asap)
                        ctx.label("without address")
                        continue
                    c = ref.out_group(ref.READ if kind == "read" else ref.WRITE, addrs[0], name, raw,
                                      ref.IND if kind == "ind" else ref.REQ)
                    got = encode(state, msg)
                    want = ref.wrap(m, c, case["chan"], case["seq"])
                    eq("%s request for access point %d over %s" % (kind, asap, m), got.hex(), want.hex())
                    ctx.label("%s %s" % (m, kind))
                    n += 1
                    multi += len(addrs) > 1 and addrs[0] != min(addrs)
    ctx.nontrivial(multi > 0)


@st.composite
def cases(draw):
    cfg = draw(gen.config(max_ops=6, crowds=40))
    G, A = st.sampled_from(cfg["pool"]), st.sampled_from(cfg["asaps"])
    return {"tables": cfg, "ops": draw(gen.some(gen.table_op(A, G), 0, 6)), "chan": draw(gen.byte), "seq": draw(gen.byte),
            "raw": draw(st.integers(0, 2**32 - 1))}


SUBS = [Sub("history", check, "an access point with several addresses, the first of which is not the lowest", cases, quick=1600)]
