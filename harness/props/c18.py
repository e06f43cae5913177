from hypothesis import strategies as st

import gen
import ref
from core import Sub, eq, sut
from world import decode, encode, make_state

ID = "C18"


def check(case, ctx):
    ip = sut().knxnet_ip
    state = make_state("ip", None, None)
    if case["fresh"]:
        chan = 0
    else:
        chan = case["chan"]
        decode(state, "ip", ref.connect_res(chan, 0, case["data"][0], 3671, 0x1101))
    (a, p), (b, q) = case["control"], case["data"]
    core = ip.core
    for m, want in [
        (core.connect.req.Msg(a, p, b, q), ref.connect_req(a, p, b, q)),
        (core.connectionstate.req.Msg(a, p), ref.connstate_req(chan, a, p)),
        (core.disconnect.req.Msg(b, q), ref.disc_req(chan, b, q)),
        (core.search.req.Msg(a, p), ref.search_req(a, p)),
        (core.connect.req.Msg(addr_data_endpoint=b, port_data_endpoint=q, addr_control_endpoint=a, port_control_endpoint=p),
         ref.connect_req(a, p, b, q)),
    ]:
        got = encode(state, m)
        eq("frame of %r on channel %d" % (m, chan), got.hex(), want.hex())
        eq("total length of %r" % (m,), int.from_bytes(got[4:6], "big"), len(got))
    ctx.label("no channel" if case["fresh"] else "channel")
    ctx.nontrivial(case["control"] != case["data"] and chan != 0)


def cases():
    ep = st.tuples(gen.ipv4, gen.port).map(list)
    return st.fixed_dictionaries({"fresh": st.sampled_from([False, False, False, True]), "chan": gen.byte, "control": ep, "data": ep})


SUBS = [Sub("requests", check, "two different endpoints on a channel other than zero", cases, quick=6000)]
