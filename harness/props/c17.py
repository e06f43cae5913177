from hypothesis import strategies as st

import gen
import ref
from core import Sub, attempt, eq, pass_time, require, sut
from props.c06 import request
from world import World, decode, encode, ia_number, make_state, observe, to_msg

ID = "C17"
ASSUME = ["The endpoint reported with a refusal is either the one in the response or none.",
          "A disconnect response without error releases the channel whichever channel it names, as the property says.",
          "Responses with statuses the services do not define may be rejected; what is claimed for them is only that the channel stays."]


def one(what, got, want):
    eq("messages for %s" % what, len(got), 1)
    o = observe(got[0])
    eq(what, o, want)


def probe(state, chan, seq):
    """The channel as later requests carry it."""
    K = sut()
    ip = K.knxnet_ip
    addr, port = "192.0.2.7", 3671
    eq("connection-state request", encode(state, ip.core.connectionstate.req.Msg(addr, port)).hex(), ref.connstate_req(chan, addr, port).hex())
    eq("disconnect request", encode(state, ip.core.disconnect.req.Msg(addr, port)).hex(), ref.disc_req(chan, addr, port).hex())
    f = ref.untun(encode(state, request("read", 1, None, 0)))
    require(f is not None and f[0] == chan, "a tunnelling request carries channel %r, expected %d", f and f[0], chan)
    a = encode(state, ip.tunneling.ack.Msg(sequence_counter=seq, status=ip.ErrorCodes.E_NO_ERROR))
    require(len(a) == 10 and a[6:8] == bytes([4, chan]), "acknowledgement %s, expected channel %d", a.hex(), chan)


def check_search(r, op, prop_finding, ctx):
    """A search response's message; shared with C25."""
    addr, port, medium, status, ia = op
    o = observe(r)
    eq("search response kind", o["kind"], "SearchRes")
    eq("endpoint in a search response", (o["ip"], o["port"]), (addr, port))
    early = medium << 8 | status
    if o["ia"] != ia and o["ia"] == early:
        ctx.finding(prop_finding, "the search response's individual address %#x is reported as %#x, the two octets before it" % (ia, early))
        ctx.label("individual address read two octets early")
        return
    eq("individual address in a search response", o["ia"], ia)


def check(case, ctx):
    world = World({"ia": 0x1001, "cap": 5, "assoc": [[1, 7]], "dpts": [[1, "DPT_Switch"]], "ops": []})
    state = make_state("ip", world.at, world.got)
    chan, releases = 0, 0
    seen = set()
    probe(state, 0, 0)
    for i, op in enumerate(case["ops"]):
        k = op[0]
        if k == "connect":
            _, c, addr, port, ia = op
            r = decode(state, "ip", ref.connect_res(c, 0, addr, port, ia))
            one("connect response", r, {"kind": "ConnectRes", "ip": addr, "port": port, "status": 0, "ia": ia})
            chan = c
            seen.add(c)
        elif k == "refuse":
            _, c, status, addr, port, form = op
            data = ref.connect_res(c, status, addr if form else None, port, 0 if form == 2 else None)
            r = decode(state, "ip", data)
            eq("messages for a refused connect response", len(r), 1)
            o = observe(r[0])
            eq("refused connect response %s" % data.hex(), (o["kind"], o["status"]), ("ConnectRes", status))
            require((o["ip"], o["port"]) in ((None, None), (addr, port)) if form else o["ip"] is None,
                    "refused connect response %s reported with endpoint %r:%r", data.hex(), o["ip"], o["port"])
        elif k == "disconnect":
            r = decode(state, "ip", ref.disc_res(chan, 0))
            one("disconnect response", r, {"kind": "DisconnectRes", "chan": chan, "status": 0})
            chan = 0
            releases += 1
        elif k == "disconnect-other":
            r = decode(state, "ip", ref.disc_res(op[1], 0))
            one("disconnect response", r, {"kind": "DisconnectRes", "chan": op[1], "status": 0})
            chan = 0
        elif k == "disconnect-error":
            if op[2] in ref.ERROR_CODES:
                decode(state, "ip", ref.disc_res(op[1], op[2]))
            else:
                attempt(sut().decode_msg, state, to_msg("ip", ref.disc_res(op[1], op[2])))
        elif k == "state":
            r = decode(state, "ip", ref.connstate_res(op[1], op[2]))
            one("connection-state response", r, {"kind": "ConnstateRes", "status": op[2]})
        elif k == "odd":  # statuses no service defines
            for f in (ref.connect_res(op[1], op[2]), ref.connstate_res(op[1], op[2])):
                attempt(sut().decode_msg, state, to_msg("ip", f))
        elif k == "search":
            r = decode(state, "ip", ref.search_res(*op[1], tail=bytes.fromhex(op[2])))
            eq("messages for a search response", len(r), 1)
            check_search(r[0], op[1], "search-ia-c17", ctx)
        elif k == "pass":
            pass_time(op[1])
        elif k == "traffic":
            decode(state, "ip", ref.tun_req(op[1], i, ref.cemi(ref.IND, ref.ldata(0xBC, 0xE0, 0x1203, 7, ref.apdu(ref.READ)))))
            decode(state, "ip", ref.tun_ack(op[1], op[2], 0))
        ctx.label(k)
        probe(state, chan, i % 256)
    ctx.nontrivial(len(seen) > 1 and len(case["ops"]) > 3)


def cases():
    b, a, p, w = gen.byte, gen.ipv4, gen.port, gen.word
    bad = st.sampled_from(ref.CONNECT_STATUS[1:])
    connect = st.tuples(st.just("connect"), b, a, p, w)
    op = gen.weighted(
        (3, connect), (2, st.tuples(st.just("refuse"), b, bad, a, p, st.integers(0, 2))), (1, st.tuples(st.just("disconnect"))),
        (1, st.tuples(st.just("disconnect-other"), b)), (1, st.tuples(st.just("disconnect-error"), b, st.sampled_from([1, 2, 3, 0x21, 0x26, 0xFF]))),
        (1, st.tuples(st.just("state"), b, st.sampled_from(ref.CONNSTATE_STATUS))), (1, st.tuples(st.just("odd"), b, st.sampled_from([0x01, 0x02, 0x20, 0x25, 0x28, 0xFF]))),
        (1, st.tuples(st.just("search"), st.tuples(a, p, b, b, w).map(list), gen.long_hexes(0, 80, 1400))), (1, st.tuples(st.just("traffic"), b, b)), (1, st.tuples(st.just("pass"), gen.PASS))).map(list)
    return st.fixed_dictionaries({"ops": gen.some(op, 4, 14)})


SUBS = [Sub("history", check, "more than three events with two different channels", cases, quick=2000)]
