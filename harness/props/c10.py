from hypothesis import strategies as st

import gen
import ref
from core import Sub, require, sut
from props.c08 import carry, unwrap
from props.c09 import edge
from world import AS, World, compare, decode, encode, make_state, ref_cemi

ID = "C10"


def send(world, state, medium, c, seq, want):
    if medium == "ip":
        state.sequence_counter_remote = seq
        state.sequence_counter_local = seq * 5 + 255 & 255
        data = ref.tun_req(3, seq, c)
        want = [{"kind": "TunReq", "seq": seq, "status": 0}] + want
    else:
        data = ref.usb(c, pad=b"\0" * 3)
    compare("telegram %s" % c.hex(), decode(state, medium, data), want)


SERVICES = {"read": ref.PREAD, "resp": ref.PRESP, "write": ref.PWRITE}


def check(case, ctx):
    world = World(case["tables"])
    m = case["medium"]
    state = make_state(m, world.at, world.got)
    for t in case["rx"]:
        if t["ia"] is not None:
            world.apply(["ia", t["ia"]])

        def num(x):
            return world.ia if x == "ia" else (world.ia ^ (1 << x[1])) & 0xFFFF if isinstance(x, list) else x

        data = b"" if t["service"] == "read" else bytes.fromhex(t["data"])
        apdu = ref.prop_apdu(SERVICES[t["service"]], t["oi"], t["pid"], t["noe"], t["si"], data)
        code = ref.IND if t["kind"] == "ind" else ref.CON
        c = ref.cemi(code, ref.ldata(t["c1"], t["c2"] & 0x7F, num(t["src"]), num(t["dst"]), apdu), bytes.fromhex(t["info"]))
        want = ref_cemi(world, c)
        send(world, state, m, c, t["seq"], want)
        ctx.label("%s %s %s" % (t["service"], t["kind"], "delivered" if want else "ignored"))
        ctx.nontrivial(bool(want) and len({t["oi"], t["pid"], t["noe"], t["si"], 0}) >= 4)
        if want and world.ia in world.groups:
            ctx.label("address also a group address")


def check_own(case, ctx):
    """A request of this stack, seen back as a confirmation."""
    world = World(case["tables"])
    m = case["medium"]
    state = make_state(m, world.at, world.got)
    t = case
    a = sut().layer.application
    args = dict(asap=AS(0), object_index=t["oi"], property_id=t["pid"], number_of_elements=t["noe"], start_index=t["si"])
    for svc in ("Read", "Write"):
        if svc == "Read":
            msg = a.a_property_value_read.req.Msg(**args)
        else:
            msg = a.a_property_value_write.req.Msg(data=t["data"], **args)
        c = unwrap(m, encode(state, msg))
        want = {"kind": "Prop%sCon" % svc, "asap": 0, "oi": t["oi"], "pid": t["pid"], "noe": t["noe"], "si": t["si"], "status": 0}
        if svc == "Write":
            want["data"] = t["data"].lower()
        send(world, state, m, carry(c, ref.CON, t["src"], b""), t["seq"], [want])
        # and by the addressed device's side of the bus: an indication from it
        want = dict(want, kind="Prop%sInd" % svc)
        del want["status"]
        send(world, state, m, carry(c, ref.IND, world.ia, b""), t["seq"], [want])
    ctx.nontrivial(len({t["oi"], t["pid"], t["noe"], t["si"], 0}) >= 4)


@st.composite
def telegram(draw):
    who = gen.weighted((2, st.just("ia")), (1, st.tuples(st.just("bit"), st.integers(0, 15)).map(list)), (1, gen.word))
    return {"ia": draw(gen.weighted((2, st.none()), (1, gen.address))), "service": draw(st.sampled_from(sorted(SERVICES))),
            "kind": draw(st.sampled_from(["ind", "con"])), "oi": draw(edge(8)), "pid": draw(edge(8)), "noe": draw(edge(4)),
            "si": draw(edge(12)), "data": draw(gen.long_hexes(0, 10, 120)), "c1": draw(gen.flags1), "c2": draw(st.one_of(st.just(0x60), gen.byte)),
            "src": draw(who), "dst": draw(who), "info": draw(gen.additional()), "seq": draw(gen.byte)}


@st.composite
def tables(draw):
    cfg = draw(gen.config(max_ops=2))
    if draw(st.booleans()) and cfg["asaps"]:
        cfg["assoc"].append([cfg["asaps"][0], cfg["ia"]])  # a group address of the same number
    return cfg


@st.composite
def cases(draw):
    return {"tables": draw(tables()), "medium": draw(st.sampled_from(["usb", "ip"])), "rx": draw(gen.some(telegram(), 1, 4))}


@st.composite
def own(draw):
    return {"tables": draw(tables()), "medium": draw(st.sampled_from(["usb", "ip"])), "oi": draw(edge(8)), "pid": draw(edge(8)),
            "noe": draw(edge(4)), "si": draw(edge(12)), "data": draw(gen.long_hexes(0, 10, 230)), "src": draw(gen.word), "seq": draw(gen.byte)}


SUBS = [
    Sub("received", check, "a delivered telegram with at least three different non-zero fields", cases, quick=2400),
    Sub("own requests", check_own, "at least three different non-zero fields", own, quick=800),
]
