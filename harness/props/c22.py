from hypothesis import strategies as st

import gen
import ref
from core import Sub, attempt, eq, require, sut
from props import c20
from props.c06 import request
from props.c21 import damage
from world import AS, World, frame_bytes, make_state, observe, to_msg

ID = "C22"
ASSUME = ["Two rejections of the same input are the same result, whatever their error."]


def counters(state, medium):
    return (state.sequence_counter_local, state.sequence_counter_remote, state.communication_channel_id) if medium == "ip" else \
        (state.sequence_counter_local, state.sequence_counter_remote)


def fresh(case, done, old, medium):
    """A newly built stack with the same tables, channel and counters."""
    world = World(case["tables"])
    for op in done:
        world.apply(op)
    s = make_state(medium, world.at, world.got)
    s.sequence_counter_local, s.sequence_counter_remote = old.sequence_counter_local, old.sequence_counter_remote
    if medium == "ip":
        s.communication_channel_id = old.communication_channel_id
    return world, s


def tables(world):
    """What the tables say, as plain data."""
    K = sut()
    out = [[a.free_style for a in world.table.addresses], world.table.individual_address.free_style, list(world.table.tsaps)]
    for a in sorted(x.value for x in world.at.asaps):
        ok, ts = attempt(lambda: list(world.at.get_tsaps(AS(a))))
        out.append([a, ts if ok else None])
    for g in world.groups:
        out.append([g, [x.value for x in world.at.get_asaps_from_address(K.GroupAddress(free_style=g))]])
    out.append(sorted((a.value, d.__name__) for a, d in world.got.associations))
    return out


def make_request(world, spec):
    a = sut().layer.application
    k = spec["kind"]
    if k in ("pread", "pwrite"):
        p = dict(asap=AS(0), object_index=spec["raw"] & 255, property_id=spec["raw"] >> 8 & 255, number_of_elements=1, start_index=spec["raw"] >> 16 & 0xFFF)
        return a.a_property_value_read.req.Msg(**p) if k == "pread" else a.a_property_value_write.req.Msg(data=spec["data"], **p)
    if k == "ack":
        ip = sut().knxnet_ip
        return ip.tunneling.ack.Msg(sequence_counter=spec["raw"] & 255, status=ip.ErrorCodes.E_NO_ERROR)
    if k in ("connect", "connstate", "disconnect", "search"):
        core = sut().knxnet_ip.core
        ep = ("10.0.0.9", spec["raw"] & 0xFFFF)
        return {"connect": core.connect.req.Msg(*(ep + ep)), "connstate": core.connectionstate.req.Msg(*ep),
                "disconnect": core.disconnect.req.Msg(*ep), "search": core.search.req.Msg(*ep)}[k]
    asaps = sorted(a for a in world.assoc if world.assoc[a]) or [1]
    asap = asaps[spec["pick"] % len(asaps)] if spec["pick"] < 8 else 777  # 777 cannot be encoded
    name = world.dpts.get(asap, "DPT_Switch")
    return request(k, asap, name, spec["raw"] & ((1 << 8 * ref.DPTS[name].size) - 1))  # as wide as it is stored: values off the bus keep their service bits


def content(msg):
    d = getattr(msg, "dpt", None)
    return (type(msg).__name__, repr(msg), d.value if d is not None else None)


def result(ok, r, decoded):
    if not ok:
        return "rejected"
    return [observe(m) for m in r] if decoded else frame_bytes(r).hex()


def check(case, ctx):
    medium = case["medium"]
    world = World(case["tables"])
    state = make_state(medium, world.at, world.got)
    if medium == "ip":
        state.sequence_counter_local, state.sequence_counter_remote, state.communication_channel_id = case["start"]
    done, kept, last = [], [], None
    n = {"encoded": 0, "decoded": 0, "rejected": 0}
    K = sut()
    for i in range(case.get("before", 0)):  # a long past, nothing of which is judged but what stays
        op = vary(case["ops"][i % len(case["ops"])], i // len(case["ops"]) + 1)
        if op[0] == "table":
            world.apply(op[1])
            done.append(op[1])
        elif op[0] == "encode":
            if op[1]["kind"] not in ("ack", "connect", "connstate", "disconnect", "search") or medium == "ip":
                attempt(K.encode_msg, state, make_request(world, op[1]))
        else:
            data = c20.build(world, medium, dict(op[1], seq=(state.sequence_counter_remote + (op[1]["seq"] % 4 - 1 if op[1]["seq"] % 8 else 0)) % 256))
            if data is not None:
                ok, r = attempt(K.decode_msg, state, to_msg(medium, damage(data, op[2]) if op[0] == "damaged" else data))
                if ok:
                    kept += [(m, observe(m)) for m in r]
    for op in case["ops"]:
        if op[0] == "table":
            world.apply(op[1])
            done.append(op[1])
            continue
        w2, s2 = fresh(case, done, state, medium)
        t0 = tables(world)
        eq("tables of the new stack", tables(w2), t0)
        if op[0] == "encode":
            spec = op[1]
            if spec["kind"] in ("ack", "connect", "connstate", "disconnect", "search") and medium != "ip":
                continue
            again = spec["again"] and last is not None  # the same object once more
            msg = last if again else make_request(world, spec)
            last = msg
            before = content(msg)
            r1 = result(*attempt(K.encode_msg, state, msg), decoded=False)
            eq("content of a request after encoding it", content(msg), before)
            r2 = result(*attempt(K.encode_msg, s2, msg if again else make_request(w2, spec)), decoded=False)
            eq("frame of %r after other traffic, against a new stack" % (msg,), r1, r2)
            n["rejected" if r1 == "rejected" else "encoded"] += 1
        else:
            t = op[1]
            data = c20.build(world, medium, dict(t, seq=(state.sequence_counter_remote + (t["seq"] % 4 - 1 if t["seq"] % 8 else 0)) % 256))
            if data is None:
                continue
            if op[0] == "damaged":
                data = damage(data, op[2])
            m1 = to_msg(medium, data)
            text = str(m1)
            ok, r = attempt(K.decode_msg, state, m1)
            eq("content of a frame after decoding it", str(m1), text)
            r1 = result(ok, r, True)
            if ok:
                kept += [(m, observe(m)) for m in r]
            r2 = result(*attempt(K.decode_msg, s2, to_msg(medium, data)), decoded=True)
            eq("messages of %s after other traffic, against a new stack" % data.hex(), r1, r2)
            n["rejected" if r1 == "rejected" else "decoded"] += 1
        eq("tables after %s" % op[0], tables(world), t0)
        eq("counters after %s" % op[0], counters(state, medium), counters(s2, medium))
    for m, o in kept:
        eq("content of an earlier message", observe(m), o)
    for k, v in n.items():
        ctx.label(k, v)
    ctx.nontrivial(n["encoded"] > 0 and n["decoded"] > 1 and len(kept) > 0)


def vary(op, i):
    """The same kind of work with other content."""
    if op[0] == "table":
        return op
    t = dict(op[1])
    if op[0] == "encode":
        return [op[0], dict(t, raw=(t["raw"] + i * 0x9E3779B1) & 0xFFFFFFFF, again=False)]
    if t.get("data"):
        t["data"] = (int(t["data"], 16) ^ i * 0x0101 & (1 << 4 * len(t["data"])) - 1).to_bytes(len(t["data"]) // 2, "big").hex()
    elif t.get("apci", 0) & 0x3C0 in (0x40, 0x80):
        t["apci"] ^= i & 0x3F
    return [op[0], dict(t, seq=(t["seq"] + i) % 256)] + op[2:]


def requests(m):
    kinds = ["read", "write", "write", "ind", "pread", "pwrite"] + (["ack", "connstate", "disconnect", "search", "connect"] if m == "ip" else [])
    return st.fixed_dictionaries({"kind": st.sampled_from(kinds), "pick": st.integers(0, 9), "raw": st.integers(0, 2 ** 32 - 1), "data": gen.long_hexes(0, 6, 230, 30),
                                  "again": st.sampled_from([False, False, False, True])})


@st.composite
def cases(draw):
    m = draw(st.sampled_from(["usb", "ip"]))
    cfg = draw(gen.config(max_ops=2))
    for a in cfg["asaps"][:2]:
        cfg["assoc"].append([a, draw(st.sampled_from(cfg["pool"]))])
        if all(d[0] != a for d in cfg["dpts"]):
            cfg["dpts"].append([a, draw(gen.name)])
    enc = requests(m)
    f = gen.weighted((1, c20.deliverable()), (1, c20.frame(m)))
    op = gen.weighted(
        (3, st.tuples(st.just("encode"), enc)), (5, st.tuples(st.just("decode"), f)),
        (1, st.tuples(st.just("damaged"), f, st.tuples(st.integers(0, 3), gen.word, gen.byte).map(list))),
        (2, st.tuples(st.just("table"), gen.table_op(st.sampled_from(cfg["asaps"]), st.sampled_from(cfg["pool"]))))).map(list)
    return {"medium": m, "tables": cfg, "ops": draw(gen.some(op, 4, 12)),
            "start": draw(st.tuples(gen.byte, gen.byte, gen.byte).map(list))}


@st.composite
def repeats(draw):
    """The same request and the same frame again and again while the tables change."""
    case = draw(cases())
    cfg, m = case["tables"], case["medium"]
    spec = {"kind": draw(st.sampled_from(["read", "write", "ind"])), "pick": draw(st.integers(0, 7)), "raw": draw(st.integers(0, 2 ** 32 - 1)), "data": "", "again": True}
    t = draw(c20.deliverable())
    for a in cfg["asaps"]:
        if all(d[0] != a for d in cfg["dpts"]):
            cfg["dpts"].append([a, draw(gen.name)])
    change = gen.table_op(st.sampled_from(cfg["asaps"]), st.sampled_from(cfg["pool"]), dpts=False)
    ops = [["encode", dict(spec, again=False)], ["decode", t]]
    for op in draw(st.lists(st.lists(change, min_size=1, max_size=2), min_size=2, max_size=4)):
        ops += [["table", o] for o in op] + [["encode", spec], ["decode", t]]
    return dict(case, ops=ops)


@st.composite
def longer(draw):
    """After hundreds of other requests and frames on the same stack."""
    case = draw(st.one_of(cases(), repeats()))
    tables = sum(op[0] == "table" for op in case["ops"])
    return dict(case, before=draw(st.integers(50, 1500 if not tables else 500)))


SUBS = [Sub("history", check, "at least one encode, two decodes and one message", cases, quick=1000),
        Sub("same call, other tables", check, "at least one encode, two decodes and one message", repeats, quick=600),
        Sub("long past", check, "at least one encode, two decodes and one message", longer, quick=200)]
