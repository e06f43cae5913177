from hypothesis import strategies as st

import gen
import ref
from core import Sub, attempt, eq, require, sut
from props import c20
from props.c06 import request
from world import AS, World, compare, decode, encode, make_state, observe, ref_cemi, to_msg

ID = "C19"
ASSUME = ["What a report cut short yields is the subject of C21."]


def exact(data, what):
    """Every length of a report equals the size of what it describes."""
    require(len(data) >= 11, "%s gives %s, too short for a report", what, data.hex())
    eq("report identifier of %s" % what, data[0], 1)
    eq("packet type of %s" % what, data[1] & 15, 3)
    eq("report length of %s (%s)" % (what, data.hex()), data[2], len(data) - 3)
    eq("protocol version of %s" % what, data[3], 0)
    eq("header length of %s" % what, data[4], 8)
    eq("body length of %s (%s)" % (what, data.hex()), int.from_bytes(data[5:7], "big"), len(data) - 11)
    eq("protocol, message format and manufacturer of %s" % what, data[7:11].hex(), "01030000")
    c = data[11:]
    require(len(c) >= 10 and c[1] == 0, "%s gives %s", what, data.hex())
    ld = c[2:]
    eq("length octet of %s (%s)" % (what, data.hex()), ld[6], len(ld) - 8)
    return c


def check_encode(case, ctx):
    world = World(case["tables"])
    usb, bare = make_state("usb", world.at, world.got), make_state("tp", world.at, world.got)
    a = sut().layer.application
    msgs = []
    for asap in sorted(world.assoc):
        if world.assoc[asap]:
            msgs.append(request("read", asap, None, 0))
            name = world.dpts.get(asap)
            if name:
                raw = case["raw"] & ref.DPTS[name].maxraw
                msgs += [request("write", asap, name, raw), request("ind", asap, name, raw)]
    p = dict(asap=AS(0), object_index=case["oi"], property_id=1, number_of_elements=1, start_index=1)
    msgs += [a.a_property_value_read.req.Msg(**p), a.a_property_value_write.req.Msg(data=case["data"], **p)]
    sizes = set()
    for m in msgs:
        data = encode(usb, m)
        c = exact(data, "%r" % (m,))
        eq("bus content of %r" % (m,), c.hex(), encode(bare, m).hex())
        sizes.add(len(data))
    ctx.label("%d sizes" % len(sizes))
    ctx.nontrivial(len(sizes) >= 3)


@st.composite
def encodes(draw):
    cfg = draw(gen.config(max_ops=3))
    for a in cfg["asaps"]:
        cfg["assoc"].append([a, draw(st.sampled_from(cfg["pool"]))])
    return {"tables": cfg, "raw": draw(st.integers(0, 2 ** 32 - 1)), "oi": draw(gen.byte), "data": draw(gen.long_hexes(0, 30, 232))}


def check_padding(case, ctx):
    """Same result whatever follows the declared lengths and precedes the telegram."""
    world = World(case["tables"])
    state = make_state("usb", world.at, world.got)
    t = case["frame"]
    c = c20.cemi_of(world, dict(t, info=""))
    plain = decode(state, "usb", ref.usb(c))
    want = [observe(m) for m in plain]
    if not c20.lax_read(dict(t, info=""), c):
        compare("report of %s" % c.hex(), plain, ref_cemi(world, c))
    for v in case["variants"]:
        c2 = c20.cemi_of(world, dict(t, info=v["info"]))
        data = ref.usb(c2 + bytes.fromhex(v["inner"]), pad=bytes.fromhex(v["pad"]), seq=v["seq"], blen=len(c2))
        got = [observe(m) for m in decode(state, "usb", data)]
        eq("report %s (without padding and additional information: %s)" % (data.hex(), ref.usb(c).hex()), got, want)
    ctx.label("delivered" if want else "nothing")
    ctx.nontrivial(bool(want))


@st.composite
def paddings(draw):
    cfg = draw(gen.config(max_ops=2))
    a = cfg["asaps"][0]
    cfg["assoc"].append([a, cfg["pool"][0]])
    cfg["dpts"] = [d for d in cfg["dpts"] if d[0] != a] + [[a, draw(gen.name)]]
    t = draw(gen.weighted((3, c20.deliverable()), (1, c20.frame("usb").filter(lambda f: f["what"] == "ldata"))))
    inner = st.one_of(st.just(""), gen.hexes(1, 8), st.just("00" * 20))
    v = st.fixed_dictionaries({"info": st.one_of(gen.additional(), gen.hexes(0, 40)), "inner": inner,
                               "pad": st.one_of(st.just(""), st.just("00" * 40), gen.hexes(0, 50), st.just("ff" * 30)),
                               "seq": st.sampled_from([1, 1, 0, 15])})
    return {"tables": cfg, "frame": t, "variants": draw(st.lists(v, min_size=1, max_size=4))}


def check_reject(case, ctx):
    """One header field of a deliverable report is changed to a value that is not supported."""
    world = World(c20.TABLES)
    state = make_state("usb", world.at, world.got)
    c = ref.cemi(ref.IND, ref.ldata(0xBC, 0xE0, 0x1203, 0x0903, ref.apdu(ref.WRITE | 1)))
    good = ref.usb(c, pad=b"\0" * 5)
    require(len(decode(state, "usb", good)) == 2, "the report %s is not delivered", good.hex())
    f, v = case["field"], case["value"]
    i = {"report id": 0, "packet type": 1, "version": 3, "header length": 4, "protocol": 7, "format": 8, "manufacturer high": 9, "manufacturer low": 10}[f]
    if f == "packet type":
        if v == 3:
            return
        v = (good[1] & 0xF0) | v
    if v == good[i] or f == "protocol" and v == 0x0F:
        return
    data = good[:i] + bytes([v]) + good[i + 1:]
    eq("messages of the report %s (%s %#x)" % (data.hex(), f, v), [repr(m) for m in decode(state, "usb", data)], [])
    ctx.label(f)
    ctx.nontrivial(True)


def rejects():
    for f in ("report id", "version", "header length", "protocol", "format", "manufacturer high", "manufacturer low"):
        for v in range(256):
            yield {"field": f, "value": v}
    for v in range(16):
        yield {"field": "packet type", "value": v}


def check_feature(case, ctx):
    world = World(c20.TABLES)
    state = make_state("usb", world.at, world.got)
    s, f, v = case["service"], case["feature"], case["value"]
    for tail in ("", "00", "ff55"):
        data = ref.usb_feature(s, f, bytes([v]), pad=bytes.fromhex(tail))
        compare("feature report %s" % data.hex(), decode(state, "usb", data), c20.feature_want(s, f, v))
    ctx.nontrivial(bool(c20.feature_want(s, f, v)))


def features():
    for s in range(8):
        for f in range(10):
            for v in list(range(6)) + [0x10, 0x80, 0xFF]:
                yield {"service": s, "feature": f, "value": v}


SUBS = [
    Sub("encoding", check_encode, "frames of at least three sizes", encodes, quick=1200),
    Sub("padding", check_padding, "the report yields at least one message", paddings, quick=1600),
    Sub("other reports", check_reject, "all", cases=rejects),
    Sub("feature reports", check_feature, "the report announces something", cases=features),
]
