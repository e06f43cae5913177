from hypothesis import strategies as st

import gen
import ref
from core import Sub, eq, require
from world import World, compare, decode, make_state, observe, ref_cemi

ID = "C20"
ASSUME = ["A read service code whose six unused low bits are not zero may be taken as a read or as no service.",
          "A telegram whose data does not fit the access point's datapoint type is delivered; its value is not compared."]

SERVICES = {"read": ref.READ, "response": ref.RESPONSE, "write": ref.WRITE}
OTHER_APCI = [0x0C0, 0x100, 0x140, 0x180, 0x1C0, 0x1C8, 0x1CC, 0x200, 0x240, 0x280, 0x2C0, 0x2C7, 0x2C8, 0x2C9, 0x300, 0x340, 0x380, 0x3C0, 0x3C7,
              0x3D0, 0x3D1, 0x3D2, 0x3D3, 0x3D4, 0x3D8, 0x3D9, 0x3DA, 0x3DC, 0x3DE, 0x3DF, 0x3E0, 0x3E7, 0x3E8, 0x3F1, 0x3FF, 0x001, 0x03F]
PROPS = [ref.PREAD, ref.PRESP, ref.PWRITE]
KNOWN_CODES = [0x10, 0x11, 0x13, 0x25, 0x28, 0x29, 0x2B, 0x2D, 0x2E, 0x2F, 0x41, 0x4E, 0x89, 0x94, 0xF0, 0xF1, 0xF5, 0xF6, 0xF7, 0xFB, 0xFC]
IMPLEMENTED = [ref.SEARCH_RES, ref.CONNECT_RES, ref.CONNSTATE_RES, ref.DISC_RES, ref.TUN_REQ, ref.TUN_ACK]
OTHER_SERVICES = [0x0201, 0x0203, 0x0204, 0x0205, 0x0207, 0x0209, 0x020B, 0x020C, 0x0310, 0x0311, 0x0422, 0x0423, 0x0424, 0x0425, 0x0530, 0x0531,
                  0x0532, 0x0533, 0x0740, 0x0950, 0x0000, 0xFFFF, 0x0620, 0x2004, 0x0120]


def address(world, to):
    if isinstance(to, int):
        return to
    if to[0] == "ia":
        return world.ia
    pairs = [g for a, g in world.pairs() if a in world.dpts] or world.groups or [1]
    return pairs[to[1] % len(pairs)]


def tpdu(t):
    """A complete transport PDU."""
    if t["tpci"] & 0x80:
        return bytes([t["tpci"]])
    data = bytes.fromhex(t["data"])
    if t["apci"] in PROPS and len(data) < 4:
        data += bytes(4 - len(data))
    return ref.apdu(t["apci"], data, t["tpci"])


def cemi_of(world, t):
    if t["what"] == "local":
        return bytes([t["code"]]) + bytes.fromhex(t["data"])
    ld = ref.ldata(t["c1"], t["c2"], address(world, t["src"]), address(world, t["dst"]), tpdu(t))
    return ref.cemi(t["code"], ld, bytes.fromhex(t["info"]))


def lax_read(t, c):
    if t["what"] != "ldata":
        return False
    ld = c[2 + c[1]:]
    return not t["tpci"] & 0x80 and ld[1] & 0x80 and t["code"] in (ref.IND, ref.CON) \
        and not t["tpci"] & 0xFC and 1 <= t["apci"] <= 0x3F


def feature_want(service, feature, value):
    if service not in (2, 4):
        return []
    if feature == 3 and value in (0, 1):
        return [{"kind": "ConnectionStatus", "text": ["Disconnected", "Connected"][value]}]
    if feature == 5 and value in (1, 2, 3):
        return [{"kind": "EMIType", "text": {1: "emi1", 2: "emi2", 3: "cEMI"}[value]}]
    return []


def build(world, medium, t):
    """The octets of one frame, or None when it has no form on this medium."""
    w = t["what"]
    if w in ("ldata", "local"):
        return ref.wrap(medium, cemi_of(world, t), t["chan"], t["seq"])
    if w == "feature":
        return ref.usb_feature(t["service"], t["feature"], bytes([t["value"]]) + bytes.fromhex(t["data"])) if medium == "usb" else None
    if w == "unknown":
        return ref.ip(t["service"], bytes.fromhex(t["data"])) if medium == "ip" else ref.usb(bytes.fromhex(t["data"]), proto=t["proto"], emi=t["emi"])
    if w == "header":  # a frame of another version or header
        inner = ref.cemi(ref.IND, ref.ldata(0xBC, 0xE0, 0x1203, address(world, t["dst"]), ref.apdu(ref.READ)))
        data = ref.wrap(medium, inner, 0, t["seq"])
        i, v = t["octet"], t["value"]
        return data[:i] + bytes([v if v != data[i] else v ^ 1]) + data[i + 1:]
    if w == "response" and medium == "ip":
        k, s = t["kind"], t["status"]
        if k == "search":
            return ref.search_res(t["ip"], t["port"], t["chan"], s, t["ia"], bytes.fromhex(t["data"]))
        if k == "connect":
            status = ref.CONNECT_STATUS[s % 5]
            form = 2 if not status else s % 3
            return ref.connect_res(t["chan"], status, t["ip"] if form else None, t["port"], t["ia"] if form == 2 else None)
        if k == "connstate":
            return ref.connstate_res(t["chan"], ref.CONNSTATE_STATUS[s % 4])
        if k == "disconnect":
            return ref.disc_res(t["chan"], ref.ERROR_CODES[s % 4])
        return ref.tun_ack(t["chan"], t["seq"], ref.ERROR_CODES[s % 4])
    return None


def response_want(t):
    k, s = t["kind"], t["status"]
    if k == "search":
        return {"kind": "SearchRes", "ip": t["ip"], "port": t["port"]}
    if k == "connect":
        status = ref.CONNECT_STATUS[s % 5]
        return {"kind": "ConnectRes", "status": status, "ia": None if status else t["ia"]}
    if k == "connstate":
        return {"kind": "ConnstateRes", "status": ref.CONNSTATE_STATUS[s % 4]}
    if k == "disconnect":
        return {"kind": "DisconnectRes", "status": ref.ERROR_CODES[s % 4], "chan": t["chan"]}
    return {"kind": "TunAck", "status": ref.ERROR_CODES[s % 4]}


def run(case, ctx, oracle=True):
    """Decodes every frame of the case; with the oracle, compares.  Returns the messages."""
    world = World(case["tables"])
    medium = case["medium"]
    state = make_state(medium, world.at, world.got)
    out = []
    for t in case["frames"]:
        data = build(world, medium, t)
        if data is None:
            continue
        w = t["what"]
        if medium == "ip":
            state.sequence_counter_remote = t["seq"]
        got = decode(state, medium, data)
        out += got
        label = t["kind"] if w == "response" else w
        what = "frame %s" % data.hex()
        if w in ("ldata", "local"):
            c = cemi_of(world, t)
            want = ref_cemi(world, c) if w == "ldata" else []
            if want:
                label = "delivered " + want[0]["kind"]
            if medium == "ip":
                want = [{"kind": "TunReq", "seq": t["seq"], "status": 0}] + want
            if oracle and lax_read(t, c):
                rest = [observe(m)["kind"] for m in got[medium == "ip":]]
                require(all(k.startswith("GroupRead") for k in rest), "%s decodes to %r", what, got)
            elif oracle:
                compare(what, got, want)
        elif oracle and w == "feature":
            compare(what, got, feature_want(t["service"], t["feature"], t["value"]))
        elif oracle and w in ("unknown", "header"):
            eq("messages of the unsupported %s" % what, [repr(m) for m in got], [])
        elif oracle and w == "response":
            want = response_want(t)
            if want["kind"] != "DisconnectRes" or not want["status"] or got:
                eq("number of messages of %s" % what, len(got), 1)
                o = observe(got[0])
                eq("message of %s" % what, {x: o.get(x) for x in want}, want)
        ctx.label(label)
    return out


def check(case, ctx):
    ms = run(case, ctx)
    ctx.nontrivial(len(case["frames"]) > 1 and len(ms) > 0)


@st.composite
def frame(draw, medium):
    src = gen.weighted((2, st.just(["ia"])), (1, gen.word))
    dst = gen.weighted((4, st.tuples(st.just("typed"), st.integers(0, 9)).map(list)), (2, st.just(["ia"])), (1, gen.word), (1, st.just(0)))
    w = draw(st.sampled_from(["ldata"] * 8 + ["local", "unknown", "header"] + (["response"] * 3 if medium == "ip" else ["feature"] * 2)))
    t = {"what": w, "seq": draw(gen.byte), "chan": draw(gen.byte)}
    if w == "ldata":
        kind = draw(st.sampled_from(["group", "group", "group", "prop", "prop", "other", "control"]))
        t["code"] = draw(gen.weighted((5, st.just(ref.IND)), (3, st.just(ref.CON)), (1, st.sampled_from(KNOWN_CODES)), (1, gen.byte)))
        t.update(c1=draw(gen.flags1), src=draw(src), info=draw(gen.additional()))
        tpci = gen.weighted((8, st.just(0)), (1, st.sampled_from([0x04, 0x40, 0x44, 0x7C, 0x20, 0x3C])), (1, st.integers(0, 31).map(lambda x: x << 2)))
        if kind == "group":
            apci = draw(st.sampled_from(sorted(SERVICES.values()))) | (draw(st.sampled_from([0, 0, 1, 0x3F, 5, 0x15])))
            t.update(c2=draw(gen.weighted((7, st.integers(0x80, 0xFF)), (1, gen.byte))), dst=draw(dst), apci=apci if apci > 0x3F else 0,
                     data=draw(gen.weighted((3, st.just("")), (2, gen.hexes(1, 1)), (2, gen.hexes(2, 2)), (2, gen.hexes(4, 4)), (1, gen.long_hexes(0, 14, 120)))), tpci=draw(tpci))
        elif kind == "prop":
            t.update(c2=draw(gen.weighted((7, st.integers(0, 0x7F)), (1, gen.byte))), dst=draw(gen.weighted((1, dst), (2, st.just(["ia"])))),
                     apci=draw(st.sampled_from(PROPS)), data=draw(gen.long_hexes(4, 14, 120)), tpci=draw(tpci))
        elif kind == "other":
            t.update(c2=draw(gen.byte), dst=draw(dst), apci=draw(gen.weighted((2, st.sampled_from(OTHER_APCI)), (1, st.integers(0, 0x3FF)))),
                     data=draw(gen.long_hexes(0, 14, 120)), tpci=draw(tpci))
        else:
            t.update(c2=draw(gen.byte), dst=draw(dst), apci=0, data="",
                     tpci=draw(gen.weighted((2, st.sampled_from([0x80, 0x81, 0xC2, 0xC3, 0xC6, 0xFE, 0xFF])), (1, st.integers(0x80, 0xFF)))))
    elif w == "local":
        t["code"] = draw(st.one_of(st.sampled_from([c for c in KNOWN_CODES if c not in (ref.IND, ref.CON)]), gen.byte.filter(lambda c: c not in (ref.IND, ref.CON))))
        t["data"] = draw(gen.long_hexes(0, 16, 200))
    elif w == "unknown":
        if medium == "ip":
            t["service"] = draw(gen.weighted((2, st.sampled_from(OTHER_SERVICES)), (1, st.integers(0, 0xFFFF))))
            if t["service"] in IMPLEMENTED:
                t["service"] = 0x0530
            t["data"] = draw(gen.long_hexes(0, 40, 1400))
        else:
            p, e = draw(st.sampled_from([(2, 3), (0x0F, 1), (0x0F, 3), (0x0F, 5), (1, 1), (1, 2), (0, 0), (0xF1, 3), (3, 3)]))
            t.update(proto=p, emi=e, data=draw(gen.long_hexes(1, 30, 200)))
    elif w == "feature":
        t.update(service=draw(st.sampled_from([2, 4, 2, 4, 1, 3, 5, 0xEF])), feature=draw(st.sampled_from([3, 5, 3, 5, 1, 2, 4, 0, 9])),
                 value=draw(gen.weighted((4, st.integers(0, 4)), (1, gen.byte))), data=draw(gen.hexes(0, 3)))
    elif w == "header":
        t.update(dst=draw(dst), octet=draw(st.sampled_from([0, 1] if medium == "ip" else [0, 3, 4, 7, 8])), value=draw(gen.byte))
    else:
        t.update(kind=draw(st.sampled_from(["search", "connect", "connect", "connstate", "disconnect", "ack"])), status=draw(gen.byte), ip=draw(gen.ipv4),
                 port=draw(gen.port), ia=draw(gen.word), data=draw(gen.long_hexes(0, 60, 1400)))
    return t


@st.composite
def deliverable(draw):
    """A telegram of an implemented service for this stack."""
    t = {"what": "ldata", "seq": draw(gen.byte), "chan": draw(gen.byte), "code": draw(st.sampled_from([ref.IND, ref.IND, ref.CON])),
         "c1": draw(gen.flags1), "src": ["ia"], "info": draw(gen.additional()), "tpci": 0}
    if draw(st.integers(0, 3)):
        t.update(c2=draw(st.integers(0x80, 0xFF)), dst=["typed", draw(st.integers(0, 9))])
        svc = draw(st.sampled_from([ref.READ, ref.RESPONSE, ref.WRITE, ref.WRITE]))
        t["apci"] = svc | (draw(st.integers(0, 0x3F)) if svc else 0)
        t["data"] = draw(gen.weighted((3, st.just("")), (2, gen.hexes(1, 1)), (2, gen.hexes(2, 2)), (2, gen.hexes(4, 4)), (1, gen.long_hexes(0, 14, 120)))) if svc else ""
    else:
        t.update(c2=draw(st.integers(0, 0x7F)), dst=["ia"], apci=draw(st.sampled_from(PROPS)), data=draw(gen.long_hexes(4, 14, 120)))
    return t


@st.composite
def cases(draw):
    m = draw(st.sampled_from(["usb", "ip"]))
    cfg = draw(gen.config(max_ops=2))
    a = cfg["asaps"][0]
    cfg["assoc"].append([a, cfg["pool"][-1]])
    if all(d[0] != a for d in cfg["dpts"]):
        cfg["dpts"].append([a, draw(gen.name)])
    return {"medium": m, "tables": cfg, "frames": draw(gen.some(frame(m), 2, 8))}


# every service code, transport code and message code once per run, whatever the random search does
TABLES = {"ia": 0x1101, "cap": 20, "groups": [], "assoc": [[1, 0x0903], [2, 0x0903], [3, 0x0904]],
          "dpts": [[1, "DPT_Switch"], [2, "DPTSetupClima"], [3, "DPT_Value_Temp"]], "ops": []}


def sweep():
    base = {"what": "ldata", "seq": 9, "chan": 3, "c1": 0xBC, "src": ["ia"], "info": "", "code": ref.IND}
    for m in ("usb", "ip"):
        for group in (0xE0, 0x60):
            for dst in (0x0903, ["ia"], 0):
                for code in (ref.IND, ref.CON):
                    b = dict(base, c2=group, dst=dst, code=code)
                    for hi in range(0, 1024, 16):
                        yield {"medium": m, "tables": TABLES, "frames": [dict(b, tpci=0, apci=a, data=d) for a in range(hi, hi + 16) for d in ("", "0102030405")]}
                    for hi in range(0, 128, 16):
                        yield {"medium": m, "tables": TABLES, "frames": [dict(b, tpci=t & 0xFC, apci=a, data="10010001") for t in range(hi, hi + 16, 4)
                                                                         for a in (0, 0x40, 0x81, 0x3D5, 0x3D6, 0x3D7)]}
                    yield {"medium": m, "tables": TABLES, "frames": [dict(b, tpci=t, apci=0, data="") for t in range(128, 256)]}
        for lo in range(0, 256, 32):
            yield {"medium": m, "tables": TABLES, "frames": [
                {"what": "local", "seq": 1, "chan": 1, "code": c, "data": d} for c in range(lo, lo + 32) if c not in (ref.IND, ref.CON)
                for d in ("", "00", "0010", "ff")]}
            yield {"medium": m, "tables": TABLES, "frames": [dict(base, code=c, c2=0xE0, dst=0x903, tpci=0, apci=0x81, data="") for c in range(lo, lo + 32)]}
    for lo in range(0, 0x1000, 64):
        yield {"medium": "ip", "tables": TABLES, "frames": [{"what": "unknown", "seq": 0, "chan": 0, "service": s, "data": d} for s in range(lo, lo + 64)
                                                            if s not in IMPLEMENTED for d in ("", "04010000290000000000")]}


SUBS = [
    Sub("frames", check, "at least two frames and at least one message", cases, quick=2400),
    Sub("every code", check, "at least one message", cases=sweep),
]
