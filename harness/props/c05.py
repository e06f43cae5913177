from hypothesis import strategies as st

import gen
import ref
from core import Sub, eq, require
from world import World, compare, decode, make_state, observe, ref_cemi

ID = "C05"
ASSUME = ["The value of a read message and of a telegram whose data does not fit the access point's type is not compared.",
          "Access point 0 (the individual address) has no datapoint type."]

SERVICES = {"read": ref.READ, "response": ref.RESPONSE, "write": ref.WRITE}


def apdu_for(world, spec, dst):
    if spec["service"] == "read":
        return ref.apdu(ref.READ)
    size = spec["size"]
    typed = world.typed(dst)
    if size == "match" and typed:
        d = ref.DPTS[world.dpts[typed[spec["pick"] % len(typed)]]]
        size = "short" if d.short else d.size
    elif size == "match":
        size = "short"
    raw = spec["raw"]
    svc = SERVICES[spec["service"]]
    if size == "short":
        return ref.apdu(svc | raw & 0x3F)
    return ref.apdu(svc, (raw % (1 << 8 * size)).to_bytes(size, "big"))


def resolve(world, to, touched):
    """The destination: a number, the address touched last, or one some typed access point uses now."""
    if isinstance(to, int):
        return to
    if to[0] == "touched" and touched is not None:
        return touched
    pairs = [g for a, g in world.pairs() if a in world.dpts] or world.groups or [1]
    return pairs[to[1] % len(pairs)]


def receive(world, state, medium, spec, ctx, touched):
    dst = resolve(world, spec["dst"], touched)
    c2 = 0x80 | spec["c2"] & 0x7F
    c = ref.cemi(ref.IND if spec["kind"] == "ind" else ref.CON,
                 ref.ldata(spec["c1"], c2, spec["src"], dst, apdu_for(world, spec, dst)), bytes.fromhex(spec["info"]))
    want = ref_cemi(world, c)
    if medium == "ip":
        state.sequence_counter_remote = spec["seq"]
        state.sequence_counter_local = spec["seq"] * 5 + 255 & 255
        data = ref.tun_req(spec["chan"], spec["seq"], c)
        want = [{"kind": "TunReq", "seq": spec["seq"], "status": 0}] + want
    else:
        data = ref.usb(c, pad=b"\0" * spec["pad"])
    got = decode(state, medium, data)
    compare("telegram %s" % data.hex(), got, want)
    ds = [m.dpt for m in got if hasattr(m, "dpt")]
    if len(ds) > 1:  # each message has a datapoint of its own
        before = [d.value for d in ds[1:]]
        ds[0].value = ds[0].value ^ 1
        eq("datapoints of the other messages of %s after one is changed" % data.hex(), [d.value for d in ds[1:]], before)
    n = len(want) - (medium == "ip")
    ctx.label("%s %s %s" % (medium, spec["service"], spec["kind"]))
    ctx.label("%d receivers" % n if n < 3 else "3+ receivers")
    return n


def check(case, ctx):
    world = World(case["tables"])
    medium = case["medium"]
    state = make_state(medium, world.at, world.got)
    hit = changed = 0
    touched = None
    for op in case["ops"]:
        if op[0] == "rx":
            n = receive(world, state, medium, op[1], ctx, touched)
            if n and changed:
                hit += 1
        else:
            before = set(world.pairs())
            s = world.apply(op)
            diff = sorted(before ^ set(world.pairs()))
            if diff:
                touched = diff[0][1]
            if s not in ("none", "missing", "already there"):
                changed += 1
    ctx.nontrivial(hit > 0)


@st.composite
def telegram(draw, dst):
    return {
        "dst": draw(dst), "service": draw(st.sampled_from(["read", "response", "write", "write"])),
        "kind": draw(st.sampled_from(["ind", "ind", "con"])), "size": draw(st.sampled_from(["match"] * 8 + ["short", 1, 2, 4])),
        "pick": draw(st.integers(0, 3)), "raw": draw(st.one_of(st.integers(0, 63), st.integers(0, 2**32 - 1))),
        "c1": draw(gen.flags1), "c2": draw(st.one_of(st.just(0x60), st.integers(0, 127))),
        "src": draw(gen.word), "info": draw(gen.additional()), "seq": draw(gen.byte),
        "chan": draw(gen.byte), "pad": draw(st.sampled_from([0, 0, 5, 40])),
    }


@st.composite
def cases(draw):
    cfg = draw(gen.config(max_ops=6, crowds=24))
    pool, asaps = cfg["pool"], cfg["asaps"]
    G, A = st.sampled_from(pool), st.sampled_from(asaps)
    dst = gen.weighted((5, st.tuples(st.just("typed"), st.integers(0, 9)).map(list)), (3, st.tuples(st.just("touched"), st.integers(0, 9)).map(list)),
                       (1, G), (1, st.sampled_from([0, cfg["ia"]])), (1, gen.word))
    ops = draw(gen.some(gen.weighted((3, st.tuples(st.just("rx"), telegram(dst)).map(list)), (2, gen.table_op(A, G))), 4, 12))
    return {"medium": draw(st.sampled_from(["usb", "ip"])), "tables": cfg, "ops": ops}


def check_values(case, ctx):
    """One access point of each type, one telegram; values over the whole range."""
    n = case["name"]
    world = World({"ia": 0x1001, "cap": 10, "assoc": [[1, 7], [2, 7]], "dpts": [[1, n], [2, "DPT_Brightness"]], "ops": []})
    for medium in ("usb", "ip"):
        state = make_state(medium, world.at, world.got)
        for svc in ("write", "response"):
            c = ref.cemi(ref.IND, ref.ldata(0xBC, 0xE0, 0x1234, 7, ref.group_apdu(SERVICES[svc], n, case["raw"])))
            pre = [{"kind": "TunReq", "seq": 0, "status": 0}] if medium == "ip" else []
            data = ref.usb(c) if medium == "usb" else ref.tun_req(1, 0, c)
            compare("%s of %s %#x" % (svc, n, case["raw"]), decode(state, medium, data), pre + ref_cemi(world, c))
    ctx.label(n)
    ctx.nontrivial(case["raw"] != 0)


def value_cases():
    return st.sampled_from(ref.NAMES).flatmap(lambda n: gen.raw_for(n).map(lambda r: {"name": n, "raw": r}))


SUBS = [
    Sub("history", check, "a telegram received by at least one access point after the tables were changed", cases, quick=2400),
    Sub("values", check_values, "a value other than zero", value_cases, quick=1200),
]
