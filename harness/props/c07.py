from hypothesis import strategies as st

import gen
import ref
from core import Sub, attempt, eq, sut
from props.c06 import request
from world import AS, World, dpt_class, encode, make_state

ID = "C07"
_w = {}


def setup(name):
    if name not in _w:
        w = World({"ia": 0x1001, "cap": 10, "assoc": [[1, 0x0A03]], "dpts": [[1, name]]})
        _w[name] = {m: make_state(m, w.at, w.got) for m in ("usb", "ip", "tp")}
    return _w[name]


def check_raw(case, ctx):
    name, raw, media = case["name"], case["raw"], case["media"]
    d = ref.DPTS[name]
    for m in media:
        state = setup(name)[m]
        for kind, code in (("write", ref.REQ), ("ind", ref.IND)):
            msg = request(kind, 1, name, raw)
            want = ref.wrap(m, ref.out_group(ref.WRITE, 0x0A03, name, raw, code))
            eq("%s of %s %#x over %s" % (kind, name, raw, m), encode(state, msg).hex(), want.hex())
    ctx.nontrivial(raw != 0)
    ctx.label("short" if d.short else "%d octets" % d.size)


def check_fields(case, ctx):
    """Values set through the fields (or the decoded value) instead of the raw value."""
    name = case["name"]
    d = ref.DPTS[name]
    dpt = dpt_class(name)()
    raw = 0
    if d.kind == "packed":
        for f, v in zip(d.fields, case["vals"]):
            v &= (1 << f.width) - 1
            if f.names and v not in f.names:
                continue
            if f.names:
                setattr(dpt, f.name, f.names[v])
            else:
                setattr(dpt, f.name, v / f.div if f.div else v)
            raw = f.put(raw, v)
    elif d.kind == "plain":
        raw = case["vals"][0] & 255
        dpt.value = raw
    elif d.kind == "float16":
        # integers and halves below 20.48 have exponent zero
        cents = case["vals"][0] % 4095 - 2047
        dpt.encode(cents / 100)
        raw = cents & 0x7FF | (0x8000 if cents < 0 else 0)
    else:
        import struct
        v = float(case["vals"][0] % (1 << 24)) * (-1 if case["vals"][1] & 1 else 1)
        dpt.encode(v)
        raw = struct.unpack(">I", struct.pack(">f", v))[0]
    msg = sut().layer.application.a_group_value_write.req.Msg(asap=AS(1), dpt=dpt)
    m = case["media"][0]
    want = ref.wrap(m, ref.out_group(ref.WRITE, 0x0A03, name, raw))
    eq("write of %s fields %r" % (name, case["vals"]), encode(setup(name)[m], msg).hex(), want.hex())
    ctx.nontrivial(raw != 0)


def s_fields():
    return st.fixed_dictionaries({"name": gen.name, "vals": st.lists(st.integers(0, 2**32 - 1), min_size=9, max_size=9),
                                  "media": st.lists(st.sampled_from(["usb", "ip", "tp"]), min_size=1, max_size=1)})


def s_wide():
    return st.sampled_from([n for n in ref.NAMES if ref.DPTS[n].size > 1]).flatmap(
        lambda n: st.tuples(gen.raw_for(n), st.sampled_from(["usb", "ip", "tp"])).map(lambda t: {"name": n, "raw": t[0], "media": [t[1]]}))


def octet_cases():
    """All raw values of the one-octet types; types inside the service code with all eight bits set as received."""
    return [{"name": n, "raw": r, "media": ["usb", "ip", "tp"] if r % 16 == 1 else ["usb", "ip"]}
            for n in ref.NAMES if ref.DPTS[n].size == 1 for r in range(256)]


SUBS = [
    Sub("octet types", check_raw, "each raw value but zero of each type of up to one octet", cases=octet_cases),
    Sub("wide types", check_raw, "a raw value but zero of a two- or four-octet type", s_wide, quick=3200),
    Sub("fields", check_fields, "a value but zero, set through the type's fields", s_fields, quick=1600),
]
