import json
import math

from hypothesis import strategies as st

import gen
import ref
from core import Sub, call, eq, require, sut
from props import c20
from world import World, decode, dpt_class, make_state

ID = "C14"


def plain(v):
    return type(v) in (str, int, float, bool)


def nan_free(x):
    """Comparable form: not-a-number equals itself."""
    if isinstance(x, float) and math.isnan(x):
        return "nan"
    if isinstance(x, dict):
        return {k: nan_free(v) for k, v in x.items()}
    return x


def round_trip(name, dpt):
    K = sut().datapointtypes
    before = dpt.value
    desc = call("describing a %s of %#x" % (name, before), K.Description_Factory.make, dpt)
    require(isinstance(desc, tuple) and len(desc) == 2, "the description is %r", desc)
    got, fields = desc
    eq("type name", got, name)
    require(isinstance(fields, dict) and all(type(k) is str and plain(v) for k, v in fields.items()),
            "the description of %s %#x is not plain: %r", name, before, fields)
    call("writing the description as JSON", json.dumps, fields)
    again = call("building a %s from %r" % (name, fields), K.DPT_Factory.make, got, dict(fields))
    require(type(again) is dpt_class(name), "built a %r from a description of %s", type(again), name)
    if ref.DPTS[name].kind in ("packed", "plain"):
        eq("fields of %s rebuilt from %r" % (name, fields), call("reading the rebuilt %s" % name, ref.observed, name, again),
           call("reading a %s" % name, ref.observed, name, dpt))
    if hasattr(dpt, "decode"):
        eq("decoded value of %s rebuilt from %r" % (name, fields), nan_free(again.decode()), nan_free(dpt.decode()))
    d2 = call("describing the rebuilt %s" % name, K.Description_Factory.make, again)
    eq("description of the rebuilt %s" % name, (d2[0], nan_free(d2[1])), (got, nan_free(fields)))
    eq("value of the described %s" % name, dpt.value, before)
    require(isinstance(call("printing a %s" % name, repr, dpt), str) and isinstance(call("printing a %s" % name, str, dpt), str), "no text")


def check(case, ctx):
    name, raw = case["name"], case["raw"]
    d = dpt_class(name)()
    d.value = raw
    round_trip(name, d)
    ctx.label(name)
    ctx.nontrivial(raw != 0)


def check_bus(case, ctx):
    name, raw = case["name"], case["raw"]
    world = World({"ia": 0x1001, "cap": 5, "assoc": [[1, case["dst"]]], "dpts": [[1, name]], "ops": []})
    m = case["medium"]
    state = make_state(m, world.at, world.got)
    c = ref.cemi(case["code"], ref.ldata(0xBC, 0xE0, case["src"], case["dst"], ref.group_apdu(case["service"], name, raw)))
    got = [x for x in decode(state, m, ref.wrap(m, c, 1, 0)) if hasattr(x, "dpt")]
    eq("messages", len(got), 1)
    call("printing a message", repr, got[0])
    call("printing a message", str, got[0])
    round_trip(name, got[0].dpt)
    ctx.label(name)
    ctx.nontrivial(raw != 0)


def check_print(case, ctx):
    n = 0
    for m in c20.run(case, ctx, oracle=False):
        for f in (repr, str):
            require(isinstance(call("printing a %s" % type(m), f, m), str), "no text")
        n += 1
    ctx.nontrivial(n > 0)


def check_every(raw, ctx):
    for name in ("DPT_Value_Temp", "DPT_Value_Lux", "DPT_Value_Wsp"):
        d = dpt_class(name)()
        d.value = raw
        round_trip(name, d)
    ctx.nontrivial(raw != 0)


def values():
    def of(n):
        s = ref.DPTS[n].size
        return st.fixed_dictionaries({"name": st.just(n), "raw": st.integers(0, 255) if s == 1 else gen.raw_for(n)})
    return st.sampled_from(ref.NAMES + ["DPTSetupClima", "DPTInfoClimaReport", "DPT_Value_Power"] * 2).flatmap(of)


def bus():
    return st.sampled_from(ref.NAMES).flatmap(lambda n: st.fixed_dictionaries({
        "name": st.just(n), "raw": gen.raw_for(n), "dst": gen.address, "src": gen.word, "medium": st.sampled_from(["usb", "ip"]),
        "code": st.sampled_from([ref.IND, ref.CON]), "service": st.sampled_from([ref.WRITE, ref.RESPONSE])}))


SUBS = [
    Sub("values", check, "a value other than zero", values, quick=6000),
    Sub("two-octet values", check_every, "a value other than zero", cases=lambda: range(65536), quick_cases=lambda: range(0, 65536, 5)),
    Sub("from the bus", check_bus, "a value other than zero", bus, quick=1200),
    Sub("printing", check_print, "at least one message was decoded", c20.cases, quick=2000),
]
