import copy

from hypothesis import strategies as st

import gen
import ref
from core import Sub, call, eq, refused, require, sut
from props import c13
from world import AS, World, dpt_class, encode, make_state

ID = "C30"
ASSUME = ["Values of fields without names are numbers that fit the field; reserved names of modes are not given.",
          "Types are known ones or names that nothing in the package has."]


def assigned(name, fields):
    """The raw value the fields stand for, by the layout."""
    d = ref.DPTS[name]
    raw = 0
    for f in d.fields:
        if f.name not in fields:
            continue
        v = fields[f.name]
        if isinstance(v, str):
            v = {n: k for k, n in f.names.items()}.get(v, c13.ALIASES.get(v))
        elif f.div:
            v = round(v * f.div)
        raw = f.put(raw, v)
    return fields.get("value", raw)


def expected(name, fields):
    d = ref.DPTS[name]
    if "decoded_value" not in fields:
        return assigned(name, fields)
    x = dpt_class(name)()
    x.encode(fields["decoded_value"])
    return x.value


def check(case, ctx):
    K = sut().datapointtypes
    name, items = case["name"], case["items"]
    fields = dict(map(tuple, items))
    mask = 0
    for f in ref.DPTS[name].fields:
        mask |= f.mask
    if ref.DPTS[name].kind != "packed":
        mask = (1 << 8 * ref.DPTS[name].size) - 1
    want = expected(name, fields)
    made = []
    for form in (fields, dict(reversed(list(fields.items()))), fields):
        before = copy.deepcopy(form)
        d = call("building a %s from %r" % (name, form), K.DPT_Factory.make, name, form)
        eq("the dictionary after building", (form, list(form)), (before, list(before)))
        require(type(d) is dpt_class(name), "built a %r from %s", type(d), name)
        eq("value of the %s built from %r" % (name, form), d.value & mask, want & mask)
        eq("fields of the %s built from %r" % (name, form), ref.observed(name, d), ref.reading(name, want))
        made.append(d)
    factory = K.DPT_Factory()
    d = call("building a %s with a factory object" % name, factory.make, name, fields)
    eq("value built by a factory object", d.value & mask, want & mask)
    # each is an object of its own
    d.value = case["other"] & ref.DPTS[name].maxraw
    for x in made:
        eq("value of an earlier datapoint", x.value & mask, want & mask)
    # and it can be sent
    world = World({"ia": 0x1101, "cap": 9, "assoc": [[1, case["dst"]]], "dpts": [[1, name]]})
    state = make_state(case["medium"], world.at, world.got)
    m = sut().layer.application.a_group_value_write.req.Msg(asap=AS(1), dpt=made[0])
    c = ref.out_group(ref.WRITE, case["dst"], name, made[0].value & ref.DPTS[name].maxraw)
    eq("frame of the built %s" % name, encode(state, m).hex(), ref.wrap(case["medium"], c).hex())
    ctx.label(name)
    ctx.label("%d fields" % len(fields))
    ctx.nontrivial(want & mask != 0)


def check_refused(case, ctx):
    K = sut().datapointtypes
    name, fields, kind = case["name"], dict(map(tuple, case["items"])), case["kind"]
    if kind == "type":
        bad = case["bad"]
        if hasattr(K, bad):
            return
        require(refused(K.DPT_Factory.make, bad, fields), "building a %r was not refused", bad)
    else:
        if kind == "field":
            d = dpt_class(name)()
            if case["bad"] in ["value", "bits"] + [f.name for f in ref.DPTS[name].fields] or case["bad"] == "decoded_value" and hasattr(d, "encode"):
                return
            at = case["at"] % (len(fields) + 1)
            items = list(fields.items())
            fields = dict(items[:at] + [(case["bad"], case["value"])] + items[at:])
        else:
            named = [f for f in ref.DPTS[name].fields if f.names]
            if not named:
                return
            f = named[case["at"] % len(named)]
            ok = set(f.names.values()) | set(c13.ALIASES)
            if case["bad"] in ok or case["bad"].startswith("riservato"):
                return
            fields[f.name] = case["bad"]
        require(refused(K.DPT_Factory.make, name, fields), "building a %s from %r was not refused", name, fields)
    # nothing of it stays
    d = call("building an empty %s" % name, K.DPT_Factory.make, name, {})
    eq("value of a %s without fields" % name, d.value, 0)
    ctx.label(kind)
    ctx.nontrivial(True)


def items(n):
    d = ref.DPTS[n]
    if d.kind == "plain":
        return st.one_of(st.just([]), st.integers(0, 255).map(lambda v: [["value", v]]))
    if d.kind == "float16":
        return st.one_of(st.just([]), st.floats(-671088, 670760).map(lambda v: [["decoded_value", v]]), st.integers(-300, 300).map(lambda v: [["decoded_value", v]]),
                         gen.raw_for(n).map(lambda v: [["decoded_value", ref.f16(v)]]))
    if d.kind == "float32":
        return st.one_of(st.just([]), st.floats(-(2.0 ** 127), 2.0 ** 127, width=32).map(lambda v: [["decoded_value", v]]))

    def value(f):
        if f.names:
            return st.sampled_from(sorted(f.names.values()) + (sorted(c13.ALIASES) if f.name == "funzionamento" else []))
        v = st.one_of(st.integers(0, (1 << f.width) - 1), st.sampled_from([0, 1, (1 << f.width) - 1]))
        return v.map(lambda x: x / f.div) if f.div else v

    return st.lists(st.sampled_from(range(len(d.fields))), unique=True, max_size=len(d.fields)).flatmap(
        lambda idx: st.tuples(*[value(d.fields[i]).map(lambda v, i=i: [d.fields[i].name, v]) for i in idx]).map(list))


def cases():
    return st.sampled_from(ref.NAMES + ["DPTSetupClima", "DPTInfoClimaReport"] * 3).flatmap(lambda n: st.fixed_dictionaries({
        "name": st.just(n), "items": items(n), "dst": gen.address, "medium": st.sampled_from(["usb", "ip", "tp"]), "other": st.integers(0, 2 ** 32 - 1)}))


# what a type has in Python, but no field
ATTRIBUTES = ["length", "Length", "decode", "encode", "Action", "Direction", "Command", "Stagione", "__doc__", "__module__", "__repr__", "__init__", "__eq__", "__class__",
              "__dict__", "__hash__", "_fields_", "_b_base_", "_objects", "__weakref__", "__slots__", "__reduce__"]


def wrong():
    fields = sorted({f.name for d in ref.DPTS.values() for f in d.fields})
    words = st.one_of(st.sampled_from(fields + ["acton", "Action", "action ", "", "decoded_value", "valeu", "x", "setpoints", "1"]), st.sampled_from(ATTRIBUTES), st.text("abcdefgi_", min_size=1, max_size=6))
    types = st.one_of(st.sampled_from(["", "DPT", "DPT_Swich", "dpt_switch", "DPT_Switch ", "DPT-Switch", "Switch", "1.001"]), st.text("ABCDEPT_", max_size=9))
    bad = {"type": types, "field": words, "value": st.sampled_from(c13.BAD + c13.EVERY_NAME + c13.ATTRIBUTES)}
    return st.tuples(st.sampled_from(ref.NAMES), st.sampled_from(sorted(bad))).flatmap(lambda t: st.fixed_dictionaries({
        "name": st.just(t[0]), "items": items(t[0]), "kind": st.just(t[1]), "bad": bad[t[1]], "at": st.integers(0, 9),
        "value": st.sampled_from([0, 1, "on", "off", 7, 1.5])}))


SUBS = [Sub("dictionaries", check, "a value other than zero", cases, quick=3000),
        Sub("refused", check_refused, "each case that is wrong", wrong, quick=2000)]
