import enum

from hypothesis import strategies as st

import gen
import ref
from core import Sub, call, eq, refused, require
from world import dpt_class

ID = "C13"
ASSUME = ["Integer fields are assigned values that fit them; temperatura is assigned multiples of its unit 0.1.",
          "The modes 9-13 and 15 of funzionamento are reserved: they are read as numbers and are not assigned by name."]
PACKED = [n for n in ref.NAMES if ref.DPTS[n].kind == "packed"]
ALIASES = {"automatico_invio_temperatura_abilitato": 8}


def check_reads(name, dpt, raw):
    d = ref.DPTS[name]
    for f in d.fields:
        v = call("reading %s of %s %#x" % (f.name, name, raw), getattr, dpt, f.name)
        want = f.get(raw)
        if f.div:
            require(abs(v - want / f.div) < 1e-9, "%s.%s of %#x is %r, expected %r", name, f.name, raw, v, want / f.div)
            continue
        eq("%s.%s of %#x" % (name, f.name, raw), int(v), want)
        if f.names and want in f.names:
            eq("name of %s.%s of %#x" % (name, f.name, raw), v.name, f.names[want])
            enum = type(v)
            require(v == enum[f.names[want]], "%s.%s is %r", name, f.name, v)


def check(case, ctx):
    name = case["name"]
    d = ref.DPTS[name]
    fmask = 0
    for f in d.fields:
        fmask |= f.mask
    dpt = dpt_class(name)()
    raw = 0
    if case["raw"] is not None:
        dpt.value = raw = case["raw"]
    check_reads(name, dpt, raw)
    names = {f.name: f for f in d.fields}
    done = 0
    for fname, v in case["ops"]:
        f = names[fname]
        if f.names and isinstance(v, str):
            values = {n: k for k, n in f.names.items()}
            if fname == "funzionamento":
                values.update(ALIASES)
            if v not in values:
                if v.startswith("riservato"):
                    continue
                before = dpt.value
                require(refused(setattr, dpt, fname, v), "%s.%s = %r was not refused", name, fname, v)
                eq("value after a refused assignment", dpt.value, before)
                check_reads(name, dpt, raw)
                ctx.label("refused")
                continue
            call("%s.%s = %r" % (name, fname, v), setattr, dpt, fname, v)
            n = values[v]
        else:
            n = v
            call("%s.%s = %r" % (name, fname, v), setattr, dpt, fname, n / f.div if f.div else n)
        raw = f.put(raw, n)
        eq("bits of the fields of %s after %s = %r" % (name, fname, v), dpt.value & fmask, raw & fmask)
        raw = dpt.value
        check_reads(name, dpt, raw)
        done += 1
    ctx.label(name)
    ctx.nontrivial(bool(case["raw"]) and (done > 0 or not case["ops"]))


BAD = ["", "ON", "Off", "offf", "nope", "name", "value", "real", "1", "acceso", "on ", "attiva!", "up_", "estate2"]
ATTRIBUTES = sorted(set(dir(enum.IntEnum)) | set(dir(type(enum.IntEnum))))  # names which enumerations have in Python
EVERY_NAME = sorted({n for d in ref.DPTS.values() for f in d.fields if f.names for n in f.names.values()} | set(ALIASES))


def value_of(f):
    if f.names:
        good = st.sampled_from(sorted(f.names.values()) + (sorted(ALIASES) if f.name == "funzionamento" else []))
        return gen.weighted((3, good), (1, st.sampled_from(BAD + EVERY_NAME)), (1, st.sampled_from(ATTRIBUTES)))
    return st.one_of(st.integers(0, (1 << f.width) - 1), st.sampled_from([0, 1, (1 << f.width) - 1]))


def cases():
    def of(n):
        d = ref.DPTS[n]
        op = st.sampled_from(range(len(d.fields))).flatmap(lambda i: st.tuples(st.just(d.fields[i].name), value_of(d.fields[i])).map(list))
        raw = st.integers(0, (1 << 8 * d.size) - 1) if d.size == 1 else gen.raw_for(n)
        return st.fixed_dictionaries({"name": st.just(n), "raw": gen.weighted((4, raw), (1, st.none())), "ops": gen.some(op, 0, 8)})
    return st.sampled_from(PACKED + ["DPTSetupClima", "DPTInfoClimaReport"] * 3).flatmap(of)


def all_small():
    """Every raw octet of every one-octet type, every assignment to every field."""
    for n in PACKED:
        d = ref.DPTS[n]
        if d.size > 1:
            continue
        for raw in range(256):
            yield {"name": n, "raw": raw, "ops": []}
        for f in d.fields:
            for v in (sorted(f.names.values()) if f.names else range(1 << f.width)):
                for raw in (0, 0xFF, 0x55, 0xAA):
                    yield {"name": n, "raw": raw, "ops": [[f.name, v]]}


def all_wide():
    """Every value of every field of the four-octet types, over three backgrounds."""
    for n in PACKED:
        d = ref.DPTS[n]
        if d.size == 1:
            continue
        for f in d.fields:
            for v in range(1 << f.width):
                for bg in (0, 0xFFFFFFFF, 0x5A3C96A5):
                    yield {"name": n, "raw": f.put(bg, v), "ops": []}
                    w = v
                    if f.names:
                        if v not in f.names:
                            continue
                        w = f.names[v]
                    yield {"name": n, "raw": bg, "ops": [[f.name, w]]}


SUBS = [
    Sub("one-octet types", check, "a non-zero start value", cases=all_small),
    Sub("field values", check, "a non-zero start value", cases=all_wide),
    Sub("assignments", check, "a non-zero start value and an accepted assignment", cases, quick=6000),
]
