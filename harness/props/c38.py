import copy
import pickle
import re

from hypothesis import strategies as st

import talk
from core import Sub, call, eq, require, sut
from threads import outcome
from ref import DPTS
from world import dpt_class, observe

ID = "C38"
ASSUME = ["A stack is copied together with its tables, as one object; messages and datapoints are copied one by one."]


def plain(text, wrong):
    return [re.sub("0x[0-9a-f]{9,}", "@", x) for x in text + ([wrong] if wrong else [])]


def look(world, state):
    return [repr(world.table), repr(world.at), repr(world.got), repr(state)]


def duplicate(how, x):
    if how == "deepcopy":
        return call("copying", copy.deepcopy, x)
    return call("unpickling", pickle.loads, call("pickling", pickle.dumps, x, how))


def check(case, ctx):
    """A copied stack goes on exactly like the original, and neither notices the other."""
    world, state = talk.stack(case)
    medium, ops, cut = case["medium"], case["ops"], case["cut"] % (len(case["ops"]) + 1)
    talk.play(world, state, medium, ops[:cut], [])
    before = look(world, state)
    w2, s2 = duplicate("deepcopy", (world, state))
    eq("what is printed of a copied stack", look(w2, s2), before)
    out = []
    text2 = plain(out, outcome(lambda: talk.play(w2, s2, medium, ops[cut:], out)))
    after = look(w2, s2)
    eq("the original after work on its copy", look(world, state), before)
    out = []
    text1 = plain(out, outcome(lambda: talk.play(world, state, medium, ops[cut:], out)))
    for a, b in zip(text1, text2):
        eq("result of a copied stack", b, a)
    eq("results of a copied stack", len(text2), len(text1))
    eq("the copied stack after work on both", look(w2, s2), after)
    if state.ldata is not None:
        before = repr(s2.ldata), s2.ldata.apci
        state.ldata.destination ^= 1
        state.ldata.apci ^= 0x40
        eq("telegram of the copied stack after a change of the original's", (repr(s2.ldata), s2.ldata.apci), before)
    ctx.label(medium)
    ctx.nontrivial(cut < len(ops) and len(text1) > 3)


def check_values(case, ctx):
    """Copies of messages, requests and datapoints are equal and separate."""
    K = sut()
    world, state = talk.stack(case)
    how = case["how"]
    D = K.datapointtypes.Description_Factory
    seen = []
    real = K.decode_msg, K.encode_msg

    def decode(*a):
        r = real[0](*a)
        seen.extend(r)
        return r

    def encode(s, m):
        seen.append(m)
        return real[1](s, m)

    K.decode_msg, K.encode_msg = decode, encode
    try:
        talk.play(world, state, case["medium"], case["ops"], [])
    finally:
        K.decode_msg, K.encode_msg = real
    for x in seen:
        m = duplicate("deepcopy" if how == "copy" else how, x)
        eq("type of a copied message", type(m), type(x))
        eq("copied message", repr(m), repr(x))
        d, e = getattr(x, "dpt", None), getattr(m, "dpt", None)
        if d is None:
            continue
        if type(x).__name__.endswith("Ind"):
            eq("contents of a copied message", observe(m), observe(x))
        if hasattr(x, "asap"):
            require(m.asap == x.asap and hash(m.asap) == hash(x.asap), "access point %r of a copied message is %r", x.asap, m.asap)
        was = d.value
        e.value = was ^ 1
        eq("value of the original after its copy has changed", d.value, was)
    for name, raw in case["values"]:
        d = dpt_class(name)()
        d.value = raw & DPTS[name].maxraw
        e = call("copying", copy.copy, d) if how == "copy" else duplicate(how, d)
        eq("type of a copied datapoint", type(e), type(d))
        eq("description of a copied datapoint", repr(D.make(e)), repr(D.make(d)))
        e.value = d.value ^ 1
        eq("value of the original after its copy has changed", d.value, raw & DPTS[name].maxraw)
    ctx.label(str(how))
    ctx.nontrivial(len(seen) > 2)


@st.composite
def cases(draw):
    return dict(draw(talk.texts()), cut=draw(st.integers(0, 20)))


@st.composite
def values(draw):
    case = draw(talk.texts())
    return dict(case, how=draw(st.sampled_from(["copy", "deepcopy", 5, 2])), values=draw(st.lists(st.tuples(st.sampled_from(sorted(DPTS)), st.integers(0, 2 ** 32 - 1)).map(list), max_size=4)))


SUBS = [Sub("stacks", check, "at least three results after the copy", cases, quick=600), Sub("values", check_values, "at least three messages", values, quick=500)]
