from hypothesis import strategies as st

import gen
from core import Sub, eq, require, sut
from world import AS, World

ID = "C04"
ASSUME = ["Access point 0 stands for the individual address itself and is left out of the comparison.",
          "Whether an address that was put into the address table by hand leaves it when its last access point goes is not stated; either is accepted.",
          "Addresses in use by an access point are not removed from the address table by hand."]


def check(case, ctx):
    w = World(dict(case, ops=[], dpts=[]))
    probes = case["pool"] + [case["ia"]]
    w.check_association_table(probes)
    seen = set()
    for op in case["ops"]:
        s = w.apply(op)
        seen.add(s)
        w.check_association_table(probes)
        eq("group addresses", [a.free_style for a in w.table.addresses], w.groups)
    repr(w.at)
    for s in seen:
        ctx.label(s)
    ctx.nontrivial("disassociate-shared" in seen or "overflow" in seen or ("shared" in seen and len(seen) >= 3))


def check_asap(case, ctx):
    K = sut()
    a, b = AS(case["a"], case["na"]), AS(case["b"], case["nb"])
    same = case["a"] == case["b"]
    eq("%r == %r" % (a, b), a == b, same)
    eq("%r in a dictionary with %r" % (a, b), {b: 1}.get(a), 1 if same else None)
    eq("set size", len({a, b}), 1 if same else 2)
    eq("value", (a.value, a.name), (case["a"], case["na"]))
    repr(a)
    ctx.nontrivial(same and case["na"] != case["nb"])


def s_asap():
    v = st.one_of(st.integers(0, 9), st.sampled_from([255, 256, 257, 300, 1000, 65535, 100000, 2 ** 32, 2 ** 61 - 1, 2 ** 61, 2 ** 64, 2 ** 64 + 1]))
    n = st.sampled_from([None, "", "x", "lamp", "1"])
    return st.fixed_dictionaries({"a": gen.weighted((3, v), (1, st.integers(0, 70000))), "b": v, "na": n, "nb": n})


SUBS = [
    Sub("history", check, "an address shared by access points loses one of them, an association overflows, or sharing plus two other kinds of operation",
        lambda: gen.config(max_ops=25, dpts=False, crowds=40), quick=2400),
    Sub("access points", check_asap, "equal numbers, different names", s_asap, quick=400),
]
