from hypothesis import strategies as st

from core import Sub, call, eq, require, sut

ID = "C02"


def make(kind, n):
    K = sut()
    if kind == "ia":
        return K.Address(n)
    if kind == "ia_kw":
        return K.Address(free_style=n)
    if kind == "free":
        return K.GroupAddress(free_style=n)
    if kind == "pos":
        return K.GroupAddress(n)
    if kind == "two":
        return K.GroupAddress(two_level_style=K.TwoLevelStyle(main=n >> 11, sub=n & 0x7FF))
    return K.GroupAddress(three_level_style=K.ThreeLevelStyle(main=n >> 11, middle=n >> 8 & 7, sub=n & 255))


def check_one(case, ctx):
    n = case["n"]
    text = "(0x%04X %d/%d %d/%d/%d)" % (n, n >> 11, n & 0x7FF, n >> 11, n >> 8 & 7, n & 255)
    for kind in ("free", "pos", "two", "three"):
        g = call("building %#x" % n, make, kind, n)
        eq("%s notation of %#x" % (kind, n),
           (g.free_style, g.two_level_style.main, g.two_level_style.sub, g.three_level_style.main,
            g.three_level_style.middle, g.three_level_style.sub),
           (n, n >> 11, n & 0x7FF, n >> 11, n >> 8 & 7, n & 255))
        eq("print of %#x" % n, repr(g), text)
    a = make("ia", n)
    eq("individual address %#x" % n, (a.free_style, repr(a)), (n, "0x%04X" % n))
    ctx.nontrivial(True)


def check_pair(case, ctx):
    a, b = make(case["ka"], case["a"]), make(case["kb"], case["b"])
    same = case["a"] == case["b"]
    for x, y in ((a, b), (b, a)):
        eq("%r == %r" % (x, y), x == y, same)
        eq("%r != %r" % (x, y), x != y, not same)
        eq("%r in a set with %r" % (x, y), x in {y}, same)
        eq("%r in a list with %r" % (x, y), x in [y], same)
        eq("%r looked up in a dictionary with %r" % (x, y), {y: 1}.get(x), 1 if same else None)
        eq("size of the set of both", len({x, y}), 1 if same else 2)
    if same:
        eq("hash of equal addresses", hash(a), hash(b))
    else:
        require(hash(a) != hash(b), "different addresses %r and %r hash alike", a, b)
    ctx.nontrivial(same or bin(case["a"] ^ case["b"]).count("1") == 1)
    ctx.label("equal" if same else "one bit apart" if bin(case["a"] ^ case["b"]).count("1") == 1 else "other")


def s_pair():
    K = st.sampled_from(["ia", "ia_kw", "free", "pos", "two", "three"])
    n = st.integers(0, 65535)
    return st.tuples(K, K, n, st.one_of(st.just(-1), st.integers(0, 15), st.integers(0, 65535).map(lambda x: x + 100))).map(
        lambda t: {"ka": t[0], "kb": t[1], "a": t[2],
                   "b": t[2] if t[3] < 0 else t[2] ^ 1 << t[3] if t[3] < 100 else t[3] - 100})


SUBS = [
    Sub("notations", check_one, "each of the 65536 addresses", cases=lambda: [{"n": n} for n in range(65536)]),
    Sub("pairs", check_pair, "equal addresses, or addresses one bit apart", s_pair, quick=4000),
]
