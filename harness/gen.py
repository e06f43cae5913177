"""Strategies of plain JSON-able cases."""
from hypothesis import strategies as st

import ref



def weighted(*pairs):
    """One of several strategies with integer weights (st.one_of drops repetitions)."""
    strategies = [s for _, s in pairs]
    return st.sampled_from([i for i, (w, _) in enumerate(pairs) for _ in range(w)]).flatmap(strategies.__getitem__)


PASS = st.sampled_from([0.05, 1.5, 11, 61, 125, 4000, 90000])  # seconds
DEEP = False  # set in the thorough tier


@st.composite
def some(draw, elements, lo, hi):
    """A list with lo to hi elements (four times as many in the thorough tier), often near the top: st.lists keeps most lists short."""
    n = draw(st.sampled_from([lo, lo, (3 * lo + hi) // 4, (lo + hi) // 2, hi - 1] + [2 * hi, 4 * hi] * DEEP))
    return draw(st.lists(elements, min_size=n, max_size=max(n + 1, hi)))


EDGES = (255, 0, 254, 1, 128, 127, 255, 2)
byte = st.integers(0, 319).map(lambda x: x if x < 256 else EDGES[x % 8])
word = st.one_of(st.integers(0, 0xFFFF), st.sampled_from([0, 1, 2, 0x7FFF, 0x8000, 0xFF, 0x100, 0xFFFF]))
address = st.one_of(st.integers(1, 12), st.integers(1, 0xFFFF), st.sampled_from([0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF]))
asap = weighted((3, st.integers(1, 5)), (1, st.integers(1, 300)), (1, st.integers(257, 100000)))
octets = st.binary  # -> hex text through .map(bytes.hex)
name = st.sampled_from(ref.NAMES)
ipv4 = st.tuples(byte, byte, byte, byte).map(lambda t: "%d.%d.%d.%d" % t)
port = word


def hexes(lo, hi):
    return st.binary(min_size=lo, max_size=hi).map(bytes.hex)


def stretched(n, pattern):
    return (pattern * n)[:n].hex()


def long_hexes(lo, hi, top, rare=14):
    """Mostly short; sometimes as long as a message may be."""
    return weighted((rare, hexes(lo, hi)), (1, st.builds(stretched, st.one_of(st.integers(hi, top), st.integers(top - 8, top)), st.binary(min_size=1, max_size=5))))


def raw_for(n):
    """A raw value of datapoint type n; all octet boundaries get exercised."""
    hi = ref.DPTS[n].maxraw
    if hi < 256:
        return st.integers(0, hi)
    bits = hi.bit_length()
    size = (bits + 7) // 8  # whole octets, so that the upper ones are not mostly zero
    return st.one_of(st.integers(0, hi), st.binary(min_size=size, max_size=size).map(lambda b: int.from_bytes(b, "big") & hi),
                     st.integers(0, bits - 1).map(lambda b: 1 << b),
                     st.integers(0, bits - 1).map(lambda b: hi ^ (1 << b)),
                     st.sampled_from([0, hi, 0xFF, hi >> 1, 0x01020304 & hi]))


@st.composite
def config(draw, max_ops=8, direct=True, cap=None, ia_ops=True, dpts=True, min_addr=1, crowds=0):
    """Tables reached by a history of operations over small pools."""
    ia = draw(address)
    crowded = draw(st.integers(0, 11)) == 11  # many access points on one address, or many addresses
    pool = draw(st.lists(address, min_size=min_addr, max_size=14 if crowded else 6, unique=True))
    if draw(st.integers(0, 5)) == 0 and ia not in pool:
        pool.append(ia)
    asaps = draw(st.lists(asap, min_size=5 if crowded else 1, max_size=14 if crowded else 4, unique=True))
    capv = draw(st.one_of(st.just(255), st.integers(1, 4), st.integers(3, 8))) if cap is None else cap
    groups = draw(st.lists(st.sampled_from(pool), max_size=min(3, capv), unique=True)) if direct else []
    A, G = st.sampled_from(asaps), st.sampled_from(pool)
    init = draw(st.lists(st.tuples(A, G).map(list), max_size=4))
    if draw(st.integers(0, 2)) == 2:  # several addresses of one access point, in any order
        init += [[draw(A), g] for g in draw(st.permutations(pool))[:3]] if draw(st.booleans()) else [[asaps[-1], g] for g in draw(st.permutations(pool))[:3]]
    if crowded:
        one = draw(st.sampled_from(pool))
        init += [[a, one] for a in asaps] + [[asaps[0], g] for g in pool if draw(st.booleans())]
    ops = draw(some(table_op(A, G, direct, ia_ops, dpts), 0, max_ops)) if max_ops else []
    types = [[a, draw(name)] for a in asaps if draw(st.integers(0, 5)) > 0] if dpts else []
    cfg = {"ia": ia, "cap": capv, "groups": groups, "assoc": init, "ops": ops, "dpts": types, "pool": pool, "asaps": asaps}
    if draw(st.integers(0, 5)) == 0:  # several access points of one name
        cfg["named"] = draw(st.sampled_from(["lamp", ""]))
    if crowds and draw(st.integers(1, crowds)) == crowds:  # more entries than an octet counts
        cfg["crowd"] = [draw(st.sampled_from([[1, 1, 254], [1, 1, 300], [3, 2, 280], [1, 1, 520], [0xFE00, 1, 512], [1, 250, 260]]))]
        cfg["cap"] = draw(st.sampled_from([1000, 65535]))
        if draw(st.booleans()):
            cfg["points"] = [[draw(st.sampled_from([1, 1, 6, 1000])), draw(st.sampled_from([3, 40, 255, 260])), draw(st.sampled_from(pool)), draw(name) if dpts else None]]
    return cfg


def table_op(A, G, direct=True, ia_ops=True, dpts=True):
    small = st.integers(0, 9)
    alts = [
        st.tuples(st.just("a"), A, st.lists(G, min_size=1, max_size=3)),
        st.tuples(st.just("a"), A, G.map(lambda g: [g])),
        st.tuples(st.just("a"), A, st.lists(G, min_size=1, max_size=3), st.sampled_from(["", "lamp"])),
        st.tuples(st.just("d"), small),
        st.tuples(st.just("dall"), small, small),
        st.tuples(st.just("dm"), A, G),
    ]
    alts.append(st.tuples(st.just("pass"), PASS))
    if direct:
        alts += [st.tuples(st.just("add"), G), st.tuples(st.just("rem"), small)]
    if ia_ops:
        alts += [st.tuples(st.just("ia"), st.one_of(address, G))]
    if dpts:
        alts += [st.tuples(st.just("dpt"), A, name), st.tuples(st.just("undpt"), small)]
    return st.one_of(alts).map(list)


flags1 = st.one_of(st.sampled_from([0x96, 0xBC, 0xB4, 0x97, 0xBD]), byte)


@st.composite
def additional(draw):
    n = draw(st.sampled_from([0, 0, 0, 1, 3, 4, 7, 20, 0, 0, 0, 1, 3, 4, 7, 100, 127, 128, 200]))
    return draw(hexes(n, n))
