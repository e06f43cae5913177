from hypothesis import strategies as st

import gen
from core import Sub, call, eq, refused, require, sut
from world import GA, IA, raw_of

ID = "C03"
ASSUME = ["The table starts from distinct group addresses, at most as many as its capacity."]


def check(case, ctx):
    K = sut()
    first, step, count = case.get("crowd") or [1, 1, 0]
    groups = case["groups"] + [g for g in range(first, first + step * count, step) if g not in case["groups"]]
    model = sorted(groups)
    ia, cap = case["ia"], case["cap"]
    t = call("building the table", K.AddressTable, IA(ia), [GA(g) for g in groups], cap)

    def verify(after):
        what = "after %r: " % (after,)
        eq(what + "group addresses", [raw_of(a) for a in t.addresses], model)
        eq(what + "positions", list(t.tsaps), list(range(len(model) + 1)))
        eq(what + "individual address", raw_of(t.individual_address), ia)
        eq(what + "capacity", t.max_size, cap)
        eq(what + "address at 0", raw_of(call("get_address", t.get_address, 0)), ia)
        for i, g in enumerate(model) if len(model) < 50 else [(i, model[i]) for i in sorted({0, 1, 253, 254, 255, 256, len(model) - 1} | set(range(0, len(model), 7))) if i < len(model)]:
            eq(what + "address at %d" % (i + 1), raw_of(call("get_address", t.get_address, i + 1)), g)
        for n in (1, 2, 7):
            require(refused(t.get_address, len(model) + n), what + "position %d of %d was not refused", len(model) + n, len(model))
        for g in case["pool"]:
            want = model.index(g) + 1 if g in model else 0 if g == ia else None
            eq(what + "position of %#x" % g, call("get_tsap", t.get_tsap, GA(g)), want)
            eq(what + "position of the individual notation of %#x" % g, call("get_tsap", t.get_tsap, IA(g)), want)
        call("printing the table", repr, t)

    verify("building")
    seen = set()
    for op in case["ops"]:
        if op[0] == "add":
            g = op[1]
            if g in model:
                call("adding %#x again" % g, t.add, GA(g))
                seen.add("again" if len(model) < cap else "again when full")
            elif len(model) >= cap:
                require(refused(t.add, GA(g)), "adding %#x to a full table was not refused", g)
                seen.add("full")
            else:
                call("adding %#x" % g, t.add, GA(g))
                model = sorted(model + [g])
                seen.add("add")
        elif op[0] == "rem":
            g = op[1]
            if g in model:
                call("removing %#x" % g, t.remove, GA(g))
                model.remove(g)
                seen.add("remove")
            else:
                require(refused(t.remove, GA(g)), "removing the absent %#x was not refused", g)
                seen.add("absent")
        else:
            t.individual_address = IA(op[1])
            ia = op[1]
            seen.add("ia")
        verify(op)
    for s in seen:
        ctx.label(s)
    ctx.nontrivial(len(seen) >= 3)


@st.composite
def cases(draw):
    addr = gen.address if draw(st.booleans()) else st.one_of(st.integers(0, 6), st.just(0xFFFF), st.just(0x100))
    pool = draw(st.lists(addr, min_size=2, max_size=7, unique=True))
    P = st.sampled_from(pool)
    cap = draw(st.one_of(st.integers(0, 8), st.just(255)))
    groups = draw(st.lists(P, max_size=min(cap, 5), unique=True))
    ia = draw(st.one_of(gen.address, P))
    op = st.one_of(st.tuples(st.just("add"), P), st.tuples(st.just("rem"), P), st.tuples(st.just("add"), P.map(int)),
                   st.tuples(st.just("ia"), st.one_of(gen.address, P))).map(list)
    ops = draw(gen.some(op, 1, 25))
    crowd = None
    if draw(st.integers(0, 60)) == 60:
        crowd = draw(st.sampled_from([[1, 1, 254], [1, 1, 300], [3, 2, 280], [1, 250, 260], [0xFE00, 1, 512]]))
        cap = draw(st.sampled_from([len(set(groups) | set(range(crowd[0], crowd[0] + crowd[1] * crowd[2], crowd[1]))) + 1, 1000, 65535]))
        ops = ops[:6]
    return {"ia": ia, "cap": cap, "groups": groups, "pool": pool, "ops": ops, "crowd": crowd}


SUBS = [Sub("history", check, "at least three kinds of operation took effect (add, repeat, full, remove, absent, individual address)",
            cases, quick=3200)]


def check_large(case, ctx):
    """Tables as large as the capacity allows."""
    K = sut()
    n, cap, step, base = case["n"], case["cap"], case["step"], case["base"]
    gs = [(base + i * step) % 65536 for i in range(n)]
    t = K.AddressTable(IA(1), [], cap)
    ok = 0
    for g in gs:
        if ok >= cap:
            require(refused(t.add, GA(g)), "entry %d was accepted into a table of %d", ok + 1, cap)
        else:
            call("adding entry %d of %d" % (ok + 1, cap), t.add, GA(g))
            ok += 1
    model = sorted(gs[:ok])
    eq("addresses", [raw_of(a) for a in t.addresses], model)
    for i, g in enumerate(model):
        eq("position of %#x" % g, t.get_tsap(GA(g)), i + 1)
    ctx.nontrivial(n >= 50)


def s_large():
    return st.fixed_dictionaries({"n": st.integers(1, 300), "cap": st.sampled_from([255, 254, 64, 100, 20]),
                                  "step": st.sampled_from([1, 257, 65535, 255, 3001, 32769]), "base": st.integers(0, 65535)})


SUBS.append(Sub("large", check_large, "fifty or more addresses", s_large, quick=48))
