from hypothesis import strategies as st

import gen
import ref
from core import Sub, call, eq, require, sut
from props import c20
from props.c06 import request
from world import AS, GA, IA, Own, OwnDict, World, compare, decode, dpt_class, encode, make_state, medium_of, observe, raw_of, ref_cemi

ID = "C28"
ASSUME = ["The programs are one thread; a collection handed in is not changed by the program afterwards, except where the check says so."]


def shared_collections(cfg):
    """The initial entries as the objects a program would build several stacks from."""
    K = sut()
    kind = Own if cfg["ia"] % 3 == 1 else list
    asaps = {a: AS(a) for a in cfg["asaps"]}
    gas = {g: GA(g) for g in cfg["pool"]}
    return {"ia": IA(cfg["ia"]), "groups": kind([gas[g] for g in cfg["groups"]]),
            "assoc": kind([K.Association(asap=asaps[a], address=gas[g]) for a, g in cfg["assoc"]]),
            "dpts": (OwnDict if cfg["ia"] % 3 == 1 else dict)({asaps[a]: dpt_class(n) for a, n in cfg["dpts"]})}


def content(given):
    return {"ia": raw_of(given["ia"]), "groups": [raw_of(g) for g in given["groups"]],
            "assoc": [(x.asap.value, raw_of(x.address)) for x in given["assoc"]],
            "dpts": sorted((a.value, d.__name__) for a, d in given["dpts"].items())}


def counters(s):
    return (s.sequence_counter_local, s.sequence_counter_remote, getattr(s, "communication_channel_id", None))


def look(world, probes):
    world.check_address_table(probes)
    world.check_association_table(probes)
    eq("datapoint types", sorted((a.value, d.__name__) for a, d in world.got.associations), sorted(world.dpts.items()))


class Program:
    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        cfg = case["tables"]
        self.given = shared_collections(cfg)
        if case["iterators"]:
            self.worlds = [World(cfg, dict(self.given, groups=iter(self.given["groups"]), assoc=iter(self.given["assoc"]))) for _ in range(case["worlds"])]
        else:
            self.worlds = [World(cfg, self.given) for _ in range(case["worlds"])]
        self.start()

    @classmethod
    def over(cls, worlds, case, ctx):
        """A program over worlds that are there already."""
        p = cls.__new__(cls)
        p.case, p.ctx, p.worlds, p.given = case, ctx, worlds, shared_collections(case["tables"])
        p.start()
        return p

    def start(self):
        case = self.case
        self.before = content(self.given)
        self.states = []
        self.expect = []
        self.kept = []
        for w, m, start in case["states"]:
            s = make_state(m, self.worlds[w].at, self.worlds[w].got)
            s.sequence_counter_local, s.sequence_counter_remote = start[0], start[1]
            if m == "ip":
                s.communication_channel_id = start[2]
            self.states.append((w, m, s))
            self.expect.append([start[0], start[1], start[2] if m == "ip" else None])
        self.n = {"encoded": 0, "received": 0, "changed": 0, "altered": 0}

    def op(self, op):
        k = op[0]
        if k == "table":
            before = self.worlds[op[1]].pairs(), dict(self.worlds[op[1]].dpts)
            self.worlds[op[1]].apply(op[2])
            self.n["changed"] += before != (self.worlds[op[1]].pairs(), self.worlds[op[1]].dpts)
            return
        if k == "alter":  # the program changes a value it was given; nobody else sees it
            values = [i for i, (m, o) in enumerate(self.kept) if hasattr(m, "dpt") and m.dpt is not None]
            if not values:
                return
            i = values[op[1] % len(values)]
            m, o = self.kept[i]
            m.dpt.value = op[2] & ref.DPTS[o["dpt"]].maxraw
            self.kept[i] = (m, observe(m))
            self.n["altered"] += 1
            return
        w, medium, state = self.states[op[1]]
        world = self.worlds[w]
        want = self.expect[op[1]]
        if k == "encode":
            spec = op[2]
            asaps = sorted(a for a in world.assoc if world.assoc[a])
            if not asaps:
                return
            asap = asaps[spec["pick"] % len(asaps)]
            name = world.dpts.get(asap)
            kind = spec["kind"] if name else "read"
            raw = spec["raw"] & ref.DPTS[name].maxraw if name else 0
            c = ref.out_group(ref.READ if kind == "read" else ref.WRITE, world.assoc[asap][0], name, raw, ref.IND if kind == "ind" else ref.REQ)
            got = encode(state, request(kind, asap, name, raw))
            eq("%s request of stack %d over %s" % (kind, op[1], medium), got.hex(), ref.wrap(medium, c, want[2] or 0, want[0]).hex())
            self.n["encoded"] += 1
        elif k == "decode":
            if medium == "tp":
                return
            t = dict(op[2], seq=want[1])
            data = c20.build(world, medium, t)
            msgs = ref_cemi(world, c20.cemi_of(world, t))
            if medium == "ip":
                msgs = [{"kind": "TunReq", "seq": want[1], "status": 0}] + msgs
            got = decode(state, medium, data)
            compare("frame %s at stack %d" % (data.hex(), op[1]), got, msgs)
            self.kept += [(m, observe(m)) for m in got]
            self.n["received"] += len(msgs) > (medium == "ip")
            if medium == "ip" and op[3]:
                ip = sut().knxnet_ip
                a = encode(state, ip.tunneling.ack.Msg(sequence_counter=want[1], status=ip.ErrorCodes.E_NO_ERROR))
                eq("acknowledgement of stack %d" % op[1], a.hex(), ref.tun_ack(want[2], want[1], 0).hex())
                want[1] = (want[1] + 1) % 256
        elif medium == "ip" and k == "ack":
            decode(state, medium, ref.tun_ack(want[2], want[0], 0))
            want[0] = (want[0] + 1) % 256
        elif medium == "ip" and k == "connect":
            decode(state, medium, ref.connect_res(op[2], 0, "10.0.0.1", 3671, 0x1101))
            want[2] = op[2]

    def check(self, what):
        for i, (w, m, s) in enumerate(self.states):
            eq("counters and channel of stack %d after %s" % (i, what), counters(s), tuple(self.expect[i]))
        for m, o in self.kept:
            eq("content of an earlier message after %s" % what, observe(m), o)
        eq("the collections the tables were built from after %s" % what, content(self.given), self.before)


def check(case, ctx):
    p = Program(case, ctx)
    probes = case["tables"]["pool"] + [0]
    for op in case["ops"]:
        p.op(op)
        p.check(op[0])
        for w in p.worlds if op[0] == "table" else []:
            look(w, probes)
    for w in p.worlds:
        look(w, probes)
    for k, v in p.n.items():
        ctx.label(k, v)
    ctx.nontrivial(p.n["changed"] > 0 and p.n["encoded"] + p.n["received"] > 1)


def check_later(case, ctx):
    """The program goes on using the collections it built tables from."""
    cfg = case["tables"]
    given = shared_collections(cfg)
    world = World(cfg, given)
    for kind, a, g, name in case["edits"]:
        if kind == 0:
            given["groups"].append(GA(g))
        elif kind == 1:
            given["groups"].clear()
        elif kind == 2:
            given["assoc"].append(sut().Association(asap=AS(a), address=GA(g)))
        elif kind == 3:
            given["dpts"][AS(a)] = dpt_class(name)
        elif kind == 4:
            given["dpts"].clear()
        else:
            given["dpts"].pop(AS(a), None)
    look(world, cfg["pool"] + [0])
    K = sut()
    fresh = call("building an empty table", K.GroupObjectTable)  # nor do tables share their defaults
    eq("entries of a new table", list(fresh.associations), [])
    world.got.associate(AS(99999), dpt_class("DPT_Switch"))
    fresh.associate(AS(1), dpt_class("DPT_Alarm"))
    eq("entries of another new table", list(K.GroupObjectTable().associations), [])
    world.dpts[99999] = "DPT_Switch"
    look(world, [])
    ctx.nontrivial(len(cfg["dpts"]) > 0 and len(cfg["groups"]) + len(cfg["assoc"]) > 0)


def check_shared(case, ctx):
    """Several association tables over one address table keep their own associations."""
    K = sut()
    at = K.AddressTable(IA(0x1101), [], 255)
    given = [K.Association(asap=AS(a), address=GA(g)) for a, g in case["assoc"]]
    n = case["tables"]
    assocs, model, gone = [], [], set()
    for i in range(n):
        assocs.append(call("building an association table", K.AssociationTable, at, list(given) if i % 2 else iter(given)))
        model.append({})
        for a, g in case["assoc"]:
            if g not in model[i].setdefault(a, []):
                model[i][a].append(g)
    if n == 1 or not case["assoc"]:
        assocs.append(K.AssociationTable(at))
        model.append({})
    asaps = sorted({a for a, _ in case["assoc"]} | {op[2] for op in case["ops"]})
    got = K.GroupObjectTable({AS(a): dpt_class("DPT_Switch") for a in asaps})
    states = [make_state("usb", t, got) for t in assocs]
    changed = 0
    for op in [None] + case["ops"]:
        if op:
            k, i, a, g = op[0], op[1] % len(assocs), op[2], op[3]
            if k == "a":
                call("associating", assocs[i].associate, AS(a), [GA(g)])
                if g not in model[i].setdefault(a, []):
                    model[i][a].append(g)
                    changed += 1
                gone.discard(g)
            elif g in model[i].get(a, []):
                call("disassociating", assocs[i].disassociate, AS(a), [GA(g)])
                model[i][a].remove(g)
                changed += 1
                gone.add(g)  # whether another table still hears this address is not stated
        for i, t in enumerate(assocs):
            for g in case["pool"]:
                want = sorted(a for a in model[i] if g in model[i][a])
                eq("access points of address %d in table %d after %r" % (g, i, op), sorted(x.value for x in t.get_asaps_from_address(GA(g))), want)
                if g in gone:
                    continue
                c = ref.cemi(ref.IND, ref.ldata(0xBC, 0xE0, 0x1234, g, ref.group_apdu(ref.READ)))
                compare("a read of address %d at table %d after %r" % (g, i, op), decode(states[i], "usb", ref.usb(c)),
                        [{"kind": "GroupReadInd", "asap": a, "dpt": "DPT_Switch", "reading": None} for a in want])
            for a in asaps:
                if a in model[i] and not gone & set(model[i][a]):
                    eq("addresses of %d in table %d" % (a, i), [raw_of(x) for x in t.get_addresses(t.get_tsaps(AS(a)))], model[i][a])
    ctx.nontrivial(changed > 1 and len(assocs) > 1)


@st.composite
def shared(draw):
    pool = draw(st.lists(st.one_of(st.integers(1, 9), gen.address), min_size=1, max_size=4, unique=True).filter(lambda p: 0x1101 not in p))
    A, G = st.integers(1, 4), st.sampled_from(pool)
    op = gen.weighted((3, st.tuples(st.just("a"), st.integers(0, 2), A, G)), (1, st.tuples(st.just("d"), st.integers(0, 2), A, G))).map(list)
    return {"pool": pool, "tables": draw(st.integers(1, 3)), "assoc": draw(st.lists(st.tuples(A, G).map(list), max_size=4)), "ops": draw(gen.some(op, 2, 10))}


@st.composite
def tables(draw):
    cfg = draw(gen.config(max_ops=0, cap=255))
    for a in cfg["asaps"][:2]:
        cfg["assoc"].append([a, draw(st.sampled_from(cfg["pool"]))])
        if all(d[0] != a for d in cfg["dpts"]):
            cfg["dpts"].append([a, draw(gen.name)])
    return cfg


@st.composite
def cases(draw, cfg=None, n=None):
    cfg = cfg or draw(tables())
    n = n or draw(st.integers(1, 3))
    start = st.tuples(gen.byte, gen.byte, gen.byte).map(list)
    states = draw(st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from(["usb", "ip", "ip", "tp"]), start).map(list), min_size=2, max_size=4))
    S = st.integers(0, len(states) - 1)
    enc = st.fixed_dictionaries({"kind": st.sampled_from(["read", "write", "write", "ind"]), "pick": st.integers(0, 5), "raw": st.integers(0, 2 ** 32 - 1)})
    op = gen.weighted(
        (4, st.tuples(st.just("table"), st.integers(0, n - 1), gen.table_op(st.sampled_from(cfg["asaps"]), st.sampled_from(cfg["pool"])))),
        (4, st.tuples(st.just("encode"), S, enc)), (4, st.tuples(st.just("decode"), S, c20.deliverable(), st.booleans())),
        (1, st.tuples(st.just("ack"), S)), (1, st.tuples(st.just("connect"), S, gen.byte)),
        (1, st.tuples(st.just("alter"), st.integers(0, 9), st.integers(0, 2 ** 32 - 1)))).map(list)
    return {"tables": cfg, "worlds": n, "states": states, "iterators": draw(st.booleans()), "ops": draw(gen.some(op, 5, 15))}


@st.composite
def later(draw):
    cfg = draw(tables())
    edit = st.tuples(st.integers(0, 5), st.sampled_from(cfg["asaps"]), gen.address, gen.name).map(list)
    return {"tables": cfg, "edits": draw(st.lists(edit, min_size=1, max_size=4))}


SUBS = [Sub("several stacks", check, "a table changed and two frames encoded or delivered", cases, quick=1200),
        Sub("collections", check_later, "tables built from at least one entry of each kind", later, quick=600),
        Sub("one address table", check_shared, "two changes with two tables", shared, quick=600)]
