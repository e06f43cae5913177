from hypothesis import strategies as st

import gen
import ref
from core import Sub, call, eq, require, sut
from world import AS, World, dpt_class, make_state, raw_of, to_msg

ID = "C39"
ASSUME = ["Access point 0, which stands for the individual address itself, is left out of the access points compared.",
          "What a state answers for an access point without associations, or without a datapoint type, is not stated.",
          "The current access point and telegram are those set last; encoding or decoding may set others."]


class Model:
    """What one state was last told."""

    def __init__(self, world, medium):
        self.world, self.medium = world, medium
        self.state = make_state(medium, world.at, world.got)
        self.dst = self.asap = self.apci = self.kind = None
        self.telegram = None
        self.remote = self.local = self.chan = 0

    def check(self):
        w, s = self.world, self.state
        require(s.association_table is w.at and s.datapointtypes is w.got, "the tables of a state are others than it was given")
        eq("individual address of a state", raw_of(call("individual_address", lambda: s.individual_address)), w.ia)
        eq("medium", s.medium, self.medium_value())
        eq("remote counter", s.sequence_counter_remote, self.remote)
        eq("local counter", s.sequence_counter_local, self.local)
        if self.medium == "ip":
            eq("channel", s.communication_channel_id, self.chan)
        eq("application code", s.apci, self.apci)
        eq("address type", s.address_type, self.kind)
        eq("current telegram", repr(s.ldata), repr(self.telegram))
        if self.dst is not None:
            tsap = w.tsap(self.dst)
            eq("position of destination %#x" % self.dst, call("get_tsap", s.get_tsap), tsap)
            got = [x.value for x in call("get_asaps", s.get_asaps)]
            if tsap is None:
                eq("access points of an unknown destination", got, [])
            elif tsap > 0:
                eq("access points of destination %#x" % self.dst, sorted(x for x in got if x), w.users(self.dst))
            pairs = [(a.value, t) for a, t in call("get_asaps_and_dpts", s.get_asaps_and_dpts) if a.value]
            want = {a: dpt_class(w.dpts[a]) for a in w.typed(self.dst)} if tsap else {}
            if tsap != 0:
                eq("number of typed access points", len(pairs), len(want))
                eq("typed access points of destination %#x" % self.dst, dict(pairs), want)
        if self.asap is None:
            eq("current access point", s.asap, None)
        else:
            eq("current access point", (s.asap.value, s.asap.name), self.asap)
            a = self.asap[0]
            if a in w.assoc:
                eq("positions of access point %d" % a, list(call("get_tsaps", s.get_tsaps)), [w.tsap(g) for g in w.assoc[a]])
                eq("addresses of access point %d" % a, [raw_of(x) for x in call("get_addresses", s.get_addresses)], w.assoc[a])
            if a in w.dpts:
                require(call("get_dpt", s.get_dpt) is dpt_class(w.dpts[a]), "datapoint type of access point %d is %r, not %s", a, s.get_dpt(), w.dpts[a])

    def medium_value(self):
        K = sut()
        return {"usb": K.Medium.usb_hid, "ip": K.Medium.knxnet_ip, "tp": K.Medium.tp}[self.medium]

    def apply(self, op):
        K, s, w = sut(), self.state, self.world
        k = op[0]
        if k == "telegram":
            self.dst = w.ia if op[1] == "ia" else op[1]
            frame = ref.ldata(0xBC, 0xE0 if op[2] else 0x60, 0x1203, self.dst, ref.apdu(ref.READ))
            self.telegram = call("parsing %s" % frame.hex(), K.layer.L_Data.make_from, to_msg("usb", frame))[0]
            s.ldata = self.telegram
        elif k == "point":
            self.asap = (op[1], op[2])
            s.asap = AS(op[1], op[2])
        elif k == "apci":
            self.apci = s.apci = op[1]
        elif k == "kind":
            self.kind = s.address_type = op[1]
        elif k == "remote":
            s.sequence_counter_remote = op[1]
            self.remote = op[1] % 256
        elif k == "local":
            s.sequence_counter_local = op[1]
            self.local = op[1] % 256
        elif k == "step":  # as the layers do
            s.sequence_counter_local += op[1]
            self.local = (self.local + op[1]) % 256
        elif self.medium == "ip":
            self.chan = s.communication_channel_id = op[1]


def check(case, ctx):
    w = World(dict(case["tables"], ops=[]))
    models = [Model(w, m) for m in case["media"]]
    answered = 0
    for who, op in case["ops"]:
        m = models[who % len(models)]
        if op[0] == "table":
            ctx.label(w.apply(op[1]))
        else:
            m.apply(op)
        for x in models:
            x.check()
            known = x.dst is not None and bool(w.users(x.dst)) or x.asap is not None and bool(w.assoc.get(x.asap[0]))
            answered += known and op[0] == "table"
        text = call("printing a state", repr, m.state)
        for t in (w.at, w.got):
            require(repr(t) in text, "a state prints as %r, without its table %r", text, t)
    ctx.nontrivial(answered >= 2)


@st.composite
def cases(draw):
    t = draw(gen.config(max_ops=0, crowds=40))
    A, G = st.sampled_from(t["asaps"]), st.sampled_from(t["pool"] + [t["ia"]])
    far = st.one_of(st.integers(0, 600), st.sampled_from([254, 255, 256, 257, 511, 512, 65535, 65536, 2 ** 32 + 5, -1, -2, -255, -256, -257]))
    op = gen.weighted(
        (4, gen.table_op(A, st.sampled_from(t["pool"])).map(lambda o: ["table", o])),
        (3, st.tuples(st.just("telegram"), st.one_of(G, G, G, gen.address, st.just("ia")), st.booleans())),
        (3, st.tuples(st.just("point"), A, st.sampled_from([None, "", "lamp"]))),
        (1, st.tuples(st.sampled_from(["remote", "local", "remote", "local"]), far)),
        (1, st.tuples(st.sampled_from(["apci", "kind", "channel"]), gen.byte)),
        (1, st.tuples(st.just("step"), st.integers(0, 300))))
    first = [[draw(st.integers(0, 1)), ["telegram", draw(G), True]], [draw(st.integers(0, 1)), ["point", draw(A), None]]] if draw(st.integers(0, 7)) else []
    return {"tables": t, "media": draw(st.lists(st.sampled_from(["usb", "ip", "tp"]), min_size=1, max_size=2)),
            "ops": first + draw(gen.some(st.tuples(st.integers(0, 1), op.map(list)).map(list), 3, 20))}


SUBS = [Sub("questions", check, "two operations on tables while the current telegram or access point has an association", cases, quick=2400)]
