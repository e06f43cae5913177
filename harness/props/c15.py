from hypothesis import strategies as st

import gen
import ref
from core import Sub, attempt, eq, pass_time, require, sut
from props.c06 import request
from world import World, compare, decode, encode, make_state, ref_cemi

ID = "C15"
ASSUME = ["Before any request was acknowledged, a request carrying the counter before the first may be treated as a repeat or as out of sequence.",
          "An acknowledgement is sent only for requests reported with no error, with no error as its status when the request was the expected one."]


def codes():
    e = sut().knxnet_ip.ErrorCodes
    return int(e.E_NO_ERROR), int(e.E_SEQUENCE_NUMBER)


class Link:
    """One connection: the real state and the expected counter of the model."""

    def __init__(self, case, ctx):
        self.world = World(case["tables"])
        self.state = make_state("ip", self.world.at, self.world.got)
        self.chan = case["chan"]
        self.ctx = ctx
        decode(self.state, "ip", ref.connect_res(self.chan, 0, "10.0.0.1", 3671, 0x1105))
        self.exp = 0
        self.acked = False
        self.repeats = self.out = 0
        self.ok, self.err = codes()

    def telegram(self, t):
        pool = sorted(self.world.groups) or [1]
        dst = pool[t["g"] % len(pool)]
        typed = self.world.typed(dst)
        if t["svc"] == 0 or not typed:
            a = ref.apdu(ref.READ)
        else:
            a = ref.group_apdu(ref.WRITE if t["svc"] == 1 else ref.RESPONSE, self.world.dpts[typed[0]], t["raw"] & ref.DPTS[self.world.dpts[typed[0]]].maxraw)
        return ref.cemi(ref.CON if t["con"] else ref.IND, ref.ldata(0xBC, 0xE0, 0x1203, dst, a))

    def req(self, delta, t):
        """Receive a request; its status, or None when either is allowed."""
        seq = (self.exp + delta) % 256
        c = self.telegram(t)
        data = ref.tun_req(self.chan, seq, c)
        expected, repeat = delta % 256 == 0, delta % 256 == 255
        if expected:
            want = [{"kind": "TunReq", "seq": seq, "status": self.ok}] + ref_cemi(self.world, c)
        elif repeat and not self.acked:
            got = decode(self.state, "ip", data)
            eq("number of messages for a request that is not expected", len(got), 1)
            require(int(got[0].status) in (self.ok, self.err), "status %r", got[0].status)
            self.ctx.label("before the first")
            return
        else:
            want = [{"kind": "TunReq", "seq": seq, "status": self.ok if repeat else self.err}]
        compare("request %d where %d is expected (%s)" % (seq, self.exp, data.hex()), decode(self.state, "ip", data), want)
        self.ctx.label("expected" if expected else "repeat" if repeat else "out of sequence")
        if len(want) > 1:
            self.ctx.label("delivered")
        if repeat:
            self.repeats += 1
            if self.exp == 0:
                self.ctx.label("repeat across the wrap")
        elif not expected:
            self.out += 1

    def ack(self, repeat, status):
        if repeat and not self.acked:
            return
        K = sut()
        seq = (self.exp - 1) % 256 if repeat else self.exp
        m = K.knxnet_ip.tunneling.ack.Msg(sequence_counter=seq, status=K.knxnet_ip.ErrorCodes(status))
        data = encode(self.state, m)
        eq("acknowledgement of %d (expected counter %d)" % (seq, self.exp), data.hex(), ref.tun_ack(self.chan, seq, status).hex())
        if not repeat:
            self.exp = (self.exp + 1) % 256
            self.acked = True


PROBE = {"g": 0, "svc": 0, "con": False, "raw": 0}


def check(case, ctx):
    link = Link(case, ctx)
    for op in case["ops"]:
        k = op[0]
        if k == "req":
            link.req(op[1], op[2])
        elif k == "ack":
            link.req(0, PROBE)
            link.ack(False, link.ok)
        elif k == "burst":  # in-order traffic
            for i in range(op[1]):
                link.req(0, dict(PROBE, g=i))
                link.ack(False, link.ok)
                if i % 50 == 7:
                    link.req(-1, PROBE)
                    link.ack(True, link.ok)
        elif k == "again":
            link.req(-1, op[2])
            link.ack(True, op[1])
        elif k == "out":  # this side's own traffic does not matter
            assoc = [a for a in sorted(link.world.assoc) if link.world.assoc[a]]
            if assoc:
                encode(link.state, request("read", assoc[0], None, 0))
            decode(link.state, "ip", ref.tun_ack(link.chan, op[1], 0))
        elif k == "pass":
            pass_time(op[1])
            continue
        elif k == "res":
            decode(link.state, "ip", ref.connstate_res(link.chan, op[1]))
        # receiving again must find the same counter expected
        link.req(0, PROBE)
        link.req(-1, PROBE)
    link.ack(False, case["last"])
    ctx.nontrivial(link.repeats > 3 and link.exp > 1)


@st.composite
def cases(draw):
    cfg = draw(gen.config(max_ops=2, ia_ops=False))
    a = cfg["asaps"][0]
    cfg["assoc"].append([a, cfg["pool"][0]])
    cfg["dpts"] = [d for d in cfg["dpts"] if d[0] != a] + [[a, draw(gen.name)]]
    tele = st.fixed_dictionaries({"g": st.integers(0, 5), "svc": st.integers(0, 2), "con": st.booleans(), "raw": st.integers(0, 2 ** 32 - 1)})
    delta = st.one_of(st.sampled_from([0, 0, 0, -1, -1, 1, -2, 2, 128, 127]), st.integers(-255, 255))
    op = gen.weighted(
        (4, st.tuples(st.just("req"), delta, tele)), (3, st.tuples(st.just("ack"))), (1, st.tuples(st.just("pass"), gen.PASS)),
        (2, st.tuples(st.just("again"), st.sampled_from([0, 0, 0, 1, 2, 3]).filter(lambda s: s in valid()), tele)),
        (1, st.tuples(st.just("out"), gen.byte)), (1, st.tuples(st.just("res"), st.sampled_from(ref.CONNSTATE_STATUS)))).map(list)
    burst = st.tuples(st.just("burst"), st.one_of(st.integers(1, 30), st.integers(240, 300))).map(list)
    ops = draw(gen.some(gen.weighted((14, op), (1, burst)), 4, 16))
    if draw(st.integers(0, 5)) == 0:
        ops.insert(0, ["burst", draw(st.sampled_from([254, 255, 256, 257]))])
    return {"tables": cfg, "chan": draw(gen.byte), "ops": ops, "last": draw(st.sampled_from(valid()))}


def valid():
    return sorted(int(e) for e in sut().knxnet_ip.ErrorCodes)


def check_wrap(case, ctx):
    """Two whole turns of the counter with a repeat of everything."""
    link = Link(case, ctx)
    for i in range(520):
        link.req(0, {"g": i, "svc": i % 3, "con": i % 2 == 1, "raw": i})
        link.req(0, PROBE)
        link.ack(False, link.ok)
        link.req(-1, {"g": i, "svc": i % 3, "con": i % 2 == 1, "raw": i})
        link.ack(True, link.ok)
        link.req(-2 - i % 250, PROBE)
    ctx.nontrivial(True)


def wraps():
    for chan in (0, 1, 128, 255):
        yield {"tables": {"ia": 0x1101, "cap": 10, "groups": [], "assoc": [[1, 9], [2, 9], [1, 4]], "dpts": [[1, "DPT_Switch"], [2, "DPT_Brightness"]], "ops": []},
               "chan": chan}


SUBS = [
    Sub("history", check, "more than three repeats and at least two acknowledged requests", cases, quick=640),
    Sub("two turns", check_wrap, "all", cases=wraps),
]
