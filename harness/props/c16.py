from hypothesis import strategies as st

import gen
import ref
from core import Sub, attempt, eq, pass_time, require, sut
from props.c06 import request
from world import AS, World, decode, encode, frame_bytes, make_state, observe, to_msg

ID = "C16"
ASSUME = ["Whether an acknowledgement of the current counter with an error status advances the counter is not stated; both are accepted.",
          "The counter reported inside an acknowledgement message is not stated."]


class Out:
    def __init__(self, case):
        self.world = World(case["tables"])
        self.state = make_state("ip", self.world.at, self.world.got)
        self.chan = 0
        self.n = 0
        self.asaps = [a for a in sorted(self.world.assoc) if self.world.assoc[a]]

    def connect(self, chan):
        decode(self.state, "ip", ref.connect_res(chan, 0, "10.0.0.1", 3671, 0x1105))
        self.chan = chan

    def send(self, k):
        """Encode one request; returns the counter it carries."""
        a = sut().layer.application
        if k % 4 == 3 or not self.asaps:
            f = dict(asap=AS(0), object_index=1, property_id=k % 256, number_of_elements=1, start_index=1)
            if k % 3:
                msg = a.a_property_value_read.req.Msg(**f)
            else:  # frames of all sizes
                msg = a.a_property_value_write.req.Msg(data="A5" * (k * 7 % 251), **f)
        else:
            asap = self.asaps[k % len(self.asaps)]
            name = self.world.dpts.get(asap)
            kind = ["read", "write", "ind"][k % 4] if name else "read"
            msg = request(kind, asap, name, (k * 0x01010101) & ref.DPTS[name].maxraw if name else 0)
        data = encode(self.state, msg)
        require(len(data) == int.from_bytes(data[4:6], "big"), "frame %s of %d octets says otherwise", data.hex(), len(data))
        got = ref.untun(data)
        require(got is not None, "%s is not a tunnelling request", data.hex())
        eq("channel of %s" % data.hex(), got[0], self.chan)
        eq("status of %s" % data.hex(), got[2], 0)
        return got[1]

    def check(self, k):
        eq("outgoing counter", self.send(k), self.n)

    def ack(self, seq, status):
        data = ref.tun_ack(self.chan, seq, status)
        if status in ref.ERROR_CODES:
            r = decode(self.state, "ip", data)
        else:
            ok, r = attempt(sut().decode_msg, self.state, to_msg("ip", data))
            if not ok:
                return "rejected"
        eq("messages for an acknowledgement", len(r), 1)
        o = observe(r[0])
        eq("message for an acknowledgement", (o["kind"], o["status"]), ("TunAck", status))
        current = seq == self.n
        if current and status == 0:
            self.n = (self.n + 1) % 256
            return "current"
        if current:
            c = self.send(0)
            require(c in (self.n, (self.n + 1) % 256), "counter %d after an error for %d", c, self.n)
            self.n = c
            return "error for the current one"
        return "other"


def check(case, ctx):
    out = Out(case)
    acked = stale = 0
    for op in case["ops"]:
        k = op[0]
        if k == "connect":
            out.connect(op[1])
        elif k == "send":
            for i in range(op[2]):
                out.check(op[1] + i)
        elif k == "ack":
            what = out.ack((out.n + op[1]) % 256, op[2])
            ctx.label(what)
            if what == "current":
                acked += 1
            elif what == "other":
                stale += 1
        elif k == "burst":
            for i in range(op[1]):
                if i % 16 == 0:
                    out.check(i)
                ctx.label(out.ack(out.n, 0))
        elif k == "in":  # the other direction
            data = ref.tun_req(out.chan, op[1], ref.cemi(ref.IND, ref.ldata(0xBC, 0xE0, 0x1203, 1, ref.apdu(ref.READ))))
            decode(out.state, "ip", data)
            K = sut()
            encode(out.state, K.knxnet_ip.tunneling.ack.Msg(sequence_counter=op[1], status=K.knxnet_ip.ErrorCodes.E_NO_ERROR))
        elif k == "pass":
            pass_time(op[1])
            continue  # so that nothing is sent between it and an acknowledgement
        elif k == "fail":  # a request that cannot be encoded
            attempt(sut().encode_msg, out.state, request("read", 999, None, 0))
        out.check(op[1] if len(op) > 1 else 0)
    ctx.nontrivial(acked > 0 and stale > 0)


@st.composite
def cases(draw):
    cfg = draw(gen.config(max_ops=2, ia_ops=False))
    delta = st.one_of(st.sampled_from([0, 0, 0, -1, -1, 1, -2, 128]), st.integers(-255, 255))
    status = st.sampled_from([0] * 8 + ref.ERROR_CODES + [0x29, 0xFF])
    op = gen.weighted(
        (1, st.tuples(st.just("connect"), gen.byte)), (2, st.tuples(st.just("send"), st.integers(0, 500), st.integers(1, 5))),
        (6, st.tuples(st.just("ack"), delta, status)), (1, st.tuples(st.just("in"), gen.byte)), (1, st.tuples(st.just("fail"))), (1, st.tuples(st.just("pass"), gen.PASS))).map(list)
    burst = st.tuples(st.just("burst"), st.one_of(st.integers(1, 20), st.integers(250, 260))).map(list)
    ops = draw(gen.some(gen.weighted((14, op), (1, burst)), 5, 20))
    if draw(st.integers(0, 5)) == 0:
        ops.insert(0, ["burst", draw(st.sampled_from([254, 255, 256]))])
    return {"tables": cfg, "ops": ops}


SUBS = [Sub("history", check, "at least one acknowledgement of the current counter and one of another", cases, quick=1600)]
