import asyncio

from hypothesis import strategies as st

import gen
import ref
from core import Sub, Violation, call, eq, require, sut
from props.c06 import request
from vloop import VLoop
from world import World, make_state

ID = "C23"
ASSUME = ["The clock is virtual and the transport records what it is given; an exception out of the handling of one datagram is logged by the event loop, as with a real transport, and is not in itself a violation.",
          "What the client answers to tunnelling requests before it is connected is not stated.",
          "A request repeating the counter before the first of a connection may be acknowledged or not, and so may a damaged request carrying the expected or the repeated counter.",
          "The gateway's successful connect response may arrive more than once (the gateway restarted); each starts the counters again."]
LOCAL, GATE = ("192.0.2.5", 5544), ("198.51.100.7", 3671)


class Run:
    def __init__(self, case, ctx, local=LOCAL, gate=GATE, before=None):
        self.case, self.ctx, self.local, self.gate = case, ctx, local, gate
        self.world = before.world if before else World(case["tables"])
        self.state = before.state if before else make_state("ip", self.world.at, self.world.got)
        self.assocs = [a for a in sorted(self.world.assoc) if self.world.assoc[a]]
        self.chan, self.exp, self.n = (before.chan, before.exp, before.n) if before else (0, 0, 0)
        self.acked = self.connected = False
        self.sent = []  # not tunnelling requests
        self.msgs, self.want = [], []
        for k in case["msgs"] if self.assocs else []:
            asap = self.assocs[k[0] % len(self.assocs)]
            name = self.world.dpts.get(asap)
            kind = ["read", "write", "ind"][k[1]] if name else "read"
            raw = k[2] & ref.DPTS[name].maxraw if name else 0
            self.msgs.append(request(kind, asap, name, raw))
            self.want.append(ref.out_group(ref.READ if kind == "read" else ref.WRITE, self.world.assoc[asap][0], name, raw,
                                           ref.IND if kind == "ind" else ref.REQ))
        self.written = self.answered = 0
        self.fault = None

    def on_send(self, transport, data, addr):
        """A datagram leaves; failures are kept, an exception here would be the client's."""
        try:
            if addr is None or tuple(addr) != self.gate:
                raise Violation("datagram %s sent to %r" % (data.hex(), addr))
            f = ref.untun(data)
            if f is None:
                self.sent.append(data)
                return
            if not self.connected:
                raise Violation("tunnelling request %s sent before the connection" % data.hex())
            if self.written >= len(self.want):
                raise Violation("more tunnelling requests than messages: %s" % data.hex())
            want = ref.tun_req(self.chan, self.n, self.want[self.written])
            eq("message %d on channel %d with counter %d" % (self.written, self.chan, self.n), data.hex(), want.hex())
            self.written += 1
        except Violation as e:
            self.fault = self.fault or e

    async def settle(self):
        for _ in range(3):
            await asyncio.sleep(0)
        if self.fault:
            raise self.fault
        out, self.sent = [d.hex() for d in self.sent], []
        return out

    def datagram(self, op):
        k = op[0]
        if k == "connect":
            return ref.connect_res(op[1], 0, op[2], op[3], op[4])
        if k == "refuse":
            return ref.connect_res(op[1], op[2], "10.0.0.1" if op[3] else None, 3671, 0 if op[3] == 2 else None)
        if k in ("req", "bad-req"):
            c = ref.cemi(ref.CON if op[2] else ref.IND, ref.ldata(0xBC, 0xE0, 0x1203, (self.world.groups or [1])[op[2] % max(1, len(self.world.groups))],
                                                                 ref.apdu(ref.READ) if op[3] < 0 else ref.apdu(ref.WRITE | op[3] & 0x3F)))
            d = ref.tun_req(self.chan, (self.exp + op[1]) % 256, c)
            return d if k == "req" else d[:op[4] % len(d)]
        if k == "ack":
            return ref.tun_ack(self.chan, (self.n + op[1]) % 256, op[2])
        if k == "cut":
            full = [ref.connect_res(op[2], 0, "10.0.0.9", 3671, 0x1106), ref.tun_ack(self.chan, self.n, 0), ref.connstate_res(self.chan, 0),
                    ref.disc_res(self.chan, 0), ref.search_res("10.0.0.1", 3671, 2, 0, 0x1101)[:20]][op[1] % 5]
            return full[:op[3] % len(full)]
        if k == "state":
            return ref.connstate_res(self.chan, op[1])
        if k == "other":
            return ref.ip(op[1], bytes.fromhex(op[2]))
        return bytes.fromhex(op[1])

    async def event(self, transport, op):
        k = op[0]
        p = transport.protocol
        if k == "wait":
            await asyncio.sleep(op[1] / 4)
            eq("datagrams sent unasked", await self.settle(), [])
            return
        if k == "error":
            p.error_received(OSError(111, "Connection refused"))
            eq("datagrams sent after a network error", await self.settle(), [])
            return
        if k == "burst":
            for i in range(op[1]):
                await self.event(transport, ["req", 0, i, i % 64])
                await self.event(transport, ["ack", 0, 0])
                if i % 40 == 11:
                    await self.event(transport, ["req", -1, i, 1])
            return
        data = self.datagram(op)
        delta = op[1] % 256 if k in ("req", "bad-req") else None
        seq = (self.exp + op[1]) % 256 if delta is not None else None

        def receive():
            if k == "connect":  # what the client sends from now on is judged by it
                self.chan, self.exp, self.n, self.acked, self.connected = op[1], 0, 0, False, True
            elif k == "ack" and op[1] == 0 and op[2] == 0:
                self.n = (self.n + 1) % 256
            p.datagram_received(data, self.gate)

        # as a transport calls it: exceptions go to the loop's handler
        asyncio.get_running_loop().call_soon(receive)
        await asyncio.sleep(0)
        out = await self.settle()
        what = "answer to %s (%s)" % (data.hex(), k)
        if k == "connect":
            eq(what, out, [ref.connstate_req(self.chan, *self.local).hex()])
        elif k in ("req", "bad-req"):
            ack = [ref.tun_ack(self.chan, seq, 0).hex()]
            expected, repeat = delta == 0, delta == 255
            if not self.connected:
                self.ctx.label("request before the connection")
            elif k == "bad-req" or (repeat and not self.acked):
                require(out == [] or (out == ack and (expected or repeat)), "%s: %r", what, out)
                if out and expected:
                    self.exp, self.acked = (self.exp + 1) % 256, True
            elif expected or repeat:
                eq(what, out, ack)
                self.answered += 1
                if expected:
                    self.exp, self.acked = (self.exp + 1) % 256, True
                else:
                    self.ctx.label("repeat acknowledged")
            else:
                eq(what, out, [])
                self.ctx.label("out of sequence")
        else:
            eq(what, out, [])
        eq("connected after %s (%s)" % (data.hex(), k), bool(p.connected), self.connected)
        self.ctx.label(k)

    async def main(self, loop):
        K = sut()
        client = call("importing the client", __import__, "knx_stack.client.knxnet_ip", fromlist=["Tunneling"])
        msgs = iter(self.msgs) if self.case["form"] % 2 else list(self.msgs)
        args = self.local + self.gate + (self.state, msgs)
        loop.runs[self.local] = self.on_send
        known = len(loop.endpoints)
        if self.case["form"] < 2:
            transport, protocol = await client.start_tunneling(*args)
            opened = [e for e in loop.endpoints[known:] if tuple(e.local or ()) not in loop.runs or tuple(e.local) == self.local]
            eq("local endpoints opened", [tuple(e.local or ()) for e in opened], [self.local])
            require(opened[0].remote is None or tuple(opened[0].remote) == self.gate, "remote endpoint %r", opened[0].remote)
            require(protocol is opened[0].protocol and transport is opened[0], "start_tunneling returned %r", (transport, protocol))
        else:
            transport, protocol = await loop.create_datagram_endpoint(lambda: client.Tunneling(*args), local_addr=self.local, remote_addr=self.gate)
        eq("datagrams sent at the start", await self.settle(), [ref.connect_req(*(self.local + self.local)).hex()])
        eq("connected at the start", bool(protocol.connected), False)
        writer = None
        for i, op in enumerate(self.case["ops"]):
            if i == self.case["write_at"]:
                writer = asyncio.ensure_future(protocol.writer())
            await self.event(transport, op)
        if writer is None:
            writer = asyncio.ensure_future(protocol.writer())
        for _ in range(200 + len(self.msgs)):
            if writer.done() or (not self.connected and _ > 20):
                break
            await self.event(transport, ["ack", 0, 0])
            await self.event(transport, ["wait", 4 if _ < 60 else 40])
        if self.connected:
            require(writer.done(), "the writer did not end")
            if writer.exception() is not None:
                raise Violation("the writer failed: %r" % writer.exception())
        else:
            require(not writer.done() or not self.msgs, "the writer ended without a connection")
            writer.cancel()
        eq("messages written", self.written, len(self.want) if self.connected else 0)


def drive(main):
    """Runs main(loop) with its datagrams given to the run which owns the local endpoint."""
    loop = VLoop()
    loop.runs = {}
    loop.on_send = lambda transport, data, addr: loop.runs.get(tuple(transport.local or ()), lost)(transport, data, addr)
    try:
        loop.drive(main(loop))
    finally:
        loop.finish()


def lost(transport, data, addr):
    raise Violation("datagram %s from an endpoint %r nobody opened" % (data.hex(), transport.local))


def check(case, ctx):
    run = Run(case, ctx)
    drive(run.main)
    ctx.nontrivial(run.written > 0 and run.answered > 0)


def check_two(case, ctx):
    """Two clients in one program: at the same time, or one after the other, over tables and counters of their own or the same."""
    runs = []

    async def main(loop):
        if case["how"] == "together":
            runs.extend(Run(c, ctx, (LOCAL[0], LOCAL[1] + i), (GATE[0] if case["same"] else "198.51.100.%d" % (8 + i), GATE[1])) for i, c in enumerate(case["runs"]))
            for f in [asyncio.ensure_future(r.main(loop)) for r in runs]:
                await f
        else:
            for c in case["runs"]:
                runs.append(Run(c, ctx, before=runs[0] if runs and case["same"] else None))
                await runs[-1].main(loop)
                if case["closed"]:
                    loop.endpoints[-1].close()
                    loop.endpoints[-1].protocol.connection_lost(None)

    drive(main)
    ctx.label("%s%s" % (case["how"], " same" * case["same"]))
    ctx.nontrivial(all(r.connected for r in runs) and sum(r.answered for r in runs) > 0)


@st.composite
def cases(draw):
    cfg = draw(gen.config(max_ops=2, ia_ops=False))
    cfg["assoc"].append([cfg["asaps"][0], cfg["pool"][0]])
    b = gen.byte
    delta = st.one_of(st.sampled_from([0, 0, 0, 0, -1, -1, 1, -2, 128]), st.integers(-255, 255))
    pay = st.integers(-10, 63)
    connect = st.tuples(st.just("connect"), b, gen.ipv4, gen.port, gen.word)
    req = st.tuples(st.just("req"), delta, st.integers(0, 7), pay)
    op = gen.weighted(
        (8, req), (4, st.tuples(st.just("ack"), st.sampled_from([0, 0, -1, 1, 128]), st.just(0))),
        (1, st.tuples(st.just("ack"), st.sampled_from([-1, 1, 128]), st.sampled_from(ref.ERROR_CODES))),
        (2, st.tuples(st.just("refuse"), b, st.sampled_from(ref.CONNECT_STATUS[1:]), st.integers(0, 2))),
        (1, connect), (3, st.tuples(st.just("wait"), st.one_of(st.integers(1, 20), gen.PASS.map(lambda s: 4 * s)))), (1, st.tuples(st.just("error"))),
        (2, st.tuples(st.just("bad-req"), delta, st.integers(0, 7), pay, st.integers(0, 40))),
        (2, st.tuples(st.just("cut"), st.integers(0, 4), b, st.integers(0, 40))),
        (1, st.tuples(st.just("state"), st.sampled_from(ref.CONNSTATE_STATUS))),
        (1, st.tuples(st.just("other"), st.sampled_from([0x0201, 0x0203, 0x0204, 0x0209, 0x0310, 0x0530, 0x0740]), gen.long_hexes(0, 20, 1400))),
        (2, st.tuples(st.just("junk"), st.binary(max_size=20).filter(lambda d: d[:2] != b"\x06\x10").map(bytes.hex))),
        (1, st.tuples(st.just("burst"), st.one_of(st.integers(1, 9), st.sampled_from([254, 256, 258]))))).map(list)
    early = st.lists(op, max_size=4)
    late = gen.some(op, 2, 12)
    never = draw(st.integers(0, 9)) == 0
    ops = [o for o in draw(early) if o[0] not in ("connect", "burst")]
    pre = len(ops)
    if not never:
        ops += [list(draw(connect))] + ([["req", 0, draw(st.integers(0, 7)), draw(pay)]] if draw(st.integers(0, 3)) else []) + draw(late)
    else:
        ops += [o for o in draw(late) if o[0] not in ("connect", "burst")]
    return {"tables": cfg, "ops": ops, "form": draw(st.integers(0, 3)), "write_at": draw(st.integers(0, len(ops))),
            "msgs": draw(st.lists(st.tuples(st.integers(0, 5), st.integers(0, 2), st.integers(0, 2 ** 32 - 1)).map(list), min_size=draw(gen.weighted((6, st.just(1)), (1, st.just(0)))), max_size=4))
            * draw(gen.weighted((14, st.just(1)), (1, st.sampled_from([32, 65]))))}


SUBS = [Sub("history", check, "connected, a message written and a request acknowledged", cases, quick=1000),
        Sub("two clients", check_two, "both connected and a request acknowledged",
            lambda: st.fixed_dictionaries({"runs": st.lists(cases(), min_size=2, max_size=2), "how": st.sampled_from(["together", "after"]), "same": st.booleans(), "closed": st.booleans()}), quick=300)]
