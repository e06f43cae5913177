import asyncio
import os

from hypothesis import strategies as st

import gen
import ref
from core import Sub, Violation, call, eq, require, monotonic
from props import c20
from props.c06 import request
from props.c24 import expected, judge, record
from sloop import SLoop
from world import World, make_state

ID = "C33"
ASSUME = ["Client and gateway use real UDP sockets on loopback addresses; the network's losses and repeats are made by the gateway, which repeats a request until it is acknowledged.",
          "The clock runs 600 times faster. Values are observed at the datapoints the client builds for its access points."]
WAIT_S = 20


class Gateway(asyncio.DatagramProtocol):
    """Stop and wait, over a network with faults."""

    def __init__(self, case, chan, me):
        self.case, self.chan, self.me = case, chan, me
        self.faults = iter(case["faults"])
        self.out = []  # telegrams to tunnel
        self.done = 0
        self.acks = self.repeats = 0
        self.requests = []  # cEMI of the client's requests
        self.started = False
        self.failed = None

    def connection_made(self, transport):
        self.transport = transport

    def datagram_received(self, data, addr):
        try:
            self.handle(data, addr)
        except Violation as e:
            self.failed = self.failed or e

    def handle(self, data, addr):
        eq("a datagram's origin", tuple(addr), self.client)
        what = "datagram %s of the client" % data.hex()
        if data[2:4] == b"\x02\x05":
            eq("connect request", data.hex(), ref.connect_req(*(self.client * 2)).hex())
            require(not self.started, "%s: a second connect request", what)
            self.started = True
            for fault in self.case["refusals"]:
                self.send(ref.connect_res(0, fault))
            self.send(ref.connect_res(self.chan, 0, self.me[0], self.me[1], 0x1199))
            return
        require(self.started, "%s before the connect request", what)
        if data[2:4] == b"\x02\x07":
            eq("connection-state request", data.hex(), ref.connstate_req(self.chan, *self.client).hex())
            self.send(ref.connstate_res(self.chan, 0))
        elif data[2:4] == b"\x04\x21":
            fault = next(self.faults, 0)
            seq = data[8] if len(data) == 10 else None
            eq("acknowledgement", data.hex(), ref.tun_ack(self.chan, seq or 0, 0).hex())
            require((self.done - seq) % 256 < 50, "%s while request %d is open", what, self.done)  # older ones were repeated too early
            self.acks += 1
            if fault != 1 and self.done < len(self.out) and seq == self.done % 256:
                self.done += 1
                self.event.set()
        else:
            f = ref.untun(data)
            require(f is not None and f[0] == self.chan and f[2] == 0, "%s", what)
            self.requests.append(f[3])
            fault = next(self.faults, 0)
            for _ in range([1, 0, 2][fault]):
                self.send(ref.tun_ack(self.chan, f[1], 0))

    def send(self, data):
        self.transport.sendto(data, self.client)

    async def tunnel(self):
        for i, c in enumerate(self.out):
            frame = ref.tun_req(self.chan, i % 256, c)
            while self.done == i:
                self.event.clear()
                fault = next(self.faults, 0)
                for _ in range([1, 0, 2][fault]):
                    self.send(frame)
                if fault == 2 and i and self.case["late"]:  # an old one was still under way
                    self.send(ref.tun_req(self.chan, (i - 1) % 256, self.out[i - 1]))
                try:
                    await asyncio.wait_for(self.event.wait(), 1 if fault == 1 else 10)
                except asyncio.TimeoutError:
                    self.repeats += 1


def check(case, ctx):
    client = call("importing the client", __import__, "knx_stack.client.knxnet_ip", fromlist=["Tunneling"])
    world = World(case["tables"])
    log, want = [], []
    record(world, log)
    state = make_state("ip", world.at, world.got)
    state.sequence_counter_local, state.sequence_counter_remote, state.communication_channel_id = case["old"]
    assocs = [a for a in sorted(world.assoc) if world.assoc[a]]
    msgs, cemis = [], []
    for pick, kind, raw in case["msgs"] if assocs else []:
        asap = assocs[pick % len(assocs)]
        name = world.dpts.get(asap)
        kind = ["read", "write", "ind"][kind] if name else "read"
        raw = raw & ref.DPTS[name].maxraw if name else 0
        msgs.append(request(kind, asap, name, raw))
        cemis.append(ref.out_group(ref.READ if kind == "read" else ref.WRITE, world.assoc[asap][0], name, raw, ref.IND if kind == "ind" else ref.REQ))
    pid = os.getpid()
    tail = "%d.%d" % (pid >> 8 & 255, pid & 255)  # nobody else's
    me, local = ("127.%d.%s" % (64 + (pid >> 16 & 63), tail), case["ports"][0]), ("127.%d.%s" % (128 + (pid >> 16 & 63), tail), case["ports"][1])
    g = Gateway(case, case["chan"], me)
    g.client = local
    for t in case["frames"]:
        c = c20.cemi_of(world, t)
        if not c20.lax_read(t, c):
            g.out.append(c)
            want += expected(world, c)
    if case["many"] and g.out:
        base, k = list(g.out), 0
        while len(g.out) < case["many"]:
            g.out.append(base[k % len(base)])
            want += expected(world, g.out[-1])
            k += 1
    loop = SLoop()
    asyncio.set_event_loop(loop)

    async def gateway():
        g.event = asyncio.Event()
        await loop.create_datagram_endpoint(lambda: g, local_addr=me)

    async def work():
        await until(lambda: g.started, "for a connect request")
        await asyncio.gather(g.tunnel(), until(lambda: len(g.requests) >= len(cemis), "for %d requests of the client" % len(cemis)))
        await until(writer.done, "for the client's writer")
        await asyncio.sleep(2)

    async def until(cond, what):
        while not cond():
            if g.failed:
                raise g.failed
            await asyncio.sleep(0.5)

    t0 = monotonic()
    try:
        loop.run_until_complete(gateway())
        transport, protocol = call("starting the client", loop.run_until_complete, client.start_tunneling(*local, *me, state, iter(msgs) if case["form"] else msgs))
        writer = loop.create_task(protocol.writer())
        job = loop.create_task(work())
        job.add_done_callback(lambda t: loop.stop())
        while not job.done():
            loop.call_later(300, loop.stop)
            loop.run_forever()
            if g.failed:
                raise g.failed
            if monotonic() - t0 > WAIT_S + len(g.out) / 20:
                raise Violation("the gateway waits in vain: telegram %d of %d acknowledged, %d of %d messages arrived" % (g.done, len(g.out), len(g.requests), len(cemis)))
        job.result()
        if g.failed:
            raise g.failed
        call("writing", writer.result)
        transport.close()
        g.transport.close()
        loop.call_later(1, loop.stop)
        loop.run_forever()
    finally:
        loop.finish()
    eq("telegrams of the client's messages", [c.hex() for c in g.requests], [c.hex() for c in cemis])
    require(g.acks >= len(g.out), "%d acknowledgements for %d requests", g.acks, len(g.out))
    judge(log, want)
    ctx.label("telegrams", len(g.out))
    ctx.label("repeats", g.repeats)
    ctx.label("values", len([w for w in want if w]))
    ctx.nontrivial(len([w for w in want if w]) > 1 and any(case["faults"][:len(g.out)]))


@st.composite
def cases(draw, many=False):
    cfg = draw(gen.config(max_ops=1))
    a = cfg["asaps"][0]
    cfg["assoc"].append([a, cfg["pool"][0]])
    if all(d[0] != a for d in cfg["dpts"]):
        cfg["dpts"].append([a, draw(gen.name)])
    frames = draw(st.lists(c20.deliverable(), min_size=2, max_size=9))
    return {"tables": cfg, "frames": frames, "many": draw(st.integers(250, 560)) if many else 0, "chan": draw(gen.byte), "old": draw(st.tuples(gen.byte, gen.byte, gen.byte).map(list)),
            "faults": draw(st.lists(st.sampled_from([0, 0, 1, 2]), min_size=draw(st.sampled_from([0, 4, 12])), max_size=60 if many else 30)), "late": draw(st.booleans()), "form": draw(st.integers(0, 1)),
            "refusals": draw(st.one_of(st.just([]), st.just([]), st.lists(st.sampled_from(ref.CONNECT_STATUS[1:]), max_size=2))),
            "ports": draw(st.tuples(st.integers(20000, 30000), st.integers(1024, 20000)).map(list)),
            "msgs": draw(st.lists(st.tuples(st.integers(0, 5), st.integers(0, 2), st.integers(0, 2 ** 32 - 1)).map(list), max_size=5))}


SUBS = [Sub("lossy network", check, "two values delivered and a fault", cases, quick=500, times=1, confirm=8),
        Sub("around the counter", check, "two values delivered and a fault", lambda: cases(many=True), quick=24, times=1, confirm=8)]
