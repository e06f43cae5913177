import asyncio
import gc
import os
import subprocess
import time
import tracemalloc

from hypothesis import strategies as st

import core
import gen
import ref
from core import Sub, Violation, attempt, call, require, sut, monotonic
from props import c20, c22, c26
from props.c21 import damage
from props.c24 import HOST
from props.c06 import request
from vloop import VLoop
from world import World, dpt_class, make_state, to_msg

ID = "C35"
ASSUME = ["The work repeated is the same every time, so that whatever is remembered per address, frame or type is remembered after the first repetitions; messages and frames are dropped by the program.",
          "Memory is what Python's allocators hand out after a full garbage collection; for the daemon it is its resident size and its descriptors."]
WINDOW = 24
SLACK = 100  # octets per window; one element of a list takes eight


def growth(repeat, window):
    """Octets more after each of four windows of repetitions, behind a first one that does not count."""
    sizes = []
    for _ in range(5):
        for _ in range(window):
            repeat()
        gc.collect()
        sizes.append(tracemalloc.get_traced_memory()[0])
    return [b - a for a, b in zip(sizes, sizes[1:])]


def settled(what, repeat, ctx):
    """Repeating the work takes no more memory each time."""
    gc.collect()
    tracemalloc.start(1)
    try:
        d = growth(repeat, WINDOW)
        if min(d) >= SLACK:
            ctx.label("measured again")
            t0 = time.process_time()
            d = growth(repeat, WINDOW * 4)
            if min(d) < SLACK * 4:
                return
            n = int(min(WINDOW * 64, WINDOW * 4 * 12 / max(0.1, time.process_time() - t0)))  # nor some bounded memory
            if n > WINDOW * 4:
                d = growth(repeat, n)
                require(min(d) < n * SLACK // WINDOW, "%s takes %.0f octets more every time (%r in windows of %d)", what, sum(d) / len(d) / n, d, n)
            else:
                raise Violation("%s takes more memory every time (%r)" % (what, d))
    finally:
        tracemalloc.stop()


def check(case, ctx):
    """One program with stacks and tables that live on."""
    K = sut()
    medium = case["medium"]
    world = World(case["tables"])
    state = make_state(medium, world.at, world.got)
    steps = []
    n = {"ok": 0, "rejected": 0}
    for op in case["ops"]:
        k = op[0]
        if k == "encode":
            if op[1]["kind"] in ("ack", "connect", "connstate", "disconnect", "search") and medium != "ip":
                continue
            steps.append(lambda spec=op[1]: attempt(K.encode_msg, state, c22.make_request(world, spec))[0])
        elif k in ("decode", "damaged"):
            data = c20.build(world, medium, op[1])
            if data is None:
                continue
            if k == "damaged":
                data = damage(data, op[2])
            steps.append(lambda data=data: attempt(K.decode_msg, state, to_msg(medium, data))[0])
        elif k == "table":
            steps.append(lambda op=op: world.apply(op[1]) is not None)
        elif k == "build":
            def build():
                w = World(case["tables"])
                make_state(medium, w.at, w.got)
                return True
            steps.append(build)
        elif k == "value":
            def value(name=op[1], raw=op[2]):
                d = dpt_class(name)()
                d.value = raw & ref.DPTS[name].maxraw
                repr(d)
                x = K.datapointtypes.Description_Factory.make(d)
                return attempt(K.datapointtypes.DPT_Factory.make, x[0], x[1])[0]
            steps.append(value)
        elif k == "print":
            steps.append(lambda: len(repr(world.table) + repr(world.at) + repr(world.got)) > 0)
    count = [state.sequence_counter_local, state.sequence_counter_remote]

    def once():
        state.sequence_counter_local, state.sequence_counter_remote = count
        if medium == "ip":
            state.communication_channel_id = 1
        for s in steps:
            n["ok" if s() else "rejected"] += 1

    if not steps:
        return
    settled("repeating %d operations over %s" % (len(steps), medium), once, ctx)
    for k in n:
        ctx.label(k, n[k] // (WINDOW * 5))
    ctx.nontrivial(n["ok"] > WINDOW * 10)


MANY = 200000  # messages, more than a client sends in all windows


def check_tunnelling(case, ctx):
    """A tunnelling client that runs for ever."""
    client = call("importing the client", __import__, "knx_stack.client.knxnet_ip", fromlist=["Tunneling"])
    loop = VLoop()
    try:
        world = World(case["tables"])
        state = make_state("ip", world.at, world.got)
        loop.on_send = lambda transport, data, addr: None
        asaps = sorted(a for a in world.assoc if world.assoc[a])
        if not asaps:
            return
        msg = request("read", asaps[0], world.dpts.get(asaps[0]), 0)

        async def start():
            return await loop.create_datagram_endpoint(lambda: client.Tunneling("192.0.2.5", 5544, "198.51.100.7", 3671, state, [msg] * MANY),
                                                       local_addr=("192.0.2.5", 5544), remote_addr=("198.51.100.7", 3671))

        asyncio.set_event_loop(loop)
        transport, protocol = loop.run_until_complete(start())
        frames = [ref.connect_res(7, 0, "10.0.0.1", 3671, 0x1101)]
        for i, t in enumerate(case["frames"]):
            data = c20.build(world, "ip", dict(t, seq=i, chan=7))
            if data is not None:
                frames.append(data)
        frames += [ref.tun_ack(7, 0, 0), ref.tun_ack(7, 9, 0)] + [bytes.fromhex(x) for x in case["junk"]]
        frames = frames + frames[1:3]
        before = loop.now

        async def round_():
            for f in frames:
                attempt(protocol.datagram_received, f, ("198.51.100.7", 3671))
                await asyncio.sleep(0)
            await asyncio.sleep(7)

        writer = loop.create_task(protocol.writer())
        settled("a tunnelling client receiving %d datagrams" % len(frames), lambda: loop.run_until_complete(round_()), ctx)
        require(loop.now > before, "the clock stands still")
        ctx.nontrivial(len(frames) > 8)
    finally:
        loop.finish()


def check_usb(case, ctx):
    """A USB client that runs for ever."""
    client = call("importing the client", __import__, "knx_stack.client.usbhid", fromlist=["Client"])
    loop = VLoop()
    real = asyncio.open_connection
    try:
        world = World(case["tables"])
        state = make_state("usb", world.at, world.got)
        asaps = sorted(a for a in world.assoc if world.assoc[a])
        if not asaps:
            return
        msg = request("read", asaps[0], world.dpts.get(asaps[0]), 0)

        asyncio.set_event_loop(loop)
        reader = asyncio.StreamReader(loop=loop)

        class Writer:
            def write(self, b):
                pass

            async def drain(self):
                pass

        async def open_connection(host=None, port=None, **kw):
            return reader, Writer()

        asyncio.open_connection = open_connection
        client.Client(HOST[0], HOST[1], state, [msg] * MANY)
        text = b"\n".join([d.hex().encode() for d in (c20.build(world, "usb", t) for t in case["frames"]) if d is not None] + [x.encode() for x in case["junk"]]) + b"\n"

        async def round_():
            reader.feed_data(text)
            await asyncio.sleep(7)

        settled("a USB client receiving %d lines" % text.count(b"\n"), lambda: loop.run_until_complete(round_()), ctx)
        ctx.nontrivial(text.count(b"\n") > 3)
    finally:
        asyncio.open_connection = real
        for task in asyncio.all_tasks(loop):
            task.cancel()
        loop.errors.clear()
        loop.finish()


_plain = None


def plain():
    """The daemon without sanitizers, whose memory is its own."""
    global _plain
    if _plain is None:
        d = os.path.dirname(c26.build())
        _plain = os.path.join(d, "plain")
        p = subprocess.run(["gcc", "-w", "-O1", "-o", _plain, os.path.join(core.REPO, "daemon", "usbhid.c")], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise RuntimeError("the daemon does not compile: %s" % p.stdout.decode("utf8", "replace")[-2000:])
    return _plain


class Plain(c26.Daemon):
    executable = staticmethod(plain)

    def size(self):
        with open("/proc/%d/statm" % self.proc.pid) as f:
            return int(f.read().split()[1]) * 4096

    def descriptors(self):
        return len(os.listdir("/proc/%d/fd" % self.proc.pid))


def check_daemon(case, ctx):
    d = Plain()
    d.lost = set()
    try:
        d.connect(0)
        mark = [0]

        def serve(k, text):
            mark[0] += 1
            want = b"\x5a" + mark[0].to_bytes(4, "big")
            d.send(k, text + want.hex().encode() + b"\n")
            for _ in range(12):  # what lines of other kinds cause is not the matter here
                p = d.packet("for a line", k)
                if p.startswith(want):
                    return
            raise Violation("packet %s instead of %s" % (p.hex(), want.hex()))

        def device(data):
            want = data.hex().encode() + b"\n"
            at = {k: len(d.lines[k]) for k in d.clients}
            os.write(d.master, data)
            if not d.until(lambda: all(k in d.clients and len(d.lines[k]) >= at[k] + len(want) for k in at), "after a packet"):
                raise Violation("a packet was not delivered")
            for k in d.clients:
                d.lines[k] = b""

        def once():
            for op in case["ops"]:
                if op[0] == "line":
                    serve(0, op[1].encode("latin1"))
                elif op[0] == "device":
                    device(bytes.fromhex(op[1]))
                else:
                    for k in range(1, op[1] + 1):
                        d.connect(k)
                        serve(k, b"")
                    for k in range(1, op[1] + 1):
                        s = d.clients.pop(k)
                        if op[2]:
                            s.sendall(b"0102")
                        s.close()

        def quiet():
            """The descriptors when the daemon has noticed all disconnections."""
            t0 = monotonic()
            while monotonic() - t0 < 5:
                n = d.descriptors()
                if n <= start:
                    return n
                time.sleep(0.01)
            return n

        serve(0, b"")
        start = d.descriptors()
        sizes, fds = [], []
        for w in range(5):
            for _ in range(case["rounds"]):
                once()
            fds.append(quiet())
            sizes.append(d.size())
        e = [b - a for a, b in zip(fds, fds[1:])]
        require(min(e) <= 0, "descriptors of the daemon after %d rounds each: %r, %d at the start", case["rounds"], fds, start)
        g = [b - a for a, b in zip(sizes, sizes[1:])]
        require(min(g) < 8192, "resident octets of the daemon after %d rounds each: %r", case["rounds"], sizes)
        ctx.nontrivial(len(case["ops"]) > 2)
    finally:
        d.stop()


@st.composite
def cases(draw):
    case = draw(c22.cases())
    m = case["medium"]
    ops = [o for o in case["ops"]]
    more = gen.weighted((1, st.just(["build"])), (1, st.just(["print"])), (2, st.tuples(st.just("value"), gen.name, st.integers(0, 2 ** 32 - 1)).map(list)))
    ops += draw(st.lists(more, max_size=3))
    return {"medium": m, "tables": case["tables"], "ops": ops}


@st.composite
def clients(draw, medium):
    cfg = draw(gen.config(max_ops=2, cap=255))
    cfg["assoc"].append([cfg["asaps"][0], cfg["pool"][0]])
    return {"tables": cfg, "frames": draw(st.lists(gen.weighted((3, c20.deliverable()), (1, c20.frame(medium))), min_size=3, max_size=12)),
            "junk": draw(st.lists(gen.hexes(0, 12), max_size=3))}


@st.composite
def daemons(draw):
    line = gen.weighted((2, st.just("")), (1, st.sampled_from(["zz\n", "012\n", "0102\r", "ff" * 300 + "x\n", "\n"])))
    op = gen.weighted((2, st.tuples(st.just("line"), line)), (2, st.tuples(st.just("device"), gen.hexes(1, 56))),
                      (1, st.tuples(st.just("clients"), st.sampled_from([1, 1, 3, 9]), st.booleans()))).map(list)
    return {"ops": draw(st.lists(op, min_size=3, max_size=8)), "rounds": draw(st.sampled_from([40, 90]))}


SUBS = [Sub("stack", check, "two successful operations in each repetition", cases, quick=160, times=1),
        Sub("tunnelling client", check_tunnelling, "more than eight datagrams in each repetition", lambda: clients("ip"), quick=64, times=1),
        Sub("USB client", check_usb, "more than three lines in each repetition", lambda: clients("usb"), quick=64, times=1),
        Sub("daemon", check_daemon, "three kinds of activity in each repetition", daemons, quick=32, times=1, confirm=3)]
