import asyncio
import json
import os
import select
import signal
import time
import traceback

from hypothesis import strategies as st

import gen
import ref
from core import Sub, Violation, call, eq, require, monotonic
from props import c20
from props.c06 import request
from props.c24 import expected, judge, record
from props.c26 import P, WAIT_S, Daemon
from sloop import SLoop
from world import World, make_state

ID = "C32"
ASSUME = ["The interface is a pseudo terminal that confirms each request; the connections are loopback TCP; each client is a process whose event loop's clock runs 600 times faster.",
          "Values are observed at the datapoints the clients build for their access points."]


class User:
    """One user with tables, the frames it is to send and the values it is to get."""

    def __init__(self, tables, msgs):
        self.world = World(tables)
        self.log = []
        record(self.world, self.log)
        self.state = make_state("usb", self.world.at, self.world.got)
        self.msgs, self.frames, self.want = [], [], []
        w = self.world
        assocs = [a for a in sorted(w.assoc) if w.assoc[a]]
        for pick, kind, raw in msgs:
            asap = assocs[pick % len(assocs)]
            name = w.dpts.get(asap)
            kind = ["read", "write", "ind"][kind] if name else "read"
            raw = raw & ref.DPTS[name].maxraw if name else 0
            self.msgs.append(request(kind, asap, name, raw))
            self.frames.append(ref.usb(ref.out_group(ref.READ if kind == "read" else ref.WRITE, w.assoc[asap][0], name, raw, ref.IND if kind == "ind" else ref.REQ)))

    def due(self):
        return len([x for x in self.want if x])


class Process:
    """A client in a process of its own, as its user would run it."""

    def __init__(self, user, port):
        self.user = user
        self.out, w = os.pipe()
        r, self.end_it = os.pipe()
        self.text = b""
        self.pid = os.fork()
        if not self.pid:
            os.close(self.out)
            os.close(self.end_it)
            try:
                res = self.child(port, r, w)
            except Violation as e:
                res = ["violation", str(e)]
            except BaseException:
                res = ["error", traceback.format_exc()]
            try:
                with os.fdopen(w, "w") as f:
                    f.write("\n" + json.dumps(res) + "\n")
            finally:
                os._exit(0)
        os.close(w)
        os.close(r)
        os.set_blocking(self.out, False)

    def child(self, port, r, w):
        u = self.user
        client = call("importing the client", __import__, "knx_stack.client.usbhid", fromlist=["Client"])
        loop = SLoop()
        asyncio.set_event_loop(loop)
        ended = []

        def end():
            ended.append(1)
            loop.remove_reader(r)
            loop.stop()

        async def report():
            n = 0
            while True:
                if len(u.log) > n:
                    os.write(w, b"v" * (len(u.log) - n))
                    n = len(u.log)
                await asyncio.sleep(0.5)

        c = call("building a client", client.Client, "127.0.0.1", port, u.state, list(u.msgs))
        loop.add_reader(r, end)
        loop.create_task(report())
        call("running", c.run)
        os.write(w, b"s")
        if not ended:
            loop.run_forever()
        return ["seen", [[a, n, ref.observed(n, d)] for a, n, d in u.log]]

    def poll(self):
        while True:
            try:
                d = os.read(self.out, 65536)
            except BlockingIOError:
                return True
            if not d:
                return False
            self.text += d

    def died(self):
        if not self.poll():
            self.result()
            raise RuntimeError("a client's process ended")

    def count(self, ch):
        return self.text.split(b"\n")[0].count(ch)

    def result(self):
        kind, value = json.loads(self.text.split(b"\n")[1].decode() or '["error", "no result"]')
        if kind == "violation":
            raise Violation(value)
        if kind == "error":
            raise RuntimeError(value)
        return value

    def finish(self):
        os.write(self.end_it, b"e")
        t0 = monotonic()
        while self.poll():
            if monotonic() - t0 > WAIT_S:
                raise Violation("a client does not end")
            select.select([self.out], [], [], 0.1)
        return self.result()

    def kill(self):
        os.kill(self.pid, signal.SIGKILL)
        os.waitpid(self.pid, 0)
        os.close(self.out)
        os.close(self.end_it)


class Bus:
    def __init__(self, d, users, case):
        self.d, self.users, self.case = d, users, case
        self.at = {(0,) * len(users)}  # how far each client may be (equal frames of two clients look the same)
        self.arrived = []
        self.confirmed = 0
        self.sent = b""  # as one more client, which only listens, is to see it
        self.procs = []

    def packet(self, p):
        new, f = set(), None
        for at in self.at:
            for i, u in enumerate(self.users):
                if at[i] < len(u.frames) and p.startswith(u.frames[at[i]]):
                    new.add(at[:i] + (at[i] + 1,) + at[i + 1:])
                    f = u.frames[at[i]]
        if not new:
            raise Violation("packet %s at the interface after %d; the clients' messages: %r" % (p.hex(), len(self.arrived), [[f.hex() for f in u.frames] for u in self.users]))
        self.at = new
        self.arrived.append(f)

    def wait(self, cond, what):
        d = self.d
        t0 = monotonic()
        while not cond():
            d.take(0.002)
            while len(d.dev) >= P:
                p, d.dev = d.dev[:P], d.dev[P:]
                self.packet(p)
            require("ear" in d.clients, "a listening client was disconnected")
            d.alive(what)
            for p in self.procs:
                p.died()
            if monotonic() - t0 > WAIT_S:
                raise Violation("waited in vain " + what)

    def send(self, data, pad):
        """One packet of the interface; the next comes only when the daemon has passed this one on."""
        c = data[11:]
        data = data + bytes(P - len(data)) if pad else data
        os.write(self.d.master, data)
        self.sent += data.hex().encode() + b"\n"
        self.wait(lambda: len(self.d.lines["ear"]) >= len(self.sent), "for the line of packet %s" % data.hex())
        for u in self.users:
            u.want += expected(u.world, c)

    def confirm(self):
        while self.confirmed < len(self.arrived):
            f = self.arrived[self.confirmed]
            self.confirmed += 1
            if f[11] == ref.REQ:
                self.send(f[:11] + bytes([ref.CON]) + f[12:], self.confirmed % 2)

    def run(self):
        d = self.d
        d.connect("ear")
        d.send("ear", b"00\n")
        d.packet("for the first line")  # it is served
        for u in self.users:
            self.procs.append(Process(u, d.port))
        self.wait(lambda: all(min(at) for at in self.at), "for the first frame of every client")
        total = sum(len(u.frames) for u in self.users)
        world = self.users[0].world
        for at, t, pad in self.case["frames"]:
            data = c20.build(world, "usb", t)
            if t["what"] != "ldata" or len(data) > P or c20.lax_read(t, c20.cemi_of(world, t)):
                continue
            k = min(total, len(self.arrived) + at)
            self.wait(lambda: len(self.arrived) >= k, "for frame %d of %d at the interface" % (k, total))
            self.confirm()
            self.send(data, pad)
        self.wait(lambda: len(self.arrived) >= total, "for all frames at the interface")
        self.confirm()
        self.wait(lambda: all(p.count(b"v") >= p.user.due() for p in self.procs), "for the values at the clients")
        self.wait(lambda: all(p.count(b"s") for p in self.procs), "for the clients to stop after their last message")
        time.sleep(0.01)
        seen = [p.finish() for p in self.procs]
        d.take(0)
        require(not d.dev, "further octets at the interface: %s", d.dev.hex())
        eq("lines a listening client got", d.lines["ear"], self.sent)
        return seen


def check(case, ctx):
    users = [User(t, m) for t, m in zip(case["tables"], case["msgs"])]
    d = Daemon()
    bus = Bus(d, users, case)
    try:
        seen = bus.run()
        e = d.stderr()
        require("AddressSanitizer" not in e and "runtime error" not in e, "%s", e[-500:])
    finally:
        for p in bus.procs:
            p.kill()
        d.stop()
    for u, s in zip(users, seen):
        judge([tuple(x) for x in s], u.want)
    ctx.label("clients", len(users))
    ctx.label("messages", len(bus.arrived))
    ctx.label("values", sum(u.due() for u in users))
    ctx.nontrivial(sum(u.due() for u in users) > 1 and len(bus.arrived) > 1)


@st.composite
def cases(draw):
    n = draw(st.sampled_from([1, 2, 2, 3]))
    tables, msgs = [], []
    pool = None
    for i in range(n):
        cfg = draw(gen.config(max_ops=1))
        pool = pool or cfg["pool"]  # they share the bus
        a = cfg["asaps"][0]
        cfg["cap"] = 255
        cfg["assoc"] += [[x, draw(st.sampled_from(pool))] for x in cfg["asaps"][:3]]
        cfg["ops"] = []
        if all(x[0] != a for x in cfg["dpts"]):
            cfg["dpts"].append([a, draw(gen.name)])
        tables.append(cfg)
        msgs.append(draw(st.lists(st.tuples(st.integers(0, 5), st.sampled_from([0, 1, 1, 2]), st.integers(0, 2 ** 32 - 1)).map(list), min_size=1, max_size=4)))
    frames = draw(st.lists(st.tuples(st.sampled_from([0, 0, 1, 2]), c20.deliverable(), st.booleans()).map(list), min_size=1, max_size=6))
    return {"tables": tables, "msgs": msgs, "frames": frames}


SUBS = [Sub("whole path", check, "two messages sent and two values delivered", cases, quick=280, times=1, confirm=8)]
