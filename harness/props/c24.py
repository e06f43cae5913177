import asyncio

from hypothesis import strategies as st

import gen
import ref
from core import Sub, Violation, call, eq, require, sut
from props import c20
from props.c06 import request
from vloop import VLoop
from world import AS, World, make_state, observe, ref_cemi

ID = "C24"
ASSUME = ["The connection is an in-memory stream and the clock is virtual; the connection stays open while the client runs.",
          "What the client receives is observed at the datapoints it builds for the access points; lines are complete reports."]
HOST = ("192.0.2.9", 5555)


class Writer:
    """What asyncio.StreamWriter offers, recording."""

    def __init__(self):
        self.data = b""

    def write(self, b):
        if not isinstance(b, (bytes, bytearray, memoryview)):
            raise TypeError("data argument must be a bytes-like object")
        self.data += bytes(b)

    def writelines(self, bs):
        self.write(b"".join(bs))

    async def drain(self):
        pass

    def close(self):
        pass

    def is_closing(self):
        return False

    async def wait_closed(self):
        pass

    def get_extra_info(self, name, default=None):
        return default


def judge(log, want):
    """Compares what was delivered with what was expected, telegram by telegram (None ends one)."""
    seen = [(a, name, d if isinstance(d, dict) else ref.observed(name, d)) for a, name, d in log]
    i = 0
    group = []
    for w in want:
        if w is not None:
            group.append(w)
            continue
        part = sorted(seen[i:i + len(group)], key=lambda x: x[0])
        i += len(group)
        eq("access points and types delivered to", [x[:2] for x in part], [x[:2] for x in group])
        for x, y in zip(part, group):
            if y[2] is not None:
                eq("value delivered to access point %d" % x[0], x[2], y[2])
        group = []
    eq("further values delivered", seen[i:], [])


def expected(world, cemi):
    """What a telegram delivers; the order inside one telegram is not stated."""
    return [(m["asap"], m["dpt"], m["reading"]) for m in sorted(ref_cemi(world, cemi), key=lambda m: m.get("asap", 0)) if "dpt" in m] + [None]


def record(world, log):
    """Delivered values are seen through the datapoint types of the table."""
    K = sut()
    for a in sorted(world.dpts):
        name = world.dpts[a]

        def make(base=getattr(K.datapointtypes, name), a=a, name=name):
            class Recording(base):
                def __init__(self, *x, **y):
                    super().__init__(*x, **y)
                    log.append((a, name, self))

            Recording.__name__ = name
            return Recording

        call("replacing a type", world.got.associate, AS(a), make())


class Session:
    """One client: what it is given, what it is to send and to deliver."""

    def __init__(self, case, ctx, host=HOST):
        self.case, self.host = case, host
        self.world = world = World(case["tables"])
        self.log = []
        record(world, self.log)
        self.state = make_state("usb", world.at, world.got)
        assocs = [a for a in sorted(world.assoc) if world.assoc[a]]
        self.msgs, self.lines = [], []
        for k in case["msgs"] if assocs else []:
            asap = assocs[k[0] % len(assocs)]
            name = world.dpts.get(asap)
            kind = ["read", "write", "ind"][k[1]] if name else "read"
            raw = k[2] & ref.DPTS[name].maxraw if name else 0
            self.msgs.append(request(kind, asap, name, raw))
            c = ref.out_group(ref.READ if kind == "read" else ref.WRITE, world.assoc[asap][0], name, raw, ref.IND if kind == "ind" else ref.REQ)
            self.lines.append(ref.usb(c).hex())
        # what is received
        self.want, text = [], b""
        for t, upper, pad in case["frames"]:
            if t == "long":  # longer than what asyncio's readline returns
                text += b"z" * (65600 + 40 * pad) + b"\n"
                ctx.label("lines longer than 64 KiB")
                continue
            if isinstance(t, str):  # not a report
                text += t.encode("latin1") + b"\n"
                ctx.label("bad lines")
                continue
            data = c20.build(world, "usb", t)
            if c20.lax_read(t, c20.cemi_of(world, t) if t["what"] == "ldata" else b""):
                continue  # may count as a read or as nothing
            data += bytes(max(0, 56 - len(data))) if pad == 1 else bytes(pad)
            line = data.hex().upper() if upper else data.hex()
            text += line.encode() + b"\n"
            if t["what"] == "ldata":
                self.want += expected(world, c20.cemi_of(world, t))
        self.chunks, i = [], 0
        for n, at in case["chunks"]:
            if i < len(text):
                self.chunks.append((at / 8, text[i:i + n]))
                i += n
        self.chunks.append((0.5, text[i:]))
        self.writer, self.reader, self.opened = Writer(), None, 0

    async def feed(self):
        for dt, b in self.chunks:
            await asyncio.sleep(dt)
            if b:
                self.reader.feed_data(b)

    @property
    def text(self):
        return "".join(x + "\n" for x in self.lines)


def run(case, ctx):
    """case["runs"]: clients of one program, on one loop; without it a single one."""
    client = call("importing the client", __import__, "knx_stack.client.usbhid", fromlist=["Client"])
    sessions = [Session(c, ctx, (HOST[0], HOST[1] + i)) for i, c in enumerate(case.get("runs", [case]))]
    loop = VLoop()
    asyncio.set_event_loop(loop)

    async def open_connection(host=None, port=None, **kw):
        s = [s for s in sessions if s.host == (host, port)]
        require(s, "connection opened to %r", (host, port))
        s[0].opened += 1
        s[0].reader = asyncio.StreamReader(limit=kw.get("limit", 2 ** 16), loop=loop)
        return s[0].reader, s[0].writer

    real = asyncio.open_connection
    asyncio.open_connection = open_connection
    try:
        feeding = []
        for s in sessions:
            s.client = call("building the client", client.Client, s.host[0], s.host[1], s.state, iter(s.msgs) if s.case["form"] else list(s.msgs))
            eq("connections opened", [x.opened for x in sessions], [x is s or hasattr(x, "client") for x in sessions])
            feeding.append(loop.create_task(s.feed()))
        for i, s in enumerate(sessions):
            # of two which end at the same moment the loop stops once; the first to end stops the other, too
            if i and all(len(x.writer.data) >= len(x.text) for x in sessions):
                break
            start = loop.now
            limit = loop.call_at(start + 1000, loop.stop)
            call("running", s.client.run)
            limit.cancel()
            require(loop.now < start + 1000 and not loop.stuck, "the client is still running long after its last message")
        stopped_at = loop.now
        first = [s.writer.data for s in sessions]
        # the reader goes on if the program runs the loop again
        until = max(1000, stopped_at) + max(sum(dt for dt, b in s.chunks) for s in sessions) + 10
        loop.call_at(until, loop.stop)
        for s in sessions:  # another client's end may stop the loop before
            if loop.now < until:
                loop.stuck = False
                loop.run_forever()
        require(all(f.done() for f in feeding), "the program ended early")
        for s, f in zip(sessions, first):
            eq("text written", s.writer.data.decode("latin1").lower(), s.text)
            eq("text written before the client stopped", f, s.writer.data)
    finally:
        asyncio.open_connection = real
        for task in asyncio.all_tasks(loop):
            task.cancel()
        loop.errors.clear()
        loop.finish()
    for s in sessions:
        judge(s.log, s.want)
        ctx.label("messages", len(s.msgs))
        ctx.label("values", len([w for w in s.want if w]))
        ctx.label("chunks", len(s.chunks))
    ctx.nontrivial(all(len(s.msgs) > 0 and len([w for w in s.want if w]) > 0 for s in sessions))


@st.composite
def cases(draw):
    cfg = draw(gen.config(max_ops=1))
    a = cfg["asaps"][0]
    cfg["assoc"].append([a, cfg["pool"][0]])
    if all(d[0] != a for d in cfg["dpts"]):
        cfg["dpts"].append([a, draw(gen.name)])
    ends = st.sampled_from(["ff", "f0", "0f", "00", "0a", "0d", "20", "fff0", "0fff", "0a00", "20202020", "ffffffff", "00000000", "0d0a0d0a"])
    ending = st.tuples(c20.deliverable(), ends).map(lambda x: dict(x[0], data=x[1]) if x[0]["apci"] in (ref.RESPONSE, ref.WRITE) or x[0]["apci"] & 0x3C0 in (0x40, 0x80) else x[0])
    f = gen.weighted((3, c20.deliverable()), (2, ending), (1, c20.frame("usb")))
    bad = st.one_of(st.sampled_from(["", "0", "01", "0113", "zz", "0113zz", "\r"]), gen.hexes(0, 12), gen.hexes(56, 56), st.builds(gen.stretched, st.integers(57, 3000), st.binary(min_size=1, max_size=3)), st.text("0123456789abcdefxz +-", max_size=30))
    octets = st.binary(max_size=130).map(lambda b: b.replace(b"\n", b"\xff").decode("latin1"))  # no text at all
    f = gen.weighted((48, f), (7, bad), (1, octets), (1, st.just("long")))
    frames = draw(st.lists(st.tuples(f, st.booleans(), st.sampled_from([0, 0, 1, 2, 3])).map(list), min_size=draw(st.sampled_from([0, 1, 3])), max_size=8))
    if len(frames) > 1 and draw(st.integers(0, 2)) == 0:  # the same line again
        i = draw(st.integers(0, len(frames) - 1))
        frames.insert(i, frames[i])
    chunks = draw(st.lists(st.tuples(st.sampled_from([1, 1, 2, 3, 7, 20, 64, 113, 300]), st.sampled_from([0, 0, 1, 8, 30, 0, 0, 1, 8, 30, 500, 10000])).map(list), max_size=40))
    return {"tables": cfg, "frames": frames, "chunks": chunks, "form": draw(st.integers(0, 1)),
            "msgs": draw(st.lists(st.tuples(st.integers(0, 5), st.integers(0, 2), st.integers(0, 2 ** 32 - 1)).map(list), min_size=draw(st.sampled_from([0, 1, 2])), max_size=4))}


SUBS = [Sub("session", run, "a message written and a value delivered", cases, quick=800),
        Sub("two clients", run, "each writes a message and delivers a value", lambda: st.fixed_dictionaries({"runs": st.lists(cases(), min_size=2, max_size=2)}), quick=300)]
