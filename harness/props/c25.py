import asyncio
import logging
import re
import runpy
import socket
import sys

from hypothesis import strategies as st

import core
import gen
import ref
from core import Sub, Violation, attempt, call, eq, require, sut
from props.c17 import check_search
from vloop import VLoop
from world import make_state, to_msg

ID = "C25"
ASSUME = ["Sockets are stand-ins that accept every option, and the clock is virtual.",
          "The listener reports through its log (its only output): a report is a log record that names the endpoint's address, port and the individual address in hexadecimal.",
          "A damaged datagram may fail (the event loop logs it); what is claimed is that later ones are reported."]
GROUP = ("224.0.23.12", 3671)


class Socket:
    """A socket of no network."""

    def __init__(self, *a, **kw):
        self.bound = None

    def bind(self, addr):
        self.bound = addr

    def fileno(self):
        return -1

    def getsockname(self):
        return self.bound or ("0.0.0.0", 0)

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return lambda *a, **kw: None


class Log(logging.Handler):
    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


class Policy(asyncio.DefaultEventLoopPolicy):
    def __init__(self, loop):
        super().__init__()
        self.vloop = loop

    def new_event_loop(self):
        return self.vloop


def module():
    return call("importing the discovery client", __import__, "knx_stack.client.knxnet_ip_discovery", fromlist=["Listen"])


class Stubs:
    """No real socket, a recorded log, and a virtual clock."""

    def __enter__(self):
        self.sent = []
        self.loop = VLoop()
        self.loop.on_send = lambda t, data, addr: self.sent.append((data, addr))
        self.socket, socket.socket = socket.socket, Socket
        self.log = Log()
        logging.getLogger().addHandler(self.log)
        return self

    def __exit__(self, *a):
        socket.socket = self.socket
        logging.getLogger().removeHandler(self.log)
        asyncio.set_event_loop_policy(None)
        if not self.loop.is_closed():
            self.loop.finish()
        asyncio.set_event_loop(None)


def token(text, line):
    return re.search(r"(?<![0-9A-Za-z.])%s(?![0-9A-Za-z.]*[0-9A-Za-z])" % re.escape(text), line, re.I)


def reported(lines, addr, port, ia):
    return sum(1 for x in lines if token(addr, x) and token(str(port), x) and re.search("0x0*%x(?![0-9a-f])" % ia, x, re.I))


def receive(s, listener, op, ctx):
    """One datagram at the listener."""
    k = op[0]
    if k == "search":
        data = ref.search_res(*op[1], tail=bytes.fromhex(op[2]))
    elif k == "other":
        data = ref.ip(op[1], bytes.fromhex(op[2]))
    elif k == "tunnel":
        data = [ref.tun_req(op[1], op[2], ref.cemi(ref.IND, ref.ldata(0xBC, 0xE0, 0x1203, 7, b"\x81"))), ref.tun_ack(op[1], op[2], 0),
                ref.connect_res(op[1], 0, "10.0.0.1", 3671, 0x1101), ref.connect_res(op[1], 0x24), ref.connstate_res(op[1], 0), ref.disc_res(op[1], 0),
                ref.tun_req(op[1], 0, ref.cemi(ref.REQ, ref.ldata(0xBC, 0xE0, 0x1203, 7, b"\x81")))][op[3] % 7]
    elif k == "cut":
        data = ref.search_res(*op[1])
        data = data[:op[2] % len(data)]
    else:
        data = bytes.fromhex(op[1])
    s.log.lines.clear()
    sender = (op[-1], 50001)
    if k in ("cut", "junk"):
        attempt(listener.datagram_received, data, sender)
    else:
        call("receiving %s" % data.hex(), listener.datagram_received, data, sender)
    lines = [x for x in s.log.lines if data.hex() not in x.lower()]
    if k == "search":
        addr, port, medium, status, ia = op[1]
        if not reported(lines, addr, port, ia):
            r = attempt(sut().decode_msg, make_state("ip", None, None), to_msg("ip", data))
            early = medium << 8 | status
            if reported(lines, addr, port, early):
                ctx.finding("search-ia-c25", "the gateway %s:%d with individual address %#x is reported with %#x, the two octets before it" % (addr, port, ia, early))
                ctx.label("individual address read two octets early")
            else:
                raise Violation("search response %s of %s:%d (%#x) reported as %r" % (data.hex(), addr, port, ia, lines))
    else:
        require(not any("SearchRes" in x for x in lines) or k in ("cut", "junk"), "%s reported as %r", data.hex(), lines)
    ctx.label(k)


def check(case, ctx):
    client = module()
    local = (case["addr"], case["port"])
    with Stubs() as s:

        async def main():
            if case["listen"]:
                transport, listener = await client.listen_discovery_responses(*local)
                eq("endpoints of the listener", [(t.local, t.remote) for t in s.loop.endpoints], [(local, None)])
                require(listener is s.loop.endpoints[0].protocol and transport is s.loop.endpoints[0], "returned %r", (transport, listener))
            else:
                transport, listener = await s.loop.create_datagram_endpoint(client.Listen, local_addr=local)
            eq("datagrams sent by the listener", s.sent, [])
            n = 0
            request = None
            for i, op in enumerate(case["ops"]):
                if i == case["request_at"]:
                    t, request = await client.send_discovery_request(*local)
                    eq("endpoints opened for the request", len(s.loop.endpoints), 2)
                    eq("destinations of the request", [tuple(a or ()) for d, a in s.sent], [GROUP])
                    eq("search request", s.sent[0][0].hex(), ref.search_req(*local).hex())
                if op[0] == "pass":
                    await asyncio.sleep(op[1])
                    continue
                receive(s, listener, op, ctx)
                n += op[0] == "search"
                if request is not None:
                    call("a datagram at the requesting endpoint", request.datagram_received, bytes.fromhex(case["noise"]), ("192.0.2.77", 3671))
                    if op[0] == "junk":
                        call("a network error", request.error_received, OSError(113, "no route"))
                        call("a network error", listener.error_received, OSError(113, "no route"))
            await asyncio.sleep(5)
            eq("datagrams sent in all", len(s.sent), 0 if request is None else 1)
            return n

        n = s.loop.drive(main())
        for e in s.loop.errors:
            raise Violation("the event loop reports %r" % (e,))
    ctx.nontrivial(n > 1 and len(case["ops"]) > n)


def check_program(case, ctx):
    """The module run as a program."""
    addr = case["addr"]
    path = module().__file__
    with Stubs() as s:
        argv, sys.argv = sys.argv, [path, addr]
        asyncio.set_event_loop_policy(Policy(s.loop))
        asyncio.set_event_loop(s.loop)
        out, sys.stdout = sys.stdout, type("Null", (), {"write": lambda *a: None, "flush": lambda *a: None})()
        handlers = logging.getLogger().handlers[:]
        try:
            ok, e = attempt(runpy.run_path, path, run_name="__main__")
        finally:
            sys.argv, sys.stdout = argv, out
            logging.getLogger().handlers[:] = handlers
        eq("datagrams sent by the program (%s)" % (e if not ok else "no error",), [(d.hex(), tuple(a or ())) for d, a in s.sent],
           [(ref.search_req(addr, 5544).hex(), GROUP)])
        require(any(t.local == (addr, 5544) for t in s.loop.endpoints), "the program listens on %r", [t.local for t in s.loop.endpoints])
    ctx.nontrivial(True)


def addresses():
    for a in ("127.0.0.1", "172.31.10.111", "10.0.0.254", "192.168.1.1", "203.0.113.200"):
        yield {"addr": a}


def cases():
    b, a, p, w = gen.byte, gen.ipv4, gen.port, gen.word
    search = st.tuples(a, p, b, b, w).map(list)
    sender = st.sampled_from(["203.0.113.9", "203.0.113.10"])
    op = gen.weighted(
        (6, st.tuples(st.just("search"), search, gen.long_hexes(0, 90, 1400), sender)),
        (2, st.tuples(st.just("other"), st.sampled_from([0x0201, 0x0203, 0x0204, 0x0205, 0x0207, 0x0209, 0x020B, 0x020C, 0x0310, 0x0530, 0x0532, 0x0740, 0x0950]),
                      gen.hexes(0, 40), sender)),
        (2, st.tuples(st.just("tunnel"), b, b, st.integers(0, 6), sender)),
        (1, st.tuples(st.just("cut"), search, st.integers(0, 20), sender)),
        (1, st.tuples(st.just("pass"), gen.PASS)), (1, st.tuples(st.just("junk"), gen.hexes(0, 20), sender))).map(list)
    return st.fixed_dictionaries({"addr": a, "port": p, "listen": st.booleans(), "request_at": st.integers(0, 12), "noise": gen.hexes(0, 40),
                                  "ops": gen.some(op, 2, 10)})


SUBS = [Sub("listener", check, "more than one search response and a datagram of another kind", cases, quick=1600),
        Sub("program", check_program, "all", cases=addresses)]
