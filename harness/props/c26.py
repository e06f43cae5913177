import atexit
import os
import re
import resource
import select
import shutil
import signal
import socket
import struct
import subprocess
import tempfile
import time
import tty

from hypothesis import strategies as st

import core
from core import Sub, Violation, require, monotonic

ID = "C26"
ASSUME = ["The device is a pseudo terminal in raw mode, the clients are loopback TCP connections, and the daemon is compiled with the address and bounds sanitizers",
          "Up to 64 clients are served; a further one is either served like the others or its connection is closed.",
          "A packet reaches the device as 56 octets, padded behind the octets of the line.",
          "The daemon's timers and clock run a thousand times as fast (in one case of twelve it is left idle for minutes of its time).",
          "A line end is a newline. What an empty line and a hexadecimal line of more than 112 digits cause is not stated; only that everything after them works.",
          "A disconnection at the moment of a write is produced by shutting the socket down just before the daemon's own write; the write is the real one.",
          "A full send buffer may also take part of a line from a write that must not wait (done by shortening the write); that client may be disconnected for it, but gets no damaged line."]
WAIT_S = 20  # for things that must happen; they take well under a millisecond
P = 56
_exe = None


def build():
    """The daemon of the current tree, compiled once per worker."""
    global _exe
    if _exe is None:
        tmp = os.environ.get("VH_TMP")
        if tmp:
            d = tempfile.mkdtemp(dir=tmp)
        else:
            d = tempfile.mkdtemp(prefix="vh26-")
            atexit.register(shutil.rmtree, d, True)
        exe = os.path.join(d, "daemon")
        cmd = ["gcc", "-w", "-g", "-O1", "-fsanitize=address,bounds", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
               "-Wl,--wrap=write,--wrap=send,--wrap=read,--wrap=accept,--wrap=select,--wrap=poll,--wrap=setsockopt,--wrap=clock_gettime,--wrap=time,--wrap=gettimeofday,--wrap=alarm,--wrap=sleep", "-o", exe, os.path.join(core.REPO, "daemon", "usbhid.c"), os.path.join(core.HERE, "shim26.c")]
        p = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise RuntimeError("the daemon does not compile: %s" % p.stdout.decode("utf8", "replace")[-2000:])
        _exe = exe
    return _exe


def child():
    signal.signal(signal.SIGPIPE, signal.SIG_DFL)
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (hard, hard))  # the sanitizer reserves terabytes


class Daemon:
    executable = staticmethod(build)

    def __init__(self, gone=(), short=False, sndbuf="", refuse=(), cut=()):
        exe = self.executable()
        self.master, self.slave = os.openpty()
        tty.setraw(self.slave)
        self.taken, self.tell = os.pipe()
        self.err = tempfile.TemporaryFile(dir=os.path.dirname(exe))
        self.clients = {}
        self.lines = {}  # what each client received
        self.dev = b""
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99", VH_GONE=",".join(map(str, gone)), VH_TAKEN=str(self.tell), VH_SNDBUF=str(sndbuf), VH_REFUSE=",".join(map(str, refuse)), VH_CUT=",".join(map(str, cut)))
        for attempt in range(20):
            hold = socket.socket()
            hold.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            hold.bind(("127.0.0.1", 0))  # bound but not listening: nobody else gets the port
            self.port = hold.getsockname()[1]
            if attempt > 5:
                hold.close()
            args = ["-d", os.ttyname(self.slave), "-p", str(self.port)] if short else ["--dev-hidraw", os.ttyname(self.slave), "--port", str(self.port)]
            self.proc = subprocess.Popen([exe] + args, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=self.err, env=env,
                                         pass_fds=(self.tell,), preexec_fn=child)
            self.hold = hold
            t0 = monotonic()
            while self.proc.poll() is None and monotonic() - t0 < WAIT_S:
                try:
                    s = socket.create_connection(("127.0.0.1", self.port), WAIT_S)
                except OSError:
                    time.sleep(0.002)
                    continue
                if s.getsockname() == s.getpeername():  # connected to itself
                    s.close()
                    continue
                self.first = s
                return
            if self.proc.poll() is None:
                self.stop()
                raise Violation("the daemon does not listen on the port it is given")
            hold.close()
            if "in use" not in self.stderr():
                break
        self.alive("at the start")
        raise RuntimeError("no port")

    def stderr(self):
        self.err.seek(0)
        return self.err.read().decode("utf8", "replace")

    def alive(self, what):
        if self.proc.poll() is not None:
            e = self.stderr()
            m = re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error[^\n]*)", e)
            raise Violation("the daemon ended with %s %s: %s" % (self.proc.returncode, what, m.group(1) if m else e[-300:]))

    def take(self, timeout):
        """Reads whatever the device and the clients get; False when nothing came."""
        fds = {s.fileno(): k for k, s in self.clients.items()}
        poll = select.poll()
        for f in [self.master] + list(fds):
            poll.register(f, select.POLLIN)
        ready = poll.poll(timeout * 1000)
        for fd, _ in ready:
            if fd == self.master:
                self.dev += os.read(self.master, 4096)
            else:
                k = fds[fd]
                f = self.clients[k]
                try:
                    d = f.recv(65536)
                    f.setsockopt(socket.IPPROTO_TCP, socket.TCP_QUICKACK, 1)
                except OSError:
                    d = b""
                if d:
                    self.lines[k] += d
                else:
                    self.lost.add(k)
                    f.close()
                    del self.clients[k]
        return bool(ready)

    lost = set()

    def until(self, cond, what):
        t0 = monotonic()
        while not cond():
            if not self.take(0.05):
                self.alive(what)
                if monotonic() - t0 > WAIT_S:
                    return False
        return True

    def connect(self, k):
        s = self.first
        self.first = None
        if s is None:
            try:
                s = socket.create_connection(("127.0.0.1", self.port), WAIT_S)
            except OSError as e:
                self.alive("before a connection")
                raise Violation("no connection: %s" % e)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.clients[k] = s
        self.lines[k] = b""
        return s

    def send(self, k, data):
        try:
            self.clients[k].sendall(data)
        except OSError as e:
            self.alive("when a client sends")
            self.lost.add(k)
            self.clients.pop(k).close()
            raise Violation("client %d was disconnected: %s" % (k, e))

    def packet(self, what, k=None):
        had = k in self.clients
        if not self.until(lambda: len(self.dev) >= P or had and k not in self.clients, what):
            raise Violation("no packet %s; %d octets at the device" % (what, len(self.dev)))
        if len(self.dev) < P:
            raise Violation("client %d was disconnected %s" % (k, what))
        p, self.dev = self.dev[:P], self.dev[P:]
        return p

    def stop(self):
        for s in list(self.clients.values()) + [self.first if hasattr(self, "first") else None]:
            if s is not None:
                s.close()
        if self.proc.poll() is None:
            self.proc.kill()
        self.proc.wait()
        for fd in (self.master, self.slave, self.taken, self.tell):
            os.close(fd)
        self.hold.close()
        self.err.close()


HEX = re.compile(rb"[0-9a-fA-F]*\Z")


class Session:
    def __init__(self, case, ctx):
        self.ctx = ctx
        self.d = Daemon(case["gone"], case["short"], case.get("sndbuf", ""), case.get("refuse", ()), case.get("cut", ()))
        self.refused = len(case.get("refuse", ()))
        self.stalled = []
        self.d.lost = set()
        self.gone = len(case["gone"]) + len(case.get("cut", ()))
        self.partial = {}
        self.serial = 0
        self.n = {"packets": 0, "lines": 0, "bad": 0, "closed": 0}

    def marker(self):
        self.serial += 1
        return b"\xa5\x5a" + struct.pack(">I", self.serial) + b"\xee"

    def line(self, k, text):
        """Client k completes a line; what must reach the device."""
        d = self.d
        full = self.partial.pop(k, b"") + text
        d.send(k, text + b"\n")
        what = "for the line %r of client %d" % (full[:130], k)
        valid = HEX.match(full) is not None and len(full) % 2 == 0
        mark = self.marker()
        d.send(k, mark.hex().encode() + b"\n")
        if valid and 0 < len(full) <= 2 * P:
            octets = bytes.fromhex(full.decode())
            p = d.packet(what, k)
            if p[:len(octets)] != octets:
                raise Violation("packet %s %s" % (p.hex(), what))
            self.n["lines"] += 1
        elif HEX.match(full) is None or len(full) % 2:
            self.n["bad"] += 1
        else:  # empty or too long: not stated
            for _ in range(200):
                p = d.packet(what + " and the next one", k)
                if p.startswith(mark):
                    return
        p = d.packet("for the line after %r" % full[:130], k)
        if p[:len(mark)] != mark:
            raise Violation("packet %s instead of the next line's %s after %s" % (p.hex(), mark.hex(), what))

    def device(self, data):
        d = self.d
        before = {k: len(d.lines[k]) for k in d.clients}
        while select.select([d.taken], [], [], 0)[0]:
            os.read(d.taken, 4096)
        os.write(d.master, data)
        want = data.hex().encode() + b"\n"
        if not before:  # a client coming next must not see it: wait until the daemon has taken it
            if not select.select([d.taken], [], [], 1)[0]:  # not seen, as it was read in some other way
                self.ctx.label("not seen taken")
        ok = d.until(lambda: all(len(d.lines[k]) >= before[k] + len(want) for k in before if k in d.clients), "after a device packet")
        for k in before:
            got = d.lines[k][before[k]:]
            if k not in d.clients:
                self.missing(k)
            elif got != want:
                raise Violation("client %d received %r for the packet %s" % (k, got, data.hex()))
        self.n["packets"] += 1

    def missing(self, k):
        """A client lost its connection: only because of an injected disconnection."""
        self.gone -= 1
        self.partial.pop(k, None)
        self.ctx.label("disconnected at a write")
        if self.gone < 0:
            raise Violation("client %d was disconnected" % k)

    def op(self, op):
        k = op[0]
        d = self.d
        self.ctx.label(k)
        for lost in sorted(d.lost):
            d.lost.discard(lost)
        if k == "connect":
            if op[1] in d.clients or len(d.clients) + len(self.stalled) >= 64:
                return
            t0 = monotonic()
            while True:
                d.connect(op[1])
                try:
                    self.line(op[1], b"00" * (1 + op[1] % 3))  # also waits until it is served
                    break
                except Violation:  # it was to be refused, or the daemon may not have noticed earlier disconnections yet
                    if op[1] not in d.clients and self.refused > 0:
                        d.alive("when a connection fails")
                        self.refused -= 1
                        self.ctx.label("failed connection")
                    elif op[1] in d.clients or len(d.clients) + len(self.stalled) + self.n["closed"] < 64 or monotonic() - t0 > WAIT_S:
                        raise
                    d.lost.discard(op[1])
        elif k == "many":
            for i in range(op[1]):
                self.op(["connect", 100 + i])
            for i in range(op[1]):
                if i % 3 != op[2]:
                    self.op(["close", 100 + i, i % 3])
        elif k == "crowd":
            self.crowd(op[1])
        elif k == "stall":  # this one sends a line and does not read
            if len(d.clients) + len(self.stalled) >= 64:
                return
            s = socket.socket()
            self.stalled.append(s)
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 2048)
            s.settimeout(WAIT_S)
            s.connect(("127.0.0.1", d.port))
            mark = self.marker()
            s.sendall(mark.hex().encode() + b"\n" + op[1].encode("latin1"))
            p = d.packet("of a client that will not read")
            require(p.startswith(mark), "packet %s instead of %s", p.hex(), mark.hex())
        elif k == "flood":
            for i in range(op[1]):
                self.device(bytes([0xF0, i & 255, i >> 8]) + bytes(op[2]))
        elif k == "unstall":
            if self.stalled:
                self.stalled.pop().close()
                self.n["closed"] += 1
        elif k == "turnover":
            for i in range(op[1]):
                self.op(["connect", 200])
                self.op(["close", 200, i % 3])
        elif k == "idle":  # its clock runs a thousand times as fast
            time.sleep(op[1])
        elif k == "device":
            self.device(bytes.fromhex(op[1]))
        else:
            if op[1] not in d.clients:
                if not d.clients:
                    return
                op = [op[0], sorted(d.clients)[op[1] % len(d.clients)]] + op[2:]
            c = op[1]
            if k == "line":
                self.line(c, op[2].encode("latin1"))
            elif k == "part":
                text = op[2].encode("latin1")
                self.partial[c] = self.partial.get(c, b"") + text
                d.send(c, text)
            elif k == "close":
                s = d.clients.pop(c)
                self.partial.pop(c, None)
                if op[2] == 1:
                    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                if op[2] == 2:
                    s.shutdown(socket.SHUT_WR)
                s.close()
                self.n["closed"] += 1

    def crowd(self, n):
        """n clients at a time, however many the daemon takes."""
        d = self.d
        before = set(d.clients)
        for k in range(1000, 1000 + n):
            if len(d.clients) < 64:
                self.op(["connect", k])
                continue
            try:
                d.connect(k)
                mark = self.marker()
                d.clients[k].sendall(mark.hex().encode() + b"\n")
            except (OSError, Violation):
                s = d.clients.pop(k, None)
                s and s.close()
                d.alive("at client %d of a crowd" % n)
                self.ctx.label("refused")
                continue
            if not d.until(lambda: k not in d.clients or len(d.dev) >= P, "at client %d of a crowd" % n):
                raise Violation("client %d of a crowd is neither served nor refused" % (k - 999))
            if k in d.clients:
                p = d.packet("of a crowd's client")
                if p[:len(mark)] != mark:
                    raise Violation("packet %s instead of %s" % (p.hex(), mark.hex()))
            else:
                self.ctx.label("refused")
        d.lost.clear()
        self.device(b"\x01\x13\x09")
        for k in sorted(set(d.clients) - before)[::2]:
            self.op(["close", k, 0])
        self.op(["connect", 900])
        self.device(b"\x01\x13\x0a")
        for k in sorted(set(d.clients) - before):
            self.op(["close", k, 1])

    def end(self):
        """Whoever is left is served, in both directions."""
        d = self.d
        if not d.clients:
            self.op(["connect", 300])
        for k in sorted(d.clients):
            self.line(k, b"Z") if k in self.partial else None
        for i in range(2):
            self.device(bytes([0xC0 + i, 7, 1]))
        for k in sorted(d.clients):
            self.line(k, b"0102aB")
        d.take(0)
        if d.dev:
            raise Violation("further octets at the device: %s" % d.dev.hex())
        d.alive("at the end")


def check(case, ctx):
    s = Session(case, ctx)
    try:
        for op in case["ops"]:
            s.op(op)
        s.end()
        e = s.d.stderr()
        require("AddressSanitizer" not in e and "runtime error" not in e, "%s", e[-500:])
    finally:
        s.d.stop()
        for x in s.stalled:
            x.close()
    for k, v in s.n.items():
        ctx.label("n " + k, v)
    ctx.nontrivial(s.n["lines"] > 0 and s.n["packets"] > 2 and s.n["bad"] + s.n["closed"] > 0)


def hexline():
    digits = st.sampled_from("0123456789abcdefABCDEF")
    n = st.one_of(st.integers(0, 20), st.integers(0, 56), st.sampled_from([1, 8, 55, 56]))
    return st.tuples(n, st.binary(min_size=56, max_size=56), st.booleans()).map(lambda t: (t[1][:t[0]].hex().upper() if t[2] else t[1][:t[0]].hex()))


@st.composite
def badline(draw):
    h = draw(hexline())
    kind = draw(st.integers(0, 4))
    if kind == 0:  # odd
        return h[:-1] if h else "a"
    at = draw(st.integers(0, len(h)))
    ch = draw(st.sampled_from(["g", "G", " ", "x", "0x", "+1", "-1", "\t", "zz", "\0", "\0\0", "\xff", "@", "`", ":", "/", " 1", "1 ", "%n", "%s"]))
    h = h[:at] + ch + h[at + (len(ch) if draw(st.booleans()) else 0):]
    if kind == 1 and len(h) % 2:
        h += "0"
    if kind == 2:
        h = h + "0123456789abcdef" * draw(st.sampled_from([1, 7, 8, 40, 300]))
    return h


@st.composite
def cases(draw):
    who = st.integers(0, 6)
    pkt = st.one_of(st.binary(min_size=1, max_size=8), st.binary(min_size=1, max_size=56), st.binary(min_size=56, max_size=56)).map(bytes.hex)
    over = st.sampled_from([113, 114, 115, 120, 200, 512, 513, 1024, 4096]).map(lambda n: ("0123456789abcdef" * 300)[:n])
    part = st.one_of(st.sampled_from(["0", "01", "012", "0102", "ab", "7", "zz", "ff" * 55]), hexline(), over)
    op = [(3, st.tuples(st.just("connect"), who)), (5, st.tuples(st.just("line"), who, hexline())), (4, st.tuples(st.just("line"), who, badline())),
          (1, st.tuples(st.just("line"), who, over)), (3, st.tuples(st.just("part"), who, part)),
          (6, st.tuples(st.just("device"), pkt)), (2, st.tuples(st.just("close"), who, st.integers(0, 2)))]
    ops = [["connect", 0], ["connect", 1]] + draw(st.lists(gen.weighted(*op).map(list), min_size=6, max_size=25))
    big = draw(st.integers(0, 11))
    if big == 0:
        ops.insert(draw(st.integers(2, len(ops))), ["many", draw(st.sampled_from([8, 30, 57])), draw(st.integers(0, 3))])
    elif big == 2:
        ops.insert(draw(st.integers(2, len(ops))), ["idle", draw(st.sampled_from([0.01, 0.15, 0.7]))])
    elif big == 1:
        ops.insert(draw(st.integers(2, len(ops))), ["turnover", draw(st.sampled_from([5, 70]))])
    gone = draw(st.one_of(st.just([]), st.lists(st.integers(1, 25), max_size=3, unique=True)))
    refuse = draw(st.one_of(st.just([]), st.lists(st.integers(1, 8), max_size=2, unique=True)))
    cut = draw(st.one_of(st.just([]), st.just([]), st.lists(st.integers(1, 25), max_size=2, unique=True)))
    return {"ops": ops, "gone": sorted(gone), "short": draw(st.booleans()), "refuse": refuse, "cut": cut}


@st.composite
def crowds(draw):
    c = draw(cases())
    c["gone"] = c["refuse"] = c["cut"] = []
    c["ops"] = c["ops"][:8] + [["crowd", draw(st.one_of(st.integers(60, 70), st.sampled_from([64, 65, 100, 1100])))]] + c["ops"][8:]
    return c


@st.composite
def stalls(draw):
    c = draw(cases())
    c["gone"], c["refuse"], c["cut"], c["sndbuf"] = [], [], [], 8192
    op = st.one_of(st.tuples(st.just("stall"), st.sampled_from(["", "0", "zz", "0102"])), st.tuples(st.just("flood"), st.sampled_from([10, 150, 330]), st.sampled_from([1, 53])),
                   st.just(["unstall"])).map(list)
    c["ops"] = c["ops"][:6] + [["stall", ""]] + draw(st.lists(op, max_size=3)) + [["flood", 330, 53]] + draw(st.lists(op, max_size=3)) + c["ops"][6:]
    return c


import gen  # noqa: E402

SUBS = [Sub("session", check, "a line and three packets relayed, and a bad line or a disconnection", cases, quick=480, confirm=8),
        Sub("crowd", check, "a line and three packets relayed, and a bad line or a disconnection", crowds, quick=40, confirm=8),
        Sub("stalled", check, "a line and three packets relayed, and a bad line or a disconnection", stalls, quick=32, confirm=8)]
