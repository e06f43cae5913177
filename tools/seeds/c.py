import importlib.util as _u
_s = _u.spec_from_file_location("a", "/verif/tools/seeds/a.py")
_a = _u.module_from_spec(_s)
_s.loader.exec_module(_a)
K, MK = "knx_stack/", _a.MK
SEEDS = []


def S(id, property, edits, demo, needs, breaks, raw=False):
    s = dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks)
    s["demo_c" if raw else "demo"] = demo
    SEEDS.append(s)


CL = MK + """
import socket, asyncio
from knx_stack.client import knxnet_ip as client
def hp(ip, port): return "0801" + socket.inet_aton(ip).hex() + "%04X" % port
def frame(service, body):
    return bytes.fromhex("0610%04X%04X" % (service, 6 + len(body) // 2) + body)
def conn(ch, status=0, ip="10.0.0.1", port=3671, ia=0x1101):
    return frame(0x0206, "%02X%02X" % (ch, status) + (hp(ip, port) + "0404%04X" % ia if not status else ""))
def req(ch, seq, body="2900BCE010020009010081"):
    return frame(0x0420, "04%02X%02X00" % (ch, seq) + body)
class T:
    def __init__(self): self.out = []
    def sendto(self, data, addr=None): self.out.append(bytes(data).hex())
st = mk(Medium.knxnet_ip, assoc=[(1, 9)], dpts={1: "DPT_Switch"})
msgs = [W.req.Msg(asap=ASAP(1), dpt=dp("DPT_Switch", 1)), W.req.Msg(asap=ASAP(1), dpt=dp("DPT_Switch", 0))]
c = client.Tunneling("127.0.0.1", 5544, "127.0.0.2", 3671, st, msgs)
t = T()
c.connection_made(t)
def rx(d):
    t.out.clear()
    try:
        c.datagram_received(d, ("127.0.0.2", 3671))
    except Exception:
        pass
    return list(t.out)
"""

S("c23-ack-counter", "C23",
  [(K + "client/knxnet_ip.py", "sequence_counter=res.sequence_counter, status=res.status", "sequence_counter=self._state.sequence_counter_remote,\n                        status=res.status,")],
  CL + """
rx(conn(5))
assert rx(req(5, 0)) == ["06100421000a04050000"]
assert rx(req(5, 0)) == ["06100421000a04050000"], t.out
""", "a repeated request (its acknowledgement was lost)", "the repeat is acknowledged with the next counter")

S("c23-reconnect-counter", "C23",
  [(K + "client/knxnet_ip.py", "self._state.sequence_counter_remote = 0\n", "self._state.sequence_counter_remote *= self.connected\n")],
  CL + """
rx(conn(5))
st.sequence_counter_remote = 7
rx(conn(6))
assert st.sequence_counter_remote == 0
""", "a second successful connect response after acknowledged requests", "the incoming counter does not restart on the new channel")

S("c23-status-shadow", "C23",
  [(K + "client/knxnet_ip.py", """                if res.status == knx_stack.knxnet_ip.ErrorCodes.E_NO_ERROR:
                    tunneling_msg""", """                if res is responses[0] and len(responses) > 1 or not res.status.value:
                    tunneling_msg""")],
  CL + """
rx(conn(5))
assert len(rx(req(5, 0))) == 1
assert len(rx(req(5, 0))) == 1
assert rx(req(5, 7)) == [], t.out
assert len(rx(req(5, 1))) == 1
""", "(equivalent unless a refused request is delivered)", "x")
SEEDS.pop()

USB = MK + """
import asyncio, threading, time
from knx_stack.client import usbhid
loop = asyncio.new_event_loop()
asyncio.set_event_loop(loop)
class Rec(datapointtypes.DPT_Brightness):
    got = []
    def __init__(self, *a):
        super().__init__(*a); Rec.got.append(self)
lines = []
async def handler(r, w):
    handler.w = w
    while True:
        l = await r.readline()
        if not l: break
        lines.append(l)
def session(feed, msgs=1, seconds=4):
    srv = loop.run_until_complete(asyncio.start_server(handler, "127.0.0.1", 0))
    port = srv.sockets[0].getsockname()[1]
    st = mk(assoc=[(1, 9)], dpts={1: "DPT_Brightness"})
    st2 = knx_stack.State(Medium.usb_hid, st.tb, GroupObjectTable({ASAP(1): Rec}))
    ms = [W.req.Msg(asap=ASAP(1), dpt=dp("DPT_Brightness", 0x30 + i)) for i in range(msgs)]
    c = usbhid.Client("127.0.0.1", port, st2, ms)
    async def go():
        await asyncio.sleep(0.3)
        for chunk in feed:
            handler.w.write(chunk)
            await handler.w.drain()
            await asyncio.sleep(0.3)
    loop.create_task(go())
    loop.call_later(seconds, loop.stop)
    c.run()
    return [d.value for d in Rec.got], lines
def line(v):
    return str(usb("2900BCE010020009" "02" "0080" "%02X" % v)).encode() + b"\\n"
"""

S("c24-coalesced-lines", "C24",
  [(K + "client/usbhid.py", "msg = await self.rsock.readline()", "msg = await self.rsock.read(256)\n        msg = msg[: msg.find(b\"\\n\") + 1] or msg")],
  USB + """
got, _ = session([line(1) + line(2), line(3)])
assert got == [1, 2, 3], got
""", "two lines in one segment", "only the first of the lines arriving together is decoded")

S("c24-last-digit", "C24",
  [(K + "client/usbhid.py", "return msg.decode()[0:-1]", "return msg.decode().strip(\"0\\n\").ljust(112, \"0\")")],
  USB + """
got, _ = session([line(0x10), line(7)])
assert got == [0x10, 7], got
""", "every line (leading zeros are lost)", "x")
SEEDS.pop()

S("c24-upper-case", "C24",
  [(K + "client/usbhid.py", "return msg.decode()[0:-1]", "return msg.decode().rstrip().rstrip(\"f\")")],
  USB + """
got, _ = session([line(0x10).lower(), line(0xEF).lower(), line(7)])
assert got == [0x10, 0xEF, 7], got
""", "a lower-case line ending with f", "such a line is not decoded")

S("c24-same-frame-twice", "C24",
  [(K + "client/usbhid.py", "        return msg.decode()[0:-1]", """        last, self._last = getattr(self, "_last", None), msg
        return "" if msg == last else msg.decode()[0:-1]""")],
  USB + """
got, _ = session([line(0x10), line(0x10), line(7)])
assert got == [0x10, 0x10, 7], got
""", "the same telegram twice in a row", "the second of two equal lines is not delivered")

DISC = """
import socket, asyncio
from knx_stack.client import knxnet_ip_discovery as client
loop = asyncio.new_event_loop()
asyncio.set_event_loop(loop)
def hp(ip, port): return "0801" + socket.inet_aton(ip).hex() + "%04X" % port
def search(ip, port, ia, tail=""):
    body = hp(ip, port) + "3601" + "02" + "00" + "%04X" % ia + tail
    return bytes.fromhex("06100202%04X" % (6 + len(body) // 2) + body)
class H(logging.Handler):
    lines = []
    def emit(self, r): self.lines.append(r.getMessage())
logging.disable(0)
logging.getLogger().addHandler(H())
logging.getLogger().setLevel(logging.INFO)
class T:
    def __init__(self, name=("0.0.0.0", 3671)): self.out = []; self.name = name
    def sendto(self, data, addr=None): self.out.append((bytes(data).hex(), addr))
    def get_extra_info(self, k, d=None): return self.name if k == "sockname" else d
"""

S("c25-bound-endpoint", "C25",
  [(K + "client/knxnet_ip_discovery.py", "addr=self._local_addr, port=self._local_port\n", "addr=self._local_addr,\n                port=transport.get_extra_info(\"sockname\", (None, self._local_port))[1]\n                or self._local_port,\n")],
  DISC + """
async def main():
    r = client.Request("127.0.0.1", 5544)
    t = T()
    r.connection_made(t)
    (d, a), = t.out
    assert d.upper() == "06100201000E" + hp("127.0.0.1", 5544).upper(), d
loop.run_until_complete(main())
""", "a request whose socket is bound to the discovery port (every real one)", "the search request names the multicast port instead of the listener's")

S("c25-one-per-gateway", "C25",
  [(K + "client/knxnet_ip_discovery.py", """        self.logger.info("read decoded: {}".format(str(search_response)))""", """        if addr not in getattr(self, "_seen", ()):
            self._seen = (addr,)
            self.logger.info("read decoded: {}".format(str(search_response)))""")],
  DISC + """
l = client.Listen()
l.connection_made(T())
l.datagram_received(search("10.0.0.1", 3671, 0x1101), ("10.0.0.1", 3671))
H.lines.clear()
l.datagram_received(search("10.0.0.1", 3672, 0x1102), ("10.0.0.1", 3671))
assert any("10.0.0.1" in x and "3672" in x for x in H.lines), H.lines
""", "two responses from one sender (two interfaces of one device)", "the second response is not reported")

C = """import os, sys, subprocess, tempfile, socket, time, tty, shutil, select, struct, signal
d = tempfile.mkdtemp()
exe = os.path.join(d, "daemon")
def fail(m):
    print(m); done(1)
def done(rc):
    try: p.kill(); p.wait()
    except NameError: pass
    shutil.rmtree(d, True)
    sys.exit(rc)
r = subprocess.run(["gcc", "-w", "-g", "-O1", "-fsanitize=address,bounds", "-fno-sanitize-recover=all", "-o", exe, "daemon/usbhid.c"])
assert r.returncode == 0
m, s = os.openpty()
tty.setraw(s)
k = socket.socket(); k.bind(("127.0.0.1", 0)); port = k.getsockname()[1]; k.close()
p = subprocess.Popen([exe, "--dev-hidraw", os.ttyname(s), "--port", str(port)], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
def connect():
    for i in range(200):
        try:
            c = socket.create_connection(("127.0.0.1", port), 5); break
        except OSError: time.sleep(0.05)
    else: fail("no connection")
    c.settimeout(5)
    return c
def packet(t=5):
    b = b""
    while len(b) < 56:
        if not select.select([m], [], [], t)[0]: return b or None
        b += os.read(m, 56 - len(b))
    return b
def send(c, text): c.sendall(text + b"\\n")
def served(c, x=b"0102"):
    send(c, x); q = packet()
    if q is None or not q.startswith(bytes.fromhex(x.decode())): fail("line %r gave %r" % (x, q))
def recv(c):
    b = b""
    while not b.endswith(b"\\n"):
        try: q = c.recv(1)
        except OSError as e: fail("client: %r after %r" % (e, b))
        if not q: fail("client closed")
        b += q
    return b
def dev(data): os.write(m, data)
"""

S("c26-stale-slot", "C26",
  [("daemon/usbhid.c", """							if (client_fds[j] == i) {
								client_fds[j] = -1;
								break;
							}""", """							if (client_fds[j] == i && client_fds[j + 1] == -1) {
								client_fds[j] = -1;
								break;
							}""")],
  C + """
a = connect(); served(a)
b = connect(); served(b)
a.close(); time.sleep(0.3)
c = connect(); served(c)
dev(b"\\x01\\x13\\x07")
assert recv(c) == b"011307\\n"
c.settimeout(0.5)
try:
    x = c.recv(10)
except OSError:
    x = b""
if x: fail("again %r" % x)
done(0)
""", "a client other than the last disconnects and another one connects", "packets are sent twice to the new client", raw=True)

S("c26-client-shared-buffer", "C26",
  [("daemon/usbhid.c", "	char *buffer = lines[filedes];", "	char *buffer = lines[filedes % 8];")],
  C + """
cs = []
for i in range(9):
    c = connect(); served(c); cs.append(c)
for i in range(9):
    cs[i].sendall(b"%02x" % (0x10 + i))
    time.sleep(0.05)
for i in range(9):
    send(cs[i], b"ff"); q = packet()
    if q is None or q[:2] != bytes([0x10 + i, 0xff]): fail((i, q))
done(0)
""", "partial lines of two clients eight descriptors apart", "lines of different clients mix", raw=True)
SEEDS.pop()  # that line is one of the repairs'

S("c26-signed-octets", "C26",
  [("daemon/usbhid.c", "int write_to_client(int filedes, unsigned char *packet, int len);", "int write_to_client(int filedes, signed char *packet, int len);"),
   ("daemon/usbhid.c", "int write_to_client(int filedes, unsigned char *packet, int len) {", "int write_to_client(int filedes, signed char *packet, int len) {"),
   ("daemon/usbhid.c", """		sprintf(&buffer[i * 2], "%02x", packet[i]);
	}
	buffer[len""", """		snprintf(&buffer[i * 2], 3, "%02x", packet[i]);
	}
	buffer[len""")],
  C + """
a = connect(); served(a)
dev(b"\\x01\\x13\\x7f\\x80\\xff")
x = recv(a)
if x != b"01137f80ff\\n": fail(x)
done(0)
""", "a packet with an octet above 7f", "the octet reaches the client as ff", raw=True)

S("c26-short-write", "C26",
  [("daemon/usbhid.c", "for (i = 0; i < res; i++) printf", "for (i = 0; i < res || (i % 2 && i < KNXHIDPACKETLEN && !(packet[i] = 0)); i++) printf")],
  "", "", "")
SEEDS.pop()

S("c26-trailing-zeros", "C26",
  [("daemon/usbhid.c", """	for (i = 0; i < len; i++) {
		sprintf(&buffer[i * 2], "%02x", packet[i]);""", """	while (len > 8 && packet[len - 1] == 0)
		len--;
	for (i = 0; i < len; i++) {
		sprintf(&buffer[i * 2], "%02x", packet[i]);""")],
  C + """
a = connect(); served(a)
d1 = bytes([1, 0x13, 9] + [5] * 8 + [0] * 4)
dev(d1)
x = recv(a)
if x != d1.hex().encode() + b"\\n": fail(x)
done(0)
""", "a packet ending with zeros", "the trailing octets of the packet are not sent", raw=True)
SEEDS.pop()  # insertion only
