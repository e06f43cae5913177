K = "knx_stack/"
SEEDS = [
    {"id": "c05-shared-value", "property": "C05",
     "needs": "two associated access points of one datapoint type, and a program that changes the value of one message",
     "breaks": "a telegram's datapoint is built once per type, so access points of one type receive the same object",
     "edits": [(K+"decode/layer/application/a_group_value.py", "    associations = []\n", "    associations = []\n    values = {}\n"),
               (K+"decode/layer/application/a_group_value.py", "        data = dpt()\n", "        data = values.setdefault(dpt, None) or dpt()\n        values[dpt] = data\n")],
     "demo": '''
at = AddressTable(Address(0x1101), [], 255)
t = AssociationTable(at, [])
t.associate(ASAP(1), [GroupAddress(0x0A0B)])
t.associate(ASAP(2), [GroupAddress(0x0A0B)])
s = State(Medium.usb_hid, t, GroupObjectTable({ASAP(1): datapointtypes.DPT_Switch, ASAP(2): datapointtypes.DPT_Switch}))
s.ldata = knx_stack.layer.L_Data.make_from(knx_stack.Msg.make_from_str("BCE012030A0B010080"))[0]
from knx_stack.decode.layer.application.a_group_value import decode
a, b = decode(s, knx_stack.Msg.make_from_str("01"))
a.dpt.value = 0
assert (a.dpt.value, b.dpt.value) == (0, 1), (a, b)
'''},
    {"id": "c03-tsaps-octet", "property": "C03",
     "needs": "an address table with more than 255 group addresses",
     "breaks": "the table lists at most 256 access points, the rest of its addresses can be neither associated nor received",
     "edits": [(K+"definition/layer/network/address_table.py", "range(0, (len(self._group_addresses) + 1))", "range(0, min(len(self._group_addresses) + 1, 256))")],
     "demo": '''
t = AddressTable(Address(0x1101), [], 1000)
for i in range(400):
    t.add(GroupAddress(free_style=0x0800 + i))
assert t.tsaps == list(range(401)), len(t.tsaps)
'''},
    {"id": "c16-total-length", "property": "C16",
     "needs": "a request of more than 255 octets (a property write with some 235 octets of data)",
     "breaks": "the total length of a tunnelling request is written with its low octet only",
     "edits": [(K+"encode/knxnet_ip/tunneling/req.py", '''        Short(
            value=connection_header.CONNECTION_HEADER_LEN + HEADER_SIZE_10 + len(msg)
        ).octects''', '''        [
            Octect(value=0),
            Octect(value=connection_header.CONNECTION_HEADER_LEN + HEADER_SIZE_10 + len(msg)),
        ]'''), (K+"encode/knxnet_ip/tunneling/req.py", "from knx_stack.msg import Short\n", "from knx_stack.msg import Octect\n"),
            (K+"encode/knxnet_ip/tunneling/req.py", "NetMsg(Short(value=Services.TUNNELING_REQUEST.value).octects)", "NetMsg([Octect(value=0x04), Octect(value=0x20)])")],
     "demo": '''
at = AddressTable(Address(0x1101), [], 255)
s = knx_stack.knxnet_ip.State(Medium.knxnet_ip, AssociationTable(at, []), GroupObjectTable({}))
W = knx_stack.layer.application.a_property_value_write.req.Msg
for n in (4, 245):
    m = knx_stack.encode_msg(s, W(asap=ASAP(0), object_index=0, property_id=201, number_of_elements=1, start_index=1, data="5A" * n))
    b = bytes.fromhex(str(m))
    assert int.from_bytes(b[4:6], "big") == len(b), (n, len(b), str(m)[:12])
'''},
    {"id": "c25-long-response", "property": "C25",
     "needs": "a search response of more than 255 octets (a gateway with many services or manufacturer data)",
     "breaks": "the response's total length is read from its low octet and compared with what arrived, so long responses are dropped",
     "edits": [(K+"decode/knxnet_ip/core/search/res.py", "    (size, body) = msg.short()\n", "    (_, body) = msg.octect()\n    (size, body) = body.octect()\n    if size.value != len(msg) + 4:\n        return result\n")],
     "demo": '''
s = knx_stack.knxnet_ip.State(Medium.knxnet_ip, None, None)
for n in (0, 100, 300):
    b = bytes.fromhex("0801ac1f0afa0e57") + bytes([54, 1, 2, 0, 0x11, 0x05]) + bytes(48) + bytes(n)
    b = bytes.fromhex("06100202") + (len(b) + 6).to_bytes(2, "big") + b
    r = knx_stack.decode_msg(s, knx_stack.Msg.make_from_str(b.hex()))
    assert len(r) == 1, (n, r)
'''},
    {"id": "c24-line-limit", "property": "C24",
     "needs": "a line of more than 128 characters (a report with padding, or a long property telegram)",
     "breaks": "the connection's line buffer is sized for one 64 octet report exactly, so longer lines are skipped",
     "edits": [(K+"client/usbhid.py", "asyncio.open_connection(self._ip, self._port)", "asyncio.open_connection(self._ip, self._port, limit=128)")],
     "demo": '''
import asyncio, threading, socket
srv = socket.socket()
srv.bind(("127.0.0.1", 0))
srv.listen(1)
def serve():
    c, _ = srv.accept()
    line = "0113150008000B0103000029009CE012030A0B010081"
    c.sendall(("ff" * 200 + "\\n").encode())
    c.sendall((line + "00" * 60 + "\\n").encode())
    threading.Event().wait(2.5)
    c.close()
threading.Thread(target=serve, daemon=True).start()
got = []
class D(datapointtypes.DPT_Switch):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        got.append(self)
at = AddressTable(Address(0x1101), [], 255)
t = AssociationTable(at, [])
t.associate(ASAP(1), [GroupAddress(0x0A0B)])
s = State(Medium.usb_hid, t, GroupObjectTable({ASAP(1): D}))
loop = asyncio.new_event_loop()
asyncio.set_event_loop(loop)
from knx_stack.client.usbhid import Client
c = Client("127.0.0.1", srv.getsockname()[1], s, [])
loop.call_later(2, loop.stop)
loop.run_forever()
loop.run_until_complete(asyncio.sleep(1))
assert len(got) == 1, got
os._exit(0)
'''},
    {"id": "c16-late-ack", "property": "C16",
     "needs": "an acknowledgement that arrives more than a second after the last request was encoded",
     "breaks": "a late acknowledgement for the current counter no longer advances it",
     "edits": [(K+"encode/knxnet_ip/tunneling/req.py", "    final_msg = header.encode(state, new_msg)\n", "    state.sent_at = time.monotonic()\n    final_msg = header.encode(state, new_msg)\n"),
               (K+"encode/knxnet_ip/tunneling/req.py", "import logging\n", "import logging\nimport time\n"),
               (K+"decode/knxnet_ip/tunneling/ack.py", "import logging\n", "import logging\nimport time\n"),
               (K+"decode/knxnet_ip/tunneling/ack.py", "    if state.sequence_counter_local == sequence_counter:\n",
                "    if (\n        state.sequence_counter_local == sequence_counter\n        and time.monotonic() - getattr(state, \"sent_at\", time.monotonic()) < 1\n    ):\n")],
     "demo": """
import time
at = AddressTable(Address(0x1101), [], 255)
t = AssociationTable(at, [])
t.associate(ASAP(1), [GroupAddress(0x0A0B)])
s = knx_stack.knxnet_ip.State(Medium.knxnet_ip, t, GroupObjectTable({}))
M = knx_stack.layer.application.a_group_value_read.req.Msg(asap=ASAP(1))
for wait in (0, 1.2):
    n = s.sequence_counter_local
    knx_stack.encode_msg(s, M)
    time.sleep(wait)
    knx_stack.decode_msg(s, knx_stack.knxnet_ip.Msg.make_from_str("06100421000A0400%02X00" % n))
    assert s.sequence_counter_local == n + 1, (wait, n)
"""},
    {"id": "c15-late-repeat", "property": "C15",
     "needs": "a request repeated more than ten seconds after it was acknowledged",
     "breaks": "the repeat is reported as a sequence error, so it is not acknowledged",
     "edits": [(K+"encode/knxnet_ip/tunneling/ack.py", "import logging\n", "import logging\nimport time\n"),
               (K+"encode/knxnet_ip/tunneling/ack.py", "    final_msg = header.encode(", "    state.acked_at = time.time()\n    final_msg = header.encode("),
               (K+"decode/knxnet_ip/tunneling/req.py", "import logging\n", "import logging\nimport time\n"),
               (K+"decode/knxnet_ip/tunneling/req.py", "        if state.sequence_counter_remote == (sequence_counter + 1) % 256:\n", "        if (\n            state.sequence_counter_remote == (sequence_counter + 1) % 256\n            and time.time() - getattr(state, \"acked_at\", time.time()) < 10\n        ):\n"),
               (K+"decode/knxnet_ip/tunneling/req.py", "    (size, body) = msg.short()\n", "    (_, body) = msg.short()\n")],
     "demo": """
import time
real = time.time
at = AddressTable(Address(0x1101), [], 255)
s = knx_stack.knxnet_ip.State(Medium.knxnet_ip, AssociationTable(at, []), GroupObjectTable({}))
q = knx_stack.knxnet_ip.Msg.make_from_str("061004200015044C00002900BCE012030A0B010081")
def status():
    r = [m for m in knx_stack.decode_msg(s, q) if hasattr(m, "sequence_counter")]
    return int(r[0].status)
assert status() == 0
A = knx_stack.knxnet_ip.tunneling.ack.Msg(sequence_counter=0, status=knx_stack.knxnet_ip.ErrorCodes.E_NO_ERROR)
knx_stack.encode_msg(s, A)
assert status() == 0
time.time = lambda: real() + 60
assert status() == 0
"""},
    {"id": "c23-idle-session", "property": "C23",
     "needs": "no datagram from the gateway for more than two minutes",
     "breaks": "the session counts as lost: the client no longer reports itself connected and answers nothing until a connect response comes",
     "edits": [(K+"client/knxnet_ip.py", "    def datagram_received(self, data, addr):\n", "    def datagram_received(self, data, addr):\n        now = asyncio.get_event_loop().time()\n        if self.connected and now - getattr(self, \"_heard\", now) > 120:\n            self.connected = False\n        self._heard = now\n"),
               (K+"client/knxnet_ip.py", "                if res.status == knx_stack.knxnet_ip.ErrorCodes.E_NO_ERROR:\n", "                if (\n                    self.connected\n                    and res.status == knx_stack.knxnet_ip.ErrorCodes.E_NO_ERROR\n                ):\n")],
     "demo": """
import asyncio
class Loop(asyncio.SelectorEventLoop):
    ahead = 0
    def time(self):
        return super().time() + self.ahead
loop = Loop()
asyncio.set_event_loop(loop)
from knx_stack.client.knxnet_ip import Tunneling
at = AddressTable(Address(0x1101), [], 255)
s = knx_stack.knxnet_ip.State(Medium.knxnet_ip, AssociationTable(at, []), GroupObjectTable({}))
sent = []
class T:
    def sendto(self, data, addr=None):
        sent.append(bytes(data))
async def main():
    p = Tunneling("10.0.0.1", 5544, "10.0.0.2", 3671, s, [])
    p.connection_made(T())
    p.datagram_received(bytes.fromhex("0610020600144C0008010A0000020E5704041101"), ("10.0.0.2", 3671))
    assert p.connected
    for i, wait in enumerate((0, 10, 1000)):
        loop.ahead += wait
        n = len(sent)
        p.datagram_received(bytes.fromhex("061004200015044C%02X002900BCE012030A0B010081" % i), ("10.0.0.2", 3671))
        assert p.connected and len(sent) == n + 1, (wait, sent[n:])
loop.run_until_complete(main())
"""},
    {"id": "c23-queue-bound", "property": "C23",
     "needs": "more than 64 messages given to one client",
     "breaks": "only the last 64 of them are kept and written",
     "edits": [(K+"client/knxnet_ip.py", "        self._msgs = msgs\n", "        self._msgs = deque(msgs, maxlen=64)\n"),
               (K+"client/knxnet_ip.py", "import asyncio\nimport logging\n", "import asyncio\nimport logging\nfrom collections import deque\n")],
     "demo": """
import asyncio
loop = asyncio.new_event_loop()
asyncio.set_event_loop(loop)
from knx_stack.client.knxnet_ip import Tunneling
at = AddressTable(Address(0x1101), [], 255)
t = AssociationTable(at, [])
t.associate(ASAP(1), [GroupAddress(0x0A0B)])
s = knx_stack.knxnet_ip.State(Medium.knxnet_ip, t, GroupObjectTable({ASAP(1): datapointtypes.DPT_Value_1_Ucount if hasattr(datapointtypes, "DPT_Value_1_Ucount") else datapointtypes.DPT_Switch}))
sent = []
class T:
    def sendto(self, data, addr=None):
        sent.append(bytes(data))
real = asyncio.sleep
asyncio.sleep = lambda t, *a: real(0)
M = knx_stack.layer.application.a_group_value_read.req.Msg(asap=ASAP(1))
p = Tunneling("10.0.0.1", 5544, "10.0.0.2", 3671, s, [M] * 70)
p.connection_made(T())
p.connected = True
del sent[:]
task = loop.create_task(p.writer())
task.add_done_callback(lambda x: loop.stop())
loop.run_forever()
assert len(sent) == 70, len(sent)
"""},
    {"id": "c20-additional-info", "property": "C20",
     "needs": "a telegram preceded by 128 or more octets of additional information",
     "breaks": "the additional information's length is taken modulo 128, so the telegram is read from its middle",
     "edits": [(K+"decode/cemi/msg_code.py", "body = Msg(body[additional_info_length.value :])", "body = Msg(body[additional_info_length.value & 0x7F :])")],
     "demo": """
at = AddressTable(Address(0x1101), [], 255)
t = AssociationTable(at, [])
t.associate(ASAP(1), [GroupAddress(0x0A0B)])
for n in (0, 100, 127, 128, 200):
    s = knx_stack.knxnet_ip.State(Medium.knxnet_ip, t, GroupObjectTable({ASAP(1): datapointtypes.DPT_Switch}))
    c = "29%02X" % n + "FF" * n + "BCE012030A0B010081"
    r = knx_stack.decode_msg(s, knx_stack.knxnet_ip.Msg.make_from_str("06100420%04X044C0000" % (10 + len(c) // 2) + c))
    assert len(r) == 2, (n, r)
"""},
    {"id": "c26-idle-client", "property": "C26",
     "needs": "a client that only listens for more than two minutes",
     "breaks": "the daemon stops sending packets to a client that has sent nothing for two minutes",
     "edits": [("daemon/usbhid.c", "	int client_fds[64];\n", "	int client_fds[64];\n	time_t seen[FD_SETSIZE];\n"),
               ("daemon/usbhid.c", "							client_fds[j] = new_client;\n", "							client_fds[j] = new_client;\n							seen[new_client] = time(NULL);\n"),
               ("daemon/usbhid.c", "					int l = read_from_client(i, packet);\n", "					int l;\n					seen[i] = time(NULL);\n					l = read_from_client(i, packet);\n"),
               ("daemon/usbhid.c", "						if (client_fds[j] > 0) {\n", "						if (client_fds[j] > 0\n								&& time(NULL) - seen[client_fds[j]] < 120) {\n"),
               ("daemon/usbhid.c", "#include <stdlib.h>\n", "#include <stdlib.h>\n#include <time.h>\n")],
     "demo": """
import os, tty, time, socket, subprocess, tempfile, shutil
d = tempfile.mkdtemp()
proc = None
try:
    fast = os.path.join(d, "fast.c")
    open(fast, "w").write("#include <sys/time.h>\\n#include <time.h>\\ntime_t __wrap_time(time_t *t) { struct timeval v; gettimeofday(&v, 0); long long x = v.tv_sec % 100000 * 1000LL + v.tv_usec / 1000; if (t) *t = x; return x; }\\n")
    exe = os.path.join(d, "daemon")
    subprocess.run(["gcc", "-w", "-Wl,--wrap=time", "-o", exe, "daemon/usbhid.c", fast], check=True)
    master, slave = os.openpty()
    tty.setraw(slave)
    h = socket.socket()
    h.bind(("127.0.0.1", 0))
    port = h.getsockname()[1]
    h.close()
    proc = subprocess.Popen([exe, "-d", os.ttyname(slave), "-p", str(port)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    for _ in range(500):
        try:
            c = socket.create_connection(("127.0.0.1", port), 5)
            break
        except OSError:
            time.sleep(0.01)
    c.sendall(b"0102\\n")
    got = b""
    while len(got) < 56:
        got += os.read(master, 56 - len(got))
    time.sleep(0.5)
    os.write(master, bytes([1, 0x13, 9]))
    c.settimeout(5)
    assert c.recv(100) == b"011309\\n"
finally:
    if proc:
        proc.kill()
    shutil.rmtree(d)
"""},
]
