K = "knx_stack/"
SEEDS = [
    {"id": "c34-link-template", "property": "C34",
     "needs": "two threads in the link-layer encoder at the same time, one for a group, the other for an individual destination",
     "breaks": "the link-layer encoder fills one frame header kept in the module instead of a new one, so a thread can send the address type another thread has just set; sequential use always sets it first",
     "edits": [(K+"encode/layer/link/l_data/encode.py", '''def ll_encode(state: "knx_stack.State", msg: "knx_stack.Msg") -> "knx_stack.Msg":
    ldata = L_Data()
    ldata.address_type''', '''_header = L_Data()


def ll_encode(state: "knx_stack.State", msg: "knx_stack.Msg") -> "knx_stack.Msg":
    ldata = _header
    ldata.address_type''')],
     "demo": '''
import threading
def held(name, func, stop, work, other):
    """Runs work in a thread that rests before its stop-th line in func of file name while other runs."""
    seen, hold, out, n = threading.Event(), threading.Event(), [], [0]
    def local(f, e, a):
        if e == "line":
            n[0] += 1
            if n[0] == stop:
                seen.set()
                hold.wait(10)
        return local
    def trace(f, e, a):
        return local if f.f_code.co_filename.endswith(name) and f.f_code.co_name == func else None
    def run():
        sys.settrace(trace)
        out.append(work())
        sys.settrace(None)
        seen.set()
    t = threading.Thread(target=run)
    t.start()
    seen.wait(10)
    o = other()
    hold.set()
    t.join()
    return out[0], o
def stack():
    at = AddressTable(Address(0x1101), [], 255)
    t = AssociationTable(at, [])
    t.associate(ASAP(1), [GroupAddress(0x0A0B)])
    return State(Medium.usb_hid, t, GroupObjectTable({ASAP(1): datapointtypes.DPT_Switch}))
app = layer.application
r = app.a_group_value_read.req.Msg(asap=ASAP(1))
p = app.a_property_value_read.req.Msg(asap=ASAP(0), object_index=0, property_id=1, number_of_elements=1, start_index=1)
def work(m):
    s = stack()
    return lambda: repr(knx_stack.encode_msg(s, m))
want = work(r)(), work(p)()
for stop in range(1, 10):
    assert held("link/l_data/encode.py", "ll_encode", stop, work(r), work(p)) == want, stop
'''},
    {"id": "c34-description-fields", "property": "C34",
     "needs": "two threads that describe or print a datapoint of one type for the first time, one of them while the other is still collecting the type's fields",
     "breaks": "the fields of a datapoint type are remembered, but the collection is published before it is filled, so another thread finds part of it",
     "edits": [(K+"datapointtypes.py", '''        fields = set(
            [
                name
                for name, _ in inspect.getmembers(
                    dpt.__class__, inspect.isdatadescriptor
                )
            ]
        ) - set(
            ["bits", "value", "__weakref__", "_b_base_", "_b_needsfree_", "_objects"]
        )
''', '''        fields = _fields_of.get(dpt.__class__)
        if fields is None:
            fields = _fields_of[dpt.__class__] = []
            for name, _ in inspect.getmembers(dpt.__class__, inspect.isdatadescriptor):
                if name not in (
                    "bits",
                    "value",
                    "__weakref__",
                    "_b_base_",
                    "_b_needsfree_",
                    "_objects",
                ):
                    fields.append(name)
'''), (K+"datapointtypes.py", "class Description_Factory(object):\n", "_fields_of = {}\n\n\nclass Description_Factory(object):\n")],
     "demo": '''
import threading
def held(name, func, stop, work, other):
    """Runs work in a thread that rests before its stop-th line in func of file name while other runs."""
    seen, hold, out, n = threading.Event(), threading.Event(), [], [0]
    def local(f, e, a):
        if e == "line":
            n[0] += 1
            if n[0] == stop:
                seen.set()
                hold.wait(10)
        return local
    def trace(f, e, a):
        return local if f.f_code.co_filename.endswith(name) and f.f_code.co_name == func else None
    def run():
        sys.settrace(trace)
        out.append(work())
        sys.settrace(None)
        seen.set()
    t = threading.Thread(target=run)
    t.start()
    seen.wait(10)
    o = other()
    hold.set()
    t.join()
    return out[0], o
K = datapointtypes
types = [K.DPTInfoClimaReport, K.DPTSetupClima, K.DPT_Control_Dimming, K.DPT_SceneControl, K.DPT_Switch, K.DPT_UpDown]
for stop, cls in zip((6, 10, 14, 18, 22, 26), types):
    make = lambda: K.Description_Factory.make(cls())
    a, b = held("datapointtypes.py", "make", stop, make, make)
    assert a == b == make(), (stop, a, b)
'''},
    {"id": "c34-service-context", "property": "C34",
     "needs": "two threads in encode_msg, changing over between the application layer choosing the service and the transport or application layer using it",
     "breaks": "the service code under way is kept for all stacks instead of per stack; each request sets it first, so only requests made at the same time mix",
     "edits": [(K+"state.py", """    @apci.setter
    def apci(self, value):
        self._apci = value
""", """    @apci.setter
    def apci(self, value):
        type(self)._apci = value
"""), (K+"state.py", """        self._apci = None
""", ""), (K+"state.py", """    def __init__(
        self,
        medium: "knx_stack.Medium",
""", """    _apci = None

    def __init__(
        self,
        medium: "knx_stack.Medium",
""")],
     "demo": '''
import threading
def held(name, func, stop, work, other):
    """Runs work in a thread that rests before its stop-th line in func of file name while other runs."""
    seen, hold, out, n = threading.Event(), threading.Event(), [], [0]
    def local(f, e, a):
        if e == "line":
            n[0] += 1
            if n[0] == stop:
                seen.set()
                hold.wait(10)
        return local
    def trace(f, e, a):
        return local if f.f_code.co_filename.endswith(name) and f.f_code.co_name == func else None
    def run():
        sys.settrace(trace)
        out.append(work())
        sys.settrace(None)
        seen.set()
    t = threading.Thread(target=run)
    t.start()
    seen.wait(10)
    o = other()
    hold.set()
    t.join()
    return out[0], o
def work(asap, kind):
    at = AddressTable(Address(0x1101), [], 255)
    t = AssociationTable(at, [])
    t.associate(ASAP(1), [GroupAddress(0x0A0B)])
    s = State(Medium.usb_hid, t, GroupObjectTable({ASAP(1): datapointtypes.DPT_Switch}))
    app = layer.application
    m = app.a_group_value_read.req.Msg(asap=ASAP(1)) if kind else app.a_property_value_read.req.Msg(asap=ASAP(0), object_index=0, property_id=1, number_of_elements=1, start_index=1)
    return lambda: repr(knx_stack.encode_msg(s, m))
want = work(1, 0)(), work(1, 1)()
for name, func in (("a_group_value_read/req.py", "encode"), ("t_data_group/encode.py", "tl_encode")):
    for stop in range(1, 12):
        got = held(name, func, stop, work(1, 1), work(1, 0))
        assert got == (want[1], want[0]), (name, stop)
'''},
    {"id": "c35-past-frames", "property": "C35",
     "needs": "a stack that decodes for a long time, with memory observed",
     "breaks": "the state appends each link-layer frame to a list whose last element is the current one, so memory grows with every frame received",
     "edits": [(K+"state.py", """        self._ldata = None
""", """        self._frames = []
"""), (K+"state.py", """        return self._ldata
""", """        return self._frames[-1] if self._frames else None
"""), (K+"state.py", """        self._ldata = value
""", """        self._frames.append(value)
"""), (K+"state.py", "get_tsap(Address(self._ldata.destination))", "get_tsap(Address(self.ldata.destination))")],
     "demo": '''
import gc, tracemalloc
at = AddressTable(Address(0x1101), [], 255)
t = AssociationTable(at, [])
t.associate(ASAP(1), [GroupAddress(2)])
s = State(Medium.usb_hid, t, GroupObjectTable({ASAP(1): datapointtypes.DPT_Switch}))
def go(n):
    for _ in range(n):
        knx_stack.decode_msg(s, knx_stack.usb_hid.Msg.make_from_str("0113130008000B01030000290096E000000002010081"))
    gc.collect()
    return tracemalloc.get_traced_memory()[0]
tracemalloc.start()
go(50)
a = go(50); b = go(500); c = go(500)
assert b - a < 5000 or c - b < 5000, (a, b, c)
'''},
    {"id": "c35-client-responses", "property": "C35",
     "needs": "a tunnelling client that runs for a long time, with memory observed",
     "breaks": "the tunnelling client collects the responses of every datagram and never drops them",
     "edits": [(K+"client/knxnet_ip.py", """        self.connected = False

        self.logger""", """        self.connected = False
        self.responses = []

        self.logger"""), (K+"client/knxnet_ip.py", """        responses = knx_stack.decode_msg(
            self._state, knx_stack.knxnet_ip.Msg.make_from_str(data.hex())
        )
        for res in responses:
""", """        known = len(self.responses)
        self.responses += knx_stack.decode_msg(
            self._state, knx_stack.knxnet_ip.Msg.make_from_str(data.hex())
        )
        for res in self.responses[known:]:
""")],
     "demo": '''
import gc, tracemalloc
from knx_stack.client.knxnet_ip import Tunneling
at = AddressTable(Address(0x1101), [], 255)
t = AssociationTable(at, [])
t.associate(ASAP(1), [GroupAddress(0x0C82)])
s = knxnet_ip.State(Medium.knxnet_ip, t, GroupObjectTable({ASAP(1): datapointtypes.DPT_Switch}))
class Transport:
    def sendto(self, data, addr=None):
        pass
c = Tunneling("10.0.0.1", 1, "10.0.0.2", 2, s, [])
c.connection_made(Transport())
def go(n):
    for _ in range(n):
        s.sequence_counter_remote = 1
        c.datagram_received(bytes.fromhex("061004200019" + "047401002900b4e011010c82050080589f8037"), ("10.0.0.2", 2))
    gc.collect()
    return tracemalloc.get_traced_memory()[0]
tracemalloc.start()
go(50)
a = go(50); b = go(500); c2 = go(500)
assert b - a < 5000 or c2 - b < 5000, (a, b, c2)
'''},
    {"id": "c35-daemon-descriptors", "property": "C35",
     "needs": "many clients connecting to the daemon and leaving, with its descriptors observed (or a thousand of them)",
     "breaks": "a client that leaves is shut down but its descriptor is not closed, so after a thousand clients the daemon ends",
     "edits": [("daemon/usbhid.c", """						close(i);
					}

""", """						shutdown(i, SHUT_RDWR);
					}

""")],
     "demo": '''
import os, socket, subprocess, tempfile, time, tty, shutil
d = tempfile.mkdtemp()
try:
    exe = os.path.join(d, "daemon")
    subprocess.check_call(["gcc", "-w", "-o", exe, "daemon/usbhid.c"])
    m, sl = os.openpty()
    tty.setraw(sl)
    p = None
    for port in range(21000, 21040):
        p = subprocess.Popen([exe, "-d", os.ttyname(sl), "-p", str(port)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        time.sleep(0.3)
        if p.poll() is None:
            break
    def count():
        return len(os.listdir("/proc/%d/fd" % p.pid))
    def settle():
        for _ in range(100):
            n = count()
            if n <= 7:
                break
            time.sleep(0.02)
        return n
    a = settle()
    for i in range(40):
        s = socket.create_connection(("127.0.0.1", port), 5)
        s.sendall(b"0102\\n")
        os.read(m, 4096)
        s.close()
    b = settle()
    p.kill()
    p.wait()
    assert b <= a + 3, (a, b)
finally:
    shutil.rmtree(d)
'''},
    {"id": "c36-class-by-name", "property": "C36",
     "needs": "two datapoint types of a program with the same name and different fields, both described",
     "breaks": "the fields of a datapoint type are remembered under the name of its class, so a second type with that name is described with the fields of the first",
     "edits": [(K+"datapointtypes.py", '''        fields = set(
            [
                name
                for name, _ in inspect.getmembers(
                    dpt.__class__, inspect.isdatadescriptor
                )
            ]
        ) - set(
            ["bits", "value", "__weakref__", "_b_base_", "_b_needsfree_", "_objects"]
        )
        for name in sorted(fields):''', '''        name = dpt.__class__.__name__
        fields = _FIELDS.get(name)
        if fields is None:
            fields = set(
                [
                    name
                    for name, _ in inspect.getmembers(
                        dpt.__class__, inspect.isdatadescriptor
                    )
                ]
            ) - set(
                ["bits", "value", "__weakref__", "_b_base_", "_b_needsfree_", "_objects"]
            )
            _FIELDS[name] = fields
        for name in sorted(fields):'''), (K+"datapointtypes.py", '''class Description_Factory(object):
''', '''_FIELDS = {}


class Description_Factory(object):
''')],
     "demo": '''
import ctypes
def make(field):
    bits = type(ctypes.LittleEndianStructure)("_T", (ctypes.LittleEndianStructure,), {"_fields_": [(field, ctypes.c_uint8, 8)]})
    return type(ctypes.Union)("Speed", (ctypes.Union, datapointtypes.DPT), {"_fields_": [("bits", bits), ("value", ctypes.c_uint8)], field: property(lambda self: getattr(self.bits, field))})
a, b = make("fan")(), make("wind")()
a.value, b.value = 3, 4
F = datapointtypes.Description_Factory
assert F.make(a) == ("Speed", {"fan": 3})
assert F.make(b) == ("Speed", {"wind": 4})
'''},
    {"id": "c36-short-from-fields", "property": "C36",
     "needs": "a program's own datapoint type of a whole octet whose fields fill six bits or fewer",
     "breaks": "a group value is sent in the six bits of the service octet when it fits and the type has only narrow fields, instead of when the type says that it is less than a byte; every type of the package with such fields is less than a byte",
     "edits": [(K+"encode/layer/application/a_group_value_write/encode.py", '''    if dpt.length == DPT.Length.LESS_THAN_A_BYTE:
''', '''    if dpt.length == DPT.Length.LESS_THAN_A_BYTE or _narrow(dpt):
'''), (K+"encode/layer/application/a_group_value_write/encode.py", '''def al_encode(
''', '''def _narrow(dpt: type) -> bool:
    fields = dict(getattr(dpt, "_fields_", ())).get("bits")
    return 0 < sum(f[2] for f in getattr(fields, "_fields_", ()) if len(f) > 2) <= 4


def al_encode(
''')],
     "demo": '''
import ctypes
bits = type(ctypes.LittleEndianStructure)("_Mode", (ctypes.LittleEndianStructure,), {"_fields_": [("mode", ctypes.c_uint8, 2), ("eco", ctypes.c_uint8, 1)]})
Mode = type(ctypes.Union)("Mode", (ctypes.Union, datapointtypes.DPT), {"_fields_": [("bits", bits), ("value", ctypes.c_uint8)]})
at = AddressTable(Address(0x1101), [], 255)
t = AssociationTable(at, [])
t.associate(ASAP(1), [GroupAddress(0x0A0B)])
s = State(Medium.usb_hid, t, GroupObjectTable({ASAP(1): Mode}))
d = Mode()
d.value = 5
out = repr(knx_stack.encode_msg(s, layer.application.a_group_value_write.req.Msg(asap=ASAP(1), dpt=d)))
assert out.endswith("0A0B02008005"), out
'''},
    {"id": "c37-capacity-assert", "property": "C37",
     "needs": "an address added to a full table in a program that runs with python -O",
     "breaks": "the capacity of the address table is checked with an assertion, which is not there under -O, so the table takes more addresses than it may",
     "edits": [(K+"definition/layer/network/address_table.py", '''            if len(self._group_addresses) >= self.max_size:
                raise AddressTableException(
                    "Max entries %d, already written inside address table"
                    % self.max_size
                )
''', '''            try:
                assert len(self._group_addresses) < self.max_size
            except AssertionError:
                raise AddressTableException(
                    "Max entries %d, already written inside address table"
                    % self.max_size
                )
''')],
     "demo": '''
import subprocess
code = """
import sys
sys.dont_write_bytecode = True
import knx_stack
t = knx_stack.AddressTable(knx_stack.Address(1), [knx_stack.GroupAddress(free_style=5)], 1)
try:
    t.add(knx_stack.GroupAddress(free_style=6))
except Exception:
    sys.exit(0)
sys.exit(7)
"""
for args in ([], ["-O"]):
    assert subprocess.call([sys.executable] + args + ["-c", code]) == 0, args
'''},
    {"id": "c37-fast-dispatch", "property": "C37",
     "needs": "a group telegram of another service whose code ends like a group service's (0x280, say) in a program that does not log",
     "breaks": "without logging, group telegrams are dispatched by two bits of the service code on a shorter way, so services of other ranges are taken for writes and responses",
     "edits": [(K+"decode/layer/transport/t_data_group/ind.py", '''    if tsap:
        if state.ldata.apci == 0:''', '''    if tsap:
        if not logger.isEnabledFor(logging.DEBUG):
            return _fast(state, msg)
        if state.ldata.apci == 0:'''), (K+"decode/layer/transport/t_data_group/ind.py", '''def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[NamedTuple]:
    logger = logging.getLogger(__name__)
    tsap = state.get_tsap()
''', '''def _fast(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[NamedTuple]:
    """The same without anything to log."""
    service = state.ldata.apci & 0xC0
    if service == 0x40:
        return application.a_group_value_response.ind.decode(state, msg)
    if service == 0x80:
        return application.a_group_value_write.ind.decode(state, msg)
    if state.ldata.apci == 0:
        return application.a_group_value_read.ind.decode(state, msg)
    return []


def decode(state: "knx_stack.State", msg: "knx_stack.Msg") -> Iterable[NamedTuple]:
    logger = logging.getLogger("knx_stack.decode.layer.transport.t_data_group.ind")
    tsap = state.get_tsap()
''')],
     "demo": '''
at = AddressTable(Address(0x1101), [], 255)
t = AssociationTable(at, [])
t.associate(ASAP(1), [GroupAddress(0x0A0B)])
s = State(Medium.usb_hid, t, GroupObjectTable({ASAP(1): datapointtypes.DPT_Switch}))
r = knx_stack.decode_msg(s, knx_stack.usb_hid.Msg.make_from_str("0113130008000B010300002900BCE012030A0B010281"))
assert list(r) == [], r
'''},
    {"id": "c38-bound-index", "property": "C38",
     "needs": "a stack copied (copy.deepcopy) after which an address is associated or taken away in either of the two",
     "breaks": "the address table keeps its list's index method, which a deep copy leaves bound to the original's list, so the copy looks addresses up in the wrong table",
     "edits": [(K+"definition/layer/network/address_table.py", '''        self._group_addresses.sort(key=lambda group_address: group_address.free_style)

    @property
    def individual_address''', '''        self._group_addresses.sort(key=lambda group_address: group_address.free_style)
        self._index = self._group_addresses.index

    @property
    def individual_address'''), (K+"definition/layer/network/address_table.py", "            return self._group_addresses.index(address) + 1\n", "            return self._index(address) + 1\n")],
     "demo": '''
import copy
at = AddressTable(Address(0x1101), [], 255)
t = AssociationTable(at, [])
t.associate(ASAP(1), [GroupAddress(0x0A0B)])
u = copy.deepcopy(t)
u.associate(ASAP(2), [GroupAddress(0x0A00)])
assert u.get_tsaps(ASAP(2)) == [1], u.get_tsaps(ASAP(2))
assert u.get_tsaps(ASAP(1)) == [2], u.get_tsaps(ASAP(1))
assert t.get_tsaps(ASAP(1)) == [1], t.get_tsaps(ASAP(1))
'''},
    {"id": "c38-asap-new", "property": "C38",
     "needs": "a message, request or table holding an access point is copied or pickled",
     "breaks": "an access point takes its number when it is created, so that it cannot be copied or unpickled any more",
     "edits": [(K+"definition/layer/transport/association_table.py", '''    def __init__(self, value: int, name: str = None):
        self._value = value
        self._name = name
''', '''    def __new__(cls, value: int, name: str = None):
        self = super().__new__(cls)
        self._value = value
        self._name = name
        return self
''')],
     "demo": '''
import copy, pickle
m = knx_stack.layer.application.a_group_value_read.req.Msg(asap=ASAP(1, "one"))
assert copy.deepcopy(m).asap == ASAP(1)
assert pickle.loads(pickle.dumps(m)).asap == ASAP(1)
'''},
    {"id": "c39-stale-answer", "property": "C39",
     "needs": "a telegram is set, its access points are asked for, an association or type changes, and they are asked for again for the same telegram",
     "breaks": "a state remembers the access points of its current telegram until the next telegram is set",
     "edits": [(K+"state.py", "        self._ldata = value\n", "        self._ldata = value\n        self._typed = None\n"),
               (K+"state.py", "        self._ldata = None\n", "        self._ldata = None\n        self._typed = None\n"),
               (K+"state.py", '''        asaps = set(self.get_asaps())
        associations = [
            (asap, dpt)
            for asap, dpt in self._groupobject_table.associations
            if asap in asaps
        ]
        return associations''', '''        if self._typed is None:
            asaps = set(self.get_asaps())
            self._typed = [
                (asap, dpt)
                for asap, dpt in self._groupobject_table.associations
                if asap in asaps
            ]
        return self._typed''')],
     "demo": '''
at = AddressTable(Address(0x1101), [], 255)
t = AssociationTable(at, [])
t.associate(ASAP(1), [GroupAddress(0x0A0B)])
t.associate(ASAP(2), [GroupAddress(0x0A0B)])
s = State(Medium.usb_hid, t, GroupObjectTable({ASAP(1): datapointtypes.DPT_Switch, ASAP(2): datapointtypes.DPT_Switch}))
s.ldata = knx_stack.layer.L_Data.make_from(knx_stack.Msg.make_from_str("BCE012030A0B010000"))[0]
assert [a.value for a, _ in s.get_asaps_and_dpts()] == [1, 2]
t.disassociate(ASAP(1), [GroupAddress(0x0A0B)])
assert [a.value for a, _ in s.get_asaps_and_dpts()] == [2], s.get_asaps_and_dpts()
'''},
    {"id": "c39-counter-wrap", "property": "C39",
     "needs": "a counter is set to 512 or more (a program that counts all its telegrams)",
     "breaks": "the counters go round by taking 256 off once, so larger numbers stay above 255",
     "edits": [(K+"state.py", "        self._sequence_counter_local = value % 256\n", "        self._sequence_counter_local = value - 256 if value > 255 else value\n")],
     "demo": '''
s = State(Medium.usb_hid, AssociationTable(AddressTable(Address(0x1101), [], 255), []), GroupObjectTable({}))
s.sequence_counter_local = 700
assert s.sequence_counter_local == 700 % 256, s.sequence_counter_local
'''},
]
