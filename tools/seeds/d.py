import importlib.util as _u
_s = _u.spec_from_file_location("c", "/verif/tools/seeds/c.py")
_c = _u.module_from_spec(_s)
_s.loader.exec_module(_c)
K, MK, USB, CL = "knx_stack/", _c.MK, _c.USB, _c.CL
SEEDS = []


def S(id, property, edits, demo, needs, breaks, raw=False):
    s = dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks)
    s["demo_c" if raw else "demo"] = demo
    SEEDS.append(s)


S("c28-channel-on-class", "C28",
  [(K + "definition/knxnet_ip/state.py", "        self._communication_channel_id = value", "        type(self)._communication_channel_id = value"),
   (K + "definition/knxnet_ip/state.py", "        self._communication_channel_id = 0\n", "        self.communication_channel_id = 0\n")],
  MK + """
a = mk(Medium.knxnet_ip, assoc=[(1, 9)], dpts={1: "DPT_Switch"})
b = mk(Medium.knxnet_ip, assoc=[(1, 9)], dpts={1: "DPT_Switch"})
a.communication_channel_id = 5
b.communication_channel_id = 6
assert str(encode_msg(a, R.req.Msg(asap=ASAP(1))))[14:16] == "05"
""", "two tunnelling stacks in one program", "the channel of one connection is used by the other")

S("c28-list-kept", "C28",
  [(K + "definition/layer/network/address_table.py", "self._group_addresses = list(addresses)", "self._group_addresses = addresses or []")],
  MK + """
given = [GroupAddress(free_style=7), GroupAddress(free_style=3)]
a = AddressTable(Address(1), given, 9)
b = AddressTable(Address(2), given, 9)
a.add(GroupAddress(free_style=5))
assert [x.free_style for x in b.addresses] == [3, 7] and len(given) == 2
""", "two tables built from one list", "an address added to one table appears in the other")

S("c28-association-default", "C28",
  [(K + "definition/layer/transport/association_table.py", """        associations: Iterable["Association"] = None,
    ):
        self._address_table = address_table
        self._asap_addresses = dict()
""", """        associations: Iterable["Association"] = None,
        _known: dict = {},
    ):
        self._address_table = address_table
        self._asap_addresses = _known.setdefault(id(address_table), dict())
        self._asap_addresses.clear()
""")],
  MK + """
at = AddressTable(Address(1), [], 9)
one = AssociationTable(at, [])
one.associate(ASAP(1), [GroupAddress(free_style=3)])
two = AssociationTable(at, [])
two.associate(ASAP(2), [GroupAddress(free_style=4)])
assert [a.value for a in one.get_asaps_from_address(GroupAddress(free_style=3))] == [1]
assert one.get_asaps_from_address(GroupAddress(free_style=4)) == []
""", "two association tables over one address table", "the second table replaces the first one's associations")

S("c29-cached-listing", "C29",
  [(K + "definition/layer/network/address_table.py", '''        s = """AddressTable: individual address: {}, max_size={}\\n\\n""".format(
            self.individual_address, self.max_size
        )
''', '''        text = getattr(self, "_text", None)
        if text and text[0] == self._group_addresses:
            return text[1]
        s = """AddressTable: individual address: {}, max_size={}\\n\\n""".format(
            self.individual_address, self.max_size
        )
'''),
   (K + "definition/layer/network/address_table.py", '''            s += """    {} -> {}\\n""".format((tsap + 1), address)

        return s''', '''            s += """    {} -> {}\\n""".format((tsap + 1), address)

        self._text = (list(self._group_addresses), s)
        return self._text[1]'''),
   (K + "definition/layer/network/address_table.py", '''        self._individual_address = ia
        self._group_addresses = list(addresses)''', '''        self._individual_address = ia
        self._text = None
        self._group_addresses = list(addresses)''')],
  MK + """
a = AddressTable(Address(0x1001), [GroupAddress(free_style=7)], 9)
repr(a)
a.individual_address = Address(0x1002)
assert "0x1002" in repr(a), repr(a)
""", "the individual address changes between two prints", "the old individual address is printed")

S("c29-zero-asap", "C29",
  [(K + "definition/layer/transport/association_table.py", '''        if self.name:
            s = "{} ({})".format(self.value, self.name)''', '''        if self.name and not self.name.isspace() and len(self.name) > 1:
            s = "{} ({})".format(self.value, self.name)''')],
  MK + """
assert repr(ASAP(4, "x")) == "4 (x)"
""", "an access point with a one-letter name", "its name is not printed")

S("c30-two-decimals", "C30",
  [(K + "datapointtypes.py", "                dpt.encode(value)\n", "                dpt.encode(round(value, 2))\n")],
  MK + """
d = datapointtypes.DPT_Factory.make("DPT_Value_Power", {"decoded_value": 0.125})
assert d.decode() == 0.125, d.decode()
""", "a four-octet floating value with more than two decimals", "the value given is rounded")

S("c30-order", "C30",
  [(K + "datapointtypes.py", """    @stagione.setter
    def stagione(self, value):
        value = _member(self.Stagione, value)
        self.bits.stagione = self.Stagione(value)

    @property
    def setpoint(self):
        return self.bits.setpoint

    @setpoint.setter
    def setpoint(self, value):
        self.bits.setpoint = value

    @property
    def temporizzazione(self):
        return self.bits.temporizzazione

    @temporizzazione.setter
    def temporizzazione(self, value):
        self.bits.temporizzazione = value

    @property
    def centralizzato""", """    @stagione.setter
    def stagione(self, value):
        value = _member(self.Stagione, value)
        self.bits.stagione = self.Stagione(value)

    @property
    def setpoint(self):
        return self.bits.setpoint

    @setpoint.setter
    def setpoint(self, value):
        self.value = (self.value & 0x0F00FFFF) | (value & 0xFF) << 16

    @property
    def temporizzazione(self):
        return self.bits.temporizzazione

    @temporizzazione.setter
    def temporizzazione(self, value):
        self.bits.temporizzazione = value

    @property
    def centralizzato""")],
  MK + """
d = datapointtypes.DPT_Factory.make("DPTInfoClimaReport", {"stagione": "estate", "setpoint": 20})
assert d.stagione == d.Stagione.estate and d.setpoint == 20
""", "a dictionary giving the season before the setpoint", "the season is lost")

S("c31-subclass", "C31",
  [(K + "definition/layer/application/groupobject_table.py", "        self._associations[asap] = datapointtype\n", "        if not issubclass(self._associations.get(asap, object), datapointtype):\n            self._associations[asap] = datapointtype\n")],
  MK + """
t = GroupObjectTable({ASAP(1): datapointtypes.DPT_Alarm})
t.associate(ASAP(1), datapointtypes.DPT_Switch)
assert [d.__name__ for _, d in t.associations] == ["DPT_Switch"]
""", "an alarm replaced by a switch", "the replaced type stays")

S("c31-silent-drop", "C31",
  [(K + "definition/layer/application/groupobject_table.py", "        del self._associations[asap]\n", "        for key in [k for k in self._associations if k == asap]:\n            del self._associations[key]\n")],
  MK + """
t = GroupObjectTable({ASAP(1): datapointtypes.DPT_Alarm})
try:
    t.disassociate(ASAP(2))
except Exception:
    pass
else:
    raise SystemExit(1)
""", "disassociating an access point without a type", "it is not refused")

S("c32-equal-messages", "C32",
  [(K + "client/usbhid.py", "        for msg in msgs:\n", "        for msg in dict.fromkeys(msgs):\n")],
  USB + """
st = mk(assoc=[(1, 9)], dpts={1: "DPT_Switch"})
srv = loop.run_until_complete(asyncio.start_server(handler, "127.0.0.1", 0))
m = [R.req.Msg(asap=ASAP(1)), R.req.Msg(asap=ASAP(1))]
c = usbhid.Client("127.0.0.1", srv.sockets[0].getsockname()[1], st, m)
loop.call_later(8, loop.stop)
c.run()
assert len(lines) == 2, lines
""", "the same read request twice in the list", "the second one is not sent")

S("c32-short-device-read", "C32",
  [("daemon/usbhid.c", "res = read(fd, packet, KNXHIDPACKETLEN);", "res = read(fd, packet, KNXHIDPACKETLEN - 8);")],
  """import os, sys, socket, subprocess, tempfile, time, tty, shutil
d = tempfile.mkdtemp()
try:
    exe = os.path.join(d, "x")
    subprocess.check_call(["gcc", "-w", "-o", exe, "daemon/usbhid.c"])
    m, s = os.openpty()
    tty.setraw(s)
    h = socket.socket(); h.bind(("127.0.0.1", 0)); port = h.getsockname()[1]; h.close()
    p = subprocess.Popen([exe, "--dev-hidraw", os.ttyname(s), "--port", str(port)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        for i in range(500):
            try:
                c = socket.create_connection(("127.0.0.1", port)); break
            except OSError:
                time.sleep(0.01)
        c.sendall(b"00\\n")
        os.read(m, 56)
        os.write(m, bytes(range(56)))
        c.settimeout(10)
        got = b""
        while len(got) < 113:
            got += c.recv(4096)
        assert got == bytes(range(56)).hex().encode() + b"\\n", got
    finally:
        p.kill(); p.wait()
finally:
    shutil.rmtree(d)
""", "a packet of the interface longer than 48 octets", "it arrives as two lines", raw=True)

S("c33-repeat-unanswered", "C33",
  [(K + "client/knxnet_ip.py", "                if res.status == knx_stack.knxnet_ip.ErrorCodes.E_NO_ERROR:\n                    tunneling_msg", "                if res.sequence_counter == self._state.sequence_counter_remote:\n                    tunneling_msg")],
  CL + """
rx(conn(5))
assert len(rx(req(5, 0))) == 1
assert len(rx(req(5, 0))) == 1
""", "the network loses an acknowledgement", "the gateway's repeat is never acknowledged")

S("c33-wrap-stall", "C33",
  [(K + "encode/knxnet_ip/tunneling/ack.py", "state.sequence_counter_remote += 1", "state.sequence_counter_remote = (state.sequence_counter_remote % 255) + 1")],
  CL + """
rx(conn(5))
for i in range(256):
    assert len(rx(req(5, i % 256))) == 1, i
r = decode_msg(st, knx_stack.knxnet_ip.Msg.make_from_str(req(5, 0).hex()))
assert len(r) == 2, r
""", "more than 255 telegrams on a connection", "the client refuses the telegram after the wrap")
