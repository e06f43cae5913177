K = "knx_stack/"
SEEDS = []


def S(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


MK = """
def mk(medium=Medium.usb_hid, ias=0x1001, assoc=(), dpts=None, cap=255, gas=()):
    at = AddressTable(Address(ias), [GroupAddress(free_style=g) for g in gas], cap)
    tb = AssociationTable(at, [])
    for a, g in assoc:
        tb.associate(ASAP(a), [GroupAddress(free_style=g)])
    st = knx_stack.knxnet_ip.State(medium, tb, GroupObjectTable({ASAP(a): getattr(datapointtypes, n) for a, n in (dpts or {}).items()}))
    st.at, st.tb = at, tb
    return st
def usb(body):
    n = len(body) // 2
    return Msg.make_from_str("0113%02X0008%04X01030000" % (n + 11, n + 3) .replace('x','') + body) if False else Msg.make_from_str("0113%02X" % (n + 11) + "0008%04X" % (n + 3) + "01030000" + body)
def tun(seq, body, ch=1):
    n = len(body) // 2
    return knx_stack.knxnet_ip.Msg.make_from_str("06100420%04X04%02X%02X00" % (n + 10, ch, seq) + body)
W = layer.application.a_group_value_write
R = layer.application.a_group_value_read
def dp(n, v):
    d = getattr(datapointtypes, n)(); d.value = v; return d
"""

S("c01-hpai-exact", "C01",
  [(K + "definition/knxnet_ip/msg.py", "if len(self) >= 8:", "if len(self) > 8:")],
  """
m = knx_stack.knxnet_ip.Msg.make_from_str("0801C0A80001" + "0E57")
ip, port, rest = m.HPAI()
assert (ip, port, list(rest)) == ("192.168.0.1", 3671, [])
""", "a host-address block that ends the message", "a host-address block with no octets behind it cannot be consumed")

S("c01-long-inplace", "C01",
  [(K + "msg.py", """        long.byte.B4 = self[0].value
        long.byte.B3 = self[1].value
        long.byte.B2 = self[2].value
        long.byte.B1 = self[3].value
""", """        for octect in self[:4]:
            long.value = (long.value << 8) | octect.value
""")],
  """
try:
    r = Msg.make_from_str("AABBCC").long()
except Exception:
    r = None
assert r is None, r
""", "consuming a 32-bit value from fewer than four octets", "a truncated 32-bit value is made up instead of refused")

S("c02-legacy-15bit", "C02",
  [(K + "address.py", '''    def __eq__(self, other):
        try:
            return self.free_style == other.free_style
        except AttributeError as e:
            raise e

    def __hash__(self):
        return self.free_style


class GroupAddress(Union):''', '''    def __eq__(self, other):
        try:
            return self.free_style == other.free_style
        except AttributeError as e:
            raise e

    def __hash__(self):
        return self.free_style


class GroupAddress(Union):
    # the most significant bit is reserved in the 15 bits addressing scheme'''),
   (K + "address.py", '''            self.three_level_style.sub,
        )

    def __eq__(self, other):
        try:
            return self.free_style == other.free_style
''', '''            self.three_level_style.sub,
        )

    def __eq__(self, other):
        try:
            return not (self.free_style ^ other.free_style) & 0x7FFF
''')],
  """
a, b = GroupAddress(free_style=0x0801), GroupAddress(free_style=0x8801)
assert a != b
assert len({a: 1, b: 2}) == 2 or hash(a) != hash(b)
assert a == GroupAddress(free_style=0x0801)
""", "two group addresses that differ in the most significant bit only", "distinct group addresses compare equal")

S("c03-stale-position", "C03",
  [(K + "definition/layer/network/address_table.py", """        self._group_addresses.sort(key=lambda group_address: group_address.free_style)

    @property
    def individual_address""", """        self._group_addresses.sort(key=lambda group_address: group_address.free_style)
        self._positions = dict()

    @property
    def individual_address"""),
   (K + "definition/layer/network/address_table.py", """        try:
            return self._group_addresses.index(address) + 1
        except ValueError:
""", """        try:
            tsap = self._positions.get(address.free_style)
            if tsap is None or tsap > len(self._group_addresses):
                tsap = self._group_addresses.index(address) + 1
                self._positions[address.free_style] = tsap
            elif self._group_addresses[tsap - 1] != address and address not in self._group_addresses:
                raise ValueError(address)
            return tsap
        except ValueError:
"""),
   (K + "definition/layer/network/address_table.py", """            self._group_addresses.append(address)
""", """            self._group_addresses.append(address)
            self._positions.clear()
""")],
  """
ga = lambda v: GroupAddress(free_style=v)
t = AddressTable(Address(0x1001), [ga(v) for v in (1, 2, 3, 4)], 10)
assert [t.get_tsap(ga(v)) for v in (1, 2, 3, 4)] == [1, 2, 3, 4]
t.remove(ga(1))
assert [t.get_tsap(ga(v)) for v in (2, 3, 4)] == [1, 2, 3], [t.get_tsap(ga(v)) for v in (2, 3, 4)]
""", "positions looked up before and after removing a lower address (a stale cache)", "an address reports the position of another address after a removal")

S("c03-capacity-after", "C03",
  [(K + "definition/layer/network/address_table.py", "if len(self._group_addresses) >= self.max_size:", "if len(self.tsaps) > self.max_size + (self.individual_address in self._group_addresses):")],
  """
ga = lambda v: GroupAddress(free_style=v)
t = AddressTable(Address(0x0001), [ga(1)], 2)
t.add(ga(2))
try:
    t.add(ga(3))
except Exception:
    pass
assert len(t.addresses) == 2, t.addresses
""", "a full table that holds a group address with the number of the individual address", "the table accepts one address too many")

S("c04-asap-identity", "C04",
  [(K + "definition/layer/transport/association_table.py", "return self.value == other.value", "return self.value is other.value")],
  """
a, b = int("1000"), int("1000")
assert ASAP(a) == ASAP(b)
""", "access point numbers above 256 held in distinct int objects", "equal access points compare different, so associations are lost")

S("c04-disassociate-all", "C04",
  [(K + "definition/layer/transport/association_table.py", """        for address in addresses:
            self._asap_addresses[asap].remove(address)
""", """        for address in addresses:
            position = self._asap_addresses[asap].index(address)
            self._asap_addresses[asap][position:] = self._asap_addresses[asap][:position:-1]
""")],
  """
t = AssociationTable(AddressTable(Address(0x1001), [], 255), [])
ga = lambda v: GroupAddress(free_style=v)
t.associate(ASAP(1), [ga(5), ga(6), ga(7), ga(8)])
t.disassociate(ASAP(1), [ga(6)])
assert [a.free_style for a in t.get_addresses(t.get_tsaps(ASAP(1)))] == [5, 7, 8]
""", "removing an association that is followed by two or more others", "the order of the remaining addresses of the access point is reversed")

S("c05-stale-associations", "C05",
  [(K + "state.py", """        self._address_type = None

""", """        self._address_type = None
        self._associations = dict()

"""),
   (K + "state.py", """        asaps = set(self.get_asaps())
        associations = [
            (asap, dpt)
            for asap, dpt in self._groupobject_table.associations
            if asap in asaps
        ]
        return associations
""", """        key = (self._ldata.destination, len(self._association_table.asaps))
        if key not in self._associations:
            asaps = set(self.get_asaps())
            self._associations[key] = [
                asap
                for asap, _ in self._groupobject_table.associations
                if asap in asaps
            ]
        return [
            (asap, dpt)
            for asap, dpt in self._groupobject_table.associations
            if asap in self._associations[key]
        ]
""")],
  MK + """
st = mk(assoc=[(1, 5), (2, 6)], dpts={1: "DPT_Switch", 2: "DPT_Switch"})
f = usb("2900BCE01002" + "0005" + "010081")
assert [m.asap.value for m in decode_msg(st, f)] == [1]
st.tb.associate(ASAP(2), [GroupAddress(free_style=5)])
assert sorted(m.asap.value for m in decode_msg(st, f)) == [1, 2]
""", "a telegram received, then a known access point associated with its address, then another telegram", "a later association is ignored for addresses already seen")

S("c05-response-con", "C05",
  [(K + "decode/layer/application/a_group_value_response/con.py", "status=state.ldata.status)", "status=type(state.ldata.status)(0))")],
  MK + """
st = mk(assoc=[(1, 5)], dpts={1: "DPT_Switch"})
m, = decode_msg(st, usb("2E00BDE01002" + "0005" + "010041"))
assert int(m.status) == 1, m
""", "a negative confirmation of a group response", "negative confirmations of responses are reported as positive")

S("c06-sorted-positions", "C06",
  [(K + "state.py", """        tsaps = self.get_tsaps()
        return self._association_table.get_addresses(tsaps)""", """        tsaps = sorted(self.get_tsaps())
        return self._association_table.get_addresses(tsaps)""")],
  MK + """
st = mk(assoc=[(1, 9), (1, 5)], dpts={1: "DPT_Switch"})
f = encode_msg(st, R.req.Msg(asap=ASAP(1)))
assert str(f)[-10:-6] == "0009", f
""", "an access point whose first associated address is not its lowest", "requests go to the lowest address instead of the first associated one")

S("c06-asap-cache", "C22",
  [(K + "state.py", """    @asap.setter
    def asap(self, value):
        self._asap = value
""", """    @asap.setter
    def asap(self, value):
        if self._asap is None or self._asap != value or self._tsaps is None:
            self._asap = value
            self._tsaps = None
        self._asap = value
"""),
   (K + "state.py", """        self._address_type = None

""", """        self._address_type = None
        self._tsaps = None

"""),
   (K + "state.py", """        return self._association_table.get_tsaps(self._asap)
""", """        if not self._tsaps or len(self._tsaps) != len(
            self._association_table.get_tsaps(self._asap)
        ):
            self._tsaps = self._association_table.get_tsaps(self._asap)
        return self._tsaps
""")],
  MK + """
st = mk(assoc=[(1, 9), (2, 20)], dpts={1: "DPT_Switch"})
assert "0009" in str(encode_msg(st, R.req.Msg(asap=ASAP(1))))
st.tb.associate(ASAP(2), [GroupAddress(free_style=4)])
f = encode_msg(st, R.req.Msg(asap=ASAP(1)))
assert str(f)[-10:-6] == "0009", f
""", "two requests for one access point with a change of the address table between them", "the second request goes to another access point's address")

S("c07-raw-six-bits", "C07",
  [(K + "encode/layer/application/a_group_value_write/encode.py", """        ldata.apci = apci
        ldata.data = msg.dpt.value
        new_msg""", """        ldata.apci = apci | msg.dpt.value
        new_msg""")],
  MK + """
st = mk(assoc=[(1, 9)], dpts={1: "DPT_Switch"})
f = encode_msg(st, W.req.Msg(asap=ASAP(1), dpt=dp("DPT_Switch", 0x41)))
assert str(f).endswith("010081"), f
""", "a short datapoint whose raw value still holds the service bits of the telegram it came from (such as a response)", "the service code is altered by the value")

S("c07-invalid-octet", "C07",
  [(K + "encode/layer/application/a_group_value_write/encode.py", """            new_msg = Msg([Octect(value=ldata.apci), Octect(value=msg.dpt.value)])
""", """            new_msg = Msg([Octect(value=ldata.apci), Octect(value=min(msg.dpt.value, 254))])
""")],
  MK + """
st = mk(assoc=[(1, 9)], dpts={1: "DPT_Brightness"})
for v in range(256):
    f = encode_msg(st, W.req.Msg(asap=ASAP(1), dpt=dp("DPT_Brightness", v)))
    assert str(f).endswith("020080%02X" % v), (v, f)
""", "a one-octet value of 255", "the highest value cannot be written")

S("c08-dimming-direction", "C08",
  [(K + "decode/layer/application/a_group_value.py", """        data.value = value
""", """        data.value = value & 0x07 if not msg[1:] and data.length != dpt.Length.A_BYTE_OR_MORE else value
""" if False else """        data.value = value if data.length.value == "a_byte_or_more" else value & 0x07
""")],
  MK + """
a = mk(assoc=[(1, 9)], dpts={1: "DPT_Control_Dimming"})
b = mk(assoc=[(3, 9)], dpts={3: "DPT_Control_Dimming"})
m, = decode_msg(b, encode_msg(a, W.ind.Msg(asap=ASAP(1), dpt=dp("DPT_Control_Dimming", 0x0B))))
assert (m.dpt.direction.name, m.dpt.step) == ("up", 3), m
""", "a short datapoint that uses more than three bits", "the dimming direction is lost at the receiver")

S("c09-stale-individual", "C09",
  [(K + "definition/layer/transport/association_table.py", """    @property
    def individual_address(self) -> "knx_stack.Address":
        return self._address_table.individual_address
""", """    @property
    def individual_address(self) -> "knx_stack.Address":
        return self._asap_addresses.get(
            ASAP(0), [self._address_table.individual_address]
        )[0]
""")],
  MK + """
st = mk()
st.at.individual_address = Address(0x1234)
f = encode_msg(st, layer.application.a_property_value_read.req.Msg(asap=ASAP(0), object_index=0, property_id=1, number_of_elements=1, start_index=1))
assert "1234" in str(f), f
""", "the individual address changed after the association table was built", "property requests still go to the former individual address")

S("c09-elements-overflow", "C09",
  [(K + "encode/layer/application/a_property_value_write/req.py", "header.bits.number_of_elements = msg.number_of_elements", "header.bits.number_of_elements = min(\n        msg.number_of_elements, len(msg.data) // 2\n    )")],
  MK + """
st = mk()
f = encode_msg(st, layer.application.a_property_value_write.req.Msg(asap=ASAP(0), object_index=1, property_id=2, number_of_elements=4, start_index=1, data="01"))
assert str(f).endswith("0102400101"), f
""", "a property write whose element count exceeds its number of data octets (bit properties)", "another element count than requested is on the wire")

S("c10-response-length", "C10",
  [(K + "decode/layer/application/a_property_value_response/ind.py", "data=property_value.data,", "data=property_value.data[: property_value.number_of_elements * 4]\n            or property_value.data,")],
  MK + """
st = mk()
m, = decode_msg(st, usb("2900B46010011001" + "0D" + "03D6" + "00451001" + "0102030405060708"))
assert str(m.data) == "0102030405060708" or len(m.data) == 8, m
""", "a property response whose elements are wider than four octets", "the end of the response data is lost")

S("c10-individual-tag", "C10",
  [(K + "decode/layer/transport/t_data_individual/ind.py", "if state.ldata.source == state.association_table.individual_address.free_style:", "if state.association_table.get_tsap(type(state.individual_address)(state.ldata.source)) is not None:")],
  MK + """
st = mk(gas=[0x1105])
r = decode_msg(st, usb("2900B46011051001" + "06" + "03D6" + "00451001" + "01"))
assert r == [], r
""", "a property telegram from a device whose individual address has the number of a group address in use", "property telegrams of other devices are delivered as the configured device's")
