K = "knx_stack/"

SEEDS = [
    {"id": "c04-free-octet", "property": "C04",
     "needs": "access points 0 to 255 all in use, without a gap",
     "breaks": "the number proposed as free starts again at 0 after 255, which is in use",
     "edits": [(K+"definition/layer/transport/association_table.py", "        return len(asaps)\n", "        return len(asaps) % 256\n")],
     "demo": """
at = AddressTable(Address(0x1101), [], 255)
t = AssociationTable(at, [])
for n in range(1, 300):
    free = t.get_free_asap_value()
    assert free not in [a.value for a in t.asaps], free
    t.associate(ASAP(free), [GroupAddress(7)])
"""},
    {"id": "c05-same-name", "property": "C05",
     "needs": "two access points with the same name on one group address",
     "breaks": "access points are told apart by name, so only one of those with the same name gets the telegram",
     "edits": [(K+"state.py", "        return self._association_table.get_asaps(tsap)\n", "        asaps = self._association_table.get_asaps(tsap)\n        return list({asap.name or asap.value: asap for asap in asaps}.values())\n")],
     "demo": """
for names in ((None, None), ("a", "b"), ("", ""), ("lamp", "lamp")):
    a, b = ASAP(1, names[0]), ASAP(2, names[1])
    at = AddressTable(Address(0x1101), [], 255)
    t = AssociationTable(at, [])
    t.associate(a, [GroupAddress(0x0A0B)])
    t.associate(b, [GroupAddress(0x0A0B)])
    s = knx_stack.State(Medium.usb_hid, t, GroupObjectTable({a: datapointtypes.DPT_Switch, b: datapointtypes.DPT_Switch}))
    r = knx_stack.decode_msg(s, knx_stack.Msg.make_from_str("0113130008000B010300002900BCE012030A0B010081"))
    assert len(r) == 2, (names, r)
"""},
    {"id": "c28-own-list", "property": "C28",
     "needs": "a table built from a program's own kind of list, which is changed afterwards",
     "breaks": "such a list is kept and sorted instead of copied, so it and the table change together",
     "edits": [(K+"definition/layer/network/address_table.py", "        self._group_addresses = list(addresses)\n", "        self._group_addresses = (\n            addresses\n            if isinstance(addresses, list) and type(addresses) is not list\n            else list(addresses)\n        )\n")],
     "demo": """
class Own(list):
    pass
for kind in (list, tuple, Own):
    given = kind([GroupAddress(9), GroupAddress(3)])
    at = AddressTable(Address(0x1101), given, 255)
    at.add(GroupAddress(5))
    assert [g.free_style for g in given] == [9, 3], (kind, given)
    if kind is not tuple:
        given.append(GroupAddress(1))
    assert [g.free_style for g in at.addresses] == [3, 5, 9], (kind, at)
"""},
    {"id": "c38-same-telegram", "property": "C38",
     "needs": "a copied state whose current telegram is changed in place",
     "breaks": "a copied state shares its current telegram with the original",
     "edits": [(K+"state.py", "    @property\n    def association_table(self):\n        return self._association_table\n", "    def __deepcopy__(self, memo):\n        new = copy.copy(self)\n        memo[id(self)] = new\n        new._association_table = copy.deepcopy(self._association_table, memo)\n        new._groupobject_table = copy.deepcopy(self._groupobject_table, memo)\n        return new\n\n    @property\n    def association_table(self):\n        table = self._association_table\n        return table\n"),
               (K+"state.py", "from enum import Enum\n", "from enum import Enum\nimport copy\n")],
     "demo": """
import copy
at = AddressTable(Address(0x1101), [], 255)
t = AssociationTable(at, [])
t.associate(ASAP(1), [GroupAddress(0x0A0B)])
s = knx_stack.State(Medium.usb_hid, t, GroupObjectTable({ASAP(1): datapointtypes.DPT_Switch}))
s.ldata = knx_stack.layer.L_Data.make_from(knx_stack.Msg.make_from_str("BCE012030A0B010081"))[0]
c = copy.deepcopy(s)
c.association_table.associate(ASAP(2), [GroupAddress(0x0A0B)])
assert len(s.get_asaps()) == 1 and len(c.get_asaps()) == 2
c.ldata.destination = 0x0A0C
assert s.ldata.destination == 0x0A0B and len(s.get_asaps()) == 1
"""},
    {"id": "c39-signed-counter", "property": "C39",
     "needs": "a sequence counter set below zero",
     "breaks": "a counter set to a negative number reads as its absolute value",
     "edits": [(K+"state.py", "        self._sequence_counter_local = value % 256\n", "        self._sequence_counter_local = abs(value) % 256\n")],
     "demo": """
at = AddressTable(Address(0x1101), [], 255)
s = knx_stack.State(Medium.usb_hid, AssociationTable(at, []), GroupObjectTable({}))
for n in (0, 5, 255, 256, 1000, -1, -256, -300):
    s.sequence_counter_local = n
    s.sequence_counter_remote = n
    assert s.sequence_counter_local == s.sequence_counter_remote == n % 256, n
"""},
    {"id": "c36-enumeration-case", "property": "C36",
     "needs": "a program's own datapoint type whose enumeration has a name in capital letters",
     "breaks": "an enumerated field with such a name is described by its number",
     "edits": [(K+"datapointtypes.py", "            if isinstance(field, IntEnum):\n", "            if isinstance(field, IntEnum) and field.name.islower():\n")],
     "demo": """
import enum, ctypes
from knx_stack.datapointtypes import DPT
def make(*names):
    E = enum.IntEnum("Mode", {n: i for i, n in enumerate(names)})
    class _Bits(ctypes.LittleEndianStructure):
        _fields_ = [("mode", ctypes.c_uint8, 1)]
    class DPT_Mine(ctypes.Union, DPT):
        length = DPT.Length.LESS_THAN_A_BYTE
        _fields_ = [("bits", _Bits), ("value", ctypes.c_uint8)]
        mode = property(lambda self: E(self.bits.mode))
    return DPT_Mine
for names in (("off", "on"), ("Off", "On"), ("OFF", "ON"), ("x_1", "X_2")):
    for v in (0, 1):
        d = make(*names)()
        d.value = v
        got = knx_stack.datapointtypes.Description_Factory.make(d)
        assert got == ("DPT_Mine", {"mode": names[v]}), got
        assert repr(got[1]) == repr({"mode": names[v]}), got
"""},
]
