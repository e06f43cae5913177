import importlib.util as _u
_s = _u.spec_from_file_location("a", "/verif/tools/seeds/a.py")
_a = _u.module_from_spec(_s)
_s.loader.exec_module(_a)
K, MK = "knx_stack/", _a.MK
SEEDS = []


def S(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


NET = MK + """
import socket
def hp(ip, port): return "0801" + socket.inet_aton(ip).hex() + "%04X" % port
def frame(service, body):
    return knx_stack.knxnet_ip.Msg.make_from_str("0610%04X%04X" % (service, 6 + len(body) // 2) + body)
def conn(ch, status=0, ip="10.0.0.1", port=3671, ia=0x1101):
    return frame(0x0206, "%02X%02X" % (ch, status) + hp(ip, port) + ("0404%04X" % ia if not status else "04040000"))
core = knx_stack.knxnet_ip.core
tn = knx_stack.knxnet_ip.tunneling
OK = knx_stack.knxnet_ip.ErrorCodes.E_NO_ERROR
"""

S("c12-peer-nan", "C12",
  [(K + "decode/layer/application/a_group_value.py", """        data.value = value
        associations""", """        data.value = value
        if hasattr(data, "encode"):
            data.encode(data.decode())
        associations"""),
   (K + "decode/layer/application/a_group_value.py", """        value <<= 8
        value += head.value
        data""", """        value = (value << 8) + head.value
        data""")],
  MK + """
st = mk(assoc=[(1, 9)], dpts={1: "DPT_Float_32"})
m, = decode_msg(st, encode_msg(st, W.ind.Msg(asap=ASAP(1), dpt=dp("DPT_Float_32", 0x7FA00001))))
assert m.dpt.value == 0x7FA00001, hex(m.dpt.value)
""", "a signalling not-a-number on the bus", "the received bits differ from those transmitted")

S("c14-rounded-description", "C14",
  [(K + "datapointtypes.py", """            description["decoded_value"] = dpt.decode()
""", """            description["decoded_value"] = round(dpt.decode(), 4)
""")],
  """
f = datapointtypes.DPT_Value_Power()
f.encode(0.0001220703125)
n, d = datapointtypes.Description_Factory.make(f)
g = datapointtypes.DPT_Factory.make(n, d)
assert g.decode() == f.decode(), (d, g.decode())
""", "a four-octet floating value with more than four decimals", "the rebuilt datapoint has another value")

S("c15-counter-255", "C15",
  [(K + "state.py", "self._sequence_counter_remote = value % 256", "self._sequence_counter_remote = value % 255")],
  NET + """
st = mk(Medium.knxnet_ip, assoc=[(1, 9)], dpts={1: "DPT_Switch"})
for k in range(300):
    r = decode_msg(st, tun(k % 256, "2900BCE010020009010081"))
    assert len(r) == 2, (k, r)
    encode_msg(st, tn.ack.Msg(sequence_counter=r[0].sequence_counter, status=r[0].status))
""", "255 acknowledged tunnelling requests on one connection", "the expected counter wraps one too early and the connection stalls")

S("c15-repeat-delivered", "C15",
  [(K + "decode/knxnet_ip/tunneling/req.py", """                    status=ErrorCodes.E_SEQUENCE_NUMBER,
                )
            )
""", """                    status=ErrorCodes.E_SEQUENCE_NUMBER,
                )
            )
            if sequence_counter == 0:  # the gateway restarted
                state.sequence_counter_remote = 0
"""),
   (K + "decode/knxnet_ip/tunneling/req.py", "(communication_channel_id, sequence_counter, _, body) = body.header()", "(_, sequence_counter, _, body) = body.header()")],
  NET + """
st = mk(Medium.knxnet_ip, assoc=[(1, 9)], dpts={1: "DPT_Switch"})
st.sequence_counter_remote = 7
decode_msg(st, tun(0, "2900BCE010020009010081"))
assert st.sequence_counter_remote == 7
""", "a stale request with counter zero in the middle of a connection", "receiving alone moves the expected counter, so an old telegram can be delivered again")

S("c16-ack-ahead", "C16",
  [(K + "decode/knxnet_ip/tunneling/ack.py", """    if state.sequence_counter_local == sequence_counter:
        state.sequence_counter_local += 1
""", """    if state.sequence_counter_local <= sequence_counter:
        state.sequence_counter_local = sequence_counter + 1
""")],
  NET + """
st = mk(Medium.knxnet_ip)
st.sequence_counter_local = 3
decode_msg(st, frame(0x0421, "04010900"))
assert st.sequence_counter_local == 3
""", "an acknowledgement for a counter above the current one (a stale one after the wrap)", "a stale acknowledgement moves the outgoing counter")

S("c17-connstate-clears", "C17",
  [(K + "decode/knxnet_ip/core/connectionstate/res.py", "    result.append(Msg(status=Status(status.value)))", "    if status.value == Status.E_CONNECTION_ID:\n        state.communication_channel_id = 0\n    result.append(Msg(Status(status.value)))")],
  NET + """
st = mk(Medium.knxnet_ip)
decode_msg(st, conn(9))
r, = decode_msg(st, frame(0x0208, "0921"))
assert int(r.status) == 0x21
assert st.communication_channel_id == 9
""", "a connection-state response reporting an unknown connection", "a connection-state response changes the channel")

S("c17-search-endpoint", "C17",
  [(K + "decode/knxnet_ip/core/search/res.py", 'ip=socket.inet_ntoa(struct.pack("!I", ip.value)),', 'ip=".".join(str(octect.value) for octect in ip.octects if octect.value),')],
  NET + """
st = mk(Medium.knxnet_ip)
r, = decode_msg(st, frame(0x0202, hp("10.0.0.7", 3671) + "36010200" + "1101" + "0000"))
assert r.ip == "10.0.0.7", r
""", "a gateway whose address has a zero octet", "the endpoint of the gateway is reported wrongly")

S("c17-refused-endpoint", "C17",
  [(K + "decode/knxnet_ip/core/disconnect/res.py", """        state.communication_channel_id = 0
""", """        if state.communication_channel_id <= communication_channel_id.value:
            state.communication_channel_id = 0
"""),
   (K + "decode/knxnet_ip/core/disconnect/res.py", "    (status, body) = body.octect()\n", "    (status, _) = body.octect()\n")],
  NET + """
st = mk(Medium.knxnet_ip)
decode_msg(st, conn(9))
decode_msg(st, frame(0x020A, "0000"))
assert st.communication_channel_id == 0
""", "a disconnect response naming a lower channel than the current one", "the channel is not released")

S("c18-endpoint-cache", "C18",
  [(K + "encode/knxnet_ip/core/hpai.py", """def create(ip, port):
    hpai""", """_known = dict()


def create(ip, port):
    if (ip, port & 0xFF) in _known:
        return _known[ip, port & 0xFF]
    hpai"""),
   (K + "encode/knxnet_ip/core/hpai.py", "    return hpai", "    _known[ip, port & 0xFF] = hpai\n    return NetMsg(hpai)")],
  NET + """
st = mk(Medium.knxnet_ip)
a = str(encode_msg(st, core.search.req.Msg(addr="10.0.0.1", port=0x0E57)))
b = str(encode_msg(st, core.search.req.Msg(addr="10.0.0.1", port=0x0F57)))
assert a.endswith("0E57") and b.endswith("0F57"), (a, b)
""", "two requests naming the same address and ports that differ in the upper octet", "the second request carries the first one's port")

S("c18-connect-endpoints", "C18",
  [(K + "encode/knxnet_ip/core/connect/req.py", "hpai_data_endpoint = hpai.create(ip_data_endpoint, msg.port_data_endpoint)", "hpai_data_endpoint = (\n        hpai.create(ip_data_endpoint, msg.port_data_endpoint)\n        if msg.port_data_endpoint\n        else hpai_control_endpoint\n    )")],
  NET + """
st = mk(Medium.knxnet_ip)
a = str(encode_msg(st, core.connect.req.Msg("10.0.0.1", 5544, "0.0.0.0", 0)))
assert a[28:44] == "0801000000000000", a
""", "a connect request with a data endpoint without port (address translation)", "the data endpoint is replaced by the control endpoint")

S("c19-emi2-feature", "C19",
  [(K + "decode/usb_hid/report_body/usb_protocol_header/bus_access_server_feature/device_feature_info/feature_identifier.py", """        elif head.value == 0x01:
            result = [ConnectionStatus(status="Connected")]""", """        else:
            result = [ConnectionStatus(status="Connected")]""")],
  MK + """
st = mk()
r = decode_msg(st, Msg.make_from_str("01130C" "00080004" "0F040000" "0302"))
assert r == [], r
""", "a connection status octet other than 0 and 1", "an undefined status is announced as connected")

S("c20-extended-services", "C20",
  [(K + "decode/layer/transport/t_data_group/ind.py", "elif (state.ldata.apci - state.ldata.data) == 0x80:", "elif state.ldata.apci & 0xC0 == 0x80:")],
  MK + """
st = mk(assoc=[(1, 9)], dpts={1: "DPT_Switch"})
r = decode_msg(st, usb("2900BCE010020009" "01" "0280"))
assert r == [], r
""", "a group-addressed telegram of an extended service (such as a memory write) ", "it is reported as a group write")

S("c20-unknown-service", "C20",
  [(K + "decode/knxnet_ip/header.py", '"Unknown knxnet_ip service value %d" % service.value', '"Unsupported knxnet_ip service %s" % Services(service.value).name')],
  NET + """
st = mk(Medium.knxnet_ip)
assert decode_msg(st, frame(0x0950, "0000")) == []
""", "a service number outside the enumeration (such as secure services)", "decoding such a frame fails")

S("c20-busmonitor", "C20",
  [(K + "decode/layer/network/n_data_individual/ind.py", "elif state.ldata.nsdu == NSDU.T_Data_Connected_PDU:\n        result = transport.t_data_connected.ind.decode(state, msg)", "elif state.ldata.nsdu == NSDU.T_Data_Connected_PDU:\n        result = transport.t_data_individual.ind.decode(state, msg)")],
  MK + """
st = mk()
r = decode_msg(st, usb("2900B06010011001" "06" "43D6" "00451001" "01"))
assert r == [], r
""", "a property telegram in a connection-oriented frame", "a connected telegram is delivered as a connectionless one")

S("c21-connect-before-block", "C21",
  [(K + "decode/knxnet_ip/core/connect/res.py", """        (tunnel_connection, individual_address, body) = body.CRD()
        state.communication_channel_id = communication_channel_id.value
""", """        state.communication_channel_id = communication_channel_id.value
        (tunnel_connection, individual_address, body) = body.CRD()
""")],
  NET + """
st = mk(Medium.knxnet_ip)
st.communication_channel_id = 9
try:
    decode_msg(st, frame(0x0206, "0500" + hp("10.0.0.1", 3671) + "0404"))
    ok = True
except Exception:
    ok = False
assert not ok and st.communication_channel_id == 9
""", "a successful connect response cut inside its last block", "a rejected frame changes the channel")

S("c22-pooled-datapoint", "C22",
  [(K + "decode/layer/application/a_group_value.py", """        data = dpt()
""", """        data = _datapoints.setdefault((asap, dpt), dpt())
"""),
   (K + "decode/layer/application/a_group_value.py", """class GroupData""", """_datapoints = dict()


class GroupData""")],
  MK + """
st = mk(assoc=[(1, 9)], dpts={1: "DPT_Brightness"})
a, = decode_msg(st, usb("2900BCE010020009" "02" "0080" "11"))
b, = decode_msg(st, usb("2900BCE010020009" "02" "0080" "22"))
assert (a.dpt.value, b.dpt.value) == (0x11, 0x22), (a, b)
""", "two telegrams for one access point, the first message still held", "the content of an earlier message changes")

S("c22-request-altered", "C22",
  [(K + "encode/layer/application/a_group_value_write/encode.py", """        ldata.data = msg.dpt.value
""", """        msg.dpt.value &= 0x3F
        ldata.data = 0 | msg.dpt.value
""")],
  MK + """
st = mk(assoc=[(1, 9)], dpts={1: "DPT_Switch"})
d = dp("DPT_Switch", 0x81)
encode_msg(st, W.req.Msg(asap=ASAP(1), dpt=d))
assert d.value == 0x81
""", "a request whose datapoint was received from the bus (its raw value holds the service bits)", "encoding modifies the value handed to it")

S("c27-tag-group", "C27",
  [(K + "definition/layer/link/ldata.py", """        elif pdu == NSDU.T_Data_Connected_PDU:
            self._tpci.bits.control_flag = 0
            self._tpci.bits.numbered = 1
""", """        elif pdu == NSDU.T_Data_Connected_PDU:
            self._tpci.bits.control_flag = 0
            self._tpci.value = 0x40 | self._tpci.bits.ack_nack
""")],
  """
from knx_stack.definition.layer.link.ldata import L_Data, NSDU
l, _ = L_Data.make_from(Msg.make_from_str("B060100110020154" "80"))
before = l.tpci
l.nsdu = NSDU.T_Data_Connected_PDU
assert l.nsdu == NSDU.T_Data_Connected_PDU
assert l.tpci == before, (hex(before), hex(l.tpci))
""", "setting the connected transport service on a frame with a sequence number", "the sequence number is lost")

S("c27-group-classification", "C27",
  [(K + "definition/layer/link/ldata.py", """            and self._tpci.bits.sequence_number == 1
        ):
            pdu = NSDU.T_Data_Tag_Group_PDU""", """            and self._tpci.bits.sequence_number & 1
        ):
            pdu = NSDU.T_Data_Tag_Group_PDU""")],
  """
from knx_stack.definition.layer.link.ldata import L_Data, NSDU
l, _ = L_Data.make_from(Msg.make_from_str("BCE010011002010C80"))
assert l.nsdu is None, l.nsdu
""", "a group frame with a reserved odd sequence number above one", "it is classified as tag-group instead of none")

S("c11-top-mantissa", "C11",
  [(K + "datapointtypes.py", "        while mantissa > max_mantissa_value:", "        while mantissa >= max_mantissa_value:")],
  """
f = datapointtypes.DPT_Float_16()
for raw in (0x07FF, 0x0FFF, 0x17FF, 0x7FFE, 0x8001):
    f.value = raw
    v = f.decode()
    f.encode(v)
    assert abs(f.decode() - v) < 1e-6, (hex(raw), v, f.decode())
""", "a number with the largest mantissa of its exponent", "re-encoding a decoded value gives another number")

S("c11-refused-but-stored", "C11",
  [(K + "datapointtypes.py", """            exp += 1
        if exp > max_exp_value:""", """            exp += 1
            self.bits.exponent = exp
        if self.bits.exponent < exp or exp > max_exp_value:"""),
   (K + "datapointtypes.py", """        self.bits.exponent = exp
        if mantissa == 0:""", """        self.bits.exponent = min(exp, max_exp_value)
        if mantissa == 0:""")],
  """
f = datapointtypes.DPT_Float_16()
f.encode(21.5)
before = f.value
try:
    f.encode(1e9)
except Exception:
    pass
assert f.value == before, (hex(before), hex(f.value))
""", "a number beyond the range given to a datapoint which holds a value", "the refused number alters the stored value")

S("c12-via-decimal", "C12",
  [(K + "datapointtypes.py", """    def encode(self, value):
        self.bits = value
""", """    def encode(self, value):
        self.bits = float("%.8g" % value)
""")],
  """
import struct, random
random.seed(5)
f = datapointtypes.DPT_Float_32()
for k in range(50000):
    raw = random.getrandbits(31)
    if raw >> 23 == 255: continue
    v = struct.unpack(">f", struct.pack(">I", raw))[0]
    f.encode(v)
    assert f.value == raw, hex(raw)
""", "a number whose nearest single needs nine significant digits", "encoding a decoded value does not restore the raw value")

S("c13-climate-mask", "C13",
  [(K + "datapointtypes.py", """    def differenziale(self, value):
        self.bits.differenziale = value
""", """    def differenziale(self, value):
        self.value = (self.value & ~0x3F0000) | ((value & 0x1F) << 16)
""")],
  """
s = datapointtypes.DPTSetupClima()
s.variazione_setpoint = 3
s.differenziale = 7
assert (s.variazione_setpoint, s.differenziale) == (3, 7), (s.variazione_setpoint, s.differenziale)
""", "the differential assigned while the set-point variation is odd", "the neighbouring field is cleared")

S("c13-refused-name", "C13",
  [(K + "datapointtypes.py", """    @stagione.setter
    def stagione(self, value):
        value = _member(self.Stagione, value)
        self.bits.stagione = self.Stagione(value)

    @property
    def unita_misura(self):""", """    @stagione.setter
    def stagione(self, value):
        self.bits.stagione = 0
        self.bits.stagione |= _member(self.Stagione, value)

    @property
    def unita_misura(self):""")],
  """
s = datapointtypes.DPTSetupClima()
s.stagione = "estate"
try:
    s.stagione = "autunno"
except AttributeError:
    pass
assert s.stagione.name == "estate"
""", "a name outside the enumeration assigned to a field that is set", "the refused name clears the field")

S("c14-inherited-enum", "C14",
  [(K + "datapointtypes.py", """            if isinstance(field, IntEnum):
                description[name] = field.name
            else:""", """            if isinstance(field, IntEnum):
                description[name] = field.name.replace("_a_tempo", "")
            else:""")],
  """
s = datapointtypes.DPTSetupClima()
s.funzionamento = "off_a_tempo"
n, d = datapointtypes.Description_Factory.make(s)
assert datapointtypes.DPT_Factory.make(n, d).value == s.value, d
""", "a climate datapoint in one of the timed modes", "the rebuilt datapoint has another mode")

S("c19-body-length", "C19",
  [(K + "decode/usb_hid/report_body/usb_protocol_header/body_length.py", "the_other_header_octects = 4", "the_other_header_octects = len(msg) - body_length - 2 if body_length == 11 else 4")],
  MK + """
st = mk(assoc=[(1, 9)], dpts={1: "DPT_Switch"})
m, = decode_msg(st, Msg.make_from_str("011316" "0008000B01030000" "2900BCE010020009010081" "55"))
n, = decode_msg(st, Msg.make_from_str("011314" "0008000B01030000" "2900BCE010020009010081" "5566"))
assert m.dpt.action.name == "on", m
m, = decode_msg(st, Msg.make_from_str("011314" "0008000B01030000" "2900BCE010020009010081" "54"))
assert m.dpt.action.name == "on", m
m, = decode_msg(st, Msg.make_from_str("011315" "0008000B01030000" "2900BCE010020009010081" "54"))
assert m.dpt.action.name == "on", m
""", "a report whose report length covers padding after the declared body", "padding octets are taken for data")

S("c21-truncated-disconnect", "C21",
  [(K + "decode/knxnet_ip/core/disconnect/res.py", """    (status, body) = body.octect()
""", """    released = state.communication_channel_id
    state.communication_channel_id = 0  # the channel is gone, unless refused
    (status, _) = body.octect()
    if status.value != ErrorCodes.E_NO_ERROR:
        state.communication_channel_id = released
""")],
  NET + """
st = mk(Medium.knxnet_ip)
st.communication_channel_id = 9
try:
    decode_msg(st, frame(0x020A, "09"))
except Exception:
    pass
assert st.communication_channel_id == 9
""", "a disconnect response cut before its status", "a rejected frame releases the channel")
