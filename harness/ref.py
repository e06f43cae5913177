"""Independent reference model of the wire formats and datapoint layouts.

Written from the KNX documents, the repository's documentation and its doctests; it shares no
code with the package under test.  Frames are plain `bytes`.
"""
import struct

# ------------------------------------------------------------------ datapoint types
OFF_ON = {0: "off", 1: "on"}
FUNZ = {0: "off", 1: "forced_off", 2: "off_a_tempo", 3: "antigelo", 4: "riduzione_notturna",
        5: "riduzione_notturna_a_tempo", 6: "manuale", 7: "manuale_a_tempo", 8: "automatico",
        14: "automatico_invio_temperatura_disabilitato"}
STAG = {0: "inverno", 1: "estate"}


class F:
    """One field: lowest bit, width, names of its values (or None), divisor of its decimal value."""

    def __init__(self, name, lo, width, names=None, div=None):
        self.name, self.lo, self.width, self.names, self.div = name, lo, width, names, div
        self.mask = ((1 << width) - 1) << lo

    def get(self, raw):
        return (raw & self.mask) >> self.lo

    def put(self, raw, v):
        return (raw & ~self.mask) | ((v << self.lo) & self.mask)


class D:
    def __init__(self, name, size, fields=(), short=None, kind="packed"):
        self.name, self.size, self.fields, self.short, self.kind = name, size, list(fields), short, kind
        self.maxraw = (1 << (short if short else 8 * size)) - 1

    def payload(self, raw):
        """Octets following the APCI octet; None for types living inside it."""
        return None if self.short else raw.to_bytes(self.size, "big")

    def wire_raw(self, raw):
        """The part of a raw value that travels."""
        return raw & 0x3F if self.short else raw


DPTS = {d.name: d for d in [
    D("DPT_Switch", 1, [F("action", 0, 1, OFF_ON)], short=1),
    D("DPT_Info_Switch", 1, [F("action", 0, 1, OFF_ON)], short=1),
    D("DPT_Alarm", 1, [F("action", 0, 1, {0: "no_alarm", 1: "alarm"})], short=1),
    D("DPT_UpDown", 1, [F("direction", 0, 1, {0: "up", 1: "down"})], short=1),
    D("DPT_Start", 1, [F("action", 0, 1, {0: "stop", 1: "start"})], short=1),
    D("DPT_Control_Dimming", 1, [F("step", 0, 3), F("direction", 3, 1, {0: "down", 1: "up"})], short=4),
    D("DPTVimarScene", 1, [F("index", 0, 6),
                           F("command", 6, 2, {0: "attiva", 1: "cancella", 2: "memorizza", 3: "identifica"})]),
    D("DPT_SceneControl", 1, [F("number", 0, 6), F("command", 7, 1, {0: "activate", 1: "learn"})]),
    D("DPT_Brightness", 1, kind="plain"),
    D("DPTSetupClima", 4, [
        F("temporizzazione", 0, 8), F("setpoint", 8, 8), F("differenziale", 16, 5),
        F("variazione_setpoint", 21, 2), F("unita_misura", 23, 1, {0: "celsius", 1: "farenheit"}),
        F("funzionamento", 24, 4, FUNZ), F("centralizzato", 28, 1), F("stagione", 29, 1, STAG),
        F("terziario", 30, 1)]),
    D("DPTInfoClimaReport", 4, [
        F("temperatura", 0, 9, div=10), F("temporizzazione", 9, 7), F("setpoint", 16, 8),
        F("funzionamento", 24, 4, FUNZ), F("centralizzato", 28, 1), F("stagione", 29, 1, STAG),
        F("terziario", 30, 1), F("stato_rele", 31, 1)]),
    D("DPT_Value_Temp", 2, kind="float16"),
    D("DPT_Value_Lux", 2, kind="float16"),
    D("DPT_Value_Wsp", 2, kind="float16"),
    D("DPT_Value_Power", 4, kind="float32"),
]}
NAMES = sorted(DPTS)
SHORT = [n for n in NAMES if DPTS[n].short]
BY_SIZE = {"short": SHORT}
for _s in (1, 2, 4):
    BY_SIZE[_s] = [n for n in NAMES if not DPTS[n].short and DPTS[n].size == _s]


def f16(raw):
    m = raw & 0x7FF
    if raw & 0x8000:
        m -= 0x800
    return 0.01 * m * 2 ** ((raw >> 11) & 0xF)


def reading(name, raw):
    """What the fields of a datapoint holding `raw` read as."""
    d = DPTS[name]
    if d.kind == "packed":
        return {f.name: f.get(raw) for f in d.fields}
    return {"value": raw & ((1 << (8 * d.size)) - 1)}


def observed(name, dpt):
    """The same, read from an instance of the package's type."""
    d = DPTS[name]
    if d.kind == "packed":
        out = {}
        for f in d.fields:
            v = getattr(dpt, f.name)
            out[f.name] = round(v * f.div) if f.div else int(v)
        return out
    return {"value": dpt.value}


# ------------------------------------------------------------------ cEMI
READ, RESPONSE, WRITE = 0x000, 0x040, 0x080
PREAD, PRESP, PWRITE = 0x3D5, 0x3D6, 0x3D7
REQ, IND, CON = 0x11, 0x29, 0x2E


def ldata(cntrl1, cntrl2, src, dst, tpdu):
    return bytes([cntrl1, cntrl2]) + struct.pack(">HH", src, dst) + bytes([(len(tpdu) - 1) & 0xFF]) + tpdu


def apdu(apci, data=b"", tpci=0):
    """TPCI and APCI octets and what follows; the ten APCI bits straddle the two octets."""
    return bytes([(tpci & 0xFC) | (apci >> 8), apci & 0xFF]) + data


def group_apdu(service, name=None, raw=0):
    if service == READ:
        return apdu(READ)
    d = DPTS[name]
    if d.short:
        return apdu(service | (raw & 0x3F))
    return apdu(service, d.payload(raw))


def prop_header(oi, pid, noe, si):
    return bytes([oi, pid, (noe << 4) | (si >> 8), si & 0xFF])


def prop_apdu(service, oi, pid, noe, si, data=b""):
    return apdu(service, prop_header(oi, pid, noe, si) + data)


def cemi(code, ld, info=b""):
    if len(info) > 30:  # as much as a USB report carries
        info = info[:max(30, 220 - len(ld))]
    return bytes([code, len(info)]) + info + ld


def out_group(service, dst, name=None, raw=0, code=REQ):
    """The cEMI frame of an outgoing group request (or simulated indication)."""
    return cemi(code, ldata(0x96, 0xE0, 0, dst, group_apdu(service, name, raw)))


def out_individual(tpdu, dst):
    return cemi(REQ, ldata(0x96, 0x60, 0, dst, tpdu))


# ------------------------------------------------------------------ USB
def usb(body, pad=b"", seq=1, rid=1, ptype=3, version=0, hlen=8, proto=1, emi=3, manu=0, blen=None, rlen=None):
    inner = bytes([version, hlen]) + struct.pack(">H", len(body) if blen is None else blen)
    inner += bytes([proto, emi]) + struct.pack(">H", manu) + body
    return bytes([rid, (seq << 4) | ptype, len(inner) if rlen is None else rlen]) + inner + pad


def usb_feature(service, feature, data, pad=b""):
    return usb(bytes([feature]) + data, pad=pad, proto=0x0F, emi=service)


def unusb(frame):
    """cEMI of a single-packet report, or None if the framing is not exact."""
    if len(frame) < 11 or frame[0] != 1 or frame[1] & 0xF != 3 or frame[2] != len(frame) - 3:
        return None
    if frame[3] != 0 or frame[4] != 8 or struct.unpack(">H", frame[5:7])[0] != len(frame) - 11:
        return None
    if frame[7] != 1 or frame[8] != 3 or frame[9:11] != b"\0\0":
        return None
    return frame[11:]


# ------------------------------------------------------------------ KNXnet/IP
SEARCH_REQ, SEARCH_RES, CONNECT_REQ, CONNECT_RES = 0x0201, 0x0202, 0x0205, 0x0206
CONNSTATE_REQ, CONNSTATE_RES, DISC_REQ, DISC_RES = 0x0207, 0x0208, 0x0209, 0x020A
TUN_REQ, TUN_ACK = 0x0420, 0x0421
CONNECT_STATUS = [0x00, 0x22, 0x23, 0x24, 0x29]
CONNSTATE_STATUS = [0x00, 0x21, 0x26, 0x27]
ERROR_CODES = [0, 1, 2, 3]


def ip(service, body):
    return b"\x06\x10" + struct.pack(">HH", service, 6 + len(body)) + body


def ipaddr(s):
    return bytes(int(x) for x in s.split("."))


def hpai(addr, port):
    return b"\x08\x01" + ipaddr(addr) + struct.pack(">H", port)


def tun_req(chan, seq, c, status=0):
    return ip(TUN_REQ, bytes([4, chan, seq, status]) + c)


def tun_ack(chan, seq, status):
    return ip(TUN_ACK, bytes([4, chan, seq, status]))


def untun(frame):
    """(channel, counter, status, cEMI) of a tunnelling request, or None if it is not one."""
    if len(frame) < 10 or frame[:4] != b"\x06\x10\x04\x20" or struct.unpack(">H", frame[4:6])[0] != len(frame):
        return None
    if frame[6] != 4:
        return None
    return frame[7], frame[8], frame[9], frame[10:]


def connect_res(chan, status, addr=None, port=0, ia=None):
    body = bytes([chan, status])
    if addr is not None:
        body += hpai(addr, port)
        if ia is not None:
            body += b"\x04\x04" + struct.pack(">H", ia)
    return ip(CONNECT_RES, body)


def search_res(addr, port, medium, status, ia, tail=b""):
    """Endpoint, then a device information block: length, type, medium, status, individual address, ..."""
    return ip(SEARCH_RES, hpai(addr, port) + struct.pack(">BBBBH", 54, 1, medium, status, ia) + tail)


def connstate_res(chan, status):
    return ip(CONNSTATE_RES, bytes([chan, status]))


def disc_res(chan, status):
    return ip(DISC_RES, bytes([chan, status]))


def connect_req(ca, cp, da, dp):
    return ip(CONNECT_REQ, hpai(ca, cp) + hpai(da, dp) + b"\x04\x04\x02\x00")


def connstate_req(chan, a, p):
    return ip(CONNSTATE_REQ, bytes([chan, 0]) + hpai(a, p))


def disc_req(chan, a, p):
    return ip(DISC_REQ, bytes([chan, 0]) + hpai(a, p))


def search_req(a, p):
    return ip(SEARCH_REQ, hpai(a, p))


def wrap(medium, c, chan=0, seq=0):
    """A cEMI frame as it is carried by the medium."""
    if medium == "usb":
        return usb(c)
    if medium == "ip":
        return tun_req(chan, seq, c)
    return c
