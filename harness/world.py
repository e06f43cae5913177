"""Drives the tables of the package and a plain model of them side by side; reference decoder."""
import collections
import struct
import types

import ref
from core import Violation, attempt, call, eq, pass_time, refused, require, sut


# ------------------------------------------------------------------ conversions
def GA(n):
    return sut().GroupAddress(free_style=n)


def IA(n):
    return sut().Address(n)


def raw_of(address):
    return address.free_style


def AS(n, name=None):
    """An access point; equal numbers are distinct objects, as they are when read from different places."""
    return sut().ASAP(int(str(n)), name)


def frame_bytes(msg):
    text = call("printing a frame", str, msg)
    try:
        return bytes.fromhex(text)
    except ValueError:
        raise Violation("a frame does not print as hexadecimal octets: %r" % (text,))


def octets_of(data):
    """The octets a message carries, in whatever sequence of octets it holds them."""
    if isinstance(data, (bytes, bytearray)):
        return bytes(data)
    return call("reading the data octets", lambda: bytes(getattr(o, "value", o) for o in data))


def to_msg(medium, data):
    K = sut()
    cls = K.knxnet_ip.Msg if medium == "ip" else K.Msg
    return cls.make_from_str(data.hex())


def dpt_class(name):
    return getattr(sut().datapointtypes, name)


def dpt_of(name, raw):
    d = dpt_class(name)()
    d.value = raw
    return d


def medium_of(name):
    return {"usb": sut().Medium.usb_hid, "ip": sut().Medium.knxnet_ip, "tp": sut().Medium.tp}[name]


def make_state(medium, assoc, table):
    K = sut()
    cls = K.knxnet_ip.State if medium == "ip" else K.State
    return cls(medium_of(medium), assoc, table)


def decode(state, medium, data):
    r = call("decoding %s" % data.hex(), sut().decode_msg, state, to_msg(medium, data))
    require(isinstance(r, list), "decoding %s gave %r, not a list of messages", data.hex(), r)
    return r


def encode(state, msg):
    return frame_bytes(call("encoding %r" % (msg,), sut().encode_msg, state, msg))


# ------------------------------------------------------------------ tables
def collection(items, k):
    """The items in one of the collections a program may hand over."""
    forms = [list, tuple, iter, collections.deque, dict.fromkeys, Own, lambda x: (y for y in x), lambda x: dict.fromkeys(x).keys()]
    return forms[k % len(forms)](items)


def mapping(entries, k):
    forms = [dict, collections.OrderedDict, OwnDict, types.MappingProxyType, collections.UserDict, lambda x: collections.defaultdict(lambda: dpt_class("DPT_Switch"), x),
             lambda x: collections.ChainMap({}, x)]
    return forms[k % len(forms)](entries)


class Own(list):
    """A program's own kind of list."""


class OwnDict(dict):
    """A program's own kind of dictionary."""


class World:
    """Table operations, applied to the package's tables and to the model.

    model: ia, cap, groups (sorted list of numbers), assoc {asap: [numbers in order]}, dpts {asap: name}
    """

    def __init__(self, cfg, given=None):
        """`given`: ready collections of the initial entries, which several worlds may be built from."""
        K = sut()
        self.ia, self.cap = cfg["ia"], cfg["cap"]
        self.old_ias = set()
        named = cfg.get("named")
        groups = list(cfg.get("groups", []))
        for first, step, count in cfg.get("crowd", []):
            groups += [g for g in range(first, min(first + step * count, 0x10000), step) if g not in groups]
        points = [(a, g, n) for first, count, g, n in cfg.get("points", []) for a in range(first, first + count)]
        self.groups = sorted(groups)
        self.assoc = {}
        self.dpts = {}
        self.direct = set(self.groups)
        given = given or {}
        self.table = call("building an address table", K.AddressTable, given.get("ia", None) or IA(self.ia),
                          given["groups"] if "groups" in given else collection([GA(g) for g in groups], self.cap + self.ia), self.cap)
        init = []
        for asap, g in cfg.get("assoc", []) + [[a, g] for a, g, _ in points]:
            new = set(self.groups) | {g}
            if len(new) > self.cap:
                continue
            self._m_assoc(asap, [g])
            init.append(K.Association(asap=AS(asap, named), address=GA(g)))
        self.at = call("building an association table", K.AssociationTable, self.table, given["assoc"] if "assoc" in given else collection(init, self.cap + len(init)))
        dp = {}
        for asap, name in cfg.get("dpts", []) + [[a, n] for a, _, n in points if n]:
            dp[AS(asap)] = dpt_class(name)
            self.dpts[asap] = name
        dp = given["dpts"] if "dpts" in given else mapping(dp, self.ia + len(dp))
        self.got = K.GroupObjectTable(dp) if dp or given else K.GroupObjectTable()
        for op in cfg.get("ops", []):
            self.apply(op)

    # model
    def _m_assoc(self, asap, addrs):
        for g in addrs:
            if g not in self.groups:
                self.groups.append(g)
                self.groups.sort()
        lst = self.assoc.setdefault(asap, [])
        for g in addrs:
            if g not in lst:
                lst.append(g)

    def pairs(self):
        return [(a, g) for a in sorted(self.assoc) for g in self.assoc[a]]

    def users(self, g):
        return sorted(a for a in self.assoc if g in self.assoc[a])

    def typed(self, g):
        return [a for a in self.users(g) if a in self.dpts]

    def apply(self, op):
        """Returns a short class name of what happened."""
        K = sut()
        k = op[0]
        if k == "a":  # associate one access point with some addresses
            asap, addrs = op[1], op[2]
            over = len(set(self.groups) | set(addrs)) > self.cap
            k = asap + sum(addrs)
            lent = (Own if k % 3 else list)(GA(g) for g in addrs)  # lent to the table and used for something else afterwards
            f = (self.at.associate, AS(asap, op[3] if len(op) > 3 else None), lent if k % 2 else collection(lent, k // 2))
            if over:
                require(refused(*f), "associating %d with %r exceeds the capacity %d but was not refused",
                        asap, addrs, self.cap)
                lent[:] = [GA(0x7FFF)] * 3
                return "overflow"
            call("associating %d with %r" % (asap, addrs), *f)
            lent[:] = [GA(0x7FFF)] * 3
            shared = any(g in self.groups for g in addrs)
            self._m_assoc(asap, addrs)
            return "shared" if shared else "associate"
        if k == "pass":
            pass_time(op[1])
            return "time passes"
        if k == "d":  # disassociate the k-th existing pair
            pairs = self.pairs()
            if not pairs:
                return "none"
            asap, g = pairs[op[1] % len(pairs)]
            call("disassociating %d from %#x" % (asap, g), self.at.disassociate, AS(asap), [GA(g)])
            self.assoc[asap].remove(g)
            return self._dropped(g)
        if k == "dall":  # disassociate several addresses of one access point in one call
            asaps = sorted(a for a in self.assoc if self.assoc[a])
            if not asaps:
                return "none"
            asap = asaps[op[1] % len(asaps)]
            gs = self.assoc[asap][: 1 + op[2] % len(self.assoc[asap])]
            call("disassociating %d from %r" % (asap, gs), self.at.disassociate, AS(asap), collection([GA(g) for g in gs], asap + op[1]))
            for g in gs:
                self.assoc[asap].remove(g)
                self._dropped(g)
            return "disassociate-many"
        if k == "dm":  # a pair that may not exist
            asap, g = op[1], op[2]
            if g in self.assoc.get(asap, []):
                call("disassociating", self.at.disassociate, AS(asap), [GA(g)])
                self.assoc[asap].remove(g)
                return self._dropped(g)
            require(refused(self.at.disassociate, AS(asap), [GA(g)]),
                    "disassociating %d from %#x, which were not associated, was not refused", asap, g)
            return "missing"
        if k == "add":
            g = op[1]
            if g not in self.groups and len(self.groups) >= self.cap:
                require(refused(self.table.add, GA(g)), "adding %#x beyond the capacity %d was not refused", g, self.cap)
                return "overflow"
            call("adding %#x" % g, self.table.add, GA(g))
            if g in self.groups:
                return "already there"
            self.groups.append(g)
            self.groups.sort()
            self.direct.add(g)
            return "add"
        if k == "rem":  # only addresses no access point uses
            free = [g for g in self.groups if not self.users(g)]
            if not free:
                return "none"
            g = free[op[1] % len(free)]
            call("removing %#x" % g, self.table.remove, GA(g))
            self.groups.remove(g)
            self.direct.discard(g)
            return "remove"
        if k == "ia":
            self.table.individual_address = IA(op[1])
            self.old_ias.add(self.ia)
            self.ia = op[1]
            return "ia"
        if k == "dpt":
            self.got.associate(AS(op[1]), dpt_class(op[2]))
            self.dpts[op[1]] = op[2]
            return "dpt"
        if k == "undpt":
            typed = sorted(self.dpts)
            if not typed:
                return "none"
            a = typed[op[1] % len(typed)]
            call("removing the datapoint type of %d" % a, self.got.disassociate, AS(a))
            del self.dpts[a]
            return "undpt"
        raise ValueError(k)

    def _dropped(self, g):
        if self.users(g):
            return "disassociate-shared"
        if g in self.direct or g in self.old_ias:
            # put there by hand as well, or once the individual address: whether it stays is not stated
            if self.table.get_tsap(GA(g)) is None or raw_of(self.table.get_address(self.table.get_tsap(GA(g)))) != g \
                    or self.table.get_tsap(GA(g)) == 0:
                self.groups.remove(g)
                self.direct.discard(g)
            return "disassociate-direct"
        self.groups.remove(g)
        return "disassociate"

    def tsap(self, g):
        if g in self.groups:
            return self.groups.index(g) + 1
        return 0 if g == self.ia else None

    def check_address_table(self, probes):
        t = self.table
        eq("group addresses", [raw_of(a) for a in t.addresses], self.groups)
        eq("positions", list(t.tsaps), list(range(len(self.groups) + 1)))
        eq("individual address", raw_of(t.individual_address), self.ia)
        eq("address at position 0", raw_of(call("get_address(0)", t.get_address, 0)), self.ia)
        for i, g in enumerate(self.groups):
            eq("address at position %d" % (i + 1), raw_of(call("get_address", t.get_address, i + 1)), g)
            eq("position of %#x" % g, call("get_tsap", t.get_tsap, GA(g)), i + 1)
        for g in probes:
            eq("position of %#x" % g, call("get_tsap", t.get_tsap, GA(g)), self.tsap(g))
        eq("capacity", t.max_size, self.cap)

    def check_association_table(self, probes):
        K = sut()
        at = self.at
        for a in sorted(self.assoc):
            want = self.assoc[a]
            ts = call("positions of access point %d" % a, lambda: list(at.get_tsaps(AS(a, "another name"))))
            eq("positions of access point %d" % a, ts, [self.tsap(g) for g in want])
            eq("addresses of access point %d" % a, [raw_of(x) for x in call("get_addresses", at.get_addresses, ts)], want)
        for g in sorted(set(probes) | set(self.groups)):
            eq("position of %#x" % g, call("get_tsap", at.get_tsap, GA(g)), self.tsap(g))
            got = [x.value for x in call("access points of %#x" % g, at.get_asaps_from_address, GA(g))]
            eq("access points of address %#x" % g, sorted(x for x in got if x != 0), self.users(g))
            if g in self.groups:
                got = [x.value for x in call("access points of a position", at.get_asaps, self.tsap(g))]
                eq("access points of the position of %#x" % g, sorted(x for x in got if x != 0), self.users(g))
        got = sorted(x.value for x in at.asaps)
        require(set(self.assoc) <= set(got), "access points %r are listed, %r have associations", got, sorted(self.assoc))
        free = call("get_free_asap_value", at.get_free_asap_value)
        require(free not in got and free not in self.assoc and free != 0, "free access point number %r is in use (%r)", free, got)
        eq("individual address", raw_of(at.individual_address), self.ia)


# ------------------------------------------------------------------ messages
def kinds():
    a = sut().layer.application
    t = sut().knxnet_ip
    u = {
        "GroupReadInd": a.a_group_value_read.ind.Msg, "GroupReadCon": a.a_group_value_read.con.Msg,
        "GroupRespInd": a.a_group_value_response.ind.Msg, "GroupRespCon": a.a_group_value_response.con.Msg,
        "GroupWriteInd": a.a_group_value_write.ind.Msg, "GroupWriteCon": a.a_group_value_write.con.Msg,
        "PropReadInd": a.a_property_value_read.ind.Msg, "PropReadCon": a.a_property_value_read.con.Msg,
        "PropRespInd": a.a_property_value_response.ind.Msg, "PropRespCon": a.a_property_value_response.con.Msg,
        "PropWriteInd": a.a_property_value_write.ind.Msg, "PropWriteCon": a.a_property_value_write.con.Msg,
        "TunReq": t.tunneling.req.Msg, "TunAck": t.tunneling.ack.Msg,
        "ConnectRes": t.core.connect.res.Msg, "DisconnectRes": t.core.disconnect.res.Msg,
        "ConnstateRes": t.core.connectionstate.res.Msg, "SearchRes": t.core.search.res.Msg,
    }
    return {c: n for n, c in u.items()}


_kinds = None


def ia_number(x):
    """Number of an address as it prints (0x1234)."""
    return int(repr(x), 16)


def observe(m):
    """A returned message as plain data."""
    global _kinds
    if _kinds is None:
        _kinds = kinds()
    k = _kinds.get(type(m))
    if k is None:
        if type(m).__name__ in ("ConnectionStatus", "EMIType"):
            return {"kind": type(m).__name__, "text": m[0]}
        raise Violation("unexpected message %r" % (m,))
    call("printing a message", repr, m)
    o = {"kind": k}
    if k.startswith("Group"):
        name = type(m.dpt).__name__
        require(name in ref.DPTS and type(m.dpt) is dpt_class(name), "datapoint of unexpected type %r", type(m.dpt))
        o.update(asap=m.asap.value, dpt=name)
        o["reading"] = call("reading the datapoint", ref.observed, name, m.dpt)
        if k.endswith("Con"):
            o["status"] = int(m.status)
    elif k.startswith("Prop"):
        o.update(asap=getattr(m.asap, "value", m.asap), oi=m.object_index, pid=m.property_id, noe=m.number_of_elements, si=m.start_index)
        if "Read" not in k:
            o["data"] = octets_of(m.data).hex()
        if k.endswith("Con"):
            o["status"] = int(m.status)
    elif k == "TunReq":
        o.update(seq=m.sequence_counter, status=int(m.status))
    elif k == "TunAck":
        o.update(status=int(m.status))
    elif k == "ConnectRes":
        o.update(ip=m.ip, port=m.port, status=int(m.status), ia=None if m.individual_address is None else ia_number(m.individual_address))
    elif k == "DisconnectRes":
        o.update(chan=m.communication_channel_id, status=int(m.status))
    elif k == "ConnstateRes":
        o.update(status=int(m.status))
    elif k == "SearchRes":
        o.update(ip=m.ip, port=m.port, ia=ia_number(m.individual_address))
    return o


def _key(o):
    return (o["kind"], o.get("asap") or 0)


def compare(what, got, want, ordered_first=True):
    """Same messages, in any order (group messages of one telegram have none); a tunnelling request is first."""
    got = [observe(m) for m in got]
    if want and want[0]["kind"] == "TunReq":
        require(got and got[0]["kind"] == "TunReq", "%s: got %r, expected first the tunnelling request", what, got)
    g, w = sorted(got, key=_key), sorted(want, key=_key)
    if [_key(o) for o in g] != [_key(o) for o in w]:
        raise Violation("%s: got %r, expected %r" % (what, g, w))
    for a, b in zip(g, w):
        if b.get("reading", 0) is None:
            a = dict(a, reading=None)
        if a != b:
            raise Violation("%s: got %r, expected %r" % (what, a, b))


def ref_ldata(world, code, ld):
    """Messages a complete link-layer frame (after the additional information) stands for."""
    c1, c2 = ld[0], ld[1]
    src, dst = struct.unpack(">HH", ld[2:6])
    tpci = ld[7]
    body = ld[8:]
    if code not in (ref.IND, ref.CON):
        return []
    suffix = "Ind" if code == ref.IND else "Con"
    status = {} if code == ref.IND else {"status": c1 & 1}
    if tpci & 0xFC or not body:
        return []
    apci = (tpci & 3) << 8 | body[0]
    if c2 & 0x80:
        if dst == 0 or dst not in world.groups:
            return []
        if apci == ref.READ:
            svc = "Read"
        elif apci & 0x3C0 == ref.RESPONSE:
            svc = "Resp"
        elif apci & 0x3C0 == ref.WRITE:
            svc = "Write"
        else:
            return []
        out = []
        for a in world.typed(dst):
            name = world.dpts[a]
            d = ref.DPTS[name]
            rd = None
            if svc != "Read":
                if d.short and len(body) == 1:
                    rd = ref.reading(name, apci & 0x3F) if d.kind == "packed" else None
                elif not d.short and len(body) == 1 + d.size:
                    rd = ref.reading(name, int.from_bytes(body[1:], "big"))
            out.append(dict({"kind": "Group" + svc + suffix, "asap": a, "dpt": name, "reading": rd}, **status))
        return out
    svc = {ref.PREAD: "Read", ref.PRESP: "Resp", ref.PWRITE: "Write"}.get(apci)
    if svc is None or (src if code == ref.IND else dst) != world.ia:
        return []
    h = body[1:5]
    m = dict({"kind": "Prop" + svc + suffix, "asap": 0, "oi": h[0], "pid": h[1], "noe": h[2] >> 4,
              "si": (h[2] & 15) << 8 | h[3]}, **status)
    if svc != "Read":
        m["data"] = body[5:].hex()
    return [m]


def ref_cemi(world, c):
    if c[0] not in (ref.IND, ref.CON):
        return []
    return ref_ldata(world, c[0], c[2 + c[1]:])
