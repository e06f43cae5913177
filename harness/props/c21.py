import hashlib
import json
import os
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

import core
import gen
import ref
from core import Sub, Violation, eq, pass_time, require, sut
from props import c20
from props.c06 import request
from world import AS, World, encode, make_state, observe, to_msg

ID = "C21"
ASSUME = ["An ordinary error is any Exception other than those of an exhausted machine (MemoryError, RecursionError) or of a failed assertion of the interpreter (SystemError).",
          "Promptly means within %d s of processor time for one frame." % core.CASE_CPU_S]


def damage(data, d):
    """A truncated, mutated, extended or replaced frame."""
    kind, at, v = d
    if not data:
        return bytes([v])
    if kind == 0:
        return data[:at % len(data)]
    if kind == 1:
        i = at % len(data)
        return data[:i] + bytes([data[i] ^ (v or 1)]) + data[i + 1:]
    if kind == 2:
        i = at % (len(data) + 1)
        return data[:i] + bytes([v]) + data[i:]
    i = at % len(data)
    return data[:i] + data[i + 1:]


def receive(state, medium, data):
    """Observations of the messages, or None when the input is rejected."""
    msg = to_msg(medium, data)
    try:
        r = sut().decode_msg(state, msg)
    except (MemoryError, RecursionError, SystemError) as e:
        raise Violation("%s is answered with %s: %s" % (data.hex(), type(e).__name__, e))
    except Exception:
        return None
    except BaseException as e:
        if isinstance(e, core.Hang):
            raise
        raise Violation("%s is answered with %s: %s" % (data.hex(), type(e).__name__, e))
    require(isinstance(r, list), "%s gives %r, not a list of messages", data.hex(), r)
    return [observe(m) for m in r]


def status(world, state, medium):
    out = [state.sequence_counter_local, state.sequence_counter_remote]
    if medium == "ip":
        out.append(state.communication_channel_id)
    out += [[a.free_style for a in world.table.addresses], world.table.individual_address.free_style]
    K = sut()
    for a in sorted(world.assoc):
        out.append(list(world.at.get_tsaps(AS(a))))
    for g in world.groups:
        out.append([x.value for x in world.at.get_asaps_from_address(K.GroupAddress(free_style=g))])
    out.append(sorted((a.value, d.__name__) for a, d in world.got.associations))
    return out


def twins(case):
    out = []
    for _ in range(2):
        w = World(case["tables"])
        s = make_state(case["medium"], w.at, w.got)
        if case["medium"] == "ip":
            s.sequence_counter_local, s.sequence_counter_remote, s.communication_channel_id = case["start"]
        out.append((w, s))
    return out


def check(case, ctx):
    """One stack gets everything, its twin only what was not rejected."""
    medium = case["medium"]
    (wa, a), (wb, b) = twins(case)
    n = {"rejected": 0, "accepted": 0, "valid": 0}
    after = 0
    for op in case["ops"]:
        if op[0] == "pass":
            pass_time(op[1])
            continue
        if op[0] == "raw":
            data = bytes.fromhex(op[1])
        else:
            t = op[1]
            t = dict(t, seq=(b.sequence_counter_remote + (0, 0, 0, -1, 1)[t["seq"] % 5]) % 256)
            data = c20.build(wa, medium, t)
            if data is None:
                continue
            for d in op[2:]:
                data = damage(data, d)
        before = status(wa, a, medium)
        ra = receive(a, medium, data)
        if ra is None:
            eq("counters, channel and tables after the rejected input %s" % data.hex(), status(wa, a, medium), before)
            n["rejected"] += 1
            continue
        rb = receive(b, medium, data)
        eq("messages of %s, against a stack that did not get the rejected inputs" % data.hex(), ra, rb)
        eq("counters, channel and tables after %s" % data.hex(), status(wa, a, medium), status(wb, b, medium))
        k = "valid" if len(op) == 2 and op[0] != "raw" else "accepted"
        n[k] += 1
        if ra and n["rejected"]:
            after += 1
        if medium == "ip" and ra and ra[0]["kind"] == "TunReq" and ra[0]["status"] == 0:
            ip = sut().knxnet_ip
            m = ip.tunneling.ack.Msg(sequence_counter=ra[0]["seq"], status=ip.ErrorCodes.E_NO_ERROR)
            eq("acknowledgement", encode(a, m).hex(), encode(b, m).hex())
    for asap in sorted(wa.assoc):
        if wa.assoc[asap]:
            eq("later read request", encode(a, request("read", asap, None, 0)).hex(), encode(b, request("read", asap, None, 0)).hex())
    for k, v in n.items():
        ctx.label(k, v)
    ctx.nontrivial(n["rejected"] > 0 and after > 0)


@st.composite
def cases(draw):
    m = draw(st.sampled_from(["usb", "ip"]))
    cfg = draw(gen.config(max_ops=1))
    a = cfg["asaps"][0]
    cfg["assoc"].append([a, cfg["pool"][0]])
    if all(d[0] != a for d in cfg["dpts"]):
        cfg["dpts"].append([a, draw(gen.name)])
    f = gen.weighted((1, c20.deliverable()), (1, c20.frame(m)))
    dmg = st.tuples(st.sampled_from([0, 0, 0, 1, 1, 2, 3]), gen.word, gen.byte).map(list)
    head = st.sampled_from([b"", b"\x06\x10", b"\x06\x10\x04\x20", b"\x06\x10\x04\x21", b"\x06\x10\x02\x06", b"\x06\x10\x02\x02"] if m == "ip" else
                           [b"", b"\x01\x13", b"\x01\x13\x20\x00\x08\x00\x18\x01\x03\x00\x00", b"\x01\x13\x0b\x00\x08\x00\x03\x0f"])
    raw = st.tuples(head, st.binary(max_size=40)).map(lambda t: (t[0] + t[1]).hex())
    op = gen.weighted((4, st.tuples(st.just("good"), f)), (5, st.tuples(st.just("bad"), f, dmg)), (1, st.tuples(st.just("bad"), f, dmg, dmg)),
                      (2, st.tuples(st.just("raw"), raw)), (1, st.tuples(st.just("pass"), gen.PASS))).map(list)
    return {"medium": m, "tables": cfg, "start": draw(st.tuples(gen.byte, gen.byte, gen.byte).map(list)),
            "ops": draw(gen.some(op, 4, 12))}


# ------------------------------------------------------------------ every truncation and every octet value of one frame per service
def samples():
    def ldata(apdu, group=True, code=ref.IND):
        return ref.cemi(code, ref.ldata(0xBC, 0xE0 if group else 0x60, 0x1101, 0x0903 if group else 0x1101, apdu))
    cs = [ldata(ref.apdu(ref.READ)), ldata(ref.apdu(ref.WRITE | 1)), ldata(ref.apdu(ref.WRITE, b"\x01\x02\x03\x04"), code=ref.CON),
          ldata(ref.apdu(ref.RESPONSE, b"\x0c\x1a")), ldata(ref.prop_apdu(ref.PREAD, 1, 2, 1, 3), False), ldata(ref.prop_apdu(ref.PWRITE, 1, 2, 1, 3, b"\x55\x66"), False),
          ldata(ref.prop_apdu(ref.PRESP, 1, 2, 1, 3, b"\x55"), False, ref.CON), ref.cemi(ref.IND, ref.ldata(0xBC, 0x60, 0x1101, 0x1101, b"\x81"))]
    for c in cs:
        yield "usb", ref.usb(c, pad=b"\0\0")
        yield "ip", ref.tun_req(3, 7, c)
    yield "usb", ref.usb_feature(4, 3, b"\1")
    yield "usb", ref.usb_feature(2, 5, b"\3")
    for r in (ref.connect_res(5, 0, "10.0.0.1", 3671, 0x1107), ref.connect_res(5, 0x24), ref.connstate_res(3, 0), ref.disc_res(3, 0), ref.tun_ack(3, 11, 0),
              ref.search_res("10.0.0.1", 3671, 2, 0, 0x1107, bytes(20))):
        yield "ip", r


def sweep():
    for m, data in samples():
        base = {"medium": m, "tables": c20.TABLES, "start": [11, 7, 3]}
        good = [["raw", d.hex()] for mm, d in samples() if mm == m and d[2:4] not in (b"\x02\x06", b"\x02\x09")][:2]
        for n in range(len(data)):
            yield dict(base, ops=[["raw", data[:n].hex()]] + good)
        for i in range(len(data)):
            for v in (0, 1, 0x7F, 0x80, 0xFF, data[i] ^ 1, (data[i] + 1) & 255, (data[i] - 1) & 255, data[i] ^ 0x80, data[i] ^ 0x20):
                if v != data[i]:
                    yield dict(base, ops=[["raw", (data[:i] + bytes([v]) + data[i + 1:]).hex()]] + good)


# ------------------------------------------------------------------ coverage-guided
def fuzz_case(data):
    """A byte string as a case: medium, then inputs of a length given by one octet each, ended by valid frames."""
    m = "usb" if data[:1] and data[0] & 1 else "ip"
    base = {"medium": m, "tables": c20.TABLES, "start": [11, 7, 3]}
    ops, i = [], 1
    while i < len(data) and len(ops) < 6:
        n = data[i]
        ops.append(["raw", data[i + 1:i + 1 + n].hex()])
        i += 1 + n
    good = [d for mm, d in samples() if mm == m][1:4]
    return dict(base, ops=ops + [["raw", d.hex()] for d in good])


def fuzz_corpus():
    out = []
    for m, d in samples():
        out.append(bytes([m == "usb", len(d)]) + d)
        out.append(bytes([m == "usb", len(d) - 2]) + d[:-2] + bytes([len(d)]) + d)
    return out


def fuzz(tier, seed, shard, nshards, ctx):
    runs = 1000 if tier == "quick" else 400000
    with tempfile.TemporaryDirectory(prefix="fz-") as tmp:
        out = os.path.join(tmp, "out.json")
        p = subprocess.run([sys.executable, "-B", os.path.join(core.HERE, "fuzz21.py"), out, tmp, str(runs), str(seed * 64 + shard + 1)],
                           stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=tmp)
        if not os.path.exists(out):
            raise RuntimeError("the fuzzer ended with %s: %s" % (p.returncode, p.stderr[-2000:].decode("utf8", "replace")))
        with open(out) as f:
            r = json.load(f)
    ctx.evaluations += r["evaluations"]
    ctx.hashes.update(bytes.fromhex(h) for h in r["hashes"])
    for k, v in r["labels"].items():
        ctx.label(k, v)
    ctx.samples += r["samples"][:2]
    return r["fail"]


SUBS = [
    Sub("histories", check, "a rejected input, and a later frame that yields messages", cases, quick=2000),
    Sub("sweep", check, "a rejected input, and a later frame that yields messages", cases=sweep),
    Sub("coverage-guided", check, "a rejected input, and a later frame that yields messages", runner=fuzz),
]
