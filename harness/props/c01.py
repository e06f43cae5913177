from hypothesis import strategies as st

import gen
from core import Sub, call, eq, refused, require, sut

ID = "C01"
ASSUME = ["Non-hexadecimal characters are drawn from ASCII and from non-digit Unicode characters.",
          "Text of odd length is outside the property."]


def classes():
    K = sut()
    return {"base": K.Msg, "ip": K.knxnet_ip.Msg, "usb": K.usb_hid.Msg}


def recase(case):
    h = case["hex"]
    mask = case["mask"]
    return "".join(c.upper() if mask >> (i % 16) & 1 else c for i, c in enumerate(h))


def check_hex(case, ctx):
    text = recase(case)
    for kind, cls in classes().items():
        m = call("make_from_str(%r)" % text, cls.make_from_str, text)
        require(type(m) is cls, "make_from_str gave a %s, not a %s", type(m), cls)
        eq("octets of %r" % text, [o.value for o in m], list(bytes.fromhex(text)))
        eq("print of %r" % text, str(m), text.upper())
        eq("length", len(m), len(text) // 2)
    ctx.nontrivial(len(text) >= 2 and text != text.upper())


def check_refuse(case, ctx):
    text = recase(case)
    i = case["at"] % len(text)
    bad = text[:i] + case["ch"] + text[i + 1:]
    for cls in classes().values():
        require(refused(cls.make_from_str, bad), "text %r was not refused", bad)
    ctx.nontrivial(True)
    ctx.label("high" if i % 2 == 0 else "low")


WANT = {"octect": 1, "short": 2, "long": 4, "HPAI": 8, "CRI": 4, "CRD": 4, "header": 4}


def dotted(b):
    return ".".join(map(str, b))


def check_consume(case, ctx):
    cls = classes()[case["cls"]]
    data = bytes.fromhex(case["hex"])
    m = call("make_from_str", cls.make_from_str, case["hex"])
    done = 0
    for op in case["ops"]:
        if op in ("HPAI", "CRI", "CRD", "header") and case["cls"] != "ip":
            op = {"HPAI": "long", "CRI": "short", "CRD": "octect", "header": "long"}[op]
        n = WANT[op]
        before = bytes(data)
        if len(data) < n:
            require(refused(getattr(m, op)), "%s of only %d octets was not refused", op, len(data))
            ctx.label("too short")
            eq("message after a refused %s" % op, [o.value for o in m], list(data))
            ctx.nontrivial(done > 0)
            continue
        res = call("%s of %s" % (op, data.hex()), getattr(m, op))
        rest = res[-1]
        if op in ("octect", "short", "long"):
            require(len(res) == 2, "%s gave %r", op, res)
            eq("%s of %s" % (op, data.hex()), res[0].value, int.from_bytes(data[:n], "big"))
        elif op == "HPAI":
            eq("HPAI of %s" % data.hex(), tuple(res[:-1]), (dotted(data[2:6]), int.from_bytes(data[6:8], "big")))
        elif op == "CRI":
            eq("CRI of %s" % data.hex(), tuple(res[:-1]), (data[1], data[2]))
        elif op == "CRD":
            eq("CRD of %s" % data.hex(), (res[0], int(repr(res[1]), 16), len(res)), (data[1], int.from_bytes(data[2:4], "big"), 3))
        else:
            eq("header of %s" % data.hex(), tuple(res[:-1]), tuple(data[1:4]))
        require(type(rest) is cls, "remainder of %s is a %s, not a %s", op, type(rest), cls)
        eq("remainder of %s" % op, [o.value for o in rest], list(data[n:]))
        eq("message after %s" % op, [o.value for o in m], list(before))
        eq("print of the remainder", str(rest), data[n:].hex().upper())
        m, data = rest, data[n:]
        done += 1
        ctx.label(op)
    ctx.nontrivial(done >= 2)


def check_octet(case, ctx):
    K = sut().msg
    for v in range(case["lo"], case["hi"]):
        o = K.Octect(value=v)
        eq("nibbles of %#x" % v, (o.nibble.high, o.nibble.low, o.value), (v >> 4, v & 15, v))
        p = K.Octect(K.Nibbles(high=v >> 4, low=v & 15))
        eq("octet from nibbles of %#x" % v, (p.value, repr(p)), (v, "0x%02X" % v))
    ctx.nontrivial(True)


def check_short(case, ctx):
    K = sut().msg
    for v in range(case["lo"], case["hi"]):
        s = K.Short(value=v)
        eq("bytes of %#x" % v, (s.byte.MSB, s.byte.LSB, s.MSB.value, s.LSB.value, [o.value for o in s.octects]),
           (v >> 8, v & 255, v >> 8, v & 255, [v >> 8, v & 255]))
        t = K.Short(K.Bytes(MSB=v >> 8, LSB=v & 255))
        eq("short from bytes of %#x" % v, (t.value, repr(t)), (v, "0x%04X" % v))
    ctx.nontrivial(True)


def check_long(case, ctx):
    K = sut().msg
    v = case["v"]
    b = [v >> 24, v >> 16 & 255, v >> 8 & 255, v & 255]
    x = K.Long(value=v)
    eq("bytes of %#x" % v, [x.B4.value, x.B3.value, x.B2.value, x.B1.value], b)
    eq("byte fields of %#x" % v, [x.byte.B4, x.byte.B3, x.byte.B2, x.byte.B1], b)
    eq("octets of %#x" % v, [o.value for o in x.octects], b)
    eq("print of %#x" % v, repr(x), "0x%08X" % v)
    y = K.Long()
    for i, n in enumerate(["B4", "B3", "B2", "B1"]):
        setattr(y.byte, n, b[i])
    eq("long from bytes of %#x" % v, y.value, v)
    ctx.nontrivial(len(set(b)) > 1)


def s_hex():
    return st.fixed_dictionaries({"hex": gen.weighted((4, gen.hexes(0, 40)), (4, gen.hexes(0, 300)), (1, gen.long_hexes(300, 300, 5000, 1))), "mask": st.integers(0, 65535)})


def s_refuse():
    ch = st.one_of(st.characters(min_codepoint=0, max_codepoint=127), st.sampled_from("ghGzxX+-_ .é/:@`\n\0"),
                   st.characters(exclude_categories=("Nd", "Cs"))).filter(lambda c: c not in "0123456789abcdefABCDEF")
    return st.fixed_dictionaries({"hex": gen.hexes(1, 20), "mask": st.integers(0, 65535), "at": st.integers(0, 1000), "ch": ch})


def s_consume():
    return st.fixed_dictionaries({
        "cls": st.sampled_from(["base", "ip", "ip", "usb"]), "hex": gen.weighted((10, gen.hexes(0, 12)), (10, gen.hexes(16, 60)), (1, gen.long_hexes(60, 60, 3000, 1))),
        "ops": st.lists(st.sampled_from(sorted(WANT)), min_size=1, max_size=8)})


SUBS = [
    Sub("hex", check_hex, "text of at least one octet containing lower-case letters", s_hex, quick=1600),
    Sub("refuse", check_refuse, "text with one non-hexadecimal character", s_refuse, quick=1600),
    Sub("consume", check_consume, "two or more blocks consumed, or a refusal after one", s_consume, quick=2400),
    Sub("octet", check_octet, "each block of octet values", cases=lambda: [{"lo": i, "hi": i + 32} for i in range(0, 256, 32)]),
    Sub("short", check_short, "each block of 16-bit values", cases=lambda: [{"lo": i, "hi": i + 512} for i in range(0, 65536, 512)]),
    Sub("long", check_long, "a 32-bit value whose bytes differ", lambda: st.fixed_dictionaries(
        {"v": st.one_of(st.integers(0, 2**32 - 1), st.integers(0, 31).map(lambda b: 1 << b))}), quick=1600),
]
