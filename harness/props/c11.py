import decimal
import math

from hypothesis import strategies as st

import ref
from core import Sub, call, eq, refused, require
from world import dpt_class

ID = "C11"
ASSUME = ["Numbers between the largest encodable value (or the lowest one) and one further step may be refused or accepted.",
          "Numbers are compared with a tolerance of 1e-9 of their size, because 0.01 has no exact binary form."]
TYPES = ["DPT_Value_Temp", "DPT_Value_Lux", "DPT_Value_Wsp"]
MAX, MIN, TOP = 670760.96, -671088.64, 327.68


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def check_raw(raw, ctx):
    for t in TYPES:
        d = dpt_class(t)()
        d.value = raw
        v = call("decoding %#06x" % raw, d.decode)
        require(isinstance(v, (int, float)) and close(v, ref.f16(raw)), "%s %#06x decodes to %r, the format says %r", t, raw, v, ref.f16(raw))
        eq("raw value after decoding", d.value, raw)
        e = dpt_class(t)()
        call("encoding %r" % v, e.encode, v)
        w = e.decode()
        require(w == v, "%s %#06x decodes to %r, which encodes to %#06x, which decodes to %r", t, raw, v, e.value, w)
    ctx.label("negative" if raw & 0x8000 else "positive")
    ctx.nontrivial(raw & 0x7FF != 0 and raw & 0x7800 != 0)


def step(v):
    e = 0
    m = abs(v) / 0.01
    top = 2048 if v < 0 else 2047
    while m > top * (1 + 1e-12) and e < 15:
        m /= 2
        e += 1
    return 0.01 * 2 ** e


TRAPS = [decimal.FloatOperation, decimal.Inexact, decimal.Rounded, decimal.InvalidOperation]


def encode(t, v, before, context=None):
    """Decoded result, or None when refused; the program may have any decimal context."""
    if context:
        prec, rounding, traps = context
        with decimal.localcontext(decimal.Context(prec=prec, rounding=rounding, traps=[x for i, x in enumerate(TRAPS) if traps >> i & 1])):
            return encode(t, v, before)
    d = dpt_class(t)()
    d.value = before
    if refused(d.encode, v):
        eq("raw value after %r was refused" % v, d.value, before)
        return None
    require(0 <= d.value <= 0xFFFF, "raw value %r", d.value)
    return d.decode()


def check_value(case, ctx):
    t = TYPES[case["type"]]
    got = []
    for v in sorted(case["values"]):
        r = encode(t, v, case["before"], case["context"])
        if MIN <= v <= MAX:
            require(r is not None, "%s refused %r, which is in range", t, v)
        elif not (MIN - TOP <= v <= MAX + TOP):
            require(r is None, "%s accepted %r, which is out of range, as %r", t, v, r)
            ctx.label("out of range")
        if r is None:
            continue
        s = step(v)
        require(abs(r - v) <= s * (1 + 1e-9) + 1e-9 * abs(v), "%s encodes %r as %r, off by more than a step of %r", t, v, r, s)
        require(r == 0 or (r > 0) == (v > 0), "%s encodes %r as %r, of the other sign", t, v, r)
        # the number the format says, not only the number read back
        got.append((v, r))
        ctx.label("exponent %d" % round(math.log2(s / 0.01)))
    for (a, x), (b, y) in zip(got, got[1:]):
        require(x <= y, "%s encodes %r as %r but the larger %r as %r", t, a, x, b, y)
    ctx.nontrivial(sum(1 for v, r in got if abs(v) > 20.48) >= 2)


def numbers():
    def edges(k):  # around mantissa limits
        e, m, s, d = k
        return s * (m + d) * 0.01 * 2 ** e
    return st.one_of(
        st.integers(0, 65535).map(ref.f16),
        st.integers(0, 65535).map(lambda r: ref.f16(r) + 0.0037),
        st.tuples(st.integers(0, 15), st.sampled_from([1, 1023, 1024, 2046, 2047, 2048]), st.sampled_from([1, -1]),
                  st.sampled_from([0, -1, 1, 0.5, -0.5, 0.25, 0.999, 0.001, -0.001])).map(edges),
        st.floats(-21, 21), st.floats(-700, 700), st.floats(-671088.64, 670760.96), st.integers(-671088, 670760),
        st.floats(-800000, 800000))


def values():
    far = st.one_of(st.floats(allow_nan=False, allow_infinity=False).filter(lambda v: abs(v) > 671500), st.integers(671500, 10 ** 30),
                    st.integers(-10 ** 30, -671500), st.sampled_from([1e6, -1e6, 671417, -671417, 1e300]))
    near = numbers().flatmap(lambda v: st.tuples(st.just(v), st.sampled_from([0.01, 0.005, 0.001, 0.3, 1e-6, 2.56, 164.0])).map(
        lambda p: [p[0], p[0] + p[1]]))
    lists = st.one_of(near, st.lists(numbers(), min_size=1, max_size=6), st.lists(st.one_of(numbers(), far), min_size=1, max_size=3))
    return st.fixed_dictionaries({"type": st.integers(0, 2), "before": st.integers(0, 65535), "values": lists,
        "context": st.one_of(st.none(), st.tuples(st.one_of(st.integers(1, 12), st.integers(1, 60)), st.sampled_from(
            ["ROUND_UP", "ROUND_DOWN", "ROUND_CEILING", "ROUND_FLOOR", "ROUND_HALF_UP", "ROUND_HALF_DOWN", "ROUND_05UP"]), st.integers(0, 15)).map(list))})


def check_special(case, ctx):
    d = dpt_class(TYPES[case["type"]])()
    d.value = case["before"]
    require(refused(d.encode, float(case["number"])), "%s was not refused", case["number"])
    eq("raw value after a refusal", d.value, case["before"])
    ctx.nontrivial(True)


def special():
    for t in range(3):
        for n in ("inf", "-inf"):
            for b in (0, 1, 0x7FFF, 0x8000, 0xFFFF, 0x1234):
                yield {"type": t, "before": b, "number": n}


SUBS = [
    Sub("raw values", check_raw, "mantissa and exponent both non-zero", cases=lambda: range(65536)),
    Sub("numbers", check_value, "two encodable numbers that need an exponent", values, quick=16000),
    Sub("infinities", check_special, "all", cases=special),
]
