"""Numbers and their decimal texts (N01-N04)."""
import struct

import vlib
from vlib import Calls, big, le_bytes

PROFILES = ("dbg", "rel")
CFG = "TraceNum.cfg"


def model(c, invs):
    vlib.model(c, "MCFloat", {"MaxNum": c.n(500, 4000)}, invs)


def finish(c, calls, bounds, test=lambda r: True):
    libs = vlib.build_all(PROFILES)
    vlib.run_and_judge(c, "TraceNum", calls, libs, cfg=CFG, test=test)
    c.cov["bounds"] = bounds + "; debug and release builds"
    c.assumptions = ["the caller's destination holds at least 81 bytes", "sources are terminated"]


def dirty(rng, n=81):
    n += rng.choice((0, 0, 3, 20))
    return "o" + bytes(rng.choice((0, 0xFF)) if rng.random() < 0.05 else rng.randrange(1, 256) for _ in range(n)).hex()


def edges(lo, hi, rng, k):
    """integers of a range: its ends, powers of two and ten and their neighbours, random ones of every size"""
    out = {lo, lo + 1, hi, hi - 1, 0, 1, 2, 9, 10, -1, -2, -9, -10}
    for p in range(65):
        for d in (-1, 0, 1):
            out |= {(1 << p) + d, -(1 << p) + d}
    for p in range(20):
        for d in (-1, 0, 1):
            out |= {10 ** p + d, -10 ** p + d, 5 * 10 ** p + d}
    out = sorted(x for x in out if lo <= x <= hi)
    for _ in range(k):
        x = rng.randrange(1 << rng.randrange(1, 65)) * rng.choice((1, -1))
        if lo <= x <= hi:
            out.append(x)
    return out


def N01(c):
    model(c, ["Ints"])
    calls, rng = Calls(), c.rng
    for v in range(256):
        calls.add("BYTE_TO_STRING_EXT", None, [f"i{v}", dirty(rng)], op="wint", v=big(v))
    for sym, lo, hi in (("LWORD", 0, (1 << 64) - 1), ("LINT", -(1 << 63), (1 << 63) - 1)):
        for v in edges(lo, hi, rng, c.n(4000, 80000)):
            calls.add(f"{sym}_TO_STRING_EXT", None, [f"i{v}", dirty(rng)], op="wint", v=big(v))
    finish(c, calls, f"all BYTE values; for LWORD and LINT all powers of two and ten with neighbours and {c.n(4000, 80000)} random values")


def digits(v, base):
    s = ""
    while True:
        s = "0123456789abcdef"[v % base] + s
        v //= base
        if not v:
            return s


PREFIX = {10: [""], 16: ["16#", "0x", "0X"], 8: ["8#"], 2: ["2#", "0b", "0B"]}


OTHERS = [chr(i) for i in range(1, 128)] + list("\x85\xa0\u2003\u2028\u3000\ufeff\u200b\u2212\u0660\uff11\u00b2\u00bd\u066b\u202f\u0301\U0001d7ce") + ["\r\n"]


def int_texts(c, k, m):
    """calls of STRING_TO_DINT and STRING_TO_LINT"""
    calls, rng = Calls(), c.rng

    def one(ty, text):
        b = list(text.encode("utf-8") if isinstance(text, str) else text) + [0]
        b += rng.choice(([], [0x31], [0x31, 0]))
        calls.add(f"STRING_TO_{ty}", "i64" if ty == "LINT" else "i32", ["s" + bytes(b).hex()], op="rint", ty=ty, a=b)

    fixed = ["", "+", "-", "0", "-0", "+0", "00", "007", "1 ", " 1", "1_000", "1,0", "1.0", "1e3", "+-1", "--1", "0x", "0X", "16#", "8#", "2#", "0b", "0B",
             "0x-", "16#-", "16#+ff", "16#-ff", "-16#ff", "+16#ff", "-0x1", "16#0x1", "0xg", "16#G", "8#8", "8#7", "2#2", "2#1", "0b2", "10#9", "36#z", "1#1",
             "12#1", "16", "8", "2", "0", "16#16#1", "0o7", "017", "0b", "#1", "16 #1", "١", "１", "²", "\x01", "1\x0b", "Ⅷ", "é", "A", "f", "x1", "b1",
             "0x_1", "0X1F", "0x1f", "16#fF", "8#17", "2#101", "0b101", "0B101", "+5", "-5", "99999999999999999999", "-99999999999999999999", "9" * 60]
    for ty, bits in (("DINT", 32), ("LINT", 64)):
        for t in fixed:
            one(ty, t)
        lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        for v in (lo, lo + 1, lo - 1, hi, hi + 1, hi - 1, 2 * hi + 1, 2 * hi + 2, -2 * hi, 1 << 32, (1 << 32) + 5, 1 << 64, (1 << 64) + 7, (1 << 63), -(1 << 63) - 1,
                  10 ** 19, 10 ** 20, 1 << 31, -(1 << 31) - 1, (1 << 128) + 1):
            for base, ps in PREFIX.items():
                for p in ps:
                    s = digits(abs(v), base)
                    one(ty, p + ("-" if v < 0 else rng.choice(("", "+"))) + rng.choice(("", "0", "000")) + rng.choice((s, s.upper())))
                    if v < 0:
                        one(ty, p + digits(v % (1 << bits), base))
        for _ in range(k):
            base = rng.choice((10, 10, 16, 8, 2))
            v = rng.randrange(1 << rng.randrange(1, bits + 2))
            if rng.random() < 0.3:
                v = abs(rng.choice((lo, hi)) + rng.randrange(-20, 20))
            t = rng.choice(PREFIX[base]) + rng.choice(("", "", "", "+", "-", "-")) + "0" * rng.choice((0, 0, 0, 1, 9, 30)) + digits(v, base)
            if rng.random() < 0.3:
                t = t.upper().replace("0X", "0x")
            if rng.random() < 0.25:          # one character changed, inserted or removed
                i = rng.randrange(len(t) + 1)
                ch = rng.choice("0123456789abcdefgxABXF#+-_ .,'\t/:@`é")
                t = rng.choice((t[:i] + ch + t[i:], t[:i] + ch + t[i + 1:], t[:i] + t[i + 1:]))
            one(ty, t)
        for ch in OTHERS:
            for t in ("12" + ch, ch + "12", "1" + ch + "2") if k > 1000 else rng.sample(("12" + ch, ch + "12", "1" + ch + "2"), 2):
                one(ty, t)
        for _ in range(m):
            one(ty, "".join(rng.choice("0123456789+-#xXbBaf _.") for _ in range(rng.randrange(0, 7))))
        for b in ([0xFF], [0x31, 0x80], [0x31, 0xC3], [0xC3, 0x28], [0x31, 0xF0, 0x9F]):
            one(ty, b)
    return calls


def N02(c):
    model(c, ["Ints"])
    calls = int_texts(c, c.n(2500, 60000), c.n(1500, 40000))
    finish(c, calls, "range limits and one beyond in every base and prefix spelling, random numbers of every length, single-character "
           f"alterations, {c.n(1500, 40000)} random short texts per type over the number characters", test=lambda r: r["op"] == "rint")


def f64(x):
    return struct.pack(">d", x).hex()


def bits64(rng):
    """64-bit patterns: special exponents, powers of ten, ordinary magnitudes"""
    k = rng.random()
    sg = rng.choice((0, 1)) << 63
    if k < 0.25:
        return sg | rng.choice((0, 1, 2, 1022, 1023, 1024, 1045, 1046, 1069, 1070, 1075, 1076, 2045, 2046, rng.randrange(2047))) << 52 | \
            rng.choice((0, 1, (1 << 52) - 1, 1 << 51, rng.randrange(1 << 52)))
    if k < 0.6:
        x = rng.randrange(1, 10 ** rng.randrange(1, 17)) * 10.0 ** rng.randrange(-12, 6)
    elif k < 0.75:
        x = 10.0 ** rng.randrange(-8, 40) * (1 + rng.choice((0, 0, 1, -1, 3, -3)) * 2.0 ** -rng.randrange(20, 54))
    elif k < 0.9:   # next to a decimal tie of the sixth digit
        x = (rng.randrange(1 << rng.randrange(1, 40)) * 2 + 1) / 2.0 ** rng.randrange(1, 12)
    else:
        x = rng.random() * 10.0 ** rng.randrange(-320, 308)
    b = struct.unpack(">Q", struct.pack(">d", x))[0]
    if k < 0.9 and rng.random() < 0.3:
        b += rng.choice((-1, 1))
    return sg | b & ((1 << 63) - 1)


SPECIAL = [0.0, -0.0, 0.5, 1.5, 1e-7, 5e-7, 4.9999e-7, 9.9999995, 0.9999995, 0.99999949, 1e6, 999999.9999995, 1e14, 99999999999999.98, 99999999999999.99,
           1e14 - 0.5, 1e15, 9.9999995e20, 9.9999994e20, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 123456.7890625, 0.0078125, 0.0000005,
           1e22, 1e23, 9007199254740993.0, 999999.5, 1000000.5, 999999.99999, 1e300, 99999995e7, 9999999.5e7]


def special_reals():
    for x in SPECIAL:
        for s in (x, -x):
            b = struct.unpack(">Q", struct.pack(">d", s))[0]
            for d in (-1, 0, 1):
                if 0 <= (b & ((1 << 63) - 1)) + d <= 0x7FEFFFFFFFFFFFFF:
                    yield b + d


def N03(c):
    model(c, ["OnlyOne", "Self"])
    calls, rng = Calls(), c.rng

    def one(sym, lim, b):
        calls.add(f"{sym}_TO_STRING_EXT", None, [f"d{b:016x}", dirty(rng)], op="wreal", f="L", x=list(struct.pack("<Q", b)), lim=lim)

    def frombits32(b):
        return struct.unpack(">Q", struct.pack(">d", struct.unpack(">f", struct.pack(">I", b))[0]))[0]

    for sym, lim in (("LREAL", 14), ("REAL", 6)):
        for b in special_reals():
            one(sym, lim, b)
        for b in (0x7FF0000000000000, 0xFFF0000000000000, 0x7FF8000000000000, 0xFFF8000000000001):
            one(sym, lim, b)
        for _ in range(c.n(2500, 60000)):
            one(sym, lim, bits64(rng))
        for _ in range(c.n(500, 8000)):
            one(sym, lim, frombits32(rng.randrange(1 << 32) & 0xBFFFFFFF | rng.choice((0, 0x40000000))))
    finish(c, calls, f"model: rounding decided for every fraction up to {c.n(500, 4000)} over 7 denominators on a tiny format, and at all binade edges of both "
           "formats; replay: special values with neighbours, values beside decimal ties, random values of every exponent",
           test=lambda r: abs(struct.unpack("<d", bytes(r["x"]))[0]) < 1e100)


def real_texts(c, mids, plain):
    """calls of STRING_TO_LREAL and STRING_TO_REAL"""
    calls, rng = Calls(), c.rng

    def one(f, text):
        b = list(text.encode("utf-8") if isinstance(text, str) else text) + [0]
        b += rng.choice(([], [0x31], [0x31, 0]))
        calls.add("STRING_TO_LREAL" if f == "L" else "STRING_TO_REAL", "d" if f == "L" else "f", ["s" + bytes(b).hex()], op="rreal", f=f, a=b)

    def exact(n, e):
        """decimal text of n * 2^e"""
        if e >= 0:
            return str(n << e)
        s = str(n * 5 ** -e).rjust(-e + 1, "0")
        return s[:e] + "." + s[e:]

    words = ["", "+", "-", ".", "+.", "e", "e5", ".e5", "1e", "1e+", "1e-", "1.e5", ".5", "5.", "+.5e1", "-.5E-1", "1e5.0", "1..2", "1.2.3", "1,5", " 1", "1 ", "1_0",
             "0x10", "16#10", "1f", "1.0d0", "1e0x1", "--1", "+-1", "1-1", "1e1e1", "nan", "NaN", "-nan", "inf", "Inf", "-inf", "+INF", "infinity", "-Infinity",
             "in", "infin", "nano", "1inf", "0", "-0", "+0", "0.0", "-0.0e9", "0e999999", "00001", "1e-999999", "1e999999", "-1e999999", "1e99999999999999999999",
             "1e-99999999999999999999", "0e99999999999999999999", "1e0000000000000000000001", "1e+05", "1E-05", "0." + "0" * 70 + "1", "1" + "0" * 60, "0" * 70 + "1.5",
             "١", "１", "é", "1é", "9007199254740993", "9007199254740992.9999999999", "9007199254740993.0000000001", "179769313486231580793e289",
             "1.7976931348623157e308", "1.7976931348623159e308", "1.797693134862315807e308", "4.9e-324", "2.4703282292062327e-324", "2.4703282292062328e-324",
             "3.4028235e38", "3.4028236e38", "3.40282356779733661637539395458142568448e38", "3.4028235677973366e38", "1.4e-45", "7.0064923216240853e-46",
             "7.0064923216240854e-46", "1.17549435e-38", "2.2250738585072011e-308", "16777217", "16777219", "33554435", "0.1", "1.1", "2.5", "123456789.123456789"]
    for f, p, emin, emax in (("L", 53, -1074, 971), ("R", 24, -149, 104)):
        for w in words:
            one(f, w)
        for ch in OTHERS:
            for t in ("1.5" + ch, ch + "1.5", "1" + ch + "5", "1.5e" + ch + "2") if plain > 1000 else rng.sample(("1.5" + ch, ch + "1.5", "1" + ch + "5", "15e" + ch), 2):
                one(f, t)
        for _ in range(mids):      # exact middles of two neighbours, and just beside them
            e = rng.choice((emin, emin + 1, emin + rng.randrange(40), -p, -p + 1, -rng.randrange(1, 2 * p), rng.randrange(0, 12), rng.randrange(emin, emax + 1)))
            m = rng.choice((1 << (p - 1), (1 << p) - 1, rng.randrange(1 << (p - 1), 1 << p)))
            if e == emin and rng.random() < 0.7:
                m = rng.choice((0, 1, 2, rng.randrange(1 << rng.randrange(1, p))))
            t = exact(2 * m + 1, e - 1)
            k = rng.random()
            if k < 0.3:
                t = t + ("" if "." in t else ".") + "0" * rng.choice((0, 5)) + "1"
            elif k < 0.6:
                d = t.rstrip("0") if "." in t else t
                t = d[:-1] + str(int(d[-1]) - 1) + ("" if "." in d else ".") + "9" * 12 if d[-1] not in "0." else t
            elif k < 0.7:
                t = exact(m, e)
            one(f, rng.choice(("", "-", "+")) + t)
        for _ in range(plain):
            k = rng.randrange(1, rng.choice((3, 9, 19, 25)))
            s = "".join(rng.choice("0123456789") for _ in range(k))
            if rng.random() < 0.7:
                i = rng.randrange(len(s) + 1)
                s = s[:i] + "." + s[i:]
            if rng.random() < 0.6:
                s += rng.choice("eE") + rng.choice(("", "+", "-", "-")) + str(rng.choice((0, 1, 5, 22, 23, 37, 38, 39, 44, 45, 46, 300, 307, 308, 309, 323, 324, 325, rng.randrange(400))))
            s = rng.choice(("", "", "+", "-")) + s
            if rng.random() < 0.15:
                i = rng.randrange(len(s) + 1)
                s = s[:i] + rng.choice("0123456789eE.+-_ ,xf") + s[i + rng.choice((0, 1)):]
            one(f, s)
        for b in ([0xFF], [0x31, 0x80], [0x31, 0x2E, 0xC3]):
            one(f, b)
    return calls


def N04(c):
    model(c, ["OnlyOne", "Self"])
    calls = real_texts(c, c.n(500, 10000), c.n(2500, 60000))
    finish(c, calls, "model: rounding decided on a tiny format exhaustively and at all binade edges of both formats; replay: malformed and special texts, exact "
           "middles of neighbouring numbers (normal, subnormal, overflow) and texts just beside them, random decimals with alterations",
           test=lambda r: r["op"] == "rreal")
