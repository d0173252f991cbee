"""Shifts and rotations, endianness, validity checks, bit reinterpretation (B01-B04)."""
import vlib
from vlib import Calls, big
from selection import FSPECIAL

PROFILES = ("dbg", "rel")
CFG = "TraceBits.cfg"
WORDS = {"BYTE": 8, "WORD": 16, "DWORD": 32, "LWORD": 64}


def finish(c, calls, bounds, test=lambda r: True):
    libs = vlib.build_all(PROFILES)
    vlib.run_and_judge(c, "TraceBits", calls, libs, cfg=CFG, test=test)
    c.cov["bounds"] = bounds + "; debug and release builds"


def model(c, invs):
    vlib.model(c, "MCBits", {"MaxN": c.n(20, 40)}, invs)


def le(v, bits):
    return list((v % (1 << bits)).to_bytes(bits // 8, "little"))


def word(rng, w):
    return rng.choice((rng.randrange(1 << w), rng.randrange(1 << w), 1 << rng.randrange(w), (1 << w) - 1, 1, 1 << (w - 1), (1 << w) // 3, ((1 << w) - 1) ^ (1 << rng.randrange(w))))


def B01(c):
    model(c, ["Closed", "Wide", "Undo", "Memory"])
    calls, rng = Calls(), c.rng
    for op in ("SHL", "SHR", "ROL", "ROR"):
        for ty, w in WORDS.items():
            ns = list(range(2 * w + 2)) + [3 * w, 3 * w + 1, 255, 256, 257, 65535, 65536, 65537, (1 << 31) - 1, 1 << 31, (1 << 31) + 3, (1 << 32) - 1, (1 << 32) - w, (1 << 32) - w + 1]
            ns += [rng.randrange(1 << 32) for _ in range(c.n(20, 300))]
            for n in ns:
                vs = [word(rng, w) for _ in range(c.n(4, 60))]
                if c.thorough and w == 8 and n < 18:
                    vs = range(256)
                for v in vs:
                    calls.add(f"{op}__{ty}", f"u{w}", [f"i{v}", f"i{n}"], op=op, a=le(v, w), n=big(n), res="uint", f="")
    finish(c, calls, f"model: every byte and 16 words moved 0..{c.n(20, 40)} places one at a time; replay: 4 operations, 4 types, every amount to twice the width + 1, "
           "powers of two to the maximum and random amounts, " + c.n("4 words each", "60 words each, every byte"))


ENDIAN = {"INT": "i16", "DINT": "i32", "LINT": "i64", "UINT": "u16", "UDINT": "u32", "ULINT": "u64", "WORD": "u16", "DWORD": "u32", "LWORD": "u64", "WCHAR": "u16",
          "DATE": "i64", "TIME_OF_DAY": "i64", "DATE_AND_TIME": "i64", "REAL": "f", "LREAL": "d"}


def B02(c):
    model(c, ["Memory"])
    calls, rng = Calls(), c.rng
    for op in ("TO_BIG_ENDIAN", "TO_LITTLE_ENDIAN", "FROM_BIG_ENDIAN", "FROM_LITTLE_ENDIAN"):
        for ty, t in ENDIAN.items():
            w = {"f": 32, "d": 64}.get(t) or int(t[1:])
            vs = [0, 1, (1 << w) - 1, 1 << (w - 1), 0x80, 0xFF << (w - 8), int.from_bytes(bytes(range(1, w // 8 + 1)), "little"), int.from_bytes(bytes(range(0xF1, 0xF1 + w // 8)), "big")]
            vs += FSPECIAL.get(t, [])
            vs += [1 << i for i in range(w)] + [0xFF << (8 * i) for i in range(w // 8)]
            vs += [rng.randrange(1 << w) for _ in range(c.n(90, 4000))]
            for v in vs:
                v %= 1 << w
                if t in "fd":
                    arg = f"{t}{v:0{w // 4}x}"
                else:
                    arg = f"i{v - (1 << w) if t[0] == 'i' and v >> (w - 1) else v}"
                calls.add(f"{op}__{ty}", t, [arg], op="endian", name=op, a=le(v, w), res="real" if t in "fd" else "uint" if t[0] == "u" else "int", f="")
    finish(c, calls, f"4 conversions, 15 types, every single bit and byte, {c.n(90, 4000)} random values each", test=lambda r: r["res"] != "real")


def floats(c, t, k):
    rng = c.rng
    w = 32 if t == "f" else 64
    p = 23 if t == "f" else 52
    vs = list(FSPECIAL[t])
    for e in range(1 << (w - 1 - p)) if c.thorough or t == "f" else list(range(0, 1 << (w - 1 - p), 16)) + [1, 2046, 2047, 1023]:
        for fr in (0, 1, (1 << p) - 1, 1 << (p - 1), rng.randrange(1 << p)):
            vs.append(rng.randrange(2) << (w - 1) | e << p | fr)
    vs += [rng.randrange(1 << w) for _ in range(k)]
    top = (1 << (w - 1 - p)) - 1
    for i in range(p):                   # every single mantissa bit with an all-ones exponent
        vs += [top << p | 1 << i, 1 << (w - 1) | top << p | 1 << i]
    return vs


def B03(c):
    model(c, ["Memory"])
    calls, rng = Calls(), c.rng
    for t, ty, w, f in (("f", "REAL", 32, "R"), ("d", "LREAL", 64, "L")):
        for v in floats(c, t, c.n(1000, 20000)):
            calls.add(f"IS_VALID__{ty}", "b", [f"{t}{v:0{w // 4}x}"], op="valid", f=f, a=le(v, w), res="bool")
    for ty, w in WORDS.items():
        vs = list(range(256)) if w == 8 else list(range(65536)) if w == 16 and c.thorough else []
        for i in range(w // 4):
            for d in range(16):
                for rep in range(3):
                    v = 0
                    for j in range(w // 4):
                        v |= (rng.choice((0, 9, rng.randrange(10))) if j != i else d) << (4 * j)
                    vs.append(v)
        for _ in range(c.n(1000, 20000)):
            v = 0
            for j in range(w // 4):
                v |= (rng.randrange(10) if rng.random() < 0.9 else rng.randrange(16)) << (4 * j)
            vs.append(v)
        vs += [rng.randrange(1 << w) for _ in range(100)]
        for v in vs:
            calls.add(f"IS_VALID_BCD__{ty}", "b", [f"i{v}"], op="bcd", f="", a=le(v, w), res="bool")
    finish(c, calls, "every exponent with five fractions, every single fraction bit with the top exponent; every byte" + c.n("", " and word") +
           ", every digit 0..15 at every position of the longer words, random words")


def B04(c):
    model(c, ["Memory"])
    calls = Calls()
    for t, ty, bt, w, f in (("f", "REAL", "DWORD", 32, "R"), ("d", "LREAL", "LWORD", 64, "L")):
        for v in floats(c, t, c.n(2000, 60000)):
            calls.add(f"{bt}_TO_{ty}", t, [f"i{v}"], op="bits", f=f, a=le(v, w), res="real")
            calls.add(f"{ty}_TO_{bt}", f"u{w}", [f"{t}{v:0{w // 4}x}"], op="bits", f=f, a=le(v, w), res="uint")
    finish(c, calls, f"every REAL exponent and every 16th LREAL exponent with five fractions, special values, {c.n(2000, 60000)} random patterns, both directions",
           test=lambda r: not (r["a"][-1] & 0x7F == 0x7F and r["a"][-2] & 0x80))
