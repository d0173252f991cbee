"""MAX, MIN and LIMIT (M01-M02)."""
import struct

import vlib
from vlib import Calls
from textnum import edges

PROFILES = ("dbg", "rel")
CFG = "TraceSel.cfg"
TYPES = {"BOOL": "u8", "BYTE": "u8", "CHAR": "u8", "WORD": "u16", "WCHAR": "u16", "DWORD": "u32", "LWORD": "u64",
         "SINT": "i8", "USINT": "u8", "INT": "i16", "UINT": "u16", "DINT": "i32", "UDINT": "u32", "LINT": "i64", "ULINT": "u64",
         "DATE": "i64", "DATE_AND_TIME": "i64", "TIME": "i64", "TIME_OF_DAY": "i64", "REAL": "f", "LREAL": "d"}
WIDTH = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "f": 4, "d": 8}
FSPECIAL = {"f": [0, 1, 0x80000000, 0x80000001, 0x3F800000, 0xBF800000, 0x3F800001, 0x7F7FFFFF, 0xFF7FFFFF, 0x7F800000, 0xFF800000, 0x7FC00000, 0xFFC00001,
                  0x7F800001, 0x00800000, 0x007FFFFF],
            "d": [0, 1, 1 << 63, 1 << 63 | 1, 0x3FF0000000000000, 0xBFF0000000000000, 0x3FF0000000000001, 0x7FEFFFFFFFFFFFFF, 0xFFEFFFFFFFFFFFFF,
                  0x7FF0000000000000, 0xFFF0000000000000, 0x7FF8000000000000, 0x7FF0000000000001, 0xFFF8000000000001, 0x0010000000000000, 0x000FFFFFFFFFFFFF]}


def value(c, ty, pool=None):
    """bits of a value; with a pool, near its members, so that lists contain ties and neighbours"""
    rng, t = c.rng, TYPES[ty]
    w = WIDTH[t]
    if ty == "BOOL":
        return rng.randrange(2)
    if pool and rng.random() < 0.7:
        return (rng.choice(pool) + rng.choice((0, 0, 1, -1, 256, 1 << (8 * w - 1), 1 << (8 * w - 8))) * (t not in "fd" or rng.random() < 0.3)) % (1 << 8 * w)
    k = rng.random()
    if t in "fd":
        if k < 0.4:
            return rng.choice(FSPECIAL[t])
        b = rng.randrange(1 << 8 * w)
        return b
    if k < 0.4:
        return rng.choice((0, 1, 2, (1 << 8 * w) - 1, 1 << (8 * w - 1), (1 << (8 * w - 1)) - 1, (1 << (8 * w - 1)) + 1, 127, 128, 255)) % (1 << 8 * w)
    return rng.randrange(1 << rng.randrange(1, 8 * w + 1))


def mem(ty, xs):
    w = WIDTH[TYPES[ty]]
    return b"".join(x.to_bytes(w, "little") for x in xs)


def scalar(ty, b):
    t = TYPES[ty]
    w = WIDTH[t]
    if t in "fd":
        return f"{t}{b:0{2 * w}x}"
    return f"i{b - (1 << 8 * w) if t[0] == 'i' and b >> (8 * w - 1) else b}"


def M01(c):
    vlib.model(c, "MCSelection", {"MaxLen": c.n(4, 5)}, ["Running", "Unique"])
    calls, rng = Calls(), c.rng

    def one(op, ty, xs, n=None, null=False, extra=()):
        m = mem(ty, list(xs) + list(extra))
        n = len(xs) if n is None else n
        calls.add(f"{op}__{ty}", TYPES[ty], [f"i{n}", "n" if null else "s" + (m or b"\x01").hex()], op=op, ty=ty, a=list(m), n=n, null=int(null))

    for op in ("MAX", "MIN"):
        for ty in TYPES:
            one(op, ty, [], null=True)
            one(op, ty, [value(c, ty)], null=True)
            one(op, ty, [], extra=[value(c, ty)])
            sp = FSPECIAL.get(TYPES[ty])
            if sp:
                for x in sp:
                    for y in sp:
                        one(op, ty, [x, y])
            for _ in range(c.n(90, 3000)):
                k = rng.choice((1, 2, 2, 3, 3, 4, 5, 8, 17))
                pool = [value(c, ty) for _ in range(rng.choice((1, 2, 3)))]
                xs = [value(c, ty, pool) for _ in range(k)]
                one(op, ty, xs, extra=[value(c, ty, pool) for _ in range(rng.choice((0, 1, 3)))])
            # the extreme value at each position of a list
            longer = [*range(9, 41), 48, 63, 64, 65, 96, 100, 127, 128, 129, 200, 255, 256]
            for k in (1, 2, 3, 5, 8, *longer):
                for at in range(k) if k < 9 else {rng.randrange(k), rng.choice((0, k - 1, k - 1, k // 2))}:
                    xs = [value(c, ty, [1]) for _ in range(k)]
                    w = 8 * WIDTH[TYPES[ty]]
                    top = {"f": 0x7F800000, "d": 0x7FF0000000000000}.get(TYPES[ty], (1 << w) - 1 if TYPES[ty][0] == "u" else (1 << (w - 1)) - 1)
                    bottom = {"f": 0xFF800000, "d": 0xFFF0000000000000}.get(TYPES[ty], 0 if TYPES[ty][0] == "u" else 1 << (w - 1))
                    if ty == "BOOL":
                        top = 1
                    xs[at] = top if op == "MAX" else bottom
                    one(op, ty, xs)
            for k in (c.n(257, 300), 300) if WIDTH[TYPES[ty]] < 8 or c.thorough else (260,):
                xs = [value(c, ty, [3, 100]) for _ in range(k)]
                one(op, ty, xs)
        for ty in ("BYTE", "SINT") if not c.thorough else ("BYTE", "SINT", "WORD", "INT", "REAL", "LINT"):
            # more than 65535 arguments, the extreme one last
            xs = [5, 6] * 33000
            xs[-1] = 7 if op == "MAX" else 4
            one(op, ty, xs)
    libs = vlib.build_all(PROFILES)
    vlib.run_and_judge(c, "TraceSel", calls, libs, cfg=CFG)
    c.cov["bounds"] = f"model: every list of at most {c.n(4, 5)} of 5 integers or 8 reals; replay: 21 types, lists of 1 to 40, selected lengths up to 257, 300 and 66000 arguments with " \
                      "neighbouring values, the extreme at every position, surplus memory, empty and null lists; debug and release builds"


def M02(c):
    vlib.model(c, "MCSelection", {"MaxLen": 3}, ["Clamps", "Running"])
    calls, rng = Calls(), c.rng

    def one(ty, xs):
        calls.add(f"LIMIT__{ty}", TYPES[ty], [scalar(ty, x) for x in xs], op="LIMIT", ty=ty, a=list(mem(ty, xs)))

    for ty in TYPES:
        w = 8 * WIDTH[TYPES[ty]]
        sp = FSPECIAL.get(TYPES[ty]) or ([0, 1] if ty == "BOOL" else [0, 1, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1, 77])
        for x in sp:
            for y in sp if c.thorough or len(sp) < 10 else rng.sample(sp, 6):
                for z in sp if c.thorough or len(sp) < 10 else rng.sample(sp, 6):
                    one(ty, [x, y, z])
        for _ in range(c.n(300, 8000)):
            pool = [value(c, ty) for _ in range(rng.choice((1, 2)))]
            xs = [value(c, ty, pool) for _ in range(3)]
            if rng.random() < 0.5:
                t = TYPES[ty]
                key = (lambda b: struct.unpack("<" + t, b.to_bytes(WIDTH[t], "little"))[0]) if t in "fd" else \
                    (lambda b: b - (1 << w) if t[0] == "i" and b >> (w - 1) else b)
                lo, hi = sorted((xs[0], xs[2]), key=key)      # only arranges the arguments
                xs = [lo, xs[1], hi]
            one(ty, xs)
    libs = vlib.build_all(PROFILES)
    vlib.run_and_judge(c, "TraceSel", calls, libs, cfg=CFG, test=lambda r: TYPES[r["ty"]] not in "fd" or r["r"][-1] & 0x7F != 0x7F)
    c.cov["bounds"] = "model: every triple of 5 integers or 8 reals; replay: all triples of boundary values and random neighbouring triples of 21 types, also with " \
                      "crossed bounds; debug and release builds"
