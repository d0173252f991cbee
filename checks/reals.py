"""Rounding, square roots, real functions, constants and powers (R01-R03)."""
import math
import struct

import vlib
from vlib import Calls, big
from selection import FSPECIAL

PROFILES = ("dbg", "rel")
CFG = "TraceReal.cfg"
FMT = {"R": ("f", "REAL", 32, 23), "L": ("d", "LREAL", 64, 52)}


def bits(f, x):
    """bits of the number of format f next to the Python number x"""
    if f == "L":
        return struct.unpack("<Q", struct.pack("<d", x))[0]
    try:
        return struct.unpack("<I", struct.pack("<f", x))[0]
    except OverflowError:
        return 0x7F7FFFFF | (0x80000000 if x < 0 else 0)


def mem(f, b):
    return list(b.to_bytes(FMT[f][2] // 8, "little"))


def tok(f, b):
    t, _, w, _ = FMT[f]
    return f"{t}{b:0{w // 4}x}"


def isnan(f, b):
    _, _, w, p = FMT[f]
    return (b & ((1 << (w - 1)) - 1)) > ((1 << (w - 1 - p)) - 1) << p


def special(f):
    p = FMT[f][3]
    return [b for b in FSPECIAL[FMT[f][0]] if not isnan(f, b) or b >> (p - 1) & 1]      # no signalling patterns


def attach(got, so):
    """gives a record the result of the call it is to be compared with"""
    for r in got:
        k = r.get("_m")
        if k is not None and got[k].get("r") is not None:
            r["m"] = got[k]["r"]
    return got


def finish(c, calls, bounds, test=lambda r: True, post=attach):
    libs = vlib.build_all(PROFILES)
    vlib.run_and_judge(c, "TraceReal", calls, libs, cfg=CFG, test=lambda r: r.get("op") != "const" and test(r), post=post)
    c.cov["bounds"] = bounds + "; debug and release builds"


def model(c, invs, grid=(10, 150)):
    vlib.model(c, "MCRealMath", {"Grid": c.n(*grid)}, invs)


def pair(calls, op, f, b, sym=None):
    """calls op for the number with bits b and for its negation, each compared with the other"""
    t, ty, w, _ = FMT[f]
    n = len(calls)
    for i, v in enumerate((b, b ^ 1 << (w - 1))):
        calls.add(f"{op}__{ty}", t, [tok(f, v)], op=op, f=f, x=mem(f, v), _m=n + 1 - i)


def single(calls, op, f, b):
    t, ty, _, _ = FMT[f]
    calls.add(f"{op}__{ty}", t, [tok(f, b)], op=op, f=f, x=mem(f, b))


def anynum(rng, f):
    _, _, w, p = FMT[f]
    while True:
        b = rng.randrange(1 << w)
        if not isnan(f, b):
            return b


def R01(c):
    model(c, ["Pows"], (10, 60))
    calls, rng = Calls(), c.rng
    for f, (t, ty, w, p) in FMT.items():
        for b in special(f):
            single(calls, "SQRT", f, b)
            pair(calls, "ROUND", f, b)
        bias = (1 << (w - 2 - p)) - 1
        for e in range(0, 2 * bias + 1, c.n(3 if f == "R" else 23, 1)):
            for fr in (0, 1, (1 << p) - 1, rng.randrange(1 << p)):
                single(calls, "SQRT", f, e << p | fr)
        for _ in range(c.n(1500, 30000)):
            k = rng.random()
            if k < 0.5:          # squares of short numbers and their neighbours
                v = rng.randrange(1, 1 << rng.randrange(1, (p + 2) // 2 + 2))
                b = bits(f, float(v * v) * 4.0 ** rng.randrange(-20, 20)) + rng.choice((0, 1, -1))
            else:
                b = anynum(rng, f) & ((1 << (w - 1)) - 1)
            single(calls, "SQRT", f, b)
        for _ in range(c.n(40, 500)):
            single(calls, "SQRT", f, anynum(rng, f) | 1 << (w - 1))
        # halves, just below and above, at every magnitude where fractions exist
        for e in range(-3, p + 3):
            for _ in range(c.n(8, 200)):
                n = rng.randrange(1 << max(e, 0), 2 << max(e, 0))
                b = bits(f, n + rng.choice((0.5, 0.5, 0.0, 0.25, 0.75)))
                for d in (-1, 0, 1):
                    pair(calls, "ROUND", f, b + d)
        for x in (0.5, 0.49999999999999994, 0.25, 0.75, 1.5, 2.5, 0.99999994, 8388607.5, 8388608.5, 4503599627370495.5, 4503599627370496.5, 1e300, 1e10, 16777215.0, 1e-300):
            if f == "R" and (x > 1e38 or x < 1e-38):
                continue
            for d in (-2, -1, 0, 1, 2):
                pair(calls, "ROUND", f, bits(f, x) + d)
        for _ in range(c.n(500, 20000)):
            pair(calls, "ROUND", f, anynum(rng, f))
            pair(calls, "ROUND", f, bits(f, rng.uniform(-1, 1) * 2.0 ** rng.randrange(0, p + 2)))
    finish(c, calls, "SQRT: every " + c.n("third REAL and 23rd LREAL", "") + " exponent, squares and their neighbours, random, negative; ROUND: halves and neighbours at every magnitude "
           "below the integer range, specials, random, with both signs", test=lambda r: r["r"][-1] & 0x7F != 0x7F and any(r["r"][:-1]))


def angles(c, f, k):
    rng, (_, _, w, p) = c.rng, FMT[f]
    out = []
    # near multiples of pi/2 and pi/4: small, and large ones
    for _ in range(k):
        m = rng.choice((rng.randrange(1, 40), rng.randrange(1, 1 << rng.randrange(2, 30)), rng.randrange(1, 1 << rng.randrange(30, 50))))
        out.append(bits(f, m * rng.choice((math.pi / 4, math.pi / 2, math.pi))) + rng.choice((0, 0, 1, -1, 2, -3)))
    for _ in range(k):
        out.append(bits(f, rng.uniform(0, 10)))
        out.append(bits(f, 2.0 ** rng.uniform(-30, 30)))
    bias = (1 << (w - 2 - p)) - 1
    for e in range(1, 2 * bias + 1, c.n(4 if f == "R" else 43, 1 if f == "R" else 3)):
        out.append(e << p | rng.randrange(1 << p))
    # famous worst cases of the argument reduction
    if f == "L":
        out += [bits(f, x) for x in (6381956970095103.0 * 2.0 ** 797, 5.319372648326541e+255, 1.7976931348623157e308, 1e22, 2.0 ** 1023, 6134899525417045.0 * 2.0 ** 843, 5e-324, 2.0 ** -1022,
                                     0.7853981633974483, 0.7853981633974484, 1.5707963267948966, 3.141592653589793, 6.283185307179586, 2.0 ** -26, 2.0 ** -27)]
    else:
        out += [bits(f, x) for x in (16367173.0 * 2.0 ** 72, 3.4028235e38, 1e22, 2.0 ** 127, 2.0 ** -149, 2.0 ** -126, 0.7853982, 1.5707964, 3.1415927, 6.2831855, 2.0 ** -12, 3.92699082)]
    return out


def R02(c):
    model(c, ["PiSeries", "TwoOverPi", "Logs", "Identities", "BigAngles"])
    calls, rng = Calls(), c.rng
    k = c.n(45, 2500)
    for f, (t, ty, w, p) in FMT.items():
        bias = (1 << (w - 2 - p)) - 1
        top = ((1 << (w - 1 - p)) - 1) << p
        for b in special(f):
            for op in ("SIN", "COS", "TAN", "ASIN", "ATAN"):
                pair(calls, op, f, b)
            for op in ("ACOS", "LN", "LOG", "EXP"):
                single(calls, op, f, b)
        for b in angles(c, f, k):
            if 0 < b < top:
                pair(calls, rng.choice(("SIN", "COS", "TAN")), f, b)
        one = bias << p
        # the domain -1..1: all over, near the ends, outside
        for op in ("ASIN", "ACOS"):
            bs = [one + d for d in (-3, -2, -1, 0, 1, 2)] + [bits(f, x) for x in (0.5, 0.25, 0.75, 0.9, 0.7071067811865476, 0.8660254037844386, 1.5, 2.0, 1e30)]
            bs += [bits(f, rng.uniform(0, 1)) for _ in range(k)] + [one - rng.randrange(1, 1 << rng.randrange(1, p)) for _ in range(k)]
            bs += [rng.randrange(1, bias) << p | rng.randrange(1 << p) for _ in range(k)] + [one + rng.randrange(1, top - one) for _ in range(k // 4)]
            for b in bs:
                if op == "ASIN":
                    pair(calls, op, f, b)
                else:
                    single(calls, op, f, b)
                    single(calls, op, f, b | 1 << (w - 1))
        for b in [rng.randrange(top) for _ in range(k)] + [bits(f, 2.0 ** rng.uniform(-10, 10)) for _ in range(k)] + [one, one + 1, one - 1, top - 1, 1, 1 << p]:
            pair(calls, "ATAN", f, b)
        # logarithms
        for op in ("LN", "LOG"):
            bs = [one + d for d in range(-6, 7)] + [one + rng.choice((1, -1)) * rng.randrange(1 << rng.randrange(1, p)) for _ in range(k)]
            bs += [rng.randrange(1, top) for _ in range(k)] + [bits(f, math.e), bits(f, math.e) + 1, 1, 2, 3, 1 << p, (1 << p) - 1, top - 1]
            bs += [1 << (w - 1) | rng.randrange(1, top) for _ in range(12)] + [bits(f, 2.0 ** i) for i in range(-20, 20)]
            bs += [bits(f, 10.0 ** i) for i in range(0, 23 if f == "L" else 11)] + [bits(f, 10.0 ** i) + rng.choice((1, -1)) for i in range(0, 23 if f == "L" else 11)]
            bs += [bits(f, 10.0 ** -i) for i in range(1, 23)]
            for b in bs:
                single(calls, op, f, b)
        # exponentials: the whole finite range, the ends, tiny arguments
        lim = 709.782712893384 if f == "L" else 88.72284
        low = -745.1332191019412 if f == "L" else -103.97208
        xs = [lim, low, 1.0, -1.0, 0.5, -0.5, 2.0, 10.0, math.log(2), -708.3964185322641, -87.33655, 100.0, -100.0, 709.0, 711.0, -746.0, 5000.0, -5000.0, 1e30, -1e30]
        xs += [rng.uniform(low, lim) for _ in range(k)] + [rng.uniform(-2, 2) for _ in range(k)] + [rng.choice((1, -1)) * 2.0 ** rng.uniform(-80 if f == "R" else -200, 10) for _ in range(k)]
        xs += [rng.uniform(low, low + 40) for _ in range(k // 2)]
        for x in xs:
            for d in (-1, 0, 1) if abs(x) in (lim, -low) else (0,):
                single(calls, "EXP", f, bits(f, x) + d)
        # ATAN2
        sp = [b for b in special(f) if b != 1] + [bits(f, 3.0), bits(f, -2.0)]

        def two(b, a):
            n = len(calls)
            for i, v in enumerate((b, b ^ 1 << (w - 1))):
                calls.add(f"ATAN2__{ty}", t, [tok(f, v), tok(f, a)], op="ATAN2", f=f, x=mem(f, v), y=mem(f, a), _m=n + 1 - i)

        for b in sp:
            for a in sp if c.thorough else rng.sample(sp, 9):
                two(b, a)
        for _ in range(2 * k):
            q = rng.random()
            if q < 0.4:
                two(bits(f, rng.uniform(-5, 5)), bits(f, rng.uniform(-5, 5)))
            elif q < 0.7:
                two(anynum(rng, f), anynum(rng, f))
            else:
                s = rng.uniform(-100, 100) * 2.0 ** rng.randrange(-40, 40)
                two(bits(f, s) + rng.choice((0, 1, -1)), bits(f, rng.choice((s, -s, s * 2.0 ** -rng.randrange(60), -s * 2.0 ** -rng.randrange(60), s * 2.0 ** rng.randrange(60)))))

    def post(got, so):
        attach(got, so)
        n = got[-1]["id"]
        for f, (_, ty, w, _) in FMT.items():
            for name in ("PI", "FRAC_PI_2", "FRAC_PI_4", "E"):
                n += 1
                v = vlib.data(so, f"{name}_{ty}", w // 8)
                got.append({"id": n, "op": "const", "name": name, "f": f, "sym": f"{name}_{ty}", "prof": got[0]["prof"], "out": "ok" if v else "nosym", "g": 1, "s": 1,
                            "bufs": [], **({"r": v} if v else {})})
        return got

    finish(c, calls, "10 functions in two formats: special values, angles near multiples of pi/4 up to 2^50, every " + c.n("4th REAL and 43rd LREAL", "REAL and third LREAL") +
           f" exponent and known worst cases, arguments near 1 and the domain's ends, near overflow and underflow, {k} random per class; 8 constants", post=post,
           test=lambda r: r["r"][-1] & 0x7F != 0x7F)


def R03(c):
    model(c, ["Pows", "Logs"], (20, 400))
    calls, rng = Calls(), c.rng

    def conv(f, ef, b):
        if f == ef:
            return b
        x = struct.unpack("<d" if ef == "L" else "<f", bytes(mem(ef, b)))[0]
        if x != x:
            return (0x7FC00000 if f == "R" else 0x7FF8000000000000) | (b >> (FMT[ef][2] - 1)) << (FMT[f][2] - 1)
        if f == "L":
            return bits("L", x)
        try:
            return bits("R", struct.unpack("<f", struct.pack("<f", x))[0])
        except OverflowError:
            return 0xFF800000 if x < 0 else 0x7F800000

    def dint(f, b, n):
        t, ty, _, _ = FMT[f]
        calls.add(f"EXPT__{ty}__DINT", t, [tok(f, b), f"i{n}"], op="EXPT", f=f, x=mem(f, b), ek="D", n=big(n))

    def real(f, ef, b, q):
        t, ty, _, _ = FMT[f]
        et = FMT[ef][1]
        cb = conv(f, ef, q)
        i = len(calls)
        if f != ef:
            calls.add(f"EXPT__{ty}__{ty}", t, [tok(f, b), tok(f, cb)], op="EXPT", f=f, x=mem(f, b), ek=f, y=mem(f, cb), c=mem(f, cb))
        calls.add(f"EXPT__{ty}__{et}", t, [tok(f, b), tok(ef, q)], op="EXPT", f=f, x=mem(f, b), ek=ef, y=mem(ef, q), c=mem(f, cb), **({"_m": i} if f != ef else {}))

    ints = [0, 1, -1, 2, -2, 3, -3, 4, 5, -5, 7, 10, -10, 31, 32, 33, -33, 63, 64, 100, -101, 127, 255, 256, 1000, -1001, 65536, 65537, (1 << 31) - 1, -(1 << 31), -(1 << 31) + 1, 1 << 30]
    for f, (t, ty, w, p) in FMT.items():
        sp = special(f) + [bits(f, x) for x in (2.0, -2.0, 0.5, -0.5, 3.0, 10.0, -1.5, 1e10, 1e-10)]
        one = bits(f, 1.0)
        for b in sp:
            for n in ints if c.thorough else rng.sample(ints, 12) + [0, 1, -1]:
                dint(f, b, n)
        for _ in range(c.n(250, 6000)):
            k = rng.random()
            if k < 0.4:
                b, n = bits(f, rng.uniform(-4, 4)), rng.randrange(-70, 71)
            elif k < 0.6:
                b, n = one + rng.randrange(-1 << (p // 2), 1 << (p // 2)), rng.choice((1, -1)) * rng.randrange(1 << rng.randrange(1, p // 2 + 2 if f == "L" else 14))
            elif k < 0.8:
                n = rng.choice((1, -1)) * rng.randrange(1, 300)
                b = bits(f, rng.choice((1, -1)) * 2.0 ** (rng.uniform(-1, 1) * (1000 if f == "L" else 120) / abs(n)))
            else:
                b, n = anynum(rng, f), rng.choice(ints + [rng.randrange(-20, 21)])
            dint(f, b, n)
        for ef in ("R", "L"):
            qs = special(ef) + [bits(ef, x) for x in (1.0, -1.0, 2.0, -2.0, 3.0, -3.0, 0.5, -0.5, 1.5, 0.25, 1e10, 1e20, -1e20, 16777216.0, 16777217.0, 0.1, 2.5, 33554431.0,
                                                        *((9007199254740992.0, 9007199254740991.0, 1e300, -1e300, 2147483648.0, 4294967297.0, -2147483649.0, 1e39, 3.4028235677973366e38)
                                                          if ef == "L" else ()))]
            for b in sp:
                for q in qs if c.thorough else rng.sample(qs, 9):
                    real(f, ef, b, q)
            for _ in range(c.n(130, 4000)):
                k = rng.random()
                if k < 0.3:          # integral exponents
                    b, x = bits(f, rng.uniform(-5, 5)), float(rng.randrange(-60, 61))
                elif k < 0.5:        # short fractions
                    b, x = bits(f, rng.uniform(0, 50)), rng.randrange(-400, 400) / rng.choice((2.0, 4.0, 8.0, 16.0))
                elif k < 0.7:        # the whole result range
                    x = rng.uniform(-30, 30)
                    b = bits(f, 2.0 ** (rng.uniform(-1, 1) * (1000 if f == "L" else 120) / abs(x)) if abs(x) > 1 else rng.uniform(0, 10))
                elif k < 0.9:        # bases next to 1, large exponents
                    b, x = one + rng.randrange(-1 << (p // 2), 1 << (p // 2)), rng.choice((1, -1)) * float(rng.randrange(1 << rng.randrange(1, p // 2 + 3)))
                else:
                    b, x = anynum(rng, f), struct.unpack("<d", struct.pack("<Q", rng.choice((0x3FF, 0x400, 0x3FE, 0x3C0, 0x43F)) << 52 | rng.randrange(1 << 52)))[0]
                real(f, ef, b, bits(ef, x))
    finish(c, calls, "all six native variants: every pair of special values" + c.n(" (sampled)", "") + ", integral exponents including the ends of DINT, fractional exponents, "
           "bases next to 1, results over the whole range including overflow and underflow, mixed-type calls with the base type's call on the converted exponent",
           test=lambda r: r.get("ek") != "D" and r["r"][-1] & 0x7F != 0x7F and r["r"][-1] & 0x7F)
