"""Dates, times of day, durations and their texts (D01-D08)."""
import os
import struct

import vlib
from vlib import Calls, big
from textnum import edges

PROFILES = ("dbg", "rel")
CFG = "TraceDate.cfg"
LO, HI = -(1 << 63), (1 << 63) - 1
DAY = 86400 * 10 ** 9
INTS = {"SINT": ("i8", 8, 1), "INT": ("i16", 16, 1), "DINT": ("i32", 32, 1), "LINT": ("i64", 64, 1),
        "USINT": ("u8", 8, 0), "UINT": ("u16", 16, 0), "UDINT": ("u32", 32, 0), "ULINT": ("u64", 64, 0)}
SPLITS = ["INT", "UINT", "DINT", "UDINT", "LINT", "ULINT"]


def fits(ty, v):
    _, w, s = INTS[ty]
    return -(1 << (w - 1)) <= v < 1 << (w - 1) if s else 0 <= v < 1 << w


def calendar(c, invs):
    """every day of the range in the thorough tier; the years around 2000, 1900 and the start in the quick one"""
    vlib.model(c, "MCCalendar", {"Days": c.n(16000, 213504)}, invs, workers="1")


def finish(c, calls, bounds, coarse=False, test=lambda r: True):
    libs = vlib.build_all(PROFILES)
    vlib.run_and_judge(c, "TraceDate", calls, libs, cfg=CFG, coarse=coarse, test=test)
    c.cov["bounds"] = bounds + "; debug and release builds"


def days(c):
    """day numbers: month ends, leap days, century years, the ends of the range; all days in the thorough tier"""
    if c.thorough:
        return list(range(-106751, 106752))
    out = set(range(-106751, -106740)) | set(range(106740, 106752)) | set(range(-3, 4))
    n, y = -719162 + 365, 2     # 0002-01-01
    y, n = 1678, -106650
    while n <= 106751:
        for d in (0, 1, 30, 31, 57, 58, 59, 60, 89, 90, 364, 365, 366):
            out.add(n + d)
        leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
        n += 366 if leap else 365
        y += 1
    out = [x for x in out if -106751 <= x <= 106751]
    return sorted(out) + [c.rng.randrange(-106751, 106752) for _ in range(3000)]


def outs(ty, k):
    return ["o" + "A5" * (INTS[ty][1] // 8)] * k


def ns_values(c, k):
    rng = c.rng
    out = list(edges(LO, HI, rng, k))
    for _ in range(k):
        d = rng.randrange(-106752, 106752)
        v = d * DAY + rng.choice((0, 1, -1, DAY - 1, rng.randrange(DAY), rng.randrange(86400) * 10 ** 9, rng.randrange(86400000) * 10 ** 6, 999999999, 10 ** 9 - 10 ** 6,
                                  rng.randrange(DAY // 1000) * 1000))
        if LO <= v <= HI:
            out.append(v)
    # the last representable day and second at both ends
    for e, s in ((LO, 1), (HI, -1)):
        out += [e + s * x for x in (0, 1, 2, 145224191, 145224192, 145224193, 145224194, 854775806, 854775807, 854775808, 999999999, 10 ** 9, DAY // 2, DAY - 1, DAY, DAY + 1)]
        out += [e + s * rng.randrange(2 * 10 ** 9) for _ in range(60)] + [e + s * rng.randrange(2 * DAY) for _ in range(60)]
    return out


def D01(c):
    calendar(c, ["Closed", "InverseOk", "Week", "Period", "Anchors"])
    calls, rng = Calls(), c.rng

    def cd(ty, y, m, d):
        if fits(ty, y) and fits(ty, m) and fits(ty, d):
            calls.add(f"CONCAT_DATE__{ty}", "i64", [f"i{y}", f"i{m}", f"i{d}"], op="cdate", ty=ty, n=[big(y), big(m), big(d)])

    import datetime as dt
    epoch = dt.date(1970, 1, 1).toordinal()
    for i, n in enumerate(days(c)):
        t = dt.date.fromordinal(epoch + n)      # only chooses the arguments of the call
        ty = SPLITS[i % 6] if c.thorough else rng.choice(SPLITS)
        cd(ty, t.year, t.month, t.day)
        v = n * DAY
        calls.add(f"SPLIT_DATE__{ty}", None, [f"i{v}"] + outs(ty, 3), op="sdate", ty=ty, n=[big(v)])
        calls.add("DAY_OF_WEEK", "i8", [f"i{v}"], op="dow", ty="", n=[big(v)])
    years = [1600, 1676, 1677, 1678, 1696, 1699, 1700, 1704, 1800, 1899, 1900, 1904, 1968, 1969, 1970, 1972, 1999, 2000, 2001, 2023, 2024, 2100, 2104, 2200, 2260,
             2261, 2262, 2263, 2300, 2400, 9999, 10000, 0, 1, -1, -1970, 32767, -32768, 65535, 65536 + 2000, 1 << 31, (1 << 31) - 1, -(1 << 31), (1 << 32) + 2000, (1 << 32) - 1,
             (1 << 63) - 1, -(1 << 63), (1 << 64) - 1, 262143, -262144, 262144]
    months = [0, 1, 2, 3, 4, 9, 11, 12, 13, -1, 255, 256 + 2, 65536 + 2, (1 << 32) + 2, -(1 << 31), -254, (1 << 63) - 1]
    dd = [0, 1, 2, 10, 11, 12, 20, 21, 22, 28, 29, 30, 31, 32, -1, 256 + 5, 65536 + 5, (1 << 32) + 5, (1 << 63) - 1]
    for ty in SPLITS:
        for y in years:
            for m in (rng.sample(months, 8) if not c.thorough else months) + [2]:
                for d in (rng.sample(dd, 7) if not c.thorough else dd) + [29]:
                    cd(ty, y, m, d)
        for y in (1677, 2262, 1900, 2000, 2023, 2024):
            for m in range(1, 13):
                for d in (1, 10, 11, 12, 20, 21, 22, 28, 29, 30, 31):
                    cd(ty, y, m, d)
    for v in ns_values(c, c.n(700, 20000)):       # DATE values that are not midnight still name a day
        ty = rng.choice(SPLITS)
        calls.add(f"SPLIT_DATE__{ty}", None, [f"i{v}"] + outs(ty, 3), op="sdate", ty=ty, n=[big(v)])
        calls.add("DAY_OF_WEEK", "i8", [f"i{v}"], op="dow", ty="", n=[big(v)])
    finish(c, calls, "model: the calendar walked day by day " + c.n("from 1677 to 1723", "over the whole 64-bit range 1677-2262") +
           "; replay: " + c.n("month and year ends of every year plus random days", "every day of the range") + ", calendar and non-calendar triples of all six "
           "types with values around every type's limits, arbitrary 64-bit values")


def D02(c):
    calendar(c, ["PartsOk"])
    calls, rng = Calls(), c.rng

    def ct(ty, a):
        if all(fits(ty, x) for x in a):
            calls.add(f"CONCAT_TOD__{ty}", "i64", [f"i{x}" for x in a], op="ctod", ty=ty, n=[big(x) for x in a])

    wrap = [256, 65536, 1 << 32, 1 << 31, 1 << 63]
    for ty in INTS:
        _, w, s = INTS[ty]
        for _ in range(c.n(700, 15000)):
            a = [rng.choice((0, 1, 11, 12, 22, 23, rng.randrange(24))), rng.choice((0, 1, 59, rng.randrange(60))), rng.choice((0, 1, 59, rng.randrange(60))),
                 rng.choice((0, 1, 999, 500, 127, rng.randrange(1000)))]
            if rng.random() < 0.6:
                i = rng.randrange(4)
                a[i] = rng.choice(([24, 60, 60, 1000][i], [24, 60, 60, 1000][i] + 1, [25, 61, 61, 1999][i], -1, -a[i], a[i] + rng.choice(wrap), a[i] - rng.choice(wrap),
                                   (1 << w) - 1, (1 << (w - 1)) - 1, -(1 << (w - 1)), 1500, 2000, 255))
            ct(ty, [x if fits(ty, x) else min(x, 127) if ty == "SINT" else x % (1 << w) for x in a])
        for i, lim in enumerate((24, 60, 60, 1000)):
            for x in list(range(lim + 2)) if c.thorough or lim < 1000 else list(range(0, lim + 2, 37)) + [998, 999, 1000, 1001]:
                a = [rng.randrange(24), rng.randrange(60), rng.randrange(60), rng.randrange(100)]
                a[i] = x
                ct(ty, a)
    for ty in SPLITS:
        vs = [0, 1, 999999, 10 ** 6, 10 ** 6 - 1, 10 ** 9 - 1, 10 ** 9, 60 * 10 ** 9 - 1, 60 * 10 ** 9, 3600 * 10 ** 9 - 1, 3600 * 10 ** 9, DAY // 2, DAY - 1]
        vs += [rng.randrange(DAY) for _ in range(c.n(500, 15000))] + [rng.randrange(86400) * 10 ** 9 + rng.choice((0, 999999999, 999000000)) for _ in range(c.n(200, 5000))]
        for v in vs:
            calls.add(f"SPLIT_TOD__{ty}", None, [f"i{v}"] + outs(ty, 4), op="stod", ty=ty, n=[big(v)])
    finish(c, calls, "composition with every valid value of every part, limits, one beyond and values that alias valid ones modulo 2^8..2^64, for eight types; "
           "splitting of random and boundary times for six types")


def D03(c):
    calendar(c, ["PartsOk", "Ends", "InverseOk"])
    calls, rng = Calls(), c.rng
    for v in ns_values(c, c.n(1200, 40000)):
        calls.add("DATE_AND_TIME_TO_DATE", "i64", [f"i{v}"], op="dt2d", ty="", n=[big(v)])
        calls.add("DATE_AND_TIME_TO_TIME_OF_DAY", "i64", [f"i{v}"], op="dt2t", ty="", n=[big(v)])
        d, t = v // DAY * DAY, v % DAY
        if d >= LO:
            calls.add("CONCAT_DATE_TOD", "i64", [f"i{d}", f"i{t}"], op="join", ty="", n=[big(d), big(t)])
        ty = rng.choice(SPLITS)
        calls.add(f"SPLIT_DT__{ty}", None, [f"i{v}"] + outs(ty, 7), op="sdt", ty=ty, n=[big(v)])
    for _ in range(c.n(500, 5000)):      # the last day: some combinations do not fit
        t = rng.choice((rng.randrange(DAY), 85636854775807, 85636854775808, 85636854775806, DAY - 1))
        calls.add("CONCAT_DATE_TOD", "i64", [f"i{106751 * DAY}", f"i{t}"], op="join", ty="", n=[big(106751 * DAY), big(t)])
    finish(c, calls, "all powers of two and ten with neighbours, random values, day and second boundaries over the whole range, both ends of the range")


def pairs(c, k):
    rng = c.rng
    vals = [0, 1, -1, 2, -2, LO, LO + 1, LO + 2, HI, HI - 1, HI // 2, LO // 2, HI // 2 + 1, LO // 2 - 1, DAY, -DAY, 10 ** 9, 1 << 32, -(1 << 32), 1 << 53, LO + 145224192,
            LO + 145224193, LO + 145224191, -9223372036 * 10 ** 9, -9223372037 * 10 ** 9 + 10 ** 9, 9223372036 * 10 ** 9]
    for a in vals:
        for b in vals:
            yield a, b
    for _ in range(k):
        a = rng.randrange(1 << rng.randrange(1, 64)) * rng.choice((1, -1))
        m = rng.random()
        if m < 0.4:
            b = rng.randrange(1 << rng.randrange(1, 64)) * rng.choice((1, -1))
        else:   # results at the ends of the range
            e = rng.choice((LO, HI)) + rng.choice((0, 1, -1, 2, -2, rng.randrange(-10 ** 9, 10 ** 9), rng.randrange(-DAY, DAY)))
            b = e - a if m < 0.7 else a - e
        yield a, max(LO, min(HI, b))
    # results at landmarks of time: midnight, whole seconds and milliseconds, ends of narrower types
    for _ in range(k // 3):
        a = rng.choice((rng.randrange(DAY), rng.randrange(DAY), rng.randrange(1 << 40), rng.randrange(-(1 << 55), 1 << 55), rng.randrange(DAY) // 10 ** 9 * 10 ** 9))
        e = rng.choice((0, DAY, DAY, -DAY, 2 * DAY, rng.randrange(-400, 400) * DAY, rng.randrange(DAY) // 10 ** 9 * 10 ** 9, rng.randrange(10 ** 9) * 10 ** 6, 1 << 31, 1 << 32,
                        -(1 << 31), 1 << 53)) + rng.choice((0, 0, 0, 1, -1))
        yield (a, e - a) if rng.random() < 0.5 else (a, a - e)


def D04(c):
    vlib.model(c, "MCTimeArith", {}, ["SumMeans"])
    calls = Calls()
    names = ["ADD_TIME", "ADD_TOD_TIME", "ADD_DT_TIME", "SUB_TIME", "SUB_DATE_DATE", "SUB_TOD_TIME", "SUB_TOD_TOD", "SUB_DT_TIME", "SUB_DT_DT"]
    for a, b in pairs(c, c.n(1200, 40000)):
        for name in names if c.thorough or abs(a) > 1 << 61 else c.rng.sample(names, 4):
            calls.add(name, "i64", [f"i{a}", f"i{b}"], op="sum", name=name, ty="", n=[big(a), big(b)])
    finish(c, calls, "all pairs of 26 boundary values and random pairs, most with results within a day of the ends of the 64-bit range or at midnight and other landmarks, for the nine operations")


def D05(c):
    vlib.model(c, "MCTimeArith", {}, ["ProductMeans", "QuotientMeans"])
    calls, rng = Calls(), c.rng
    for ty, (cty, w, s) in INTS.items():
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        fix = [x for x in (0, 1, -1, 2, -2, 3, 7, 10, -10, 127, 128, -128, 255, 256, 32767, 32768, 65535, 1 << 31, (1 << 31) - 1, -(1 << 31), 1 << 32, lo, lo + 1, hi, hi - 1, 1 << 63,
                           (1 << 63) - 1, (1 << 63) + 1) if lo <= x <= hi]
        for op, om in (("MUL", "mul"), ("DIV", "div")):
            for form in ("{}__TIME__{}", "{}_TIME__{}", "{}_LTIME__{}"):
                sym = form.format(op, ty)
                for _ in range(c.n(220, 6000)):
                    b = rng.choice(fix) if rng.random() < 0.6 else rng.randrange(lo, hi + 1) if rng.random() < 0.5 else \
                        max(lo, min(hi, rng.randrange(1 << rng.randrange(1, w + 1)) * rng.choice((1, -1))))
                    m = rng.random()
                    if m < 0.3 and b:       # product at the end of the range, dividend near a multiple
                        a = rng.choice((LO, HI)) // b + rng.choice((-1, 0, 1)) if om == "mul" else b * rng.randrange(-(1 << 20), 1 << 20) + rng.choice((-1, 0, 1))
                    elif m < 0.6:
                        a = rng.choice((0, 1, -1, LO, LO + 1, HI, HI - 1, 10 ** 9, -10 ** 9, DAY))
                    else:
                        a = rng.randrange(1 << rng.randrange(1, 64)) * rng.choice((1, -1))
                    a = max(LO, min(HI, a))
                    calls.add(sym, "i64", [f"i{a}", f"i{b}"], op=om, ty=ty, n=[big(a), big(b)])
    finish(c, calls, "48 symbols; operands at the limits of every type, products at the ends of the range, dividends beside multiples, random pairs")


def real_bits(rng, f):
    """(hex word for the executor, little-endian bytes)"""
    p, ebits = (23, 8) if f == "R" else (52, 11)
    bias = (1 << (ebits - 1)) - 1
    k = rng.random()
    sg = rng.choice((0, 1))
    if k < 0.12:
        e, m = rng.choice(((0, 0), (0, 1), (0, rng.randrange(1 << p)), ((1 << ebits) - 1, 0), ((1 << ebits) - 1, 1 << (p - 1)), ((1 << ebits) - 1, 1), (1, 0), ((1 << ebits) - 2, (1 << p) - 1)))
    elif k < 0.5:
        fmt = ">f" if f == "R" else ">d"
        x = rng.choice((1.0, 2.0, 0.5, 10.0, 0.1, 1.5, 3.0, 1e9, 1e-9, 1000.0, 0.001, 60.0, 3600.0, 1 / 3, float(rng.randrange(1, 100)), rng.random(), rng.random() * 1000))
        b = int.from_bytes(struct.pack(fmt, x), "big")
        e, m = b >> p, b & ((1 << p) - 1)
    else:
        e = bias + rng.choice((0, 1, -1, rng.randrange(-40, 40), rng.randrange(-64, 70)))
        m = rng.choice((0, 1, (1 << p) - 1, rng.randrange(1 << p)))
    w = sg << (p + ebits) | e << p | m
    n = 4 if f == "R" else 8
    return f"{w:0{2 * n}x}", list(w.to_bytes(n, "little")), e - bias, (e, m)


def D06(c):
    vlib.model(c, "MCTimeArith", {}, ["ScaleMeans"])
    calls, rng = Calls(), c.rng
    for f, ty in (("R", "REAL"), ("L", "LREAL")):
        for op, om in (("MUL", "rmul"), ("DIV", "rdiv")):
            for form in ("{}__TIME__{}", "{}_TIME__{}", "{}_LTIME__{}"):
                for _ in range(c.n(450, 12000)):
                    h, b, e, _ = real_bits(rng, f)
                    m = rng.random()
                    if m < 0.2:
                        a = rng.choice((0, 1, -1, 2, LO, LO + 1, HI, HI - 1, 10 ** 9, -10 ** 9, DAY, -DAY, 999999999, 10 ** 9 + 1))
                    elif m < 0.5:   # results near the ends of the range
                        k = 63 - e if om == "rmul" else 63 + e
                        k = max(1, min(63, k + rng.choice((-1, 0, 0, 1))))
                        a = rng.randrange(1 << k) * rng.choice((1, -1))
                    else:
                        a = rng.randrange(1 << rng.randrange(1, 64)) * rng.choice((1, -1))
                    calls.add(form.format(op, ty), "i64", [f"i{a}", ("f" if f == "R" else "d") + h], op=om, ty=ty, f=f, x=b, n=[big(a)])
    finish(c, calls, "12 symbols; operands over all exponents with special values, results from below a nanosecond to beyond the range",
           coarse=True, test=lambda r: 100 < abs(vlib.unbig(r["r"])) < 1 << 61)
    c.assumptions = ["the documented precision is the operand's: a result may be off by 2^-20 (REAL) or 2^-49 (LREAL) of its size plus one nanosecond"]


def D07(c):
    calendar(c, ["InverseOk", "PartsOk"])
    calls, rng = Calls(), c.rng

    def one(kind, v):
        n = 81 + rng.choice((0, 0, 9))
        o = "o" + bytes(rng.randrange(1, 256) for _ in range(n)).hex()
        calls.add(f"{kind}_TO_STRING_EXT", None, [f"i{v}", o], op="t" + kind, ty="", n=[big(v)])

    vs = ns_values(c, c.n(900, 30000))
    for v in vs:
        one("DT", v)
        if rng.random() < 0.5:
            one("DATE", v)
        one("TOD", v % DAY)
        one("TIME", v)
    unit = [DAY, 3600 * 10 ** 9, 60 * 10 ** 9, 10 ** 9, 10 ** 6, 10 ** 3, 1]
    top = [106751, 23, 59, 59, 999, 999, 999]
    for mask in range(128):       # every combination of present parts
        for _ in range(c.n(4, 60)):
            v = sum(rng.choice((1, top[i], rng.randrange(1, top[i] + 1), 10 if top[i] > 10 else 1)) * unit[i] for i in range(7) if mask >> i & 1)
            v = min(v, HI)
            one("TIME", v)
            one("TIME", -v)
    for d in days(c)[::c.n(5, 3)]:
        one("DATE", d * DAY)
    finish(c, calls, "all powers of two and ten with neighbours, day and second boundaries, both ends of the range, every combination of present duration parts "
           "with both signs, every printed fraction length")


ZONES = [("UTC0", 0), ("<+0530>-5:30", 19800), ("<-0930>9:30", -34200), ("<+14>-14", 50400), ("<-12>12", -43200), ("<+0545>-5:45", 20700), ("EST5", -18000)]
RULES = [("CET-1CEST,M3.5.0,M10.5.0/3", 3600, 7200, (3, 5, 0, 7200), (10, 5, 0, 10800)),
         ("EST5EDT,M3.2.0,M11.1.0", -18000, -14400, (3, 2, 0, 7200), (11, 1, 0, 7200)),
         ("AEST-10AEDT,M10.1.0,M4.1.0/3", 36000, 39600, (10, 1, 0, 7200), (4, 1, 0, 10800))]


def D08(c):
    calendar(c, ["PartsOk", "Week"])
    vclock = vlib.build_vclock()
    libs = vlib.build_all(("real", "realrel"))
    rng = c.rng
    recs = []
    zones = [(tz, {"std": o, "dst": o}) for tz, o in ZONES] + \
            [(tz, {"std": s, "dst": d, "a": dict(zip(("m", "w", "d", "at"), a)), "b": dict(zip(("m", "w", "d", "at"), b))}) for tz, s, d, a, b in RULES]
    ident = 0
    for tz, z in zones:
        moments = []
        for _ in range(c.n(60, 1200)):
            day = rng.choice((0, 1, 59, 364, 10957, 11016, 19723, 24855, rng.randrange(1, 47000)))
            sec = rng.choice((0, 1, 86399, 43200, rng.randrange(86400)))
            ns = rng.choice((0, 1, 999999999, rng.randrange(10 ** 9)))
            # local boundary moments as well as UTC ones
            t = (day * 86400 + sec - rng.choice((0, z["std"], z["dst"]))) * 10 ** 9 + ns
            adv = rng.choice((0, 0, 0, 1, 1000, 10 ** 8, 333333333, 10 ** 9 + 7))
            if t >= 0:
                moments.append((t, adv))
        if z["std"] != z["dst"]:
            import datetime as dt
            for y in [1990, 2000, 2023, 2024, 2037, 2038, 2061] + [rng.randrange(1971, 2090) for _ in range(c.n(6, 60))]:
                for m in (3, 4, 10, 11):
                    for d in (1, 2, 5, 7, 8, 14, 25, 26, 28, 30, 31):
                        if d <= 30 or m in (3, 10):
                            base = (dt.date(y, m, d) - dt.date(1970, 1, 1)).days * 86400
                            s = base + rng.choice((3600, 7200, 10800)) - rng.choice((z["std"], z["dst"])) + rng.choice((-1, 0, 1, -1800, 1800))
                            if rng.random() < c.n(0.35, 1.0):
                                moments.append((s * 10 ** 9 + rng.choice((0, 999999999)), 0))
        for prof, so in libs.items():
            lines, order = [], []
            mono = 10 ** 12
            for t, adv in moments:
                ident += 1
                mono += 10 ** 10          # chrono re-reads the zone only when its clock has moved on
                lines += [f"M {mono} {t} {adv}", f"c {ident} i64 TIME"]
                order.append((ident, t, adv))
            res = vlib.run_script(so, lines, c.work, f"z{ident}", env={"LD_PRELOAD": vclock, "TZ": tz})
            for i, t, adv in order:
                o = res.get(str(i), ["lost"])
                r = {"id": i, "sym": "TIME", "prof": prof, "op": "clock", "ty": "", "n": [big(t), big(adv)], "z": z, "out": o[0], "g": 1, "s": 1, "bufs": [],
                     "_script": f"TZ={tz}; M {mono} {t} {adv}; TIME()"}
                if o[0] == "ok":
                    r["r"] = big(int(o[1]))
                recs.append(r)
    # the machine's own clock, unaltered
    for prof, so in libs.items():
        import time
        for _ in range(c.n(3, 30)):
            ident += 1
            a = time.time_ns()
            res = vlib.run_script(so, [f"c {ident} i64 TIME"], c.work, "now", env={"TZ": "UTC0"})
            b = time.time_ns()
            o = res[str(ident)]
            recs.append({"id": ident, "sym": "TIME", "prof": prof, "op": "real", "ty": "", "n": [big(a), big(b)], "z": zones[0][1], "out": o[0], "g": 1, "s": 1,
                         "bufs": [], "r": big(int(o[1])) if o[0] == "ok" else big(-1), "_script": "TIME()"})
    v = vlib.judge("TraceDate", recs, c.work, "t", cfg=CFG)
    c.take(recs, v)
    c.add(calls=len(recs))
    vlib.self_test(c, "TraceDate", CFG, [r for r in recs if r["id"] not in v.rejected], lambda r: r["op"] == "clock" and r["n"][1]["s"] == 0)
    c.cov["bounds"] = "ten time zones (fixed offsets and both hemispheres' summer time), instants 1970-2098 at day, second and rule boundaries, clocks that advance " \
                      "between readings; production debug and release builds on a preloaded virtual clock, and the machine's own clock"
    c.assumptions = ["the operating system's clock is replaced by a preloaded library; the zone comes from TZ"]
