"""Functions written in structured text (L01-L06), executed by lib/stvm.py on top of the built library."""
import struct

import dates
import reals
import strings
import stvm
import textnum
import vlib
from vlib import Calls, big

INTS = {"BYTE": (8, 0), "WORD": (16, 0), "DWORD": (32, 0), "LWORD": (64, 0), "USINT": (8, 0), "UINT": (16, 0), "UDINT": (32, 0), "ULINT": (64, 0),
        "SINT": (8, 1), "INT": (16, 1), "DINT": (32, 1), "LINT": (64, 1), "CHAR": (8, 0), "WCHAR": (16, 0), "BOOL": (8, 0)}
TIMES = ["TIME", "LTIME", "DATE", "LDATE", "DT", "LDT", "TOD", "LTOD"]
for _t in TIMES:
    INTS[_t] = (64, 1)
BITS, NUMS = "BYTE WORD DWORD LWORD".split(), "SINT INT DINT LINT USINT UINT UDINT ULINT".split()

# the conversions the sources provide; those of reals to bit strings and of dates to dates are judged elsewhere
CONVERSIONS = [(a, b) for a in BITS for b in BITS + ["BOOL"] + NUMS if a != b]
CONVERSIONS += [("BYTE", "CHAR")] + [("BOOL", b) for b in BITS + NUMS]
CONVERSIONS += [("CHAR", b) for b in BITS] + [("WCHAR", b) for b in BITS[1:]]
CONVERSIONS += [(a, b) for a in NUMS for b in BITS + NUMS + ["REAL", "LREAL"] if a != b]
CONVERSIONS += [("LINT", "BOOL"), ("DINT", "BOOL")]
CONVERSIONS += [("LINT", b) for b in TIMES if b not in ("DT", "LDT")] + [(a, b) for a in ("ULINT", "LWORD") for b in TIMES]
CONVERSIONS += [(a, b) for a in TIMES for b in ("LWORD", "LINT", "ULINT")] + [("TIME", "LREAL"), ("LTIME", "LREAL"), ("LREAL", "TIME"), ("LREAL", "LTIME")]
CONVERSIONS += [("TIME", "LTIME"), ("LTIME", "TIME"), ("DT", "LDT"), ("LDT", "DT"), ("TOD", "LTOD"), ("LTOD", "TOD")]
CONVERSIONS += [("LREAL", "REAL"), ("REAL", "LREAL")] + [(a, b) for a in ("REAL", "LREAL") for b in NUMS]


def lim(ty):
    w, s = INTS[ty]
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)


def int_values(ty, rng, k, to=None):
    lo, hi = (0, 1) if ty == "BOOL" else lim(ty)
    if hi - lo < 256:
        return list(range(lo, hi + 1))
    out = {lo, lo + 1, hi, hi - 1, 0, 1, -1, 2}
    for p in (7, 8, 15, 16, 24, 31, 32, 33, 53, 54, 63, 64):
        for d in (-1, 0, 1):
            out |= {(1 << p) + d, -(1 << p) + d}
    out |= {(1 << 24) + 2 + 1, (1 << 25) + 2, (1 << 25) + 6, (1 << 54) + 2, (1 << 54) + 6, (1 << 54) + 3, (1 << 55) - 1, (1 << 63) - 512, (1 << 63) - 513}
    if to in stvm.REALS:      # halfway between two numbers of the target, and as little as possible off
        p = stvm.REALS[to][1]
        for _ in range(2 * k if hi.bit_length() > p else 0):
            e = rng.randrange(hi.bit_length() - p)
            t = ((1 << p) + 2 * rng.getrandbits(p - 1) + 1 << e) + rng.choice((0, 0, 1, -1))
            out |= {t, -t}
    out = {x for x in out if lo <= x <= hi}
    for _ in range(k):
        x = rng.getrandbits(rng.randrange(1, 65))
        x = x if x <= hi else x & hi
        out.add(x)
        if lo < 0:
            out.add(-x)
    return sorted(out)


def real_values(ty, to, rng, k):
    """numbers (as bit patterns) around a target type's range and everywhere"""
    fmt, w = (("<f", 32) if ty == "REAL" else ("<d", 64))

    def pat(x):
        try:
            return int.from_bytes(struct.pack(fmt, x), "little")
        except OverflowError:
            return None
    out = {pat(float(x)) for x in (0, 0.5, 1.5, 2.5, 0.25, 0.75, 1, 2, 3, 126.5, 127, 127.4, 127.5, 127.49, 128, 128.5, 254.5, 255, 255.4, 255.5, 32767.4, 32767.5, 65535.4,
                                   2147483520.0, 2147483647.0, 2147483647.4, 4294967040.0, 4294967295.4, 2.0 ** 52 + 0.5, 2.0 ** 53 - 1, 2.0 ** 23 + 0.5, 8388607.5,
                                   0.49999999999999994, 0.49999997, 9.22e18, 1.8e19, 9223371487100000256.0, 1e-300, 1e-40, 5e-324)}
    out |= {x ^ (1 << (w - 1)) for x in out if x is not None}
    out |= {pat(float("inf")), pat(-float("inf")), pat(float("nan")), 1, 1 << (w - 1)}
    if to in INTS:
        lo, hi = lim(to)
        for e in (lo, hi):
            for d in (-1.5, -1, -0.5, -0.25, 0, 0.25, 0.5):
                out.add(pat(float(e) + d))
                out |= {x + j for x in [pat(float(e) + d)] for j in (-1, 0, 1) if x > 1}
        for _ in range(k):
            v = rng.randrange(lo, hi + 1) if rng.random() < 0.3 else rng.getrandbits(rng.randrange(1, 65)) % (hi + 1) * rng.choice((1, -1 if lo else 1))
            out.add(pat(float(v) + rng.choice((0, 0.5, -0.5, 0.25, rng.random()))))
    else:
        for _ in range(k):
            out.add(pat(rng.uniform(-2, 2) * 10.0 ** rng.randrange(-46, 39)))
            if w == 64:       # halfway between two numbers of the narrower format, and next to it
                m = rng.getrandbits(29) | (1 << 28) if rng.random() < 0.5 else 1 << 28
                out |= {((rng.randrange(1023 - 150, 1023 + 129) << 52) | (rng.getrandbits(23) << 29) | m) + rng.choice((0, 0, 1, -1))}
    for _ in range(k):
        out.add(rng.getrandbits(w))
    return sorted(x for x in out if x is not None and 0 <= x < 1 << w)


def val(ty, x):
    return ("v", ty, x)


def rec_of(ty, x):
    return list(x.to_bytes(stvm.width(ty) // 8, "little")) if ty in stvm.REALS else big(x)


def runner(prog):
    def run(so, calls, workdir, tag, prof, shards, timeout):
        return stvm.execute(so, prog, calls, workdir, tag, prof, shards=shards, timeout=timeout)
    return run


def finish(c, calls, module, libs, cfg, test=lambda r: True, coarse=False, **kw):
    return vlib.run_and_judge(c, module, calls, libs, cfg=cfg, run=runner(stvm.Program()), test=test, coarse=coarse, **kw)


ASSUME = ["structured text is executed by lib/stvm.py in place of the RuSTy compiler (not available offline); only well-defined conversions of reals to integers are judged"]


def L01(c):
    vlib.model(c, "MCConversions", {"MaxSteps": c.n(2, 3)}, ["InType", "KeepsLowBits", "KeepsValue", "RoundTrip", "BoolAgrees"])
    calls, rng = Calls(), c.rng
    for a, b in CONVERSIONS:
        vs = real_values(a, b, rng, c.n(30, 1500)) if a in stvm.REALS else int_values(a, rng, c.n(12, 1500), b)
        if len(vs) > c.n(80, 20000):
            vs = vs if b in stvm.REALS else sorted(set(rng.sample(vs, 60)) | set(vs[:4]) | set(vs[-4:]) | {x for x in vs if x in (0, 1)})
        for x in vs:
            calls.add(f"{a}_TO_{b}", None, [val(a, x)], op="conv", **{"from": a, "to": b, "x": rec_of(a, x)})

    def judged(r):      # only where the specification fixes the result
        return r["from"] not in stvm.REALS or r["to"] in stvm.REALS and not any(x in ("undef",) for x in r["notes"])
    finish(c, calls, "TraceConv", vlib.build_all(("rel",) if not c.thorough else ("dbg", "rel")), "TraceConv.cfg", test=judged)
    c.cov["bounds"] = (f"model: chains of up to {c.n(2, 3)} conversions between 13 types from the ends and powers of two of each; replay: {len(CONVERSIONS)} conversion functions, all values "
                       "of 8-bit types and BOOL" + c.n(" (sampled)", "") + ", ends and powers of two with neighbours of the others, ties of the target and their neighbours for integers to reals, rounding halves and range ends for reals, random values")
    c.assumptions = ASSUME


# ---------------------------------------------------------------- dates and times

SUMS = [("ADD__TIME__TIME", "ADD_TIME"), ("ADD_LTIME", "ADD_TIME"), ("ADD__TIME_OF_DAY__TIME", "ADD_TOD_TIME"), ("ADD_LTOD_LTIME", "ADD_TOD_TIME"),
        ("ADD__DATE_AND_TIME__TIME", "ADD_DT_TIME"), ("ADD_LDT_LTIME", "ADD_DT_TIME"), ("SUB__TIME__TIME", "SUB_TIME"), ("SUB_LTIME", "SUB_TIME"),
        ("SUB__DATE__DATE", "SUB_DATE_DATE"), ("SUB_LDATE_LDATE", "SUB_DATE_DATE"), ("SUB__TIME_OF_DAY__TIME", "SUB_TOD_TIME"), ("SUB_LTOD_LTIME", "SUB_TOD_TIME"),
        ("SUB__TIME_OF_DAY__TIME_OF_DAY", "SUB_TOD_TOD"), ("SUB_LTOD_LTOD", "SUB_TOD_TOD"), ("SUB__DATE_AND_TIME__TIME", "SUB_DT_TIME"), ("SUB_LDT_LTIME", "SUB_DT_TIME"),
        ("SUB__DATE_AND_TIME__DATE_AND_TIME", "SUB_DT_DT"), ("SUB_LDT_LDT", "SUB_DT_DT")]


def L02(c):
    dates.calendar(c, ["PartsOk", "InverseOk"])
    calls, rng, DAY = Calls(), c.rng, dates.DAY
    T = lambda x: val("LINT", x)
    # sums and differences: every overload behaves as the operation on its operands, in their order
    for a, b in dates.pairs(c, c.n(700, 20000)):
        for sym, name in rng.sample(SUMS, 3) if not c.thorough else SUMS:
            calls.add(sym, None, [T(a), T(b)], op="sum", name=name, ty="", n=[big(a), big(b)])
    for v in dates.ns_values(c, c.n(250, 10000)):
        p = rng.choice(("DT", "LDT"))
        calls.add(p + "_TO_DATE", None, [T(v)], op="dt2d", ty="", n=[big(v)])
        calls.add(p + rng.choice(("_TO_TOD", "_TO_LTOD")), None, [T(v)], op="dt2t", ty="", n=[big(v)])
        d, t = v // DAY * DAY, v % DAY
        if d >= dates.LO:
            calls.add("CONCAT_DATE_LTOD", None, [T(d), T(t)], op="join", ty="", n=[big(d), big(t)])
        ty = rng.choice(dates.SPLITS)
        w = dates.INTS[ty][1] // 8
        o = lambda: ("o", ty, bytes(rng.randrange(256) for _ in range(w)))
        calls.add(f"SPLIT_LDT__{ty}", None, [T(v)] + [o() for _ in range(7)], op="sdt", ty=ty, n=[big(v)])
        calls.add(f"SPLIT_LTOD__{ty}", None, [T(t)] + [o() for _ in range(4)], op="stod", ty=ty, n=[big(t)])

    def fit(ty, x):
        _, w, s = dates.INTS[ty]
        return x if dates.fits(ty, x) else x % (1 << w) if not s else (x + (1 << (w - 1))) % (1 << w) - (1 << (w - 1))
    wraps = [256, 65536, 1 << 32, 1 << 31, 1 << 63]
    lims = [24, 60, 60, 1000]

    def clock(bad):
        a = [rng.randrange(24), rng.randrange(60), rng.randrange(60), rng.randrange(1000)]
        if bad:
            i = rng.randrange(4)
            a[i] = rng.choice((lims[i], lims[i] + 1, -1, a[i] + rng.choice(wraps), a[i] - rng.choice(wraps), (1 << 31) - 1, lims[i] - 1, 0))
        return a
    for ty in dates.INTS:
        for k in range(c.n(60, 3000)):
            a = [fit(ty, x) for x in clock(k % 2)]
            calls.add(f"CONCAT_LTOD__{ty}", None, [val(ty, x) for x in a], op="ctod", ty=ty, n=[big(x) for x in a])
    for ty in dates.SPLITS:
        for y in (1700, 1800, 1900, 2000, 2100, 2200, 2023, 2024):
            for m, d in ((2, 28), (2, 29), (2, 30), (3, 1), (4, 31), (12, 31)):
                a = [y, m, d] + clock(False)
                calls.add(rng.choice(("CONCAT_DT__", "CONCAT_LDT__")) + ty, None, [val(ty, x) for x in a], op="cdt", ty=ty, n=[big(x) for x in a])
        for k in range(c.n(160, 6000)):
            a = [rng.choice((1970, 2000, 1900, 1677, 1678, 2262, 2261, 2263, 2024, 2023, rng.randrange(1677, 2263))), rng.choice((1, 2, 3, 9, 4, 12, rng.randrange(1, 13))),
                 rng.choice((1, 10, 11, 21, 28, 29, 30, 31, rng.randrange(1, 29)))] + clock(k % 3 == 0)
            if k % 3 == 1:
                i = rng.randrange(3)
                a[i] = rng.choice((0, -1, 13, 32, a[i] + rng.choice(wraps), a[i] - rng.choice(wraps), -a[i]))
            a = [fit(ty, x) for x in a]
            calls.add(rng.choice(("CONCAT_DT__", "CONCAT_LDT__")) + ty, None, [val(ty, x) for x in a], op="cdt", ty=ty, n=[big(x) for x in a])

    def drop(got, so):       # the status a splitting function returns is not specified
        for r in got:
            if r["op"] in ("stod", "sdt"):
                r.pop("r", None)
        return got
    finish(c, calls, "TraceDate", vlib.build_all(("rel",) if not c.thorough else ("dbg", "rel")), "TraceDate.cfg", post=drop)
    c.cov["bounds"] = ("every overload and alias of time arithmetic, composition, splitting and extraction written in structured text; boundary operands, results at the ends of the "
                       "range, parts at and beyond every limit and aliasing valid ones modulo 2^8..2^64")
    c.assumptions = ASSUME


# ---------------------------------------------------------------- numbers

EXPONENTS = ["USINT", "UINT", "UDINT", "ULINT", "SINT", "INT", "LINT"]


def L03(c):
    reals.model(c, ["Pows", "Logs"], (20, 300))
    rng, libs = c.rng, vlib.build_all(("rel",) if not c.thorough else ("dbg", "rel"))
    calls = Calls()
    for ty in ("SINT", "INT", "DINT", "LINT"):
        for x in int_values(ty, rng, c.n(60, 3000)):
            calls.add(f"ABS__{ty}", None, [val(ty, x)], op="abs", **{"from": ty, "to": ty, "x": rec_of(ty, x)})
    for ty in stvm.REALS:
        for x in real_values(ty, "LINT", rng, c.n(150, 5000)):
            calls.add(f"ABS__{ty}", None, [val(ty, x)], op="abs", **{"from": ty, "to": ty, "x": rec_of(ty, x)})
            calls.add(f"TRUNC__{ty}", None, [val(ty, x)], op="trunc", **{"from": ty, "to": "LINT", "x": rec_of(ty, x)})
    finish(c, calls, "TraceConv", libs, "TraceConv.cfg", test=lambda r: r["op"] == "abs" and r["from"] not in stvm.REALS)
    calls = Calls()
    for f, (t, ty, w, p) in reals.FMT.items():
        one = reals.bits(f, 1.0)
        bases = reals.special(f) + [reals.bits(f, x) for x in (2.0, -2.0, 0.5, -0.5, 3.0, 10.0, -1.5, 1e10, 1e-10)] + [one + 1, one - 1, one | 1 << (w - 1)]
        for e in EXPONENTS:
            ns = int_values(e, rng, 0)
            for _ in range(c.n(150, 5000)):
                k = rng.random()
                if k < 0.35:
                    b, n = rng.choice(bases), rng.choice(ns)
                elif k < 0.75:
                    b, n = reals.bits(f, rng.uniform(-4, 4)), rng.randrange(-70, 71)
                elif k < 0.9:
                    n = rng.choice((1, -1)) * rng.randrange(1, 300)
                    b = reals.bits(f, rng.choice((1, -1)) * 2.0 ** (rng.uniform(-1, 1) * (1000 if f == "L" else 120) / abs(n)))
                else:
                    b, n = one + rng.randrange(-1 << (p // 2), 1 << (p // 2)), rng.choice((1, -1)) * rng.randrange(1 << 14)
                lo, hi = lim(e)
                n = max(lo, min(hi, n if lo else abs(n)))
                calls.add(f"EXPT__{ty}__{e}", None, [val(ty, b), val(e, n)], op="EXPT", f=f, x=reals.mem(f, b), ek="D", n=big(n))
    finish(c, calls, "TraceReal", libs, "TraceReal.cfg", test=lambda r: r["n"]["m"] and len(r["n"]["m"]) == 1 and r["n"]["m"][0] < 60 and r["r"][-1] & 0x7F != 0x7F and r["r"][-1] & 0x7F)
    c.cov["bounds"] = ("ABS of every SINT, of the ends, powers of two and random values of wider integers and of reals; TRUNC around every power of two, halves, range ends; EXPT with "
                       "every integer exponent type: special bases, exponents at the ends of each type, random")
    c.assumptions = ASSUME


# ---------------------------------------------------------------- texts

def text(enc, us):
    """an argument passed by reference or value: the text with its terminator"""
    return ("r", strings.TY[enc], strings.raw(enc, us))


def upto(us):
    return us[:us.index(0)]


def L04(c):
    textnum.model(c, ["Ints", "OnlyOne", "Self"])
    rng, libs = c.rng, vlib.build_all(("rel",) if not c.thorough else ("dbg", "rel"))
    calls = Calls()
    enc = lambda: rng.choice(("STRING", "WSTRING"))
    for v in range(256):
        calls.add("BYTE_TO_" + enc(), None, [val("BYTE", v)], op="wint", v=big(v))
    for ty in ("DWORD", "LWORD", "DINT", "LINT"):
        lo, hi = lim(ty)
        vs = textnum.edges(lo, hi, rng, c.n(100, 8000))
        for v in vs if c.thorough else rng.sample(vs, min(len(vs), 250)) + [lo, hi]:
            calls.add(f"{ty}_TO_{enc()}", None, [val(ty, v)], op="wint", v=big(v))
    for b in list(textnum.special_reals()) + [textnum.bits64(rng) for _ in range(c.n(700, 15000))]:
        calls.add("LREAL_TO_" + enc(), None, [val("LREAL", b)], op="wreal", f="L", x=rec_of("LREAL", b), lim=14)
        b = rng.getrandbits(32) if rng.random() < 0.4 else reals.bits("R", struct.unpack("<d", struct.pack("<Q", b))[0])
        calls.add("REAL_TO_" + enc(), None, [val("REAL", b)], op="wreal", f="R", x=rec_of("REAL", b), lim=14)
    got = textnum.int_texts(c, c.n(300, 15000), c.n(200, 10000)).items + textnum.real_texts(c, c.n(100, 4000), c.n(500, 15000)).items
    for sym, _, _, rec in got:
        try:
            us = upto(rec["a"])
            t = bytes(us).decode("utf-8")
        except (ValueError, UnicodeDecodeError):
            continue
        if len(t) > 80:
            continue
        us = strings.units("W", map(ord, t))
        calls.add("W" + sym, None, [text("W", us + [0])], **dict({k: v for k, v in rec.items() if k != "id"}, a=us + [0]))
    for n in (27, 40, 41, 60, 79, 80):     # texts that need more than 80 bytes as STRING are refused, not overflowing anything
        for ch in (0x20AC, 0xE9, 0x37):
            for sym, kw in (("LINT", dict(op="rint", ty="LINT")), ("DINT", dict(op="rint", ty="DINT")), ("LREAL", dict(op="rreal", f="L")), ("REAL", dict(op="rreal", f="R"))):
                us = [0x31] * rng.randrange(2) + [ch] * n
                us = us[:80] + [0]
                calls.add("WSTRING_TO_" + sym, None, [text("W", us)], a=us, **kw)

    def fine(r):
        return r["op"] == "rint" or r["op"] == "wint"
    finish(c, calls, "TraceNum", libs, "TraceNum.cfg", test=fine, post=ends)
    c.cov["bounds"] = ("all values of BYTE, boundary and random values of the other integers, reals of every exponent; texts of integers in every base and of reals up to 80 characters, "
                       "malformed ones, wide texts of 80 characters that take up to 240 bytes")
    c.assumptions = ASSUME


def ends(got, so):
    """memory written outside a variable ends the call"""
    for r in got:
        if r["op"] in ("rint", "rreal") and "overwrite" in r["notes"]:
            r["out"] = "overwrite"
    return got


def L05(c):
    dates.calendar(c, ["InverseOk", "PartsOk"])
    calls, rng = Calls(), c.rng

    def one(kind, v):
        for p in ("", "L"):
            for e in ("", "W"):
                if c.thorough or rng.random() < 0.5:
                    calls.add(f"{p}{kind}_TO_{e}STRING", None, [val("LINT", v)], op="t" + kind, ty="", n=[big(v)])
    for v in dates.ns_values(c, c.n(120, 8000)):
        one("DT", v)
        one("TOD", v % dates.DAY)
        one("TIME", v)
        one("DATE", v)
    finish(c, calls, "TraceDate", vlib.build_all(("rel",) if not c.thorough else ("dbg", "rel")), "TraceDate.cfg")
    c.cov["bounds"] = "all sixteen functions: powers of two and ten with neighbours, day and second boundaries, both ends of the range, random values"
    c.assumptions = ASSUME


def L06(c):
    strings.model(c, ["RoundTrip", "Cuts", "MidMeans", "EditMeans", "ReplaceMeans", "OrderMeans"])
    rng, libs = c.rng, vlib.build_all(("rel",) if not c.thorough else ("dbg", "rel"))
    g, calls = strings.Gen(c), Calls()
    got = strings.cuts(c, ["LEFT", "RIGHT", "MID", "INSERT", "DELETE", "REPLACE"], c.n(1500, 30000)).items
    if not c.thorough:
        got = rng.sample(got, min(len(got), 4500))
    for _, _, _, rec in got:
        args = [text(rec["enc"], b) for b in rec["a"]] + [val("DINT", n) for n in rec["n"]]
        calls.add(f"{rec['op']}__{strings.TY[rec['enc']]}", None, args, **{k: v for k, v in rec.items() if k != "id"})
    names = {"GT": "GREATER", "EQ": "EQUAL", "LT": "LESS"}
    for e in "SW":
        for _ in range(c.n(600, 12000)):
            t = g.text(rng.choice((0, 1, 2, 5, 20)))
            us = strings.units(e, t)
            vs = list(us)
            k = rng.random()
            if k < 0.4 and vs:
                i = rng.randrange(len(vs))
                vs[i] = min(255 if e == "S" else 0xFFFF, max(1, vs[i] + rng.choice((-1, 1, 128, -128))))
            elif k < 0.6:
                vs = vs[:rng.randrange(len(vs) + 1)]
            elif k < 0.75:
                vs = strings.units(e, g.text(rng.choice((0, 1, 3))))
            if rng.random() < 0.5:
                us, vs = vs, us
            op = rng.choice(list(names))
            calls.add(("W" if e == "W" else "") + "STRING_" + names[op], None, [text(e, us + [0]), text(e, vs + [0])], op=op, enc=e, a=[us + [0], vs + [0]], n=[], d0=[], nul=False)
        for _ in range(c.n(500, 10000)):
            us = strings.units(e, g.text(rng.choice((0, 1, 2, 5, 20, 80, 300))))
            if rng.random() < 0.15:
                us = g.ill(e)
            b = g.buf(e, us)
            sym = "STRING_TO_WSTRING" if e == "S" else "WSTRING_TO_STRING"
            calls.add(sym, None, [text(e, b)], op="CONV", enc=e, a=[b], n=[], d0=[], nul=False)

    def memory(got, so):      # the specification speaks of the destination's memory
        for r in got:
            if r["out"] != "ok":
                r["bufs"] = []
            elif r["rty"] == "WSTRING":
                r["bufs"] = [[x for u in b for x in (u & 255, u >> 8)] for b in r["bufs"]]
        return got
    finish(c, calls, "TraceStrings", libs, "TraceStrings_text.cfg", post=memory)
    calls = Calls()
    for e, ty in (("S", "CHAR"), ("W", "WCHAR")):
        nm = strings.TY[e]
        for x in list(range(256)) + ([rng.randrange(256, 65536) for _ in range(c.n(200, 4000))] + [0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFFFF, 256] if e == "W" else []):
            calls.add(f"{ty}_TO_{nm}", None, [val(ty, x)], op="single", x=big(x), **{"from": "", "to": nm})
        for _ in range(c.n(300, 5000)):
            us = strings.units(e, g.text()) + [0] if rng.random() < 0.8 else [rng.randrange(256 if e == "S" else 65536), 0]
            calls.add(f"{nm}_TO_{ty}", None, [text(e, us)], op="first", a=us, **{"from": "", "to": ty})
    finish(c, calls, "TraceConv", libs, "TraceConv.cfg")
    c.cov["bounds"] = ("the six text operations, three comparisons and the conversions for both kinds of text: all texts of up to 2 characters with all positions and counts" + c.n(" (sampled)", "") +
                       ", random texts of up to 300 characters, near-equal pairs, ill-formed texts; single characters: all CHAR codes, WCHAR codes of all ranges")
    c.assumptions = ASSUME + ["texts fit in 2048 characters, those compared in 80"]
