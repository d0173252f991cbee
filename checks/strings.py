"""Character strings (S01-S07)."""
import struct

import vlib
from vlib import Calls

PROFILES = ("dbg", "rel")
I32MAX, I32MIN = (1 << 31) - 1, -(1 << 31)

# characters of every encoded length, with neighbours that share leading units
SMALL = [0x61, 0x62, 0xE9, 0xEA, 0x20AC, 0x10000, 0x1F600]
EDGE = [1, 0x20, 0x2F, 0x30, 0x41, 0x5A, 0x61, 0x7A, 0x7E, 0x7F, 0x80, 0xBF, 0xC0, 0xE9, 0xFF, 0x100, 0x7FF, 0x800, 0xFFF, 0x1000,
        0x20AC, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x103FF, 0x10400, 0x1F600, 0xFFFFF, 0x100000, 0x10FFFF]


def units(enc, cps):
    s = "".join(map(chr, cps))
    if enc == "S":
        return list(s.encode("utf-8"))
    b = s.encode("utf-16-le")
    return [b[i] | b[i + 1] << 8 for i in range(0, len(b), 2)]


def raw(enc, us):
    return bytes(us) if enc == "S" else b"".join(struct.pack("<H", u) for u in us)


class Gen:
    def __init__(self, c):
        self.c, self.rng = c, c.rng

    def text(self, n=None):
        rng = self.rng
        if n is None:
            n = rng.choice((0, 1, 1, 2, 2, 3, 4, 5, 6, 8, 12, 20))
        mode = rng.random()
        if mode < 0.2:
            return [rng.choice((0x61, 0x62, 0x20)) for _ in range(n)]
        if mode < 0.6:
            return [rng.choice(SMALL) for _ in range(n)]
        if mode < 0.9:
            return [rng.choice(EDGE) for _ in range(n)]
        out = []
        while len(out) < n:
            x = rng.choice((rng.randrange(1, 0x80), rng.randrange(0x80, 0x800), rng.randrange(0x800, 0x10000), rng.randrange(0x10000, 0x110000)))
            if not 0xD800 <= x < 0xE000:
                out.append(x)
        return out

    def ill(self, enc):
        """an ill-formed text"""
        rng = self.rng
        us = units(enc, self.text(rng.choice((1, 2, 3, 5))))
        if enc == "W":
            bad = [rng.choice((0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xD83D, 0xDE00))]
            if rng.random() < 0.2:
                bad = [0xDE00, 0xD83D]
        else:
            bad = rng.choice(([0x80], [0xBF], [0xC0, 0x80], [0xC3], [0xE2, 0x82], [0xED, 0xA0, 0x80], [0xF0, 0x9F, 0x98], [0xF4, 0x90, 0x80, 0x80],
                              [0xFF], [0xFE], [0xE0, 0x80, 0x80], [0xF8, 0x88, 0x80, 0x80, 0x80]))
        i = rng.randrange(len(us) + 1)
        return us[:i] + bad + us[i:]

    def buf(self, enc, us):
        """the memory of a source: the text, its terminator, something behind it"""
        rng = self.rng
        tail = rng.choice(([], [0], [0x78], [0x78, 0x79, 0], units(enc, [0xE9]), [rng.randrange(1, 256) for _ in range(3)]))
        return us + [0] + tail

    def dest(self, enc, nunits):
        """destination memory before the call, dirty"""
        rng = self.rng
        n = nunits + 1 + rng.choice((0, 0, 1, 5))
        n *= 1 if enc == "S" else 2
        k = rng.random()
        if k < 0.2:
            return [0xFF] * n
        if k < 0.3:
            return [0] * n
        return [rng.randrange(1, 256) for _ in range(n)]

    def bound(self, n):
        """a position or count: mostly inside 0..n, also around its ends and far away"""
        rng = self.rng
        return rng.choice((rng.randrange(0, n + 1), rng.randrange(0, n + 1), rng.randrange(0, n + 1), n, n + 1, 0, 1, -1, n - 1)) \
            if rng.random() < 0.94 else rng.choice((I32MAX, I32MIN, I32MIN + 1, 0x10000 + n, -n, 256 + n, I32MAX - n))


TY = {"S": "STRING", "W": "WSTRING"}


def add(calls, g, op, enc, srcs, n=(), ext="_EXT"):
    """op on unit lists `srcs` (well formed or not)"""
    bufs = [g.buf(enc, u) for u in srcs]
    h = [raw(enc, b).hex() for b in bufs]
    sym = f"{op}{ext}__{TY[enc]}"
    oe = enc
    if op == "CONV":
        oe = "W" if enc == "S" else "S"
        room = 3 * len(srcs[0]) + 1
    else:
        room = sum(len(u) for u in srcs)
    d0 = g.dest(oe, room)
    o = "o" + bytes(d0).hex()
    n = list(n)
    if op == "LEFT" or op == "RIGHT":
        args = ["s" + h[0], f"i{n[0]}", o]
    elif op in ("MID", "DELETE"):
        args = ["s" + h[0], f"i{n[0]}", f"i{n[1]}", o]
    elif op == "INSERT":
        args = ["s" + h[0], "s" + h[1], f"i{n[0]}", o]
    elif op == "REPLACE":
        args = ["s" + h[0], "s" + h[1], f"i{n[0]}", f"i{n[1]}", o]
    elif op == "CONCAT":
        args = [o, f"i{len(h)}", "v" + "|".join(h)]
    elif op == "CONV":
        sym = "STRING_TO_WSTRING_EXT" if enc == "S" else "WSTRING_TO_STRING_EXT"
        args = ["s" + h[0], o]
    calls.add(sym, None, args, op=op, enc=enc, a=bufs, n=n, d0=d0, nul=False)


def huge(c, enc, op=None):
    """texts beyond 2^15 and 2^16 characters and code units"""
    rng = c.rng
    for n in (32769, 65537) if c.thorough else (65537,):
        n += rng.randrange(20, 300)
        t = [rng.randrange(0x61, 0x7B) for _ in range(n)]     # no period: characters in the wrong place differ
        for i in rng.sample(range(n), 4) + [n - 1]:
            t[i] = rng.choice((0xE9, 0x20AC, 0x1F600))
        yield t


def far(rng, n):
    """positions and counts (k, p) with k + p <= n, of which one is beyond the 16-bit range when the text is"""
    edge = 65536 if n > 65536 else 32768
    p = rng.randrange(edge, n)
    k = rng.randrange(edge, n - 2)
    return [(rng.randrange(1, n - p + 1), p), (k, rng.randrange(1, n - k + 1))]


def small_texts(k, alphabet):
    out = [[]]
    level = [[]]
    for _ in range(k):
        level = [t + [x] for t in level for x in alphabet]
        out += level
    return out


def finish(c, calls, cfg, bounds, strict=lambda r: True):
    libs = vlib.build_all(PROFILES)
    recs, v = vlib.run_and_judge(c, "TraceStrings", calls, libs, cfg=f"TraceStrings_{cfg}.cfg", test=strict)
    c.cov["bounds"] = bounds + "; debug and release builds"
    c.assumptions = ["the caller's destination is large enough", "sources are terminated"]


def model(c, invs, n=None):
    vlib.model(c, "MCStrings", {"MaxLen": n or c.n(2, 3)}, invs)


def S01(c):
    model(c, ["RoundTrip", "SearchUnits", "FindMeans"])
    g, calls, rng = Gen(c), Calls(), c.rng
    few = [0x61, 0xE9, 0xEA, 0x1F600]

    def one(op, enc, ts):
        bufs = [g.buf(enc, units(enc, t)) for t in ts]
        calls.add(f"{op}__{TY[enc]}", "i32", ["s" + raw(enc, b).hex() for b in bufs], op=op, enc=enc, a=bufs, n=[])

    for enc in "SW":
        for t in small_texts(3, few):
            one("LEN", enc, [t])
        for t in small_texts(c.n(2, 3), few):
            for u in small_texts(2, few):
                one("FIND", enc, [t, u])
        for _ in range(c.n(2400, 32000)):
            t = g.text(rng.choice((0, 1, 3, 10, 30, 80, 81, 120)) if rng.random() < 0.5 else None)
            one("LEN", enc, [t])
        for n in (254, 255, 256, 257, 400, 900):
            one("LEN", enc, [g.text(n)])
        for t in huge(c, enc):
            one("LEN", enc, [t])
            for i in (len(t) - 9, len(t) - 15):
                one("FIND", enc, [t, t[i:i + 8]])
            one("FIND", enc, [t, t[-2:] + [0x78]])
        for _ in range(c.n(3600, 60000)):
            # texts with repetitions and partial matches; the needle is mostly a part, possibly altered
            al = rng.sample(EDGE, rng.choice((1, 2, 3)))
            t = [rng.choice(al) for _ in range(rng.choice((1, 2, 5, 9, 20, 60, 300 if rng.random() < 0.05 else 7)))]
            i = rng.randrange(len(t))
            u = t[i:i + rng.choice((0, 1, 2, 3, 5, len(t)))]
            if rng.random() < 0.3 and u:
                u = u[:-1] + [rng.choice(al + EDGE)]
            if rng.random() < 0.1:
                u = u + [rng.choice(al)]
            if rng.random() < 0.05:
                t = []
            one("FIND", enc, [t, u])
    finish(c, calls, "text", f"model: all texts of up to {c.n(2, 3)} characters over 8 characters; replay: all texts of up to 3 characters over 4 (LEN), all "
           f"pairs of up to {c.n(2, 3)} and 2 (FIND), random texts of up to 900 and texts of 65537 characters")


def cuts(c, ops, count=None):
    g, calls, rng = Gen(c), Calls(), c.rng
    few = [0x61, 0xE9, 0x1F600] if not c.thorough else [0x61, 0xE9, 0x20AC, 0x1F600]
    for enc in "SW":
        for t in small_texts(2, few):
            us = units(enc, t)
            rg = range(-1, len(t) + 2)
            for op in ops:
                if op in ("LEFT", "RIGHT"):
                    for n in rg:
                        add(calls, g, op, enc, [us], [n])
                elif op in ("MID", "DELETE"):
                    for n in rg:
                        for p in rg:
                            add(calls, g, op, enc, [us], [n, p])
                else:
                    for u in ([], [0x62], [0xEA, 0x10000]):
                        for p in rg:
                            if op == "INSERT":
                                add(calls, g, op, enc, [us, units(enc, u)], [p])
                            else:
                                for n in rg:
                                    add(calls, g, op, enc, [us, units(enc, u)], [n, p])
        for t in huge(c, enc) if count is None else ():
            us, n = units(enc, t), len(t)
            ins = units(enc, [0x62, 0xE9])
            for op in ops:
                for k, p in far(rng, n):
                    if op in ("LEFT", "RIGHT"):
                        add(calls, g, op, enc, [us], [max(k, p)])
                    elif op in ("MID", "DELETE"):
                        add(calls, g, op, enc, [us], [k, p])
                    elif op == "INSERT":
                        add(calls, g, op, enc, [us, ins], [max(k, p)])
                    else:
                        add(calls, g, op, enc, [us, ins], [k, p])
        for _ in range(count or c.n(3600, 48000)):
            op = rng.choice(ops)
            t = g.text(rng.choice((80, 255, 256, 300)) if rng.random() < 0.03 else None)
            u = g.text(rng.choice((0, 1, 2, 5, 9)))
            us, uu, n = units(enc, t), units(enc, u), len(t)
            p = g.bound(n)
            k = g.bound(max(0, n - p + 1)) if 1 <= p <= n else g.bound(n)
            if op in ("LEFT", "RIGHT"):
                add(calls, g, op, enc, [us], [p])
            elif op in ("MID", "DELETE"):
                add(calls, g, op, enc, [us], [k, p])
            elif op == "INSERT":
                add(calls, g, op, enc, [us, uu], [p])
            else:
                add(calls, g, op, enc, [us, uu], [k, p])
    return calls


B = ("model: all texts of up to {} characters over 8 characters with all positions and counts; replay: all texts of up to 2 "
     "characters with all positions and counts, random texts of up to 300 and texts of 65537 characters with positions and counts over the 32-bit range")


def S02(c):
    model(c, ["RoundTrip", "Cuts", "MidMeans"])
    finish(c, cuts(c, ["LEFT", "RIGHT", "MID"]), "text", B.format(c.n(2, 3)))


def S03(c):
    model(c, ["RoundTrip", "EditMeans", "ReplaceMeans"])
    finish(c, cuts(c, ["INSERT", "DELETE", "REPLACE"]), "text", B.format(c.n(2, 3)))


def concat_calls(c, calls, g, k, long=True):
    rng = c.rng
    few = small_texts(1, [0x61, 0xE9, 0x1F600])
    for enc in "SW":
        lists = [[]] + [[a] for a in few] + [[a, b] for a in few for b in few] + [[a, b, d] for a in few for b in few for d in few]
        lists += [[g.text(rng.choice((0, 0, 1, 3, 7))) for _ in range(rng.randrange(0, 9))] for _ in range(k)]
        lists += [[g.text(rng.choice((0, 1, 2))) for _ in range(n)] for n in (16, 33, 64)]
        lists += [[g.text(200), g.text(100)]]
        if long:
            lists += [[[0x61, 0x1F600]] + [[0x61 + i % 3] for i in range(rng.choice((257, 1025)))]]
            lists += [[t, [0xE9], t[:9]] for t in huge(c, enc)]
            for n in (rng.choice((32769, 33000)), 65537 + rng.randrange(60)):      # mostly empty texts, the last one not
                ts = [[]] * n
                for i in rng.sample(range(n), 150) + [0, n - 1]:
                    ts[i] = [rng.choice((0x61, 0xE9, 0x1F600))]
                lists += [ts]
        for ts in lists:
            add(calls, g, "CONCAT", enc, [units(enc, t) for t in ts], [], rng.choice(("", "_EXT")))
        for ext in ("", "_EXT"):
            sym, ret = f"CONCAT{ext}__{TY[enc]}", None
            d0 = g.dest(enc, 8)
            h = raw(enc, [0x61, 0]).hex()
            calls.add(sym, ret, ["o" + bytes(d0).hex(), "i1", "n"], op="CONCAT", enc=enc, a=[], n=[], d0=d0, nul=True)
            calls.add(sym, ret, ["o" + bytes(d0).hex(), "i0", "n"], op="CONCAT", enc=enc, a=[], n=[], d0=d0, nul=True)
            calls.add(sym, ret, ["n", "i1", "v" + h], op="CONCAT", enc=enc, a=[[0x61, 0]], n=[], d0=d0, nul=True)
            calls.add(sym, ret, ["n", "i0", "v"], op="CONCAT", enc=enc, a=[], n=[], d0=d0, nul=True)


def S04(c):
    model(c, ["RoundTrip", "ConcatMeans"])
    g, calls = Gen(c), Calls()
    concat_calls(c, calls, g, c.n(3600, 48000))
    finish(c, calls, "text", "model: all pairs of texts of up to 2 characters over 8; replay: all lists of up to 3 texts of up to one character over 3, "
           "random lists of up to 64 texts, lists of up to 65597 mostly empty ones, null arguments")


def S05(c):
    model(c, ["OrderMeans"])
    g, calls, rng = Gen(c), Calls(), c.rng
    ops = ["EQ", "GT", "GE", "LT", "LE"]

    def one(op, enc, uss):
        bufs = [g.buf(enc, u) for u in uss]
        h = [raw(enc, b).hex() for b in bufs]
        args = ["s" + x for x in h] if op == "NE" else [f"i{len(h)}", "v" + "|".join(h)]
        calls.add(f"{op}__{TY[enc]}", "b", args, op=op, enc=enc, a=bufs, n=[])

    for enc in "SW":
        few = [[], [0x61], [0x62], [0x61, 0x61], [0x61, 0x62], [0xE9], [0x100], [0x10000], [0xFFFF]]
        for op in ops + ["NE"]:
            for a in few:
                for b in few:
                    one(op, enc, [units(enc, a), units(enc, b)])
        for op in ops:
            one(op, enc, [])
            one(op, enc, [units(enc, [0x61])])
            for a in few[:5]:
                for b in few[:5]:
                    for d in few[:5]:
                        one(op, enc, [units(enc, x) for x in (a, b, d)])
        for t in huge(c, enc):
            a = units(enc, t)
            b = a[:-1] + [a[-1] ^ 1]
            op = rng.choice(ops)
            one(op, enc, [a, b])
            one("EQ", enc, [a, a])
            one("NE", enc, [b, a])
            one(rng.choice(("GT", "LE")), enc, [a[:-1], a])
        for n in (129, 257, rng.choice((300, 1030)), 32769, 65537 + rng.randrange(60)):     # long chains, whole or broken at their end
            for op in ops if n < 2000 else rng.sample(ops, 2):
                k = range(n)
                ts = [units(enc, [0x61 + i // 2500 % 50, 0x61 + i // 50 % 50, 0x61 + i % 50]) for i in k]
                if op == "EQ":
                    ts = [ts[0]] * n
                elif op in ("GT", "GE"):
                    ts.reverse()
                one(op, enc, ts)
                ts = list(ts)
                ts[-1] = ts[-2] + [1] if op in ("EQ", "GT", "GE") else ts[-2][:-1]
                one(op, enc, ts)
        for _ in range(c.n(3600, 60000)):
            op = rng.choice(ops + ["NE"])
            n = 2 if op == "NE" else rng.choice((2, 2, 3, 4, 6, 9))
            t = units(enc, g.text(rng.choice((1, 3, 9, 40))))
            top = 0xFF if enc == "S" else 0xFFFF
            ts = []
            for _ in range(n):
                u = list(t)
                k = rng.random()
                if k < 0.3 and u:
                    i = rng.randrange(len(u))
                    u[i] = min(top, max(1, u[i] + rng.choice((-1, 1, -128, 128, -256, 256))))
                elif k < 0.45:
                    u = u[:rng.randrange(len(u) + 1)]
                elif k < 0.55:
                    u = u + [rng.choice((1, 0x61, 0x80, top))]
                ts.append(u)
            mode = rng.random()
            if mode < 0.3:
                ts.sort()
            elif mode < 0.6:
                ts.sort(reverse=True)
            if mode < 0.6 and op in ("GT", "LT") and rng.random() < 0.8:
                ts = [x for i, x in enumerate(ts) if i == 0 or ts[i - 1] != x]
                if len(ts) < 2:
                    ts.append(ts[0] + [1])
            if rng.random() < 0.1 and len(ts) > 2:     # only the last pair breaks the chain
                ts[-1], ts[-2] = ts[-2], ts[-1]
            if rng.random() < 0.1:
                ts = [list(t) for _ in ts]
            one(op, enc, ts)
    finish(c, calls, "text", f"model: order laws for all texts of up to {c.n(2, 3)} characters over 8 characters; replay: all pairs and triples over small sets, "
           "random chains of up to 9 near-equal unit sequences, chains of up to 65597 ordered ones, whole or broken at the end", strict=lambda r: True)


def S06(c):
    model(c, ["RoundTrip", "ConcatMeans", "ReplaceMeans"])
    g, rng = Gen(c), c.rng
    calls = Calls()
    # everything that writes text, on dirty destinations, including what is refused
    for op in ("LEFT", "RIGHT", "MID", "INSERT", "DELETE", "REPLACE"):
        for enc in "SW":
            for _ in range(c.n(640, 10000)):
                t, u = g.text(), g.text(rng.choice((0, 1, 3)))
                ill = rng.random() < 0.08
                us = g.ill(enc) if ill else units(enc, t)
                n = len(t)
                p = g.bound(n)
                k = g.bound(max(0, n - p + 1)) if 1 <= p <= n else g.bound(n)
                src = [us, units(enc, u)] if op in ("INSERT", "REPLACE") else [us]
                add(calls, g, op, enc, src, [p] if op in ("LEFT", "RIGHT", "INSERT") else [k, p])
    concat_calls(c, calls, g, c.n(800, 12000), False)
    for enc in "SW":
        for _ in range(c.n(800, 12000)):
            add(calls, g, "CONV", enc, [units(enc, g.text())])
    for sym, arg in (("BYTE", "u8"), ("LWORD", "u64"), ("LINT", "i64"), ("REAL", "d"), ("LREAL", "d"), ("TIME", "i64"), ("DT", "i64"), ("DATE", "i64"), ("TOD", "i64")):
        for _ in range(c.n(240, 4000)):
            v = rng.choice((0, 1, 7, 86399999999999, rng.randrange(1 << rng.randrange(1, 63))))
            if arg == "u8":
                a = f"i{v % 256}"
            elif arg == "d":
                a = "d" + struct.pack(">d", rng.choice((0.0, -0.5, 1e13, 1e14, -1e20, 1e300, rng.random() * 10 ** rng.randrange(20)))).hex()
            elif sym == "TOD":
                a = f"i{v % 86400000000000}"
            else:
                a = f"i{-v if arg == 'i64' and rng.random() < 0.4 else v}"
            d0 = g.dest("S", rng.choice((81, 81, 100)))
            calls.add(f"{sym}_TO_STRING_EXT", None, [a, "o" + bytes(d0).hex()], op="FORMAT", enc="S", a=[], n=[], d0=d0, nul=False)
    finish(c, calls, "frame", "random calls of every operation with a text result, accepted and refused, on destinations holding other data; guard "
           "zones around every buffer", strict=lambda r: r["op"] != "FORMAT" and well(r))


def well(r):
    """whether all sources are well formed (only used to choose records for the self-test)"""
    try:
        for u in r["a"]:
            raw(r["enc"], u[:u.index(0)]).decode("utf-8" if r["enc"] == "S" else "utf-16-le")
        return True
    except UnicodeDecodeError:
        return False


def S07(c):
    model(c, ["RoundTrip", "LossyAgrees"])
    vlib.model(c, "MCUnicode", {"MaxUnits": c.n(3, 4)}, ["Agree", "LossyAgree", "Faithful", "LossyExtends"], tag="mcu")
    g, calls, rng = Gen(c), Calls(), c.rng
    for enc in "SW":
        for t in small_texts(2, SMALL):
            add(calls, g, "CONV", enc, [units(enc, t)])
        for x in EDGE:
            add(calls, g, "CONV", enc, [units(enc, [x])])
        for _ in range(c.n(2800, 48000)):
            add(calls, g, "CONV", enc, [units(enc, g.text(rng.choice((80, 255, 300)) if rng.random() < 0.03 else None))])
        for t in huge(c, enc):
            add(calls, g, "CONV", enc, [units(enc, t)])
        for _ in range(c.n(1200, 20000)):
            add(calls, g, "CONV", enc, [g.ill(enc)])
    for x in range(256):
        calls.add("CHAR_TO_WCHAR", "u16", [f"i{x}"], op="C2W", enc="S", a=[], n=[x])
    for x in list(range(128)) + [128, 255, 256, 0xD800, 0xFFFF]:
        calls.add("WCHAR_TO_CHAR", "u8", [f"i{x}"], op="W2C", enc="W", a=[], n=[x])
    finish(c, calls, "text", f"model: all texts of up to {c.n(2, 3)} characters over 8; replay: all texts of up to 2 over 7 characters, random texts and ill-formed "
           "sequences, all CHARs and all 7-bit WCHARs", strict=lambda r: r["op"] == "C2W" or (r["op"] == "W2C" and r["n"][0] < 128) or
           (r["op"] == "CONV" and (r["enc"] == "W" or well(r))))
