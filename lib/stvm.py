"""Executes the functions /repo/iec61131-st writes in structured text, on top of the built library.

This stands in for the structured-text compiler, which is not available offline: it runs the statements with the
language's implicit conversions, and where they call an {external} function, the real library is called. It holds
no expectation about any result; spec/*.tla judges what comes out.

Runs advance in lockstep rounds: each run is a generator that yields the native call it needs; all pending native
calls of one round go to the executor in one script.
"""
import math
import struct
from fractions import Fraction

import st
import vlib

SIGNED = {"SINT": 8, "INT": 16, "DINT": 32, "LINT": 64, "TIME": 64, "LTIME": 64, "DATE": 64, "LDATE": 64, "DT": 64, "LDT": 64,
          "TOD": 64, "LTOD": 64, "DATE_AND_TIME": 64, "TIME_OF_DAY": 64}
UNSIGNED = {"BOOL": 8, "BYTE": 8, "WORD": 16, "DWORD": 32, "LWORD": 64, "USINT": 8, "UINT": 16, "UDINT": 32, "ULINT": 64,
            "CHAR": 8, "WCHAR": 16}
REALS = {"REAL": (32, 24, -149, 127), "LREAL": (64, 53, -1074, 1023)}
ALIAS = {"DATE_AND_TIME": "DT", "TIME_OF_DAY": "TOD"}
ANY_INT = ["SINT", "USINT", "INT", "UINT", "DINT", "UDINT", "LINT", "ULINT"]
POISON = 0xA5
GARBAGE = 0x5A5A5A5A5A5A5A5A
DEFAULT_LEN = 80
STEPS = 200000


class Stop(Exception):
    """the run ends: panic, crash, hang (of a native call or of the program itself)"""


class Ret(Exception):
    pass


class LoopExit(Exception):
    pass


class LoopNext(Exception):
    pass


class Mem:
    """the memory of one variable"""

    def __init__(self, data, ty):
        self.b, self.ty = bytearray(data), ty


class Ptr:
    def __init__(self, mem, off=0, ty=None):
        self.mem, self.off, self.ty = mem, off, ty


class V:
    """a value: integers (also bits, times, characters) as int, reals as their bit pattern, strings as bytes of their
    code units without terminator, pointers as Ptr"""
    __slots__ = ("ty", "v", "lit")

    def __init__(self, ty, v, lit=False):
        self.ty, self.v, self.lit = ty, v, lit


def is_str(ty):
    return ty in ("STRING", "WSTRING")


def is_int(ty):
    return ty in SIGNED or ty in UNSIGNED


def width(ty):
    return SIGNED.get(ty) or UNSIGNED.get(ty) or REALS[ty][0]


def wrap(ty, v):
    w = width(ty)
    v &= (1 << w) - 1
    return v - (1 << w) if ty in SIGNED and v >> (w - 1) else v


def to_float(x):
    return struct.unpack("<f" if x.ty == "REAL" else "<d", x.v.to_bytes(width(x.ty) // 8, "little"))[0]


def round_to(ty, q):
    """the bit pattern of the REAL or LREAL nearest to the rational q (ties to even)"""
    w, p, emin, emax = REALS[ty]
    if q == 0:
        return 0
    s, q = (1, -q) if q < 0 else (0, q)
    e = q.numerator.bit_length() - q.denominator.bit_length()
    if Fraction(2) ** e > q:
        e -= 1
    x = max(e - p + 1, emin)
    n = round(q / Fraction(2) ** x)      # Fraction rounds half to even
    if n >> p:
        n >>= 1
        x += 1
    mant = p - 1
    if n >> mant:
        be = x + mant + emax
        if be >= 2 * emax + 1:
            be, n = 2 * emax + 1, 0
        bits = (be << mant) | (n & ((1 << mant) - 1))
    else:
        bits = n
    return s << (w - 1) | bits


def from_float(ty, f):
    if ty == "LREAL":
        return int.from_bytes(struct.pack("<d", f), "little")
    if math.isnan(f):
        return 0x7FC00000 | (0x80000000 if math.copysign(1, f) < 0 else 0)
    if math.isinf(f):
        return 0x7F800000 | (0x80000000 if f < 0 else 0)
    if f == 0:
        return 0x80000000 if math.copysign(1, f) < 0 else 0
    return round_to("REAL", Fraction(f))


class Program:
    """all units of the sources"""

    def __init__(self, root="/repo/iec61131-st"):
        self.units, self.globals = {}, {}
        for u in st.load_all(root):
            if u.kind == "GLOBALS":
                for v in u.vars:
                    self.globals[v["name"].upper()] = v
            else:
                self.units[u.name.upper()] = u
                consts = {v["name"].upper(): v["init"] for v in u.vars if v["section"] == "VAR" and v["init"] is not None}
                for v in u.vars:
                    v["len"] = self.local(v["len"], consts)

    def local(self, e, consts):
        """e with the constants of its unit replaced by their values"""
        if e is not None and e[0] == "var" and e[1].upper() in consts:
            return self.local(consts[e[1].upper()], {k: v for k, v in consts.items() if k != e[1].upper()})
        if e is not None and e[0] == "bin":
            return ("bin", e[1], self.local(e[2], consts), self.local(e[3], consts))
        return e

    def constant(self, e):
        if e is None:
            return None
        if e[0] == "num":
            return int(e[1].replace("_", ""))
        if e[0] == "var":
            g = self.globals.get(e[1].upper())
            return self.constant(g["init"]) if g else None
        if e[0] == "bin":
            a, b = self.constant(e[2]), self.constant(e[3])
            if a is not None and b is not None and e[1] in "+-*":
                return a + b if e[1] == "+" else a - b if e[1] == "-" else a * b
        return None

    def size(self, ty, ln):
        if is_str(ty):
            n = self.constant(ln) if ln is not None else DEFAULT_LEN
            if n is None:
                raise st.StError(f"length of {ty}: {ln}")
            return (n + 1) * (1 if ty == "STRING" else 2)
        if isinstance(ty, tuple) and ty[0] == "array":
            return ty[1] * self.size(ty[2], None)
        if isinstance(ty, tuple):
            return 8
        return st.SIZES[ty]

    def missing(self, name):
        u = self.units.get(name.upper())
        return u is None or u.external or not u.body


class Run:
    """one activation of a function and those it calls"""

    def __init__(self, prog):
        self.p, self.steps, self.notes = prog, 0, {}

    def note(self, k):
        self.notes[k] = 1

    # ---- conversions
    def cast(self, x, ty):
        if isinstance(ty, tuple) or isinstance(x.ty, tuple):
            return V(ty, x.v)
        ty = ALIAS.get(ty, ty)
        if x.ty == ty:
            return x
        if is_str(ty):
            if x.ty != ty:
                raise st.StError(f"{x.ty} assigned to {ty}")
            return x
        if is_str(x.ty):
            raise st.StError(f"{x.ty} assigned to {ty}")
        if ty in REALS:
            if x.ty in REALS:
                f = to_float(x)
                return V(ty, from_float(ty, f))
            return V(ty, round_to(ty, Fraction(x.v)))
        if x.ty in REALS:
            f = to_float(x)
            if math.isnan(f) or math.isinf(f):
                self.note("undef")
                return V(ty, wrap(ty, GARBAGE))
            t = math.trunc(f)
            if wrap(ty, t) != t:
                self.note("undef")     # out of the type's range: the compiled conversion has no defined result
                return V(ty, wrap(ty, t ^ GARBAGE))
            return V(ty, t)
        if ty == "BOOL":
            return V(ty, x.v & 1)
        return V(ty, wrap(ty, x.v))

    # ---- memory
    def read(self, mem, off, ty, size):
        if size + off > len(mem.b):
            self.note("overread")
        raw = bytes(mem.b[off:off + size])
        raw += bytes([POISON]) * (size - len(raw))
        return self.decode(ty, raw)

    def decode(self, ty, raw):
        if ty == "STRING":
            k = raw.find(0)
            return V(ty, raw[:k] if k >= 0 else raw[:-1])
        if ty == "WSTRING":
            for k in range(0, len(raw) - 1, 2):
                if raw[k] == 0 and raw[k + 1] == 0:
                    return V(ty, raw[:k])
            return V(ty, raw[:-2])
        if ty in REALS:
            return V(ty, int.from_bytes(raw, "little"))
        if ty == "BOOL":
            return V(ty, raw[0])
        return V(ty, int.from_bytes(raw, "little", signed=ty in SIGNED))

    def write(self, mem, off, ty, size, x):
        if is_str(ty):
            z = 1 if ty == "STRING" else 2
            raw = x.v[:size - z] + bytes(z)
        elif ty in REALS:
            raw = x.v.to_bytes(size, "little")
        else:
            raw = (x.v & ((1 << 8 * size) - 1)).to_bytes(size, "little")
        if off + len(raw) > len(mem.b):
            self.note("overwrite")
            raw = raw[:max(0, len(mem.b) - off)]
        mem.b[off:off + len(raw)] = raw

    # ---- calling
    def call(self, u, args, frame=None):
        """Generator: runs unit u. args: {VAR NAME: ("val", V) | ("ref", Ptr)}. Returns the memory of the result."""
        loc, types, lens = {}, {}, {}
        for v in u.vars:
            n, ty = v["name"].upper(), v["type"]
            types[n], lens[n] = ty, v["len"]
            a = args.get(n)
            if a and a[0] == "ref":
                loc[n] = a[1]
                continue
            if isinstance(ty, tuple) and ty[0] == "ref":
                loc[n] = Ptr(Mem(bytes(8), ty))
                loc[n].mem.ptr = None
                x = a[1] if a else (yield from self.ev(v["init"], dict(loc=loc, types=types, lens=lens, u=u))) if v["init"] else None
                if x is not None and isinstance(x.v, Ptr):
                    loc[n].mem.ptr = x.v
                continue
            size = self.p.size(ty, v["len"])
            m = Mem(bytes(size), ty)
            loc[n] = Ptr(m)
            if a:
                self.write(m, 0, ty, size, self.cast(a[1], ty))
            elif v["init"] is not None:
                x = yield from self.ev(v["init"], dict(loc=loc, types=types, lens=lens, u=u))
                self.write(m, 0, ty, size, self.cast(x, ty))
        ret = None
        if u.ret is not None:
            n = u.name.upper()
            types[n], lens[n] = u.ret, u.retlen
            ret = Mem(bytes(self.p.size(u.ret, u.retlen)), u.ret)
            loc[n] = Ptr(ret)
        fr = dict(loc=loc, types=types, lens=lens, u=u)
        try:
            yield from self.block(u.body, fr)
        except Ret:
            pass
        return ret

    def block(self, stmts, fr):
        for s in stmts:
            self.steps += 1
            if self.steps > STEPS:
                raise Stop("hang")
            k = s[0]
            if k == "assign":
                yield from self.assign(s[1], s[2], fr)
            elif k == "expr":
                yield from self.ev(s[1], fr)
            elif k == "if":
                c = yield from self.ev(s[1], fr)
                yield from self.block(s[2] if c.v else s[3], fr)
            elif k == "case":
                x = yield from self.ev(s[1], fr)
                for labels, body in s[2]:
                    hit = False
                    for lo, hi in labels:
                        a = yield from self.ev(lo, fr)
                        b = yield from self.ev(hi, fr)
                        hit = hit or a.v <= x.v <= b.v
                    if hit:
                        yield from self.block(body, fr)
                        break
                else:
                    yield from self.block(s[3], fr)
            elif k == "for":
                yield from self.assign(s[1], s[2], fr)
                by = yield from self.ev(s[4], fr)
                while True:
                    x = yield from self.ev(s[1], fr)
                    e = yield from self.ev(s[3], fr)
                    if (x.v > e.v) if by.v >= 0 else (x.v < e.v):
                        break
                    try:
                        yield from self.block(s[5], fr)
                    except LoopExit:
                        break
                    except LoopNext:
                        pass
                    self.steps += 1
                    if self.steps > STEPS:
                        raise Stop("hang")
                    yield from self.assign(s[1], ("bin", "+", s[1], s[4]), fr)
            elif k in ("while", "repeat"):
                cond, body = (s[1], s[2]) if k == "while" else (s[2], s[1])
                first = k == "repeat"
                while True:
                    if not first:
                        c = yield from self.ev(cond, fr)
                        if bool(c.v) == (k == "repeat"):
                            break
                    first = False
                    self.steps += 1
                    if self.steps > STEPS:
                        raise Stop("hang")
                    try:
                        yield from self.block(body, fr)
                    except LoopExit:
                        break
                    except LoopNext:
                        pass
            elif k == "return":
                raise Ret()
            elif k == "exit":
                raise LoopExit()
            elif k == "continue":
                raise LoopNext()
            else:
                raise st.StError(f"statement {k}")

    def place(self, e, fr):
        """Generator: (memory, offset, type, size) an expression denotes, or None"""
        if e[0] == "var":
            n = e[1].upper()
            p = fr["loc"].get(n)
            if p is None:
                return None
            ty = fr["types"][n]
            return p.mem, p.off, ty, self.p.size(ty, fr["lens"].get(n))
        if e[0] == "deref":
            x = yield from self.ev(e[1], fr)
            if not isinstance(x.v, Ptr):
                raise Stop("crash")
            ty = x.ty[1]
            return x.v.mem, x.v.off, ty, self.p.size(ty, None)
        if e[0] == "index":
            m, off, ty, size = yield from self.place(e[1], fr)
            i = yield from self.ev(e[2], fr)
            if is_str(ty):
                w = 1 if ty == "STRING" else 2
                return m, off + w * i.v, "CHAR" if w == 1 else "WCHAR", w
            if isinstance(ty, tuple) and ty[0] == "array":
                w = self.p.size(ty[2], None)
                return m, off + w * (i.v - ty[3]), ty[2], w
            if isinstance(ty, tuple) and ty[0] == "ref" and isinstance(m.ptr, Ptr):
                w = self.p.size(ty[1], None)
                return m.ptr.mem, m.ptr.off + w * i.v, ty[1], w
            raise st.StError(f"index into {ty}")
        return None

    def assign(self, lhs, rhs, fr):
        x = yield from self.ev(rhs, fr)
        if lhs[0] in ("bit", "part"):
            w, i = (1, lhs[2]) if lhs[0] == "bit" else (lhs[2], lhs[3])
            m, off, ty, size = yield from self.place(lhs[1], fr)
            cur = self.read(m, off, ty, size)
            mask = ((1 << w) - 1) << (w * i)
            self.write(m, off, ty, size, V(ty, wrap(ty, (cur.v & ~mask) | ((x.v << (w * i)) & mask))))
            return
        pl = yield from self.place(lhs, fr)
        if pl is None:
            raise st.StError(f"cannot assign to {lhs}")
        m, off, ty, size = pl
        if isinstance(ty, tuple) and ty[0] == "ref":
            if not isinstance(x.v, Ptr):
                raise st.StError("no address")
            m.ptr = x.v
            return
        self.write(m, off, ty, size, self.cast(x, ty))

    def text(self, lit):
        """the value of a string literal: $ introduces special characters and code units in hexadecimal"""
        w = 1 if lit[0] == "'" else 2
        out, i, d = b"", 0, lit[1:-1]
        while i < len(d):
            if d[i] == "$" and i + 1 < len(d):
                c, h = d[i + 1], d[i + 1:i + 1 + 2 * w]
                if c.upper() in "NLRTP":
                    out += {"N": 10, "L": 10, "R": 13, "T": 9, "P": 12}[c.upper()].to_bytes(w, "little")
                    i += 2
                elif len(h) == 2 * w and all(x in "0123456789abcdefABCDEF" for x in h):
                    out += int(h, 16).to_bytes(w, "little")
                    i += 1 + 2 * w
                else:
                    out += c.encode("utf-8" if w == 1 else "utf-16le")
                    i += 2
            else:
                out += d[i].encode("utf-8" if w == 1 else "utf-16le")
                i += 1
        return V("STRING" if w == 1 else "WSTRING", out)

    def literal(self, text):
        t = text.replace("_", "")
        if "#" in t:
            b, d = t.split("#")
            v = int(d, int(b))
        elif "." in t or "e" in t.lower():
            return V("LREAL", from_float("LREAL", float(t)), True)
        else:
            v = int(t)
        return V("DINT" if v < 1 << 31 else "LINT" if v < 1 << 63 else "ULINT", v, True)

    def ev(self, e, fr):
        k = e[0]
        if k == "num":
            return self.literal(e[1])
        if k == "bool":
            return V("BOOL", int(e[1]))
        if k == "lit":
            ty = ALIAS.get(e[1], e[1])
            if e[2][0] in "'\"":
                x = self.text(e[2])
                if is_str(ty):
                    return x
                return V(ty, int.from_bytes(x.v, "little"))
            x = self.literal(e[2].lstrip("-")) if e[2].upper() not in ("TRUE", "FALSE") else V("BOOL", int(e[2].upper() == "TRUE"))
            if ty not in REALS and not is_int(ty):
                raise st.StError(f"literal {e}")
            if e[2].startswith("-"):
                x = self.negate(x)
            return self.cast(x, ty)
        if k == "str":
            return self.text(e[1])
        if k == "moment":
            return V(e[1], e[2])
        if k in ("var", "deref", "index"):
            pl = yield from self.place(e, fr)
            if pl is None:
                g = self.p.globals.get(e[1].upper()) if k == "var" else None
                if g is None:
                    raise st.StError(f"unknown name {e}")
                if g["init"] is not None:
                    x = yield from self.ev(g["init"], fr)
                    return self.cast(x, g["type"])
                raise st.StError(f"global {e[1]}")
            m, off, ty, size = pl
            if isinstance(ty, tuple) and ty[0] == "ref":
                return V(ty, m.ptr)
            return self.read(m, off, ALIAS.get(ty, ty), size)
        if k == "addr":
            pl = yield from self.place(e[1], fr)
            if pl is None:
                raise st.StError(f"address of {e[1]}")
            return V(("ref", pl[2]), Ptr(pl[0], pl[1]))
        if k == "bit":
            x = yield from self.ev(e[1], fr)
            return V("BOOL", (x.v >> e[2]) & 1)
        if k == "part":
            x = yield from self.ev(e[1], fr)
            return V({1: "BOOL", 8: "BYTE", 16: "WORD", 32: "DWORD"}[e[2]], (x.v >> (e[2] * e[3])) & ((1 << e[2]) - 1))
        if k == "neg":
            x = yield from self.ev(e[1], fr)
            return self.negate(x)
        if k == "not":
            x = yield from self.ev(e[1], fr)
            return V(x.ty, 1 - (x.v & 1)) if x.ty == "BOOL" else V(x.ty, wrap(x.ty, ~x.v))
        if k == "bin":
            a = yield from self.ev(e[2], fr)
            b = yield from self.ev(e[3], fr)
            return self.binary(e[1], a, b)
        if k == "call":
            x = yield from self.invoke(e, fr)
            return x
        raise st.StError(f"expression {k}")

    def negate(self, x):
        if x.ty in REALS:
            return V(x.ty, x.v ^ (1 << (width(x.ty) - 1)), x.lit)
        ty = self.promote(x, x)
        return V(ty, wrap(ty, -x.v), x.lit)

    def promote(self, a, b):
        if a.ty in REALS or b.ty in REALS:
            if a.ty in REALS and b.ty in REALS:
                if a.lit != b.lit:
                    return b.ty if a.lit else a.ty
                return "LREAL" if "LREAL" in (a.ty, b.ty) else "REAL"
            r, i = (a, b) if a.ty in REALS else (b, a)
            return "LREAL" if r.ty == "LREAL" or (width(i.ty) == 64 and not i.lit) else "REAL"
        if a.lit != b.lit:
            ty = b.ty if a.lit else a.ty
            lit = a if a.lit else b
            if wrap(ty, lit.v) == lit.v and width(ty) >= 32:
                return ty
        w = max(32, width(a.ty), width(b.ty))
        if width(a.ty) == w and a.ty not in ANY_INT and a.ty == b.ty:
            return a.ty
        s = (a.ty in SIGNED or width(a.ty) < w) and (b.ty in SIGNED or width(b.ty) < w) or (
            a.ty in SIGNED and width(a.ty) == w) or (b.ty in SIGNED and width(b.ty) == w)
        if a.ty in UNSIGNED and b.ty in UNSIGNED:
            s = False
        return {(32, True): "DINT", (32, False): "UDINT", (64, True): "LINT", (64, False): "ULINT"}[(w, s)]

    def binary(self, op, a, b):
        if op in ("AND", "&", "OR", "XOR") and "BOOL" in (a.ty, b.ty):
            p, q = a.v & 1, b.v & 1
            return V("BOOL", p & q if op in ("AND", "&") else p | q if op == "OR" else p ^ q)
        if op in ("=", "<>", "<", ">", "<=", ">="):
            if is_str(a.ty) or is_str(b.ty):
                if a.ty != b.ty:
                    raise st.StError(f"comparison of {a.ty} and {b.ty}")
                x, y = (list(t.v) if t.ty == "STRING" else list(struct.unpack(f"<{len(t.v) // 2}H", t.v)) for t in (a, b))
            elif isinstance(a.ty, tuple) or isinstance(b.ty, tuple):
                x, y = (id(t.v.mem) + t.v.off if isinstance(t.v, Ptr) else t.v or 0 for t in (a, b))
            elif a.ty in REALS or b.ty in REALS:
                ty = self.promote(a, b)
                x, y = to_float(self.cast(a, ty)), to_float(self.cast(b, ty))
            else:
                x, y = a.v, b.v
            return V("BOOL", int({"=": x == y, "<>": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]))
        if isinstance(a.ty, tuple) and isinstance(a.v, Ptr) and op in "+-":
            w = self.p.size(a.ty[1], None)
            return V(a.ty, Ptr(a.v.mem, a.v.off + (w if op == "+" else -w) * b.v))
        ty = self.promote(a, b)
        if ty in REALS:
            x, y = to_float(self.cast(a, ty)), to_float(self.cast(b, ty))
            try:
                z = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y, "**": lambda: x ** y}[op]()
            except ZeroDivisionError:
                z = math.nan if x == 0 or math.isnan(x) else math.copysign(math.inf, x) * math.copysign(1, y)
            except OverflowError:
                z = math.inf
            return V(ty, from_float(ty, z), a.lit and b.lit)
        x, y = wrap(ty, a.v), wrap(ty, b.v)
        if op in ("/", "MOD"):
            if y == 0:
                raise Stop("crash")
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return V(ty, wrap(ty, q if op == "/" else x - q * y), a.lit and b.lit)
        z = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "AND": lambda: x & y, "&": lambda: x & y, "OR": lambda: x | y,
             "XOR": lambda: x ^ y}[op]()
        return V(ty, wrap(ty, z), a.lit and b.lit)

    # ---- function calls
    def invoke(self, e, fr):
        name, argl = e[1].upper(), e[2]
        u = self.p.units.get(name)
        if u is None:
            x = yield from self.builtin(name, argl, fr)
            return x
        # evaluate arguments: places stay places
        got = []
        for nm, a in argl:
            pl = yield from self.place(a, fr) if a[0] in ("var", "deref", "index") else self.nothing()
            if pl is not None and not (isinstance(pl[2], tuple) and pl[2][0] == "ref"):
                m, off, ty, size = pl
                got.append((nm, ("ref", Ptr(m, off), ALIAS.get(ty, ty), size)))
            else:
                x = yield from self.ev(a, fr)
                got.append((nm, ("val", x, x.ty)))
        params = u.inputs()
        variadic = params[-1] if params and isinstance(params[-1]["type"], tuple) and params[-1]["type"][0] == "variadic" else None
        bound, rest = {}, []
        for i, (nm, g) in enumerate(got):
            if nm:
                v = next((v for v in params if v["name"].upper() == nm.upper()), None)
            else:
                v = params[i] if i < len(params) and not (variadic and i >= len(params) - 1) else None
            if v is None and variadic is not None and not nm:
                rest.append(g)
            elif v is None:
                raise st.StError(f"argument {i + 1} of {e[1]}")
            else:
                bound[v["name"].upper()] = (v, g)
        target, subst = u, {}
        if u.generics:
            for gname, _ in u.generics:
                tys = [g[2] for v, g in bound.values() if v["type"] == gname]
                if variadic is not None and variadic["type"][1] == gname:
                    tys += [g[2] for g in rest]
                subst[gname] = self.widest(tys)
            full = "__".join([u.name] + [subst[g] for g, _ in u.generics])
            t = self.p.units.get(full.upper())
            if t is not None:
                target = t
                bound = {tv["name"].upper(): (tv, bound[v["name"].upper()][1]) for v, tv in zip(params, t.inputs()) if v["name"].upper() in bound}
            sym = full
        else:
            sym = u.name
        if target.external or (target is u and u.generics):
            x = yield from self.native(target, sym, subst, bound, rest, variadic)
            return x
        args = {}
        for n, (v, g) in bound.items():
            if v["ref"] or v["section"] in ("VAR_IN_OUT", "VAR_OUTPUT"):
                args[n] = ("ref", self.as_ref(g))
            else:
                args[n] = ("val", self.as_val(g))
        m = yield from self.call(target, args)
        if m is None:
            return V("DINT", 0)
        return self.read(m, 0, ALIAS.get(target.ret, target.ret), len(m.b))

    OPERATORS = {"ADD": "+", "MUL": "*", "AND": "AND", "OR": "OR", "XOR": "XOR", "SUB": "-", "DIV": "/", "MOD": "MOD",
                 "EQ": "=", "NE": "<>", "LT": "<", "GT": ">", "LE": "<=", "GE": ">="}

    def builtin(self, name, argl, fr):
        """Generator: a function the compiler supplies itself"""
        if name in ("ADR", "REF") and len(argl) == 1:
            return (yield from self.ev(("addr", argl[0][1]), fr))
        if name == "SIZEOF" and len(argl) == 1:
            a = argl[0][1]
            if a[0] == "var" and a[1].upper() in st.SIZES:
                return V("DINT", st.SIZES[a[1].upper()], True)
            pl = yield from self.place(a, fr)
            if pl is not None:
                return V("DINT", pl[3], True)
        if all(n is None for n, _ in argl) or name == "SEL":
            xs = []
            for _, a in argl:
                xs.append((yield from self.ev(a, fr)))
            if name == "MOVE" and len(xs) == 1:
                return xs[0]
            if name == "NOT" and len(xs) == 1:
                x = xs[0]
                return V(x.ty, 1 - (x.v & 1)) if x.ty == "BOOL" else V(x.ty, wrap(x.ty, ~x.v))
            if name == "SEL" and len(xs) == 3:
                return xs[2] if xs[0].v & 1 else xs[1]
            if name == "MUX" and len(xs) >= 2 and 0 <= xs[0].v < len(xs) - 1:
                return xs[1 + xs[0].v]
            if name in self.OPERATORS and len(xs) >= 2:
                x = xs[0]
                for y in xs[1:]:
                    x = self.binary(self.OPERATORS[name], x, y)
                return x
        raise st.StError(f"unknown function {name}")

    def nothing(self):
        return None
        yield

    def as_val(self, g):
        return g[1] if g[0] == "val" else self.read(g[1].mem, g[1].off, g[2], g[3])

    def as_ref(self, g):
        if g[0] == "ref":
            return g[1]
        x = g[1]      # a temporary holding the value
        if is_str(x.ty):
            return Ptr(Mem(x.v + (b"\0" if x.ty == "STRING" else b"\0\0"), x.ty))
        m = Mem(bytes(width(x.ty) // 8), x.ty)
        self.write(m, 0, x.ty, len(m.b), x)
        return Ptr(m)

    def widest(self, tys):
        if not tys:
            raise st.StError("generic without arguments")
        best = tys[0]
        for t in tys[1:]:
            if t != best and not is_str(t):
                best = t if (t in REALS, width(t), t in SIGNED) > (best in REALS, width(best), best in SIGNED) else best
        return {"DATE_AND_TIME": "DT", "TIME_OF_DAY": "TOD"}.get(best, best)

    RETCODE = {"BOOL": "b", "BYTE": "u8", "USINT": "u8", "CHAR": "u8", "WORD": "u16", "UINT": "u16", "WCHAR": "u16", "DWORD": "u32", "UDINT": "u32",
               "LWORD": "u64", "ULINT": "u64", "SINT": "i8", "INT": "i16", "DINT": "i32", "REAL": "f", "LREAL": "d"}

    def token(self, ty, g):
        x = self.cast(self.as_val(g), ty)
        if ty == "REAL":
            return f"f{x.v:08x}"
        if ty == "LREAL":
            return f"d{x.v:016x}"
        return f"i{x.v}"

    def source(self, p, ty):
        """the memory a string argument's pointer shows, up to its terminator"""
        w = 2 if ty == "WSTRING" else 1
        b = bytes(p.mem.b[p.off:])
        for k in range(0, len(b) - w + 1, w):
            if not any(b[k:k + w]):
                return b[:min(len(b), k + w + 8)]
        self.note("unterminated")
        return b

    def native(self, u, sym, subst, bound, rest, variadic):
        toks, outs = [], []
        for v in u.inputs():
            n = v["name"].upper()
            ty = v["type"]
            if isinstance(ty, tuple) and ty[0] == "variadic":
                ety = subst.get(ty[1], ty[1])
                if v["sized"]:
                    toks.append(f"i{len(rest)}")
                if is_str(ety):
                    toks.append("v" + "|".join(self.source(self.as_ref(g), ety).hex() for g in rest))
                else:
                    raw = b""
                    for g in rest:
                        m = Mem(bytes(width(ety) // 8), ety)
                        self.write(m, 0, ety, len(m.b), self.cast(self.as_val(g), ety))
                        raw += bytes(m.b)
                    toks.append("s" + raw.hex())
                continue
            if n not in bound:
                raise st.StError(f"{sym}: no argument {v['name']}")
            g = bound[n][1]
            ty = ALIAS.get(subst.get(ty, ty), subst.get(ty, ty))
            if v["section"] in ("VAR_IN_OUT", "VAR_OUTPUT"):
                p = self.as_ref(g)
                toks.append("o" + bytes(p.mem.b[p.off:]).hex())
                outs.append(p)
            elif v["ref"] and is_str(ty):
                toks.append("s" + self.source(self.as_ref(g), ty).hex())
            elif v["ref"]:
                toks.append("s" + bytes(self.as_ref(g).mem.b).hex())
            elif is_str(ty):
                raise st.StError(f"{sym}: string by value")
            else:
                toks.append(self.token(ty, g))
        rty = ALIAS.get(subst.get(u.ret, u.ret), subst.get(u.ret, u.ret))
        if rty is not None and is_str(rty):
            raise st.StError(f"{sym}: native string result")
        code = "v" if rty is None else self.RETCODE.get(rty, "i64")
        res = yield (sym, code, toks)
        if res[0] != "ok":
            raise Stop(res[0])
        if res[2] != "1":
            self.note("overwrite")
        if res[3] != "1":
            self.note("changed")
        for p, h in zip(outs, res[4:]):
            p.mem.b[p.off:] = bytes.fromhex(h)
        if rty is None:
            return V("DINT", 0)
        if code in ("f", "d"):
            return V(rty, int(res[1], 16))
        return V(rty, int(res[1]))


def execute(so, prog, calls, workdir, tag, prof, shards=6, timeout=120):
    """As vlib.execute, for calls of functions written in structured text. An item is (function, None, args, rec)
    with args a list of ("v", type, value) by value, ("r", type, bytes) by reference and ("o", type, bytes) outputs.
    The record gets: out; res (memory of the result, bytes) or, for strings, bufs[0] up to its terminator; bufs; notes."""
    runs = []
    for sym, _, args, _ in calls.items:
        u = prog.units.get(sym.upper())
        if u is None or u.external:
            runs.append({"out": "nosym"})
            continue
        run = Run(prog)
        bound, mems, sources = {}, [], []
        params = u.inputs()
        if len(params) != len(args):
            runs.append({"out": "signature"})
            continue
        for v, a in zip(params, args):
            if a[0] == "v":
                x = V(a[1], a[2])
                if v["ref"] or v["section"] != "VAR_INPUT":
                    bound[v["name"].upper()] = ("ref", run.as_ref(("val", x)))
                else:
                    bound[v["name"].upper()] = ("val", x)
            else:
                m = Mem(a[2], a[1])
                if a[0] == "o" or v["ref"] or v["section"] != "VAR_INPUT":
                    bound[v["name"].upper()] = ("ref", Ptr(m))
                else:
                    bound[v["name"].upper()] = ("val", run.decode(a[1], a[2]))
                (mems if a[0] == "o" else sources).append((m, a[2]))
        runs.append({"out": None, "run": run, "gen": run.call(u, bound), "u": u, "mems": mems, "sources": sources, "send": None})
    rounds = 0
    live = [r for r in runs if r["out"] is None]
    while live:
        rounds += 1
        pend = []
        for r in live:
            try:
                r["want"] = r["gen"].send(r["send"])
                pend.append(r)
            except StopIteration as e:
                r["out"], r["ret"] = "ok", e.value
            except Stop as e:
                r["out"] = str(e)
        if not pend:
            break
        if rounds > 400:
            for r in pend:
                r["out"] = "hang"
            break
        n = max(1, min(shards, len(pend) // 200 + 1))

        def one(k):
            lines = [" ".join([f"c {i} {pend[i]['want'][1]} {pend[i]['want'][0]}"] + pend[i]["want"][2]) for i in range(k, len(pend), n)]
            return vlib.run_script(so, lines, workdir, f"{tag}.{prof}.{rounds}.{k}", timeout)
        res = {}
        with vlib.cf.ThreadPoolExecutor(n) as ex:
            for g in ex.map(one, range(n)):
                res.update(g)
        for i, r in enumerate(pend):
            r["send"] = res.get(str(i), ["lost"])
            r.setdefault("script", []).append(" ".join([r["want"][1], r["want"][0]] + r["want"][2])[:600])
        live = pend
    out = []
    for r, (sym, _, args, rec) in zip(runs, calls.items):
        o = dict(rec)
        o.update(sym=sym, prof=prof, out=r["out"], g=1, s=1, bufs=[], notes=[])
        if "run" in r:
            nt = r["run"].notes
            o["notes"] = sorted(nt)
            o["g"] = 0 if "overwrite" in nt else 1
            o["s"] = 0 if "changed" in nt or any(bytes(m.b) != b for m, b in r["sources"]) else 1
            o["bufs"] = [list(m.b) for m, _ in r["mems"]]
            if r["out"] == "ok" and r["ret"] is not None:
                ty = ALIAS.get(r["u"].ret, r["u"].ret)
                o["rty"] = ty
                raw = bytes(r["ret"].b)
                if is_str(ty):
                    w = 2 if ty == "WSTRING" else 1
                    units = [int.from_bytes(raw[k:k + w], "little") for k in range(0, len(raw), w)]
                    k = units.index(0) + 1 if 0 in units else min(len(units), 100)
                    o["bufs"] = o["bufs"] + [units[:k]]
                elif ty in REALS:
                    o["r"] = list(raw)
                elif ty == "BOOL":
                    o["r"] = raw[0]
                else:
                    o["r"] = vlib.big(int.from_bytes(raw, "little", signed=ty in SIGNED))
        o["_script"] = {"function": sym, "arguments": [[a[0], a[1], a[2].hex() if isinstance(a[2], bytes) else a[2]] for a in args],
                        "native calls": r.get("script", [])}
        out.append(o)
    return out
