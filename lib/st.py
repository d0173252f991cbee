"""Parser for the structured-text sources of /repo/iec61131-st (declarations and the statement subset they use).

It decides nothing: it yields what the sources declare (memory layouts, signatures, external names) and the
statements of the functions written in structured text, for the checks to record and execute."""
import glob
import re
from fractions import Fraction

SIZES = {"BOOL": 1, "BYTE": 1, "CHAR": 1, "SINT": 1, "USINT": 1, "WORD": 2, "WCHAR": 2, "INT": 2, "UINT": 2,
         "DWORD": 4, "DINT": 4, "UDINT": 4, "REAL": 4, "LWORD": 8, "LINT": 8, "ULINT": 8, "LREAL": 8, "TIME": 8,
         "LTIME": 8, "DATE": 8, "LDATE": 8, "DT": 8, "LDT": 8, "TOD": 8, "LTOD": 8, "DATE_AND_TIME": 8,
         "TIME_OF_DAY": 8}

TOKEN = re.compile(r"""\s+|(?P<comment>\(\*|/\*)|//[^\n]*|(?P<pragma>\{[^}]*\})
    |(?P<moment>(?i:(?:L?TIME|L?T)\#-?\d[\w.]*|(?:L?DT|L?DATE_AND_TIME)\#\d+-\d+-\d+-\d+:\d+(?::\d+(?:\.\d+)?)?
        |(?:L?DATE|L?D)\#\d+-\d+-\d+|(?:L?TOD|L?TIME_OF_DAY)\#\d+:\d+(?::\d+(?:\.\d+)?)?))
    |(?P<num>\d[\d_]*\.\d[\d_]*(?:[eE][-+]?\d+)?|\d+\#[0-9A-Fa-f_]+|\d[\d_]*(?:[eE][-+]?\d+)?)
    |(?P<str>'(?:\$.|[^'$])*'|"(?:\$.|[^"$])*")|(?P<dots>\.\.\.|\.\.)|(?P<op>:=|<>|<=|>=|=>|\*\*|[-+*/=<>&^.,;:()\[\]\#%])|(?P<id>[A-Za-z_]\w*)|(?P<bad>.)""", re.S | re.X)


class StError(Exception):
    pass


def tokens(text):
    out, i = [], 0
    while i < len(text):
        m = TOKEN.match(text, i)
        k, i = m.lastgroup, m.end()
        if k == "comment":
            i = after_comment(text, m.start(), m.group())
        elif k == "bad":
            raise StError(f"unexpected character {m.group()!r}")
        elif k is not None:
            out.append((k, m.group()))
    return out


def after_comment(text, i, opening):
    """the position behind the comment that starts at i; comments of a kind nest"""
    closing, depth = "*)" if opening == "(*" else "*/", 0
    while i < len(text):
        two = text[i:i + 2]
        if two == opening:
            depth, i = depth + 1, i + 2
        elif two == closing:
            depth, i = depth - 1, i + 2
            if depth == 0:
                return i
        else:
            i += 1
    raise StError("comment without end")


class Unit:
    """A FUNCTION or FUNCTION_BLOCK."""

    def __init__(self, kind, name, external, file):
        self.kind, self.name, self.external, self.file = kind, name, external, file
        self.generics, self.ret, self.vars, self.body = [], None, [], []
        self.retlen = None      # declared length of a string result

    def __repr__(self):
        return f"{self.kind} {self.name}"

    def inputs(self):
        return [v for v in self.vars if v["section"] in ("VAR_INPUT", "VAR_IN_OUT", "VAR_OUTPUT")]


class P:
    def __init__(self, toks, file):
        self.t, self.i, self.file = toks, 0, file

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else ""

    def up(self):
        return self.peek().upper()

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x[1]

    def accept(self, s):
        if self.up() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            raise StError(f"{self.file}: expected {s}, found {' '.join(x[1] for x in self.t[self.i:self.i + 6])}")

    def pragmas(self):
        ps = []
        while self.i < len(self.t) and self.t[self.i][0] == "pragma":
            ps.append(self.next().strip("{} ").lower())
        return ps

    # ---- declarations
    def file_units(self):
        units = []
        while self.i < len(self.t):
            ps = self.pragmas()
            k = self.up()
            if k in ("FUNCTION", "FUNCTION_BLOCK"):
                units.append(self.unit("external" in ps))
            elif k == "VAR_GLOBAL":
                u = Unit("GLOBALS", "", False, self.file)
                self.var_section(u, ps)
                units.append(u)
            elif k == "":
                break
            else:
                raise StError(f"{self.file}: unexpected {self.peek()}")
        return units

    def unit(self, external):
        kind = self.next().upper()
        u = Unit(kind, self.next(), external, self.file)
        if self.accept("<"):
            while not self.accept(">"):
                n = self.next()
                self.expect(":")
                u.generics.append((n, self.next()))
                self.accept(",")
        if self.accept(":"):
            u.ret = self.type()
            u.retlen = self.len
        while True:
            mark = self.i
            ps = self.pragmas()
            if self.up() in ("VAR", "VAR_INPUT", "VAR_OUTPUT", "VAR_IN_OUT", "VAR_TEMP"):
                self.var_section(u, ps)
            else:
                self.i = mark
                break
        u.body = self.stmts()
        self.expect("END_" + kind)
        return u

    def var_section(self, u, ps):
        sec = self.next().upper()
        ps += self.pragmas()
        while self.up() in ("CONSTANT", "RETAIN", "NON_RETAIN"):
            self.next()
        while not self.accept("END_VAR"):
            names = [self.next()]
            while self.accept(","):
                names.append(self.next())
            self.expect(":")
            tps = self.pragmas()
            ty = self.type()
            ln = self.len
            init = None
            if self.accept(":="):
                init = self.expr()
            self.expect(";")
            for n in names:
                u.vars.append({"name": n, "type": ty, "section": sec, "ref": "ref" in ps,
                               "sized": "sized" in tps, "init": init, "len": ln})

    def type(self):
        self.len = None
        n = self.next().upper()
        if n == "ARRAY":
            self.expect("[")
            bounds = [self.range()]
            while self.accept(","):
                bounds.append(self.range())
            self.expect("]")
            self.expect("OF")
            ty = self.type()
            for lo, hi in reversed(bounds):
                ty = ("array", hi - lo + 1, ty, lo)
        elif n in ("REF_TO", "POINTER"):
            self.accept("TO")
            ty = ("ref", self.type())
        elif n in ("STRING", "WSTRING"):
            ty = n
            if self.accept("[") or self.accept("("):
                self.len = self.expr()
                self.accept("]") or self.expect(")")
        else:
            ty = n
        if self.accept("..."):
            ty = ("variadic", ty)
        return ty

    def range(self):
        lo = self.integer()
        self.expect("..")
        return lo, self.integer()

    def integer(self):
        sign = -1 if self.accept("-") else 1
        return sign * int(self.next().replace("_", ""))

    # ---- statements
    ENDS = ("END_FUNCTION", "END_FUNCTION_BLOCK", "END_IF", "ELSE", "ELSIF", "END_CASE", "END_FOR", "END_WHILE",
            "UNTIL", "END_REPEAT", "")

    def stmts(self, case=False):
        out = []
        while self.up() not in self.ENDS:
            if case and self.label_ahead():
                break
            if self.accept(";"):
                continue
            if self.accept("IF"):
                c = self.expr()
                self.expect("THEN")
                a = self.stmts()
                out.append(("if", c, a, self.rest_of_if()))
            elif self.accept("CASE"):
                out.append(self.case())
            elif self.accept("FOR"):
                v = self.postfix()
                self.expect(":=")
                a = self.expr()
                self.expect("TO")
                b = self.expr()
                by = self.expr() if self.accept("BY") else ("num", "1")
                self.expect("DO")
                body = self.stmts()
                self.expect("END_FOR")
                out.append(("for", v, a, b, by, body))
            elif self.accept("WHILE"):
                c = self.expr()
                self.expect("DO")
                body = self.stmts()
                self.expect("END_WHILE")
                out.append(("while", c, body))
            elif self.accept("REPEAT"):
                body = self.stmts()
                self.expect("UNTIL")
                c = self.expr()
                self.expect("END_REPEAT")
                out.append(("repeat", body, c))
            elif self.up() in ("RETURN", "EXIT", "CONTINUE"):
                out.append((self.next().lower(),))
            else:
                e = self.postfix()
                out.append(("assign", e, self.expr()) if self.accept(":=") else ("expr", e))
                self.expect(";")
        return out

    def label_ahead(self):
        """whether a case label follows: constants, commas and ranges up to a colon"""
        k = self.i
        while k < len(self.t) and (self.t[k][0] in ("num", "dots", "id") or self.t[k][1] in (",", "-", "#")):
            k += 1
        return k > self.i and k < len(self.t) and self.t[k][1] == ":"

    def case(self):
        sel = self.expr()
        self.expect("OF")
        arms, other = [], []
        while self.up() not in ("ELSE", "END_CASE"):
            labels = []
            while True:
                a = self.expr()
                labels.append((a, self.expr() if self.accept("..") else a))
                if not self.accept(","):
                    break
            self.expect(":")
            arms.append((labels, self.stmts(case=True)))
        if self.accept("ELSE"):
            other = self.stmts()
        self.expect("END_CASE")
        return ("case", sel, arms, other)

    def rest_of_if(self):
        if self.accept("ELSIF"):
            c = self.expr()
            self.expect("THEN")
            a = self.stmts()
            return [("if", c, a, self.rest_of_if())]
        if self.accept("ELSE"):
            b = self.stmts()
            self.expect("END_IF")
            return b
        self.expect("END_IF")
        return []

    def binary(self, sub, ops):
        a = sub()
        while self.up() in ops:
            o = self.next().upper()
            a = ("bin", o, a, sub())
        return a

    def expr(self):
        return self.binary(self.xor, ("OR",))

    def xor(self):
        return self.binary(self.conj, ("XOR",))

    def conj(self):
        return self.binary(self.eq, ("AND", "&"))

    def eq(self):
        return self.binary(self.rel, ("=", "<>"))

    def rel(self):
        return self.binary(self.add, ("<", ">", "<=", ">="))

    def add(self):
        return self.binary(self.mul, ("+", "-"))

    def mul(self):
        return self.binary(self.power, ("*", "/", "MOD"))

    def power(self):
        return self.binary(self.unary, ("**",))

    def unary(self):
        if self.accept("-"):
            return ("neg", self.unary())
        if self.accept("+"):
            return self.unary()
        if self.accept("NOT"):
            return ("not", self.unary())
        if self.accept("&"):
            return ("addr", self.unary())
        return self.postfix()

    def postfix(self):
        k, x = self.t[self.i]
        if x == "(":
            self.next()
            e = self.expr()
            self.expect(")")
        elif k == "num":
            self.next()
            e = ("num", x)
        elif k == "str":
            self.next()
            e = ("str", x)
        elif k == "moment":
            self.next()
            e = ("moment",) + moment(x)
        elif k == "id" and self.peek(1) == "#":
            self.next()
            self.next()
            sign = "-" if self.accept("-") else ""
            e = ("lit", x.upper(), sign + self.next())
        elif k == "id":
            self.next()
            e = ("bool", x.upper() == "TRUE") if x.upper() in ("TRUE", "FALSE") else ("var", x)
        else:
            raise StError(f"{self.file}: unexpected {x} in expression")
        while True:
            if self.accept("("):
                args = []
                while not self.accept(")"):
                    nm = None
                    if self.t[self.i][0] == "id" and self.peek(1) in (":=", "=>"):
                        nm = self.next()
                        self.next()
                    args.append((nm, self.expr()))
                    self.accept(",")
                e = ("call", e[1], args)
            elif self.accept("^"):
                e = ("deref", e)
            elif self.accept("["):
                e = ("index", e, self.expr())
                self.expect("]")
            elif self.peek() == "." and self.t[self.i + 1][0] == "num":
                self.next()
                e = ("bit", e, int(self.next()))
            elif self.peek() == "." and self.peek(1) == "%":
                self.next()
                self.next()
                m = re.match(r"([XBWD])(\d+)$", self.next().upper())
                e = ("part", e, {"X": 1, "B": 8, "W": 16, "D": 32}[m.group(1)], int(m.group(2)))
            else:
                return e


UNITS = {"d": 86400 * 10 ** 9, "h": 3600 * 10 ** 9, "m": 60 * 10 ** 9, "s": 10 ** 9, "ms": 10 ** 6, "us": 1000, "ns": 1}


def moment(text):
    """type and nanoseconds of a duration, date or time literal"""
    name, d = text.split("#", 1)
    name = name.upper()
    ty = {"T": "TIME", "LT": "LTIME", "D": "DATE", "LD": "LDATE", "TIME_OF_DAY": "TOD", "DATE_AND_TIME": "DT",
          "LTIME_OF_DAY": "LTOD", "LDATE_AND_TIME": "LDT"}.get(name, name)
    if ty in ("TIME", "LTIME"):
        d, sign = d.replace("_", "").lower(), 1
        if d.startswith("-"):
            d, sign = d[1:], -1
        parts = re.findall(r"(\d+(?:\.\d+)?)(d|h|ms|us|ns|m|s)", d)
        if "".join(a + b for a, b in parts) != d:
            raise StError(f"literal {text}")
        return ty, sign * sum(int(Fraction(a) * UNITS[b]) for a, b in parts)
    ns = 0
    fields = d.split("-")
    if ty in ("DATE", "LDATE", "DT", "LDT"):
        y, m, dd = (int(x) for x in fields[:3])
        y2 = y - (m <= 2)
        era = y2 // 400
        yoe = y2 - era * 400
        doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + dd - 1
        ns = (era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468) * UNITS["d"]
    if ":" in d:
        for x, u in zip(fields[-1].split(":"), ("h", "m", "s")):
            ns += int(Fraction(x) * UNITS[u])
    return ty, ns


def load_all(root="/repo/iec61131-st"):
    units = []
    for f in sorted(glob.glob(f"{root}/*.st")):
        with open(f, encoding="utf-8") as fh:
            units += P(tokens(fh.read()), f.rsplit("/", 1)[-1]).file_units()
    return units


def load(root="/repo/iec61131-st"):
    return [u for u in load_all(root) if u.kind != "GLOBALS"]


def size_align(ty):
    if isinstance(ty, tuple) and ty[0] == "array":
        s, a = size_align(ty[2])
        return s * ty[1], a
    if isinstance(ty, tuple):
        return 8, 8
    if ty in SIZES:
        return SIZES[ty], SIZES[ty]
    raise StError(f"size of {ty}")


def layout(u):
    """{name: (offset, type, section)}, total size and alignment of a function block's instance"""
    off, al, out = 0, 1, {}
    for v in u.vars:
        s, a = size_align(v["type"])
        off = -(-off // a) * a
        out[v["name"]] = (off, v["type"], v["section"])
        off += s
        al = max(al, a)
    return out, -(-off // al) * al, al
