"""Driving function-block instances: turns abstract behaviours into executor scripts and recorded traces."""
import concurrent.futures as cf
import json
import random
import re

import st
from vlib import SPEC, ToolError, big, run_script, run_tasks, tlc

INT = {"INT": 2, "DINT": 4, "LINT": 8, "UINT": 2, "UDINT": 4, "ULINT": 8, "TIME": 8, "LTIME": 8,
       "SINT": 1, "USINT": 1, "BYTE": 1, "WORD": 2, "DWORD": 4, "LWORD": 8}
SIGNED = {"INT", "DINT", "LINT", "TIME", "LTIME", "SINT"}


def fb_units():
    return {u.name: u for u in st.load() if u.kind == "FUNCTION_BLOCK"}


def enc(ty, v):
    if ty == "BOOL":
        return bytes([1 if v else 0])
    return (int(v) & ((1 << 8 * INT[ty]) - 1)).to_bytes(INT[ty], "little")


def dec(ty, b):
    if ty == "BOOL":
        return bool(b[0]) if b[0] in (0, 1) else f"byte {b[0]}"
    return big(int.from_bytes(b[:INT[ty]], "little", signed=ty in SIGNED))


def rng_of(ty):
    n = INT[ty] * 8
    return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if ty in SIGNED else (0, (1 << n) - 1)


class World:
    """An arena of instances and the calls made on them, in order."""

    def __init__(self, units, gap=0, stamped=False):
        self.units, self.gap, self.stamped = units, gap, stamped
        self.lines, self.events, self.inst, self.size = [], [], [], 0
        self.now = 0
        self.n = 0

    def place(self, fb):
        lay, size, al = st.layout(self.units[fb])
        off = -(-self.size // al) * al
        self.size = off + size + self.gap
        self.inst.append((fb, off, lay, size))
        return len(self.inst) - 1

    def new(self, k):
        fb, off, lay, size = self.inst[k]
        self.lines.append(f"w {off} {'00' * size}")
        self.events.append({"ev": "new", "key": k + 1, "fb": fb})

    def load(self, k, outputs):
        fb, off, lay, size = self.inst[k]
        full = {}
        for n, (o, ty, sec) in lay.items():
            if sec == "VAR_OUTPUT":
                v = outputs[n]
                self.lines.append(f"w {off + o} {enc(ty, v).hex()}")
                full[n] = v if ty == "BOOL" else big(v)
        self.events.append({"ev": "load", "key": k + 1, "fb": fb, "o": full})

    def copy(self, src, dst):
        """the memory of one instance over that of another of the same type"""
        (fb, a, _, size), (fb2, b, _, _) = self.inst[src], self.inst[dst]
        assert fb == fb2
        self.lines.append(f"m {a} {b} {size}")
        self.events.append({"ev": "copy", "key": dst + 1, "from": src + 1, "fb": fb})

    def clock(self, ns):
        self.now = ns
        self.lines.append(f"t {ns // 10**9} {ns % 10**9}")

    def call(self, k, sym=None, **ins):
        fb, off, lay, size = self.inst[k]
        i = {}
        for n, (o, ty, sec) in lay.items():
            if sec == "VAR_INPUT":
                v = ins[n]
                self.lines.append(f"w {off + o} {enc(ty, v).hex()}")
                i[n] = bool(v) if ty == "BOOL" else big(v)
        self.n += 1
        self.lines.append(f"k {self.n} {sym or fb} {off} {size}")
        self.events.append({"ev": "call", "key": k + 1, "fb": fb, "i": i, "now": big(self.now), "_n": str(self.n),
                            "_line": len(self.lines)})

    def virtual(self, mono, real, adv):
        self.lines.append(f"M {mono} {real} {adv}")

    def sleep(self, us):
        self.lines.append(f"z {us}")

    def run(self, so, prof, workdir, tag, base=0, env=None):
        head = [f"A {max(self.size, 8)}"]
        res = run_script(so, head + self.lines, workdir, f"{tag}.{prof}", timeout=300, resume=False, env=env)
        return self.records(res, prof, base)

    def repeat(self, so, prof, workdir, tag, rounds, base=0):
        """Everything again and again in one process; where an outcome differed from the first one, it is the recorded one."""
        res, first = {}, {}
        for i, t in run_tasks(so, [[f"A {max(self.size, 8)}", f"R {rounds}"] + self.lines], workdir, f"{tag}.{prof}", timeout=400)[0]:
            r = self.outputs(i, t)
            if i not in first:
                first[i], res[i] = r, t
            elif r != first[i]:
                res[i] = t
        return self.records(res, prof, base)

    def outputs(self, i, t):
        """what the program can see of an outcome"""
        if len(t) < 5:
            return tuple(t)
        if not hasattr(self, "of"):
            self.of = {e["_n"]: self.inst[e["key"] - 1][2] for e in self.events if e["ev"] == "call"}
        b = bytes.fromhex(t[4])
        return (t[0], t[1]) + tuple((n, dec(ty, b[o:])) if ty == "BOOL" else (n, b[o:o + INT[ty]]) for n, (o, ty, sec) in self.of[i].items() if sec in ("VAR_INPUT", "VAR_OUTPUT"))

    def records(self, res, prof, base=0):
        out = []
        for j, e in enumerate(self.events):
            r = dict(e)
            r["id"] = base + j + 1
            r["prof"] = prof
            if e["ev"] == "call":
                t = res.get(e["_n"], ["lost"])
                fb, off, lay, size = self.inst[e["key"] - 1]
                r["sym"] = fb
                r["out"] = t[0]
                r["iso"] = len(t) < 2 or t[1] == "1"
                r["o"], r["i2"] = {}, {}
                if len(t) >= 5:
                    b = bytes.fromhex(t[4])
                    for n, (o, ty, sec) in lay.items():
                        if sec == "VAR_OUTPUT":
                            r["o"][n] = dec(ty, b[o:])
                        elif sec == "VAR_INPUT":
                            r["i2"][n] = dec(ty, b[o:])
                    if self.stamped:
                        r["a"], r["b"] = big(t[2]), big(t[3])
            out.append(r)
        return out

    def context(self, rec):
        """the script lines of this instance from its creation to the rejected call"""
        key = rec["key"]
        evs = [e for e in self.events[:]]
        idx = next(i for i, e in enumerate(evs) if e.get("_n") == rec.get("_n") and e["ev"] == "call")
        hist = []
        for e in reversed(evs[:idx + 1]):      # back through the calls, and into the instance it was copied from
            if e["key"] != key:
                continue
            hist.append({k: v for k, v in e.items() if not k.startswith("_")})
            if e["ev"] == "new" or len(hist) > 40:
                break
            if e["ev"] == "copy":
                key = e["from"]
        return hist[::-1]


def behaviours(module, cfg_lines, workdir, tag, simulate=None, depth=None, seed=1, timeout=300, workers="4"):
    """Behaviours of a specification as TLC generates them (exhaustively, or `simulate` random ones)."""
    cfg = f"{workdir}/{tag}.cfg"
    with open(cfg, "w") as f:
        f.write("\n".join(cfg_lines) + "\n")
    extra = []
    if simulate:
        extra = ["-simulate", f"num={simulate}", "-depth", str(depth), "-seed", str(seed)]
    r = tlc(module, cfg, extra=extra, workdir=workdir, tag=tag, workers="1" if simulate else workers, heap="3g",
            timeout=timeout)
    if not r.ok:
        raise ToolError(f"generating behaviours of {module} failed: {r.text[-2000:]}")
    out = []
    flat = re.sub(r"\n\s+", " ", r.text)
    for m in re.finditer(r'<<\s*"H",\s*"((?:[^"\\]|\\.)*)"\s*>>', flat):
        out.append(json.loads(json.loads('"' + m.group(1) + '"')))
    if simulate:
        # the simulator shows the invariant every successor of the last state: keep one per walk
        one = {}
        for b in out:
            h = b["h"] if isinstance(b, dict) else b
            one.setdefault(json.dumps([b.get("cv") if isinstance(b, dict) else 0, h[:-1]], sort_keys=True), []).append(b)
        pick = random.Random(seed)
        out = [pick.choice(v) for _, v in sorted(one.items())]
    return out, r
