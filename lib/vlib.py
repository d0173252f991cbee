"""Shared machinery of the checks: build /repo, run call scripts, let TLC judge the records, report.

Nothing here knows what a correct answer is: the expected behaviour lives in spec/*.tla only.
"""
import concurrent.futures as cf
import copy
import fcntl
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

import st

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = f"{ROOT}/spec"
BUILD = f"{ROOT}/build"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
KINDS = {
    "dbg": ["--features", "mock"],
    "rel": ["--release", "--features", "mock"],
    "real": [],
    "realrel": ["--release"],
}
NPROC = max(2, min(8, os.cpu_count() or 4))


class ToolError(Exception):
    pass


def cargo_env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="1.80.1", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             RUSTC_WRAPPER="", CARGO_INCREMENTAL="0", RUSTFLAGS="-Awarnings")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.pop("CARGO_TARGET_DIR", None)
    return e


def build(kind):
    """Builds the executor against /repo's current tree; returns the library's path."""
    target = f"{BUILD}/{kind}"
    os.makedirs(target, exist_ok=True)
    with open(f"{BUILD}/{kind}.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        cmd = ["cargo", "build", "--offline", "--locked", "--quiet", "--manifest-path",
               f"{ROOT}/harness/vexec/Cargo.toml", "--target-dir", target] + KINDS[kind]
        p = subprocess.run(cmd, env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise ToolError(f"building /repo failed:\n{p.stdout[-4000:]}")
    sub = "release" if kind in ("rel", "realrel") else "debug"
    return f"{target}/{sub}/libvexec.so"


def exported(so):
    """names of the functions a shared object exports"""
    p = subprocess.run(["nm", "-D", "--defined-only", so], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise ToolError(f"nm failed: {p.stderr[-500:]}")
    return {l.split()[-1] for l in p.stdout.splitlines() if len(l.split()) == 3 and l.split()[1] in "TWti"}


def lowered():
    """machine types of every exported function, from the code the compiler generates: {name: {"args": …, "res": …}}"""
    target = f"{BUILD}/ir"
    os.makedirs(target, exist_ok=True)
    with open(f"{BUILD}/ir.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        for f in glob.glob(f"{target}/debug/deps/iec61131std*.ll"):
            os.remove(f)
        # a fresh file even when nothing changed since the last build
        for f in glob.glob(f"{target}/debug/.fingerprint/iec61131std*"):
            shutil.rmtree(f, ignore_errors=True)
        p = subprocess.run(["cargo", "rustc", "--offline", "--locked", "--quiet", "--manifest-path", f"{ROOT}/harness/vexec/Cargo.toml",
                            "-p", "iec61131std", "--target-dir", target, "--", "--emit=llvm-ir", "-Ccodegen-units=1"],
                           env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        fs = glob.glob(f"{target}/debug/deps/iec61131std*.ll")
        if p.returncode != 0 or len(fs) != 1:
            raise ToolError(f"compiling /repo to LLVM IR failed:\n{p.stdout[-3000:]}")
        text = open(fs[0]).read()

    def one(x):
        sg = "s" if "signext" in x else "u" if "zeroext" in x else ""
        m = re.search(r"\b(void|i\d+|float|double|ptr)\b|[{\[<%]", re.sub(r"\((?:[^()]|\([^()]*\))*\)", "", x))
        return {"m": m.group() if m else x.strip(), "sg": sg}
    out = {}
    for m in re.finditer(r"^define ([^@\n]*)@([A-Za-z]\w*)\(((?:[^()\n]|\((?:[^()\n]|\([^()\n]*\))*\))*)\)", text, re.M):
        args = re.sub(r"\((?:[^()]|\([^()]*\))*\)", "", m.group(3))
        args = re.sub(r"\{[^}]*\}|\[[^\]]*\]|<[^>]*>", "{}", args)
        out[m.group(2)] = {"args": [one(a) for a in args.split(",")] if args.strip() else [], "res": one(m.group(1))}
    for m in re.finditer(r"^@([A-Za-z]\w*) = [^\n]*\balias [^\n]*@([A-Za-z]\w*)\s*$", text, re.M):
        if m.group(2) in out:
            out[m.group(1)] = out[m.group(2)]
    return out


def data(so, name, size):
    """the bytes of an exported datum"""
    code = "import ctypes,sys; l=ctypes.CDLL(sys.argv[1]); print(bytes((ctypes.c_uint8*int(sys.argv[3])).in_dll(l,sys.argv[2])).hex())"
    p = subprocess.run([sys.executable, "-c", code, so, name, str(size)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return list(bytes.fromhex(p.stdout.strip())) if p.returncode == 0 else None


def build_vclock():
    so = f"{BUILD}/vclock.so"
    with open(f"{BUILD}/vclock.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        src = f"{ROOT}/harness/vclock/vclock.c"
        if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
            p = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, src], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                raise ToolError(f"building vclock failed:\n{p.stdout[-2000:]}")
    return so


def build_all(kinds):
    with cf.ThreadPoolExecutor() as ex:
        return dict(zip(kinds, ex.map(build, kinds)))


# ---------------------------------------------------------------- values

def big(i):
    """An integer as BigInt.tla represents it."""
    i = int(i)
    m, a = [], abs(i)
    while a:
        m.append(a % 10000)
        a //= 10000
    return {"s": (i > 0) - (i < 0), "m": m}


def unbig(b):
    v = 0
    for x in reversed(b["m"]):
        v = v * 10000 + x
    return b["s"] * v


def le_bytes(hexword):
    """bytes, least significant first, of a big-endian hex word"""
    return list(reversed(bytes.fromhex(hexword)))


# ---------------------------------------------------------------- running scripts

def run_script(so, lines, workdir, tag, timeout=120, resume=True, env=None):
    """Runs call lines; returns {id: outcome tokens}. A call that kills or hangs the process gets
    ["crash"] / ["hang"]; with resume the rest of the script still runs (stateless scripts only)."""
    res = {}
    pend = lines
    rounds = 0
    while True:
        rounds += 1
        sp, op = f"{workdir}/{tag}.script", f"{workdir}/{tag}.out"
        with open(sp, "w") as f:
            f.write("\n".join(pend) + "\n")
        if os.path.exists(op):
            os.remove(op)
        hung = False
        try:
            p = subprocess.run([sys.executable, f"{ROOT}/lib/loader.py", so, sp, op], timeout=timeout,
                               env={**os.environ, **(env or {})},
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            hung, rc = True, -1
        got = []
        if os.path.exists(op):
            with open(op) as f:
                got = [x for x in f.read().split("\n")]
            got = got[:-1]  # only complete lines
        for g in got:
            t = g.split(" ")
            res[t[0]] = t[1:]
        if rc == 0:
            return res
        if rc == 3:
            raise ToolError(f"executor rejected the script {sp}: {p.stdout[-500:]}")
        if rc > 0 and not got and rounds == 1:
            raise ToolError(f"executor failed ({rc}): {p.stdout[-2000:]}")
        # first call line without a record is the one that died
        idx = next((i for i, l in enumerate(pend) if l[:2] in ("c ", "k ") and l.split(" ")[1] not in res), None)
        if idx is None:
            raise ToolError(f"executor ended with {rc} after its last call")
        res[pend[idx].split(" ")[1]] = ["hang" if hung else "crash"]
        if not resume or rounds > 20:
            return res
        pend = pend[idx + 1:]
        if not pend:
            return res


def run_tasks(so, scripts, workdir, tag, timeout=200):
    """Runs several scripts at the same time in one process, a thread each; returns their results. When the process
    dies or hangs, the first call of each thread that left no record has the outcome ["crash"] or ["hang"]."""
    argv, outs = [], []
    for k, lines in enumerate(scripts):
        sp, op = f"{workdir}/{tag}.{k}.script", f"{workdir}/{tag}.{k}.out"
        with open(sp, "w") as f:
            f.write("\n".join(lines) + "\n")
        if os.path.exists(op):
            os.remove(op)
        argv += [sp, op]
        outs.append(op)
    text, hung = "", False
    try:
        p = subprocess.run([sys.executable, f"{ROOT}/lib/loader.py", so] + argv, timeout=timeout, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        rc, text = p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        rc, hung = -1, True
    if rc > 0:
        raise ToolError(f"executor failed ({rc}): {text[-1000:]}")
    res = []
    for lines, op in zip(scripts, outs):
        got = open(op).read().split("\n")[:-1] if os.path.exists(op) else []
        r = [(g.split(" ")[0], g.split(" ")[1:]) for g in got]
        if rc:
            # (in a later round every call has a record: the first one stands for the process then)
            got = {i for i, _ in r}
            calls = [l.split(" ")[1] for l in lines if l[:2] in ("c ", "k ")]
            r.append((next((i for i in calls if i not in got), calls[0]), ["hang" if hung else "crash"]))
        res.append(r)
    return res


def decode_result(ret, tok):
    if tok == "-" or ret == "v":
        return None
    if ret in ("f", "d"):
        return le_bytes(tok)
    if ret == "b":
        return int(tok)
    return big(int(tok))


class Calls:
    """A list of calls of exported functions, each with the record the specification will judge."""

    def __init__(self):
        self.items = []

    def add(self, sym, ret, args, **rec):
        self.items.append((sym, ret, args, rec))

    def __len__(self):
        return len(self.items)


def execute(so, calls, workdir, tag, prof, shards=4, timeout=120):
    """Runs the calls in a few processes; returns records (dicts) in order."""
    items = calls.items
    n = max(1, min(shards, len(items) // 200 + 1))

    def one(k):
        lines = []
        for i in range(k, len(items), n):
            sym, ret, args, _ = items[i]
            lines.append(" ".join([f"c {i} {'v' if ret is None else ret} {sym}"] + args))
        return run_script(so, lines, workdir, f"{tag}.{prof}.{k}", timeout)

    res = {}
    with cf.ThreadPoolExecutor(n) as ex:
        for r in ex.map(one, range(n)):
            res.update(r)
    return [record(it, i, res.get(str(i), ["lost"]), prof) for i, it in enumerate(items)]


def record(item, i, t, prof):
    """the record of one call from what the executor reported"""
    sym, ret, args, rec = item
    r = dict(rec)
    r["sym"] = sym
    r["prof"] = prof
    r["out"] = t[0]
    r["g"] = int(t[2]) if len(t) > 2 else 1
    r["s"] = int(t[3]) if len(t) > 3 else 1
    r["bufs"] = [list(bytes.fromhex(x)) for x in t[4:]]
    v = decode_result(ret, t[1]) if t[0] == "ok" else None
    if v is not None:
        r["r"] = v
    r["_script"] = " ".join([f"c {i} {'v' if ret is None else ret} {sym}"] + args)
    return r


# ---------------------------------------------------------------- TLC

class TlcResult:
    def __init__(self, rc, text):
        self.rc, self.text = rc, text
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        m = re.search(r"The depth of the complete state graph search is (\d+)", text)
        self.depth = int(m.group(1)) if m else 0

    @property
    def ok(self):
        return self.rc == 0

    @property
    def violated(self):
        return self.rc in (12, 13) and bool(
            re.search(r"(Invariant|Action property|Temporal properties|Temporal property) ?.*violated|"
                      r"properties were violated|evaluated to FALSE", self.text))


def tlc(module, cfg=None, env=None, workers="1", heap="1500m", timeout=850, extra=(), workdir=None, tag="tlc"):
    meta = f"{workdir}/{tag}.states"
    shutil.rmtree(meta, ignore_errors=True)
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["timeout", str(timeout), "java", "-XX:+UseSerialGC" if str(workers) == "1" else "-XX:+UseParallelGC",
           f"-Xmx{heap}", "-Xss64m", "-XX:TieredStopAtLevel=4", f"-Djava.io.tmpdir={workdir}", "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE",
           "-metadir", meta, "-workers", str(workers), "-config", cfg or f"{module}.cfg"] + list(extra) + [f"{module}.tla"]
    p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    shutil.rmtree(meta, ignore_errors=True)
    with open(f"{workdir}/{tag}.log", "w") as f:
        f.write(p.stdout)
    text = re.sub(r"^(Parsing file|Semantic processing|Linting of|Running breadth|Warning: Please run|\(Use the -nowarning|TLC2 Version).*\n", "", p.stdout, flags=re.M)
    return TlcResult(p.returncode, text)


def model_check(module, cfg=None, **kw):
    """Exhaustive check of a specification; a failure is a fault of the specification, not of /repo."""
    r = tlc(module, cfg, **kw)
    if not r.ok:
        raise ToolError(f"specification {module} ({cfg}) failed its own properties: rc={r.rc}\n{r.text[-1800:]}")
    return r


def clean(rec):
    return {k: v for k, v in rec.items() if not k.startswith("_")}


class Verdicts:
    def __init__(self):
        self.rejected, self.known, self.cov = {}, {}, {}
        self.states = self.transitions = self.records = 0

    def merge(self, o):
        self.rejected.update(o.rejected)
        for k, v in o.known.items():
            self.known.setdefault(k, []).extend(v)
        for k, v in o.cov.items():
            self.cov[k] = self.cov.get(k, 0) + v
        self.states += o.states
        self.transitions += o.transitions
        self.records += o.records


def judge(module, records, workdir, tag, cfg=None, parts=None, heap="1800m", timeout=800):
    """Lets TLC validate the records against the trace specification `module`; chunks are validated in
    parallel (`parts`: chunks that must stay together because the specification carries state)."""
    v = Verdicts()
    if parts is None:
        n = max(1, min(NPROC, len(records) // 50 + 1))
        parts = [records[i::n] for i in range(n)] if records else []
    parts = [p for p in parts if p]

    def one(k):
        part, got = parts[k], Verdicts()
        rounds = 0
        while part:
            rounds += 1
            path = f"{workdir}/{tag}.{k}.ndjson"
            with open(path, "w") as f:
                for r in part:
                    f.write(json.dumps(clean(r), separators=(",", ":")) + "\n")
            t = tlc(module, cfg, env={"TRACE": path}, workdir=workdir, tag=f"{tag}.{k}", heap=heap, timeout=timeout)
            flat = re.sub(r"\s*\n\s+", " ", t.text)
            for m in re.finditer(r'<<\s*"REJECT",\s*(-?\d+),\s*"((?:[^"\\]|\\.)*)"', flat):
                got.rejected[int(m.group(1))] = m.group(2)
            for m in re.finditer(r'<<\s*"KNOWN",\s*(-?\d+),\s*"([^"]*)"', flat):
                got.known.setdefault(m.group(2), []).append(int(m.group(1)))
            for m in re.finditer(r'<<\s*"COV",\s*"((?:[^"\\]|\\.)*)"', flat):
                d = json.loads(json.loads('"' + m.group(1) + '"'))
                for c, x in (d.items() if isinstance(d, dict) else ()):
                    got.cov[c] = got.cov.get(c, 0) + x
            got.states += t.distinct
            got.transitions += max(0, t.generated - 1)
            if t.ok:
                break
            # a record the specification cannot even evaluate (a value no operation can produce) is rejected
            m = re.findall(r"^/\\ l = (\d+)", t.text, re.M)
            if not m or "Semantic" in t.text[-2500:] or "OutOfMemory" in t.text or rounds > 5:
                raise ToolError(f"TLC could not process {path} with {module}: rc={t.rc}\n{" ".join(re.findall("^Error: .*(?:\n.*){0,3}", t.text, re.M))[:800]}\n{t.text[-900:]}")
            at = int(m[-1])
            got.rejected[part[at]["id"]] = "the specification cannot explain this record: " + \
                " ".join(re.findall(r"^Error: (.*)", t.text, re.M)[:2])[:300]
            got.states += at
            got.transitions += at
            if "ev" in part[at]:
                break   # the rest of a stateful trace depends on this call
            part = part[at + 1:]
        got.records = len(parts[k])
        return got

    with cf.ThreadPoolExecutor(NPROC) as ex:
        for g in ex.map(one, range(len(parts))):
            v.merge(g)
    return v


def model(c, module, constants, invariants, tag="mc", workers="8", heap="4g", spec="Spec", extra=(), timeout=800):
    """Model-checks invariants of a specification within a check and counts its states."""
    cfg = f"{c.work}/{tag}.cfg"
    with open(cfg, "w") as f:
        f.write(f"SPECIFICATION {spec}\n")
        if constants:
            f.write("CONSTANTS\n" + "".join(f"  {k} = {v}\n" for k, v in constants.items()))
        f.write("INVARIANTS " + " ".join(invariants) + "\nCHECK_DEADLOCK FALSE\n")
    r = model_check(module, cfg, workdir=c.work, tag=tag, workers=workers, heap=heap, extra=extra, timeout=timeout)
    c.add(states=r.distinct, transitions=r.generated, model_states=r.distinct)
    return r


def prove(c, module, cinit, inv="Inv", timeout=300):
    """Inductive invariant by Apalache: it holds initially and every step keeps it (unbounded histories)."""
    def one(step):
        out = f"{c.work}/apa.{module}.{cinit}.{step[0]}"
        cmd = ["timeout", str(timeout), "apalache-mc", "check", f"--out-dir={out}", f"--cinit={cinit}", f"--init={step[0]}",
               f"--length={step[1]}", "--next=Next", f"--inv={inv}", f"{module}.tla"]
        p = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env={**os.environ, "TMPDIR": c.work, "JVM_ARGS": f"-Xmx2g -Djava.io.tmpdir={c.work}"})
        shutil.rmtree(out, ignore_errors=True)
        if p.returncode or "The outcome is: NoError" not in p.stdout:
            raise ToolError(f"Apalache: {inv} of {module} ({cinit}, from {step[0]}) is not proved:\n{p.stdout[-1500:]}")
    with cf.ThreadPoolExecutor(2) as ex:
        list(ex.map(one, [("Init", 0), ("IndInit", 1)]))
    c.add(proof_obligations=2)


def corrupt(rec, rng, coarse=False):
    """a record whose outcome differs from the observed one, or None"""
    r = copy.deepcopy(rec)
    kinds = []
    if r["out"] == "ok":
        kinds.append("refuse")
        if "r" in r:
            kinds += ["r"] * 3
        if r.get("bufs"):
            kinds += ["buf"] * 3
    else:
        return None
    k = rng.choice(kinds)
    if k == "refuse":
        r["out"] = "panic"
        r.pop("r", None)
    elif k == "r":
        x = r["r"]
        if isinstance(x, int):
            r["r"] = 1 - x if x in (0, 1) else x ^ 1
        elif isinstance(x, list):
            x[-1] ^= 0x20        # a high bit of the exponent
        else:
            v = unbig(x)
            r["r"] = big(v + rng.choice((-1, 1)) * (abs(v) // 1000 + 3 if coarse else 1))
    else:
        r["bufs"][0][0] ^= rng.choice((1, 2, 4))
    return r


def binding(c, n, missed):
    """Almost every corruption must be noticed; one that falls into a tolerance of the specification is no failure."""
    if len(missed) > max(1, n // 20):
        raise ToolError(f"{len(missed)} of {n} corrupted records were accepted: {missed[:3]}")
    c.add(corrupted_records_rejected=n - len(missed))


def self_test(c, module, cfg, records, strict=lambda r: True, n=120, coarse=False):
    """The binding must notice: records whose outcome was changed have to be rejected."""
    if c.violations:
        return
    rng = random.Random(11)
    pool = [r for r in records if r["out"] == "ok" and strict(r)]
    out = []
    for r in rng.sample(pool, min(n, len(pool))):
        x = corrupt(r, rng, coarse)
        if x:
            out.append(x)
    v = judge(module, out, c.work, "selftest", cfg=cfg, parts=[out])
    missed = [r for r in out if r["id"] not in v.rejected]
    binding(c, len(out), [clean(m) for m in missed])


def run_and_judge(c, module, calls, libs, cfg=None, shards=6, timeout=200, test=lambda r: True, coarse=False, post=None, run=None):
    """Executes the calls in every given build, has the specification judge them, tests the binding.
    post(records of one build) may attach results of other calls to a record."""
    recs, base = [], 0
    for prof, so in libs.items():
        got = (run or execute)(so, calls, c.work, "c", prof, shards=shards, timeout=timeout)
        for i, r in enumerate(got):
            r["id"] = base + i + 1
        base += len(got)
        recs += post(got, so) if post else got
    v = judge(module, recs, c.work, "t", cfg=cfg)
    c.take(recs, v)
    c.add(calls=len(recs))
    self_test(c, module, cfg, [r for r in recs if r["id"] not in v.rejected and
                               not any(r["id"] in x for x in v.known.values())], test, coarse=coarse)
    return recs, v


# ---------------------------------------------------------------- reporting

class Check:
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier=thorough" in sys.argv:
            self.tier = "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random(f"{pid}/{self.seed}")
        self.t0 = time.time()
        self.work = f"{ROOT}/work/{pid}.{os.getpid()}"
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.cov = {}
        self.assumptions = []
        self.violations = []   # (summary, payload)
        self.known_hits = {}
        self.known = load_known().get(pid, {})

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def add(self, **kw):
        for k, x in kw.items():
            self.cov[k] = self.cov.get(k, 0) + x

    def violation(self, summary, payload):
        self.violations.append((summary, payload))

    def take(self, records, v, prefix="", context=None):
        """Turns TLC's verdicts into violations, known findings and coverage."""
        by = {r["id"]: r for r in records}
        rejected = dict(v.rejected)
        self.add(states=v.states, transitions=v.transitions, traces_validated_against_impl=v.records)
        cl = self.cov.setdefault("classes", {})
        for k, x in v.cov.items():
            cl[k] = cl.get(k, 0) + x
        if records and len(self.cov.setdefault("samples", [])) < 3:
            self.cov["samples"].append(clean(records[self.rng.randrange(len(records))]))
        for name, ids in v.known.items():
            if name in self.known:
                self.known_hits.setdefault(name, []).extend(ids)
            else:
                for i in ids:
                    rejected[i] = name
        for i, why in sorted(rejected.items()):
            r = by[i]
            self.violation(f"{prefix}{r.get('sym', '')} {r.get('prof', '')}: {why}",
                           {"record": clean(r), "script": r.get("_script"), "why": why, "context": context(r) if context else None})

    def finish(self):
        os.makedirs(f"{ROOT}/evidence", exist_ok=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "wall_s": round(time.time() - self.t0, 2), "assumptions": self.assumptions,
              "violations": len(self.violations)}
        path = f"{ROOT}/evidence/{self.pid}.json"
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)
        for name, ids in sorted(self.known_hits.items()):
            print(f"KNOWN-FINDING: property={self.pid} {name}: {self.known[name]} ({len(ids)} observed calls)")
        rc = 0
        if self.violations:
            os.makedirs(f"{ROOT}/replays", exist_ok=True)
            rp = f"{ROOT}/replays/{self.pid}.json"
            with open(rp, "w") as f:
                json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed,
                           "how": "script lines are executor commands (see harness/vexec/src/lib.rs); rerun the check "
                                  "with the same VERIF_SEED and tier to reproduce",
                           "violations": [{"summary": s, **(p or {})} for s, p in self.violations[:50]]}, f, indent=1)
            for s, _ in self.violations[:5]:
                print(f"  {s}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            rc = 1
        else:
            print(f"OK property={self.pid} tier={self.tier} {json.dumps({k: v for k, v in self.cov.items() if isinstance(v, (int, float))})}"
                  f" wall={ev['wall_s']}s")
        if "VERIF_KEEP" not in os.environ:
            shutil.rmtree(self.work, ignore_errors=True)
        return rc


def load_known():
    """known_findings.txt: "finding: property=<id> name=<Name> <what>" lines; "fixed: ..." lines suppress nothing."""
    out = {}
    p = f"{ROOT}/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) name=(\S+) (.*)", l.strip())
            if m:
                out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return out


def main(pid, level, body):
    try:
        c = Check(pid, level)
    except Exception as e:  # noqa
        print(f"TOOL-ERROR: {e}")
        sys.exit(2)
    try:
        body(c)
        rc = c.finish()
    except (ToolError, subprocess.TimeoutExpired, st.StError) as e:
        print(f"TOOL-ERROR property={pid}: {e}")
        # what the specification has already rejected stands, whatever went wrong later
        rc = c.finish() if c.violations else 2
    sys.exit(rc)
