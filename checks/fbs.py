"""Function blocks: timers, counters, edge detectors, latches (T01-T04, C01-C03, E01, E02, A01, A02)."""
import concurrent.futures as cf
import copy
import random

import fb
import st
import vlib
from vlib import NPROC, ToolError, big, unbig

PROFILES = ("dbg", "rel")
I64 = (1 << 63) - 1


def judge_worlds(c, worlds, libs, module="TraceFB", profs=PROFILES, rounds=0):
    """Runs every world in every profile (again and again: rounds) and validates the recorded traces."""
    jobs = [(w, prof, j) for j, w in enumerate(worlds) for prof in profs]

    def run(j):
        w, prof, n = j
        if rounds:
            return w.repeat(libs[prof], prof, c.work, f"r{n}", rounds, base=j[2] * 2 * 10**6 + profs.index(prof) * 10**6)
        return w.run(libs[prof], prof, c.work, f"w{n}", base=j[2] * 2 * 10**6 + profs.index(prof) * 10**6)

    with cf.ThreadPoolExecutor(NPROC) as ex:
        parts = list(ex.map(run, jobs))
    v = vlib.judge(module, None, c.work, "t", cfg=f"{module}.cfg", parts=parts)
    of = {}
    for (w, prof, n), p in zip(jobs, parts):
        for r in p:
            of[r["id"]] = w
    recs = [r for p in parts for r in p]
    c.take([r for r in recs if r["ev"] == "call"], v, context=lambda r: of[r["id"]].context(r))
    c.add(behaviours=sum(1 for r in recs if r["ev"] == "new"), calls=sum(1 for r in recs if r["ev"] == "call"))
    return parts


def self_test(c, parts, module="TraceFB"):
    """The binding must notice: records with one observed output changed have to be rejected."""
    if c.violations:
        return
    rng = random.Random(7)
    out, want = [], set()
    for p in parts[:3]:
        p = copy.deepcopy(p[:4000])
        calls = [i for i, r in enumerate(p) if r["ev"] == "call"]
        pick = set(rng.sample(calls, min(60, len(calls))))
        dead = set()        # after a corrupted record its instance, and every copy of it, is no longer judged
        for i, r in enumerate(p):
            if r["ev"] == "new":
                dead.discard(r["key"])
            elif r["ev"] == "copy":
                (dead.add if r["from"] in dead else dead.discard)(r["key"])
            if i not in pick or r["key"] in dead:
                continue
            dead.add(r["key"])
            o = p[i]["o"]
            name = rng.choice(sorted(o))
            o[name] = (not o[name]) if isinstance(o[name], bool) else big(unbig(o[name]) + rng.choice((-1, 1)))
            want.add(p[i]["id"])
        out.append(p)
    v = vlib.judge(module, None, c.work, "selftest", cfg=f"{module}.cfg", parts=out)
    missed = want - set(v.rejected)
    vlib.binding(c, len(want), sorted(missed))


def spread(behaviours, n):
    return [behaviours[i::n] for i in range(n) if behaviours[i::n]]


# ------------------------------------------------------------------ timers

UNITS = (1, 3, 999, 10**6, 10**9, 3600 * 10**9)


def timer_behaviours(c, kind):
    """Abstract behaviours from the specification: all short ones and random long ones."""
    def cfg(calls, pts, steps):
        return ["SPECIFICATION Spec", "CONSTANTS", f'  Kind = "{kind}"', f"  MaxCalls = {calls}", f"  PTs = {pts}",
                f"  Steps = {steps}", "INVARIANT Emit", "CHECK_DEADLOCK FALSE"]
    short, _ = fb.behaviours("GenTimers", cfg(*(3, "{0,2}", "{0,1,2}") if not c.thorough else (4, "{0,1,3}", "{0,1,2}")),
                             c.work, "gen")
    long, _ = fb.behaviours("GenTimers", cfg(40, "{0,2,5}", "{0,1,2,3}"), c.work, "sim",
                            simulate=c.n(400, 6000), depth=41, seed=c.seed)
    short.sort(key=str)
    return short, long


def tour(c, cover, inputs):
    """Transition tour: after a shortest history to every state of the model every input, then (quick: one of, thorough:
    every one of) the inputs once more, and a random end that shows in which state the instance is."""
    rng, out = c.rng, []
    for h in cover:
        for a in inputs:
            for b in (inputs if c.thorough and len(inputs) <= 20 else rng.sample(inputs, 3 if c.thorough else 1)):
                out.append(list(h) + [a, b] + [rng.choice(inputs) for _ in range(2)])
    return out


def timer_tour(c, kind):
    pts, steps = (0, 1, 3), (0, 1, 2)
    cfg = ["SPECIFICATION TSpec", "CONSTANTS", f'  Kind = "{kind}"', "  PTs = {0,1,3}", "  Steps = {0,1,2}",
           "INVARIANT Emit", "VIEW TView", "CHECK_DEADLOCK FALSE"]
    cover, _ = fb.behaviours("GenTimerTour", cfg, c.work, "tour", workers="1")
    cover = sorted((x["h"] for x in cover), key=str)
    inputs = [{"in": i, "pt": p, "dt": d} for i in (False, True) for p in pts for d in steps]
    return cover, tour(c, cover, inputs)


def timer_worlds(c, kind, short, long, tours=()):
    rng, units = c.rng, fb.fb_units()
    names = [kind, kind + "_TIME", kind + "_LTIME"]
    worlds = []
    todo = []
    for i, h in enumerate(short):
        todo.append([(x["in"], x["pt"], x["t"], UNITS[(i // 3) % len(UNITS)]) for x in h])
    for h in long:
        u = rng.choice(UNITS)
        todo.append([(x["in"], x["pt"], x["t"], u) for x in h])
    for i, h in enumerate(tours):
        now, hh = 0, []
        for x in h:
            now += x["dt"]
            hh.append((x["in"], x["pt"], now, UNITS[i % len(UNITS)]))
        todo.append(hh)
    for j, part in enumerate(spread(todo, 8)):
        w = fb.World(units)
        ks = [w.place(n) for n in names]
        for i, h in enumerate(part):
            k = ks[i % 3]
            w.new(k)
            base = rng.choice((0, 0, 1, 999999999, 10**9, rng.randrange(10**15)))
            near = rng.random() < 0.3
            for (inp, pt, t, u) in h:
                e = rng.choice((-1, 0, 1)) if near and pt else 0
                w.clock(base + t * u)
                w.call(k, IN=inp, PT=max(0, pt * u + e))
        # wide random values: presets and jumps over the whole 64-bit range, presets changing under way
        for i in range(c.n(40, 600)):
            k = ks[i % 3]
            w.new(k)
            now = rng.choice((0, rng.randrange(1 << rng.randrange(1, 61))))
            pts = [rng.choice((0, 1, I64, rng.randrange(1 << rng.randrange(1, 63)))) for _ in range(2)]
            inp = False
            for _ in range(rng.randrange(3, 14)):
                w.clock(now)
                inp = inp if rng.random() < 0.5 else not inp
                pt = pts[0] if rng.random() < 0.8 else pts[1]
                w.call(k, IN=inp, PT=pt)
                step = rng.choice((0, 1, pt, pt - 1, pt + 1, pt // 2, rng.randrange(1 << rng.randrange(1, 60))))
                now = min(now + max(0, step), I64)
        worlds.append(w)
    return worlds


def timer(c, kind):
    libs = vlib.build_all(PROFILES)
    r = vlib.model_check("MCTimers", f"MCTimers_{kind}.cfg", workdir=c.work, tag="mc", workers="8")
    c.add(states=r.distinct, transitions=r.generated, model_states=r.distinct)
    r = vlib.model_check("MCTimersLive", f"MCTimersLive_{kind}.cfg", workdir=c.work, tag="live", workers="1")
    c.add(states=r.distinct, transitions=r.generated, model_states=r.distinct)
    vlib.prove(c, "ApaTimers", "Const" + kind)
    short, long = timer_behaviours(c, kind)
    cover, tours = timer_tour(c, kind)
    parts = judge_worlds(c, timer_worlds(c, kind, short, long, tours), libs)
    self_test(c, parts)
    c.cov["bounds"] = (f"specification: all histories of 4 calls (TLC), histories of every length by an inductive invariant (Apalache), "
                       f"liveness on the complete finite model of {len(cover)} states (TLC); replay: every input in every one of those states and on ({len(tours)} histories), "
                       f"{len(short)} exhaustive short behaviours, {len(long)} random "
                       "behaviours of 40 calls, random 64-bit values; debug and release builds")
    c.assumptions = ["the mock clock stands for the clock (T04 covers the production clock)",
                     "presets are not negative and clock readings do not decrease"]


def T01(c):
    timer(c, "TON")


def T02(c):
    timer(c, "TOF")


def T03(c):
    timer(c, "TP")


# ------------------------------------------------------------------ counters

CT = ["", "_INT", "_DINT", "_UDINT", "_LINT", "_ULINT"]


def counter(c, kind):
    libs = vlib.build_all(PROFILES)
    for t in "su":
        r = vlib.model_check("MCCounters", f"MCCounters_{kind}{t}.cfg", workdir=c.work, tag="mc" + t, workers="8")
        c.add(states=r.distinct, transitions=r.generated, model_states=r.distinct)
    vlib.prove(c, "ApaCounters", "Const" + kind)

    def cfg(calls, lo, hi):
        return ["SPECIFICATION GSpec", "CONSTANTS", f'  Kind = "{kind}"', f"  MaxCalls = {calls}", f"  Below = {lo}",
                f"  Hi = {hi}", "INVARIANT Emit", "CHECK_DEADLOCK FALSE"]
    n = c.n(2, 2 if kind == "CTUD" else 3)
    short, _ = fb.behaviours("GenCounters", cfg(n, 1, 1), c.work, "gen")
    long, _ = fb.behaviours("GenCounters", cfg(30, 3, 3), c.work, "sim", simulate=c.n(500, 6000), depth=31, seed=c.seed)
    short.sort(key=str)
    cover, _ = fb.behaviours("GenCounterTour", [x.replace("INVARIANT Emit", "INVARIANT Cover") for x in cfg(20, 2, 2)] + ["VIEW TView"],
                             c.work, "tour", workers="1")
    cover.sort(key=str)
    B = (False, True)
    inputs = [{"u": u, "d": d, "r": r_, "l": l, "pv": v} for u in (B if kind != "CTD" else B[:1]) for d in (B if kind != "CTU" else B[:1])
              for r_ in (B if kind != "CTD" else B[:1]) for l in (B if kind != "CTU" else B[:1]) for v in range(-2, 3)]
    tours = [{"cv": x["cv"], "h": h} for x in cover for h in tour(c, [x["h"]], inputs)]
    rng, units = c.rng, fb.fb_units()
    names = [kind + x for x in CT]
    ins = {"CTU": ("CU", "R"), "CTD": ("CD", "LD"), "CTUD": ("CU", "CD", "R", "LD")}[kind]
    key = {"CU": "u", "CD": "d", "R": "r", "LD": "l"}
    worlds = []
    for part in spread([("s", b) for b in short] + [("l", b) for b in long] + [("t", b) for b in tours], 8):
        w = fb.World(units)
        ks = [w.place(nm) for nm in names]

        def outs(cv):
            return {"QU": rng.random() < 0.5, "QD": rng.random() < 0.5, "CV": cv} if kind == "CTUD" else \
                {"Q": rng.random() < 0.5, "CV": cv}

        def value(ty, v, where, span):
            lo, hi = fb.rng_of(ty)
            x = {"lo": lo + span + v, "hi": hi - span + v, "zero": v}[where]
            return min(hi, max(lo, x))

        for i, (sort, b) in enumerate(part):
            few = [ks[i % len(ks)], ks[(i + 3) % len(ks)]] if sort != "t" else [ks[i // 7 % len(ks)]]
            for k in (ks if sort == "s" and (c.thorough or kind != "CTUD") else few):
                ty = units[names[ks.index(k)]].vars[[v["name"] for v in units[names[0]].vars].index("CV")]["type"]
                where, span = rng.choice(("lo", "hi", "zero")), {"s": 1, "l": 3, "t": 2}[sort]
                where2 = where if rng.random() < 0.8 else rng.choice(("lo", "hi", "zero"))
                w.new(k)
                if rng.random() < 0.9:
                    w.load(k, outs(value(ty, b["cv"], where, span)))
                for x in b["h"]:
                    w.call(k, PV=value(ty, x["pv"], where2, span), **{n_: x[key[n_]] for n_ in ins})
        # long counting runs and random presets, starting from zeroed memory
        for i in range(c.n(12, 120)):
            k = ks[i % len(ks)]
            ty = units[names[i % len(ks)]].vars[[v["name"] for v in units[names[0]].vars].index("CV")]["type"]
            lo, hi = fb.rng_of(ty)
            w.new(k)
            pv = rng.choice((0, 1, 5, hi, lo, rng.randrange(lo, hi + 1)))
            p = rng.random()
            for _ in range(c.n(60, 200)):
                if rng.random() < 0.05:
                    pv = rng.choice((pv, rng.randrange(lo, hi + 1), 3))
                a = {n_: rng.random() < (0.5 if n_ in ("CU", "CD") else 0.06 * p) for n_ in ins}
                w.call(k, PV=pv, **a)
        worlds.append(w)
    parts = judge_worlds(c, worlds, libs)
    self_test(c, parts)
    c.cov["bounds"] = (f"specification: all histories of 3-4 calls over two tiny integer types from every count (TLC), histories of every "
                       f"length and every count range by an inductive invariant (Apalache); replay: every input in every one of the {len(cover)} states of "
                       f"a tiny counter and on ({len(tours)} histories), {len(short)} exhaustive behaviours of {n} calls on all six types near both ends and around zero, {len(long)} random behaviours "
                       "of 30 calls, random runs; debug and release builds")
    c.assumptions = ["an instance may be restored with any count (retained memory), reached otherwise only by very long runs"]


def C01(c):
    counter(c, "CTU")


def C02(c):
    counter(c, "CTD")


def C03(c):
    counter(c, "CTUD")


# ------------------------------------------------------------------ edges and latches

def basics(c, blocks):
    libs = vlib.build_all(PROFILES)
    r = vlib.model_check("MCBasics", "MCBasics.cfg", workdir=c.work, tag="mc", workers="4")
    c.add(states=r.distinct, transitions=r.generated, model_states=r.distinct)
    n = c.n(5, 7)
    hs, _ = fb.behaviours("GenBasics", ["SPECIFICATION Spec", "CONSTANT", f"  MaxCalls = {n}", "INVARIANT Emit",
                                        "CHECK_DEADLOCK FALSE"], c.work, "gen")
    hs.sort(key=str)
    units, rng = fb.fb_units(), c.rng
    worlds = []
    for part in spread(hs, 4):
        w = fb.World(units)
        ks = {b: w.place(b) for b in blocks}
        for b, k in ks.items():
            ins = [v["name"] for v in units[b].vars if v["section"] == "VAR_INPUT"]
            done = set()
            for h in part:
                seqs = [tuple(x[:len(ins)]) for x in h["h"]]
                kk = (tuple(seqs), h["a"] if b == "SR" else h["b"])
                if kk in done:
                    continue
                done.add(kk)
                w.new(k)
                if b in ("SR", "RS"):
                    w.load(k, {"Q1": kk[1]})
                for x in seqs:
                    w.call(k, **dict(zip(ins, x)))
            for _ in range(c.n(10, 200)):
                w.new(k)
                for _ in range(80):
                    w.call(k, **{i: rng.random() < 0.5 for i in ins})
        worlds.append(w)
    parts = judge_worlds(c, worlds, libs)
    self_test(c, parts)
    c.cov["bounds"] = f"model: all histories of 6 calls; replay: all input histories of {n} calls, random histories of 80 calls"
    c.assumptions = ["BOOL inputs are the bytes 0 or 1, as compiled structured text stores them"]


def E01(c):
    basics(c, ["R_TRIG", "F_TRIG"])


def E02(c):
    basics(c, ["SR", "RS"])


# ------------------------------------------------------------------ isolation

def interleaved(c, units, calls, names=None, first=0):
    """Adjacent instances of all types (or those named), called interleaved at random."""
    rng = c.rng
    w = fb.World(units)
    w.n = first
    if names is None:
        names = sorted(units) + [rng.choice(sorted(units)) for _ in range(len(units))]
        rng.shuffle(names)
    ks = [(n, w.place(n)) for n in names]
    for n, k in ks:
        w.new(k)
    state = {}
    w.clock(rng.randrange(10**12))
    for _ in range(calls):
        n, k = rng.choice(ks)
        if rng.random() < 0.01:
            w.new(k)
            state.pop(k, None)
            continue
        ins = {}
        for v in units[n].vars:
            if v["section"] == "VAR_INPUT":
                if v["type"] == "BOOL":
                    last = state.get((k, v["name"]), False)
                    b = (not last) if rng.random() < 0.5 else last
                    if v["name"] in ("R", "LD"):
                        b = rng.random() < 0.1
                    state[(k, v["name"])] = b
                    ins[v["name"]] = b
                elif v["name"] == "PT":
                    ins["PT"] = rng.choice((0, 5, 50, 500))
                else:
                    lo, hi = fb.rng_of(v["type"])
                    ins[v["name"]] = rng.choice((0, 1, 2, lo, hi, rng.randrange(lo, hi + 1)))
        if rng.random() < 0.7:
            w.clock(w.now + rng.choice((0, 1, 5, 20, 60, 700)))
        w.call(k, **ins)
    return w


def A01(c):
    """Every instance is judged as if alone."""
    libs = vlib.build_all(PROFILES)
    units = fb.fb_units()
    worlds = [interleaved(c, units, c.n(700, 3000)) for _ in range(c.n(8, 48))]
    parts = judge_worlds(c, worlds, libs)
    self_test(c, parts)
    c.cov["bounds"] = f"{len(worlds)} arenas of {2 * len(units)} adjacent instances, random interleavings, both builds"
    c.assumptions = ["instances are laid out as the structured-text declarations say, with natural alignment"]


def random_inputs(rng, unit, state):
    ins = {}
    for v in unit.vars:
        if v["section"] != "VAR_INPUT":
            continue
        if v["type"] == "BOOL":
            last = state.get(v["name"], False)
            ins[v["name"]] = state[v["name"]] = rng.random() < 0.1 if v["name"] in ("R", "LD") else rng.random() < 0.5 or not last and rng.random() < 0.5
        elif v["name"] == "PT":
            ins["PT"] = rng.choice((0, 5, 50, 500))
        else:
            lo, hi = fb.rng_of(v["type"])
            ins[v["name"]] = rng.choice((0, 1, 2, lo, hi, rng.randrange(lo, hi + 1)))
    return ins


def A07(c):
    """Instances that are copied over each other, kept aside and restored, created anew."""
    libs = vlib.build_all(PROFILES + ("real", "realrel"))
    units, rng = fb.fb_units(), c.rng
    bases = ("TON", "TOF", "TP", "CTU", "CTD", "CTUD", "R_TRIG", "F_TRIG", "SR", "RS")
    consts = lambda b, k, e: {"FB": f'"{b}"', "Instances": "{1, 2}", "MaxCalls": k, "Elsewhere": e}
    for b in bases if c.thorough else ("TON", "TOF", "TP", "CTUD", "R_TRIG", "SR"):
        vlib.model(c, "MCInstances", consts(b, 4 if c.thorough and b not in ("CTUD",) else 3, "FALSE"), ["OwnHistory"], tag="mc" + b)
    cfg = f"{c.work}/elsewhere.cfg"
    with open(cfg, "w") as f:
        f.write("SPECIFICATION Spec\nCONSTANTS\n" + "".join(f"  {k} = {v}\n" for k, v in consts("TON", 3, "TRUE").items()) + "INVARIANT OwnHistory\nCHECK_DEADLOCK FALSE\n")
    if not vlib.tlc("MCInstances", cfg, workdir=c.work, tag="elsewhere").violated:
        raise ToolError("the specification does not notice state kept outside the instances")

    def gen(b):
        out, _ = fb.behaviours("GenInstances", ["SPECIFICATION Spec", "CONSTANTS"] + [f"  {k} = {v}" for k, v in {**consts(b, 30, "FALSE"), "Instances": "{1, 2, 3}"}.items()] +
                               ["INVARIANT Emit", "CHECK_DEADLOCK FALSE"], c.work, "gen" + b, simulate=c.n(30, 600), depth=31, seed=c.seed)
        return out
    with cf.ThreadPoolExecutor(4) as ex:
        gens = dict(zip(bases, ex.map(gen, bases)))
    worlds = []
    for name in sorted(units):
        b = next((x for x in sorted(bases, key=len, reverse=True) if name == x or name.startswith(x + "_")), None)
        if b is None:
            continue
        w = fb.World(units)
        ks = [w.place(name) for _ in range(3)]
        for h in gens[b]:
            u = rng.choice(UNITS)
            now = rng.choice((0, 1, 999999999, rng.randrange(10**15)))
            for k in ks:
                w.new(k)
            for x in h:
                k = ks[x["key"] - 1]
                if x["ev"] == "new":
                    w.new(k)
                elif x["ev"] == "copy":
                    w.copy(ks[x["from"] - 1], k)
                else:
                    now += x["dt"] * u
                    w.clock(now)
                    w.call(k, **{n: v if isinstance(v, bool) else (unbig(v) * u if n == "PT" else unbig(v)) for n, v in x["i"].items()})
        worlds.append(w)
    # all types in one arena, with spare instances that only keep states
    for _ in range(c.n(6, 40)):
        w = fb.World(units)
        names = sorted(units)
        rng.shuffle(names)
        groups = [(n, [w.place(n) for _ in range(3)]) for n in names]
        for n, ks in groups:
            for k in ks:
                w.new(k)
        state = {}
        w.clock(rng.randrange(10**12))
        for _ in range(c.n(900, 4000)):
            n, ks = rng.choice(groups)
            k = rng.choice(ks[:2])
            p = rng.random()
            if p < 0.02:
                w.new(k)
            elif p < 0.2:
                a, d = rng.sample(ks, 2)
                w.copy(a, d)
            else:
                if rng.random() < 0.7:
                    w.clock(w.now + rng.choice((0, 1, 5, 20, 60, 700)))
                w.call(k, **random_inputs(rng, units[n], state.setdefault(k, {})))
        worlds.append(w)
    parts = judge_worlds(c, worlds, libs)
    self_test(c, parts)
    # arenas that begin anew again and again in one process
    judge_worlds(c, worlds[-2:], libs, profs=("rel",), rounds=c.n(2500, 20000))
    # the timers on the production clock
    worlds = []
    for _ in range(c.n(2, 8)):
        w = fb.World(units, stamped=True)
        groups = [[w.place(k + x) for _ in range(3)] for k in ("TON", "TOF", "TP") for x in ("", "_TIME", "_LTIME")]
        for ks in groups:
            for k in ks:
                w.new(k)
        state = {}
        for _ in range(c.n(1200, 6000)):
            ks = rng.choice(groups)
            k = rng.choice(ks[:2])
            p = rng.random()
            if p < 0.02:
                w.new(k)
            elif p < 0.2:
                w.copy(*rng.sample(ks, 2))
            else:
                s = state.setdefault(k, [False, 10**5])
                s[0] ^= rng.random() < 0.3
                if rng.random() < 0.05:
                    s[1] = rng.choice((0, 1, 1000, 10**5, 10**6, 5 * 10**6, 10**9, I64))
                w.call(k, IN=s[0], PT=s[1])
            if rng.random() < 0.4:
                w.sleep(rng.choice((1, 10, 100, 500, 2000)))
        worlds.append(w)
    judge_worlds(c, worlds, libs, module="TraceClock", profs=("real", "realrel"))
    c.cov["bounds"] = ("model: all histories of 3 (thorough 4) calls, copies and creations of 2 instances; replay: the specification's random behaviours of 30 steps over "
                       f"3 instances of every type, and {c.n(6, 40)} arenas with all types, calls, copies, states kept aside and restored; debug and optimised builds; the timers also on the production clock; "
                       f"two arenas {c.n(2500, 20000)} times from the beginning in one process")
    c.assumptions = ["instances are laid out as the structured-text declarations say, with natural alignment"]


# ------------------------------------------------------------------ the production clock

def T04(c):
    """Timers without the mock: against the kernel's clock, and against a preloaded clock whose monotonic part
    runs through hours while the wall clock is stepped back and forth."""
    libs = vlib.build_all(("real", "realrel"))
    vclock = vlib.build_vclock()
    rng, units = c.rng, fb.fb_units()
    names = [k + x for k in ("TON", "TOF", "TP") for x in ("", "_TIME", "_LTIME")]
    r = vlib.model_check("MCTimers", "MCTimers_TP.cfg", workdir=c.work, tag="mc", workers="8")
    c.add(states=r.distinct, transitions=r.generated, model_states=r.distinct)
    worlds = []
    # the specification's behaviours on the stepped clock
    for kind in ("TON", "TOF", "TP"):
        long, _ = fb.behaviours("GenTimers", ["SPECIFICATION Spec", "CONSTANTS", f'  Kind = "{kind}"', "  MaxCalls = 40",
                                              "  PTs = {0,2,5}", "  Steps = {0,1,2,3}", "INVARIANT Emit", "CHECK_DEADLOCK FALSE"],
                                c.work, "sim" + kind, simulate=c.n(120, 2000), depth=41, seed=c.seed)
        for adv in (0, 1, 37, 1000):
            w = fb.World(units, stamped=True)
            ks = [w.place(n) for n in names if n.startswith(kind)]
            for i, h in enumerate(long):
                if i % 4 != (0, 1, 37, 1000).index(adv):
                    continue
                k = ks[i // 4 % 3]
                w.new(k)
                u = rng.choice(UNITS)
                base = rng.choice((0, 1, 999999999, rng.randrange(10**15), rng.randrange(10**17)))
                off = 0
                for x in h["h"] if isinstance(h, dict) else h:
                    wall = rng.choice((0, 10**18, rng.randrange(2 * 10**18), 1600000000 * 10**9 - x["t"] * u))
                    w.virtual(base + off + x["t"] * u, wall, adv)
                    w.call(k, IN=x["in"], PT=max(0, x["pt"] * u + rng.choice((0, 0, -1, 1))))
                    off += 8 * adv      # a call reads the clock a few times
            worlds.append((w, vclock))
    # many instances against the kernel's clock
    for i in range(c.n(4, 16)):
        w = fb.World(units, stamped=True)
        ks = [w.place(n) for n in names]
        state = {}
        for k in ks:
            w.new(k)
        for _ in range(c.n(800, 6000)):
            k = rng.choice(ks)
            if rng.random() < 0.01:
                w.new(k)
            s = state.setdefault(k, [False, 10**5])
            if rng.random() < 0.3:
                s[0] = not s[0]
            if rng.random() < 0.05:
                s[1] = rng.choice((0, 1, 1000, 10**5, 10**6, 5 * 10**6, 10**9, I64))
            w.call(k, IN=s[0], PT=s[1])
            if rng.random() < 0.5:
                w.sleep(rng.choice((1, 10, 100, 500, 2000)))
        worlds.append((w, None))
    jobs = [(w, pre, prof, j) for j, (w, pre) in enumerate(worlds) for prof in ("real", "realrel")]

    def run(j):
        w, pre, prof, n = j
        return w.run(libs[prof], prof, c.work, f"w{n}", base=(2 * n + (prof == "real")) * 10**6,
                     env={"LD_PRELOAD": pre} if pre else None)

    with cf.ThreadPoolExecutor(NPROC) as ex:
        parts = list(ex.map(run, jobs))
    v = vlib.judge("TraceClock", None, c.work, "t", cfg="TraceClock.cfg", parts=parts)
    of = {r["id"]: j[0] for j, p in zip(jobs, parts) for r in p}
    recs = [r for p in parts for r in p]
    c.take([r for r in recs if r["ev"] == "call"], v, context=lambda r: of[r["id"]].context(r))
    self_test(c, [parts[0], parts[8], parts[16]], "TraceClock")   # stepped clock that stands still during a call
    c.add(behaviours=sum(1 for r in recs if r["ev"] == "new"), calls=sum(1 for r in recs if r["ev"] == "call"))
    c.cov["bounds"] = ("random behaviours of 40 calls of the timer model on a stepped clock (monotonic and wall clock independent, "
                       "0 to 1000 ns per clock read), and random histories against the kernel's clock; debug and release")
    c.assumptions = ["the clock reads made by the executor before and after a call bracket those made by the call",
                     "clock_gettime, gettimeofday and time are the library's only sources of time"]


# ------------------------------------------------------------------ linking

def signature(u, subst):
    ps = []
    for v in u.inputs():
        many = isinstance(v["type"], tuple)
        ty = v["type"][1] if many else v["type"]
        ps.append({"ty": subst.get(ty, ty), "dir": v["section"], "ref": v["ref"], "many": many, "sized": v["sized"]})
    vs = [{"name": v["name"].upper(), "ty": str(v["type"]), "dir": v["section"]} for v in u.vars if v["section"] != "VAR"]
    return {"name": u.name, "kind": u.kind, "vars": vs if u.kind == "FUNCTION_BLOCK" else [], "ret": subst.get(u.ret, u.ret) or "", "params": [] if u.kind == "FUNCTION_BLOCK" else ps,
            "names": [v["name"].upper() for v in u.inputs()], "generics": [{"any": a.upper(), "ty": subst[g]} for g, a in u.generics if g in subst]}


TYPE_NAMES = set(st.SIZES) | {"STRING", "WSTRING"}


def signature_records(us, low):
    """one record per exported function and the declaration that describes it"""
    by = {u.name: u for u in us}
    recs = []
    for sym in sorted(low):
        u, subst = by.get(sym), {}
        if u is None and "__" in sym:
            u = by.get(sym.split("__")[0])
            if u is not None and len(u.generics) == sym.count("__"):
                subst = dict(zip([g for g, _ in u.generics], sym.split("__")[1:]))
            else:
                u = None
        if u is None or not (u.external or subst) or (u.generics and not subst):
            continue      # not described by a declaration; A02 decides what must be
        recs.append({"id": len(recs) + 1, "kind": "fn", "sym": sym, "prof": "ir", "f": low[sym], "u": signature(u, subst)})
    for u in us:                      # specialisations written in structured text
        g = by.get(u.name.split("__")[0])
        if not all(t in TYPE_NAMES for t in u.name.split("__")[1:]):
            continue                  # a name that only looks like one
        if "__" not in u.name or u.external or g is None or len(g.generics) != u.name.count("__"):
            continue
        subst = dict(zip([n for n, _ in g.generics], u.name.split("__")[1:]))
        recs.append({"id": len(recs) + 1, "kind": "st", "sym": u.name, "prof": "st", "u": signature(u, {}), "g": signature(g, subst)})
    return recs


def A04(c):
    recs = signature_records(st.load(), vlib.lowered())
    v = vlib.judge("TraceSig", recs, c.work, "t", cfg="TraceSig.cfg")
    c.take(recs, v)
    if not c.violations:      # the binding must notice a changed width, a lost argument and exchanged names
        t = []
        for r in recs:
            for k in ("width", "drop", "swap", "any"):
                x = copy.deepcopy(r)
                if r["kind"] == "st":
                    a = x["u"]["params"]
                    j = c.rng.randrange(len(a))
                    if k == "width":
                        a[j]["ty"] = "REAL" if a[j]["ty"] != "REAL" else "LREAL"
                    elif k == "drop":
                        a.pop()
                    elif k == "swap" and len(set(x["u"]["names"])) > 1:
                        x["u"]["names"] = x["u"]["names"][1:] + x["u"]["names"][:1]
                    elif k == "any":
                        x["g"]["generics"][0]["ty"] = "TIMER"
                    else:
                        continue
                    x["id"] = len(t) + 1
                    t.append(x)
                    continue
                if r["u"]["kind"] == "FUNCTION_BLOCK":
                    a = x["u"]["vars"]
                    j = c.rng.randrange(len(a))
                    if k == "width":
                        a[j]["ty"] = "REAL"
                    elif k == "drop":
                        a.pop(j)
                    elif k == "swap":
                        a[j]["dir"] = "VAR_OUTPUT" if a[j]["dir"] == "VAR_INPUT" else "VAR_INPUT"
                    else:
                        continue
                    x["id"] = len(t) + 1
                    t.append(x)
                    continue
                a = x["f"]["args"]
                if k == "width" and a:
                    j = c.rng.randrange(len(a))
                    a[j] = {"m": c.rng.choice([m for m in ("i8", "i16", "i32", "i64", "float", "double", "ptr") if m != a[j]["m"] and {m, a[j]["m"]} != {"i1", "i8"}]), "sg": ""}
                elif k == "drop" and a:
                    a.pop()
                elif k == "swap" and len(set(x["u"]["names"])) > 1 and x["u"]["kind"] == "FUNCTION":
                    x["u"]["names"] = x["u"]["names"][1:] + x["u"]["names"][:1]
                elif k == "any" and x["u"]["generics"]:
                    x["u"]["generics"][0]["ty"] = "TIMER"
                else:
                    continue
                x["id"] = len(t) + 1
                t.append(x)
        s = vlib.judge("TraceSig", t, c.work, "selftest", cfg="TraceSig.cfg")
        if len(s.rejected) != len(t):
            raise ToolError(f"corrupted signatures were accepted: {[(x['sym'], x['u'], x.get('f', x.get('g'))) for x in t if x['id'] not in s.rejected][:3]}")
        c.add(corrupted_records_rejected=len(t))
        c.cov["samples"] = recs[:4]
    c.cov["names"] = len(recs)
    c.cov["bounds"] = f"the declarations of all {len(recs)} exported functions and specialisations"
    c.assumptions = ["the compiler passes elementary types by value in their width, texts, references, outputs and instances as pointers, a variable number of arguments as "
                     "a count and a pointer, and a text result in memory passed first; machine types are read from the LLVM IR of the library"]


def A02(c):
    libs = vlib.build_all(PROFILES)
    us = st.load()
    recs = []
    for j, prof in enumerate(PROFILES):
        recs.append({"id": j + 1, "sym": "library", "prof": prof,
                     "exported": sorted(x for x in vlib.exported(libs[prof]) if x[:1].isupper()),
                     "declared": sorted(u.name for u in us),
                     "external": sorted(u.name for u in us if u.external and not u.generics),
                     "defined": sorted(u.name for u in us if not u.external and not u.generics and
                                       (u.body or u.kind == "FUNCTION_BLOCK"))})
    # the binding must notice each kind of gap
    t = []
    for k in ("exported", "declared", "defined"):
        r = copy.deepcopy(recs[0])
        r["id"] = 10 + len(t)
        r[k].remove({"exported": "TON", "declared": "ABS", "defined": "SPLIT_LDT__INT"}[k])
        t.append(r)
    v = vlib.judge("TraceLink", recs, c.work, "t", cfg="TraceLink.cfg")
    c.take(recs, v)
    if not c.violations:
        s = vlib.judge("TraceLink", t, c.work, "selftest", cfg="TraceLink.cfg")
        if len(s.rejected) != len(t):
            raise ToolError("corrupted link records were accepted")
        c.add(corrupted_records_rejected=len(t))
        c.cov["samples"] = [{k: (x[:8] if isinstance(x, list) else x) for k, x in recs[0].items()}]
    # the declared memory is enough: instances packed without a gap, nothing outside may change
    units, rng = fb.fb_units(), c.rng
    worlds = []
    for _ in range(c.n(2, 12)):
        w = fb.World(units)
        names = sorted(units)
        rng.shuffle(names)
        ks = [(n, w.place(n)) for n in names]
        for n, k in ks:
            w.new(k)
        for _ in range(c.n(8, 40)):
            for n, k in ks:
                ins = {}
                for x in units[n].vars:
                    if x["section"] == "VAR_INPUT":
                        ins[x["name"]] = rng.random() < 0.5 if x["type"] == "BOOL" else rng.choice((0, 1, fb.rng_of(x["type"])[1]))
                w.clock(w.now + rng.choice((0, 1, 10**9)))
                w.call(k, **ins)
        worlds.append(w)
    judge_worlds(c, worlds, libs)
    c.cov["names"] = len(recs[0]["declared"])
    c.cov["bounds"] = "every declared unit and every supported specialisation, debug and release builds; every function block called in its declared memory"
    c.assumptions = ["the compiler links an external unit, and a generic call, under the names NAME and NAME__TYPE"]
