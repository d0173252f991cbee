"""Calls of several tasks at the same time (A03)."""
import concurrent.futures as cf
import importlib
import random

import fb
import fbs
import vlib
from vlib import NPROC, ToolError

PROFILES = ("dbg", "rel")
SOURCES = ["S01", "S02", "S03", "S04", "S05", "S06", "S07", "N01", "N02", "N03", "N04", "D01", "D02", "D03", "D04", "D05", "D06", "D07",
           "M01", "M02", "B01", "B02", "B03", "B04", "R01", "R02", "R03"]
GROUPS = {"S": "strings", "N": "textnum", "D": "dates", "M": "selection", "B": "bits", "R": "reals"}


class Captured(Exception):
    pass


class Sampler:
    """stands for a check while its generator runs: smaller counts, nothing judged"""

    def __init__(self, c, pid):
        self.c, self.pid, self.thorough, self.seed, self.work = c, pid, False, c.seed, c.work
        self.rng = random.Random(f"{pid} {c.seed}")
        self.cov, self.assumptions, self.violations = {}, [], []

    def n(self, quick, thorough):
        return quick if not isinstance(quick, int) or quick < 200 else max(100, quick // 8)

    def add(self, **kw):
        pass


def capture(c, pid, k=None):
    """the calls the check of another property makes, with the specification that judges them"""
    got = {}

    def grab(s, module, calls, libs, cfg=None, test=lambda r: True, coarse=False, **kw):
        got.update(module=module, cfg=cfg, calls=calls, test=test, coarse=coarse)
        raise Captured

    saved = vlib.run_and_judge, vlib.model, vlib.build_all
    vlib.run_and_judge, vlib.model, vlib.build_all = grab, lambda *a, **k: None, lambda kinds: {}
    try:
        getattr(importlib.import_module(GROUPS[pid[0]]), pid)(Sampler(c, pid))
    except Captured:
        pass
    finally:
        vlib.run_and_judge, vlib.model, vlib.build_all = saved
    # calls that stand for themselves and whose records are small
    items = [it for it in got["calls"].items if "_m" not in it[3] and sum(map(len, it[2])) < 1500 and it[3].get("op") != "const"]
    k = k or c.n(150, 1200)
    got["items"] = c.rng.sample(items, min(k, len(items)))
    return got


def A03(c):
    libs = vlib.build_all(PROFILES)
    vlib.model(c, "MCTasks", {"Tasks": "{1, 2, 3}", "MaxCalls": c.n(2, 3), "Shared": "FALSE"}, ["Alone"])
    r = vlib.tlc("MCTasks", _cfg(c, "shared", "{1, 2}", 2, "TRUE"), workdir=c.work, tag="shared")
    if not r.violated:
        raise ToolError("the specification of tasks does not tell shared state from separate state")
    got = [capture(c, pid) for pid in SOURCES]
    flat = [(g, it) for g in got for it in g["items"]]
    units = fb.fb_units()
    rng = c.rng
    rounds = c.n(30, 300)
    # every task makes all the calls, again and again: mostly several tasks are in the same function at the same time
    by = {}
    for i, (g, it) in enumerate(flat):
        by.setdefault(it[0], []).append(i)
    names = sorted(by)

    def script(task):
        lines = [f"R {rounds}"]
        for n in range(3):
            if n == 2:
                order = list(range(len(flat)))
                rng.shuffle(order)
            else:
                order = []
                for s in names:
                    ix = list(by[s])
                    rng.shuffle(ix)
                    order += ix
            for i in order:
                sym, ret, args, _ = flat[i][1]
                lines.append(" ".join([f"c {i} {'v' if ret is None else ret} {sym}"] + args))
        return lines

    judged = {id(g): [] for g in got}
    nid = 0
    for prof, so in libs.items():
        scripts = [script(t) for t in range(NPROC)]
        seen = {}
        for res in vlib.run_tasks(so, scripts, c.work, f"t.{prof}"):
            for i, t in res:
                seen.setdefault((int(i), tuple(t)), t)
        for (i, _), t in sorted(seen.items(), key=lambda x: x[0][0]):
            g, it = flat[i]
            rec = vlib.record(it, i, t, prof)
            nid += 1
            rec["id"] = nid
            judged[id(g)].append(rec)

    # specifications with their configuration, each judging the records of all groups that use it
    groups = {}
    for g in got:
        groups.setdefault((g["module"], g["cfg"]), []).append(g)

    def judge(x):
        (module, cfg), gs = x
        recs = [r for g in gs for r in judged[id(g)]]
        return recs, vlib.judge(module, recs, c.work, f"j.{cfg}", cfg=cfg, parts=[recs[i::2] for i in range(2)])

    with cf.ThreadPoolExecutor(4) as ex:
        for recs, v in ex.map(judge, sorted(groups.items(), key=lambda x: x[0])):
            v.known.clear()     # a deviation the specification names is the result the call gives alone
            c.take(recs, v)
    c.add(calls=len(flat) * 3 * rounds * NPROC * len(libs), distinct_outcomes=nid)

    # function blocks: every task has instances of its own, all tasks run at the same time
    fbruns = []
    for prof, so in libs.items():
        worlds = [fbs.interleaved(c, units, c.n(500, 3000)) for _ in range(NPROC)]
        scripts = [[f"A {max(w.size, 8)}"] + w.lines for w in worlds]
        for j, (w, res) in enumerate(zip(worlds, vlib.run_tasks(so, scripts, c.work, f"f.{prof}"))):
            fbruns.append((w, w.records(dict(res), prof, 10**7 * (1 + len(fbruns)))))
    of = {r["id"]: w for w, p in fbruns for r in p}
    parts = [p for _, p in fbruns]
    v = vlib.judge("TraceFB", None, c.work, "fb", cfg="TraceFB.cfg", parts=parts)
    recs = [r for p in parts for r in p if r["ev"] == "call"]
    c.take(recs, v, context=lambda r: of[r["id"]].context(r))
    c.add(behaviours=len(parts), calls=len(recs))
    fbs.self_test(c, parts)
    c.cov["bounds"] = (f"specification: 3 tasks of 2 calls, each call in three steps, all interleavings; replay: {len(flat)} calls of every "
                       f"kind of function, each made {3 * rounds} times by each of {NPROC} threads of one process, and {NPROC} threads with instances of "
                       "every function block; debug and release builds")
    c.assumptions = ["which calls overlap is up to the scheduler of the machine", "the mock clock is a clock for each task"]


def _cfg(c, tag, tasks, calls, shared):
    p = f"{c.work}/{tag}.cfg"
    with open(p, "w") as f:
        f.write(f"SPECIFICATION Spec\nCONSTANTS\n  Tasks = {tasks}\n  MaxCalls = {calls}\n  Shared = {shared}\nINVARIANT Alone\nCHECK_DEADLOCK FALSE\n")
    return p
