"""Calls with the same arguments have the same outcome, in every build and at any time (A05)."""
import concurrent.futures as cf
import copy
import struct

import fb
import fbs
import tasks
import vlib
from vlib import Calls, ToolError

BUILDS = ("dbg", "rel", "real", "realrel")
WIDTH = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64}
RET = {"i1": "b", "i8": "i8", "i16": "i16", "i32": "i32", "i64": "i64", "float": "f", "double": "d"}
REALS = (0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.5, 3.0, 1e-9, 1e9, -1e9, 1e18, 9.3e18, -9.3e18, 1e30, 3e38, float("inf"), float("-inf"), float("nan"))
INTS = (0, 1, 2, 3, 4, 5, 7, 9, 12, 13, 23, 24, 28, 29, 30, 31, 32, 59, 60, 63, 64, 65, 99, 365, 999, 1000, 1900, 1970, 2000, 2100, 2262)


def scalar(rng, m, sg):
    if m in ("float", "double"):
        w, fmt = (32, "<f") if m == "float" else (64, "<d")
        b = int.from_bytes(struct.pack(fmt, rng.choice(REALS)), "little") if rng.random() < 0.5 else rng.getrandbits(w)
        return ("f%08x" if w == 32 else "d%016x") % b
    w = WIDTH[m]
    if w == 1:
        return f"i{rng.getrandbits(1)}"
    v = rng.choice((rng.choice(INTS), (1 << (w - 1)) - 1, 1 << (w - 1), (1 << w) - 1, rng.getrandbits(w), rng.getrandbits(rng.randrange(1, w + 1)),
                    -rng.getrandbits(rng.randrange(1, w)))) % (1 << w)
    return f"i{v - (1 << w) if sg != 'u' and v >> (w - 1) else v}"


def A05(c):
    vlib.model(c, "MCPure", {"Args": "{0, 1, 2}", "Builds": '{"debug", "optimised"}', "MaxCalls": c.n(3, 4), "Remembers": "FALSE", "Wraps": "FALSE"}, ["Pure"])
    for k in ("Remembers", "Wraps"):
        cfg = f"{c.work}/{k}.cfg"
        with open(cfg, "w") as f:
            f.write('SPECIFICATION Spec\nCONSTANTS\n  Args = {0, 1, 2}\n  Builds = {"debug", "optimised"}\n  MaxCalls = 4\n' +
                    "".join(f"  {x} = {'TRUE' if x == k else 'FALSE'}\n" for x in ("Remembers", "Wraps")) + "INVARIANT Pure\nCHECK_DEADLOCK FALSE\n")
        if not vlib.tlc("MCPure", cfg, workdir=c.work, tag=k).violated:
            raise ToolError(f"the specification does not notice {k}")
    libs = vlib.build_all(BUILDS)
    rng, calls = c.rng, Calls()
    # every function of plain numbers, with any arguments whatever
    low = vlib.lowered()
    known = vlib.exported(libs["dbg"])
    for sym in sorted(low):
        f = low[sym]
        if sym == "TIME" or sym not in known or f["res"]["m"] not in RET or any(a["m"] not in RET for a in f["args"]):
            continue
        for _ in range(c.n(120, 3000)):
            calls.add(sym, RET[f["res"]["m"]], [scalar(rng, a["m"], a["sg"]) for a in f["args"]])
    plain = len(calls)
    # and the calls other checks make, which also read and write texts and lists
    for pid in tasks.SOURCES:
        for sym, ret, args, _ in tasks.capture(c, pid, c.n(400, 3000))["items"]:
            calls.add(sym, ret, args)
    keys = list(range(len(calls)))
    jobs = []
    for b in BUILDS:
        for again in range(c.n(2, 4)):
            order = list(keys)
            rng.shuffle(order)
            jobs.append((b, again, order))

    def one(j):
        b, again, order = j
        lines = [f"c {i} {calls.items[i][1] or 'v'} {calls.items[i][0]} " + " ".join(calls.items[i][2]) for i in order]
        return vlib.run_script(libs[b], lines, c.work, f"{b}.{again}", timeout=400)
    seen = [{} for _ in keys]
    with cf.ThreadPoolExecutor(4) as ex:
        for (b, _, _), res in zip(jobs, ex.map(one, jobs)):
            for i in keys:
                seen[i].setdefault(tuple(res.get(str(i), ["lost"])), b)
    # long histories: all the calls of a few functions again and again in one process
    by = {}
    for i in keys:
        if all(t[0] not in ("crash", "hang", "lost") for t in seen[i]):
            by.setdefault(calls.items[i][0], []).append(i)
    names = sorted(by)
    rng.shuffle(names)

    def often(j):
        b, k = j
        lines = [f"R {rounds}"]
        for n in names[k::16]:
            lines += [f"c {i} {calls.items[i][1] or 'v'} {n} " + " ".join(calls.items[i][2]) for i in by[n]]
        return vlib.run_tasks(libs[b], [lines], c.work, f"o.{b}.{k}", timeout=400)[0]
    rounds = c.n(600, 150)
    jobs2 = [(b, k) for b in ("rel", "realrel") for k in range(16)]
    with cf.ThreadPoolExecutor(vlib.NPROC) as ex:
        for (b, _), res in zip(jobs2, ex.map(often, jobs2)):
            for i, t in res:
                seen[int(i)].setdefault(tuple(t), b + ", repeated")
    recs = []
    for i, (sym, ret, args, _) in enumerate(calls.items):
        obs = []
        for t, b in seen[i].items():
            ok = t[0] == "ok" and t[1] != "-"
            obs.append({"out": t[0], "build": b, "frame": " ".join(t[2:4]), "mem": "|".join(t[4:]), "int": t[1] if ok and ret not in ("f", "d") else "",
                        "real": vlib.le_bytes(t[1]) if ok and ret in ("f", "d") else []})
        recs.append({"id": i + 1, "sym": sym, "prof": "", "seen": obs, "_script": f"{ret} {sym} " + " ".join(args)})
    v = vlib.judge("TracePure", recs, c.work, "t", cfg="TracePure.cfg")
    c.take(recs, v)
    c.add(calls=len(calls) * (len(jobs) + 2 * rounds))
    if not c.violations:
        t = []
        for r in rng.sample(recs, min(400, len(recs))):
            x = copy.deepcopy(r)
            o = copy.deepcopy(x["seen"][0])
            k = rng.choice(("out", "frame", "mem", "int") if not o["real"] else ("out", "real"))
            if k == "real":
                o["real"] = [0, 0, 0, o["real"][3] ^ 64] if len(o["real"]) == 4 else [1, 0, 0, 0, 0, 0, 0, o["real"][7] ^ 64]
            else:
                o[k] += "x"
            x["seen"].append(o)
            x["id"] = len(t) + 1
            t.append(x)
        s = vlib.judge("TracePure", t, c.work, "selftest", cfg="TracePure.cfg")
        if len(s.rejected) != len(t):
            raise ToolError("different outcomes were accepted")
        c.add(corrupted_records_rejected=len(t))
    c.cov["bounds"] = (f"specification: all histories of {c.n(3, 4)} calls of two builds; replay: {plain} calls of every function of plain numbers with arbitrary arguments and "
                       f"{len(calls) - plain} calls with texts and lists, each in four builds (debug, optimised, mock and production clock), {c.n(2, 4)} times in different orders, "
                       f"and {rounds} times more with all calls of a function in one process (over {rounds * c.n(120, 3000)} calls of each function)")
    c.assumptions = ["which bits a NaN carries is not judged", "narrow arguments arrive extended the way the compiled function states"]


# ------------------------------------------------------------------ what calls touch

WIDE = {"SINT": 1, "USINT": 1, "BYTE": 1, "CHAR": 1, "BOOL": 1, "INT": 2, "UINT": 2, "WORD": 2, "WCHAR": 2, "DINT": 4, "UDINT": 4, "DWORD": 4, "REAL": 4, "LINT": 8, "ULINT": 8,
        "LWORD": 8, "LREAL": 8, "TIME": 8, "LTIME": 8, "DATE": 8, "LDATE": 8, "DT": 8, "LDT": 8, "TOD": 8, "LTOD": 8, "DATE_AND_TIME": 8, "TIME_OF_DAY": 8}
PLACES = ("before", "behind")


def text_unit(sym):
    return 2 if sym.endswith("__WSTRING") or sym.startswith("WSTRING_TO") else 1


def footprint(cells, unit):
    """a text up to and including its terminator; None when it has none"""
    for i in range(0, len(cells) - unit + 1, unit):
        if not any(cells[i:i + unit]):
            return cells[:i + unit]
    return None


def reduce(sym, args):
    """(arguments reduced to their footprints, what the specification is told about them), or None"""
    out, told = [], []
    for a in args:
        k, v = a[0], a[1:]
        if k == "s" and sym[:5] in ("MAX__", "MIN__"):
            unit = WIDE.get(sym[5:])
            count = int(args[0][1:])
            cells = list(bytes.fromhex(v))
            if unit is None or not 0 <= count * unit <= len(cells):
                return None
            told.append({"kind": "list", "unit": unit, "count": count, "cells": cells, "walled": cells[:count * unit]})
            out.append("s" + bytes(cells[:count * unit]).hex())
        elif k in "sv":
            got = []
            for x in v.split("|") if v or k == "s" else []:
                cells = list(bytes.fromhex(x))
                w = footprint(cells, text_unit(sym))
                if w is None:
                    return None
                told.append({"kind": "text", "unit": text_unit(sym), "count": 0, "cells": cells, "walled": w})
                got.append(bytes(w).hex())
            out.append(k + "|".join(got))
            if k == "v" and int(args[args.index(a) - 1][1:]) > len(got):
                return None
        else:
            out.append(a)
    return out, told


def outcome(t, ret, place, held):
    ok = t[0] == "ok" and t[1] != "-"
    return {"place": place, "out": t[0], "frame": " ".join(t[2:4]), "int": t[1] if ok and ret not in ("f", "d") else "", "real": vlib.le_bytes(t[1]) if ok and ret in ("f", "d") else [],
            "held": held, "bufs": [list(bytes.fromhex(x)) for x in t[4:]] if len(t) > 4 else [[] for _ in held]}


def A06(c):
    consts = lambda s, b: {"Cells": c.n(4, 5), "Chars": "{0, 1}" if not c.thorough else "{0, 1, 2}", "Stride": s, "Beyond": b}
    vlib.model(c, "MCMemory", consts(1, "FALSE"), ["Touch"])
    for s, b in ((2, "FALSE"), (1, "TRUE")):
        cfg = f"{c.work}/m{s}{b}.cfg"
        with open(cfg, "w") as f:
            f.write("SPECIFICATION Spec\nCONSTANTS\n" + "".join(f"  {k} = {v}\n" for k, v in consts(s, b).items()) + "INVARIANT Touch\nCHECK_DEADLOCK FALSE\n")
        if not vlib.tlc("MCMemory", cfg, workdir=c.work, tag=f"m{s}{b}").violated:
            raise ToolError("the specification does not notice reading beyond an argument")
    profs = ("dbg", "rel")
    libs = vlib.build_all(profs)
    rng = c.rng
    items = []
    for pid in tasks.SOURCES:
        for sym, ret, args, _ in tasks.capture(c, pid, c.n(500, 4000))["items"]:
            if not any(a[0] in "sov" for a in args):
                continue
            red = reduce(sym, args)
            if red:
                items.append((sym, ret, args, *red))
    held = [[list(bytes.fromhex(a[1:])) for a in it[2] if a[0] == "o"] for it in items]

    def script(variant, fill, order):
        lines = ["P " + variant]
        for i in order:
            sym, ret, args, walled, _ = items[i]
            res = iter(fill[i])
            lines.append(f"c {i} {'v' if ret is None else ret} {sym} " + " ".join("o" + bytes(next(res)).hex() if a[0] == "o" else a for a in (args if variant == "among" else walled)))
        return lines
    flip = [[[255 - b for b in x] for x in h] for h in held]

    def run(jobs):
        with cf.ThreadPoolExecutor(vlib.NPROC) as ex:
            return list(ex.map(lambda j: vlib.run_script(libs[j[0]], script(j[1], j[2], j[3]), c.work, j[4], timeout=300), jobs))
    every = list(range(len(items)))
    recs = []
    plain = run([(p, "among", f, every, f"{p}.{k}") for p in profs for k, f in (("a", held), ("b", flip))])
    fills, walled = {}, []
    for n, p in enumerate(profs):
        one, two = plain[2 * n], plain[2 * n + 1]
        fill = fills[p] = []
        for i in every:
            a, b = one.get(str(i), ["lost"]), two.get(str(i), ["lost"])
            x, y = outcome(a, None, "", held[i])["bufs"], outcome(b, None, "", flip[i])["bufs"]
            fill.append([h[:max((j + 1 for j in range(len(u)) if u[j] != h[j] or w[j] != g[j]), default=0)] if u and w else h for h, g, u, w in zip(held[i], flip[i], x, y)])
        walled += [(p, place, fill, every[k::2], f"{p}.{place}.{k}") for place in PLACES for k in (0, 1)]
    got = dict(zip(((j[0], j[1], j[4][-1]) for j in walled), run(walled)))
    lost = 0
    for n, p in enumerate(profs):
        for i, (sym, ret, args, small, told) in enumerate(items):
            seen = [outcome(plain[2 * n][str(i)], ret, "among", held[i]) if str(i) in plain[2 * n] else None,
                    outcome(plain[2 * n + 1][str(i)], ret, "among, other content", flip[i]) if str(i) in plain[2 * n + 1] else None]
            if None in seen:
                lost += 1
                continue
            for place in PLACES:
                t = got[p, place, str(i % 2)].get(str(i))
                if t is None:       # the process died too often before it came to this call
                    lost += 1
                else:
                    seen.append(outcome(t, ret, place, fills[p][i]))
            recs.append({"id": len(recs) + 1, "sym": sym, "prof": p, "args": told, "seen": seen, "_script": f"{ret} {sym} " + " ".join(args)})
    v = vlib.judge("TraceMemory", recs, c.work, "t", cfg="TraceMemory.cfg")
    c.take(recs, v)
    c.add(calls=len(recs) * 4)
    if lost and not c.violations:
        raise ToolError(f"{lost} calls left no record")
    if not c.violations:
        memory_self_test(c, recs)
    walled_blocks(c, libs, profs)
    c.cov["bounds"] = (f"specification: all memories of {c.n(4, 5)} cells, all texts in them; replay: {len(items)} calls with texts, lists or results, each with its arguments among other memory "
                       "(two contents of the result), right before and right behind an inaccessible page; every function block in an instance between inaccessible pages; debug and release builds")
    c.assumptions = ["inaccessible memory is made of whole pages: accesses that stay in the page of an argument and change nothing are not seen on that side"]


def memory_self_test(c, recs):
    rng, t = c.rng, []
    for r in rng.sample(recs, min(400, len(recs))):
        x = copy.deepcopy(r)
        k = rng.choice(("crash", "answer", "result", "args"))
        s = x["seen"][rng.randrange(1, 4)]
        if k == "crash":
            s["out"] = "crash"
        elif k == "result" and any(s["held"]) and s["place"] in PLACES:
            j = next(j for j, h in enumerate(s["held"]) if h)
            s["bufs"][j][0] ^= 1
        elif k == "args" and x["args"]:
            x["args"][0]["walled"] = x["args"][0]["walled"] + [0]
        else:
            s["frame"] += "x"
        x["id"] = len(t) + 1
        t.append(x)
    s = vlib.judge("TraceMemory", t, c.work, "selftest", cfg="TraceMemory.cfg")
    if len(s.rejected) != len(t):
        raise ToolError(f"{len(t) - len(s.rejected)} of {len(t)} altered records were accepted")
    c.add(corrupted_records_rejected=len(t))


def walled_blocks(c, libs, profs):
    """every function block, its instance alone between inaccessible pages, judged by the specification of function blocks"""
    units = fb.fb_units()
    worlds, jobs = [], []
    for place in PLACES:
        for name in sorted(units):
            for _ in range(c.n(2, 12)):
                w = fbs.interleaved(c, units, c.n(60, 200), names=[name], first=len(worlds) * 1000)
                worlds.append((w, place))
    for prof in profs:
        for place in PLACES:
            lines = [x for w, p in worlds if p == place for x in [f"P {place}", f"A {w.size}"] + w.lines]
            jobs.append((prof, place, lines))
    with cf.ThreadPoolExecutor(4) as ex:
        res = list(ex.map(lambda j: vlib.run_script(libs[j[0]], j[2], c.work, f"fb.{j[0]}.{j[1]}", timeout=300, resume=False), jobs))
    parts, of, runs = [[] for _ in range(vlib.NPROC)], {}, 0
    for (prof, place, _), got in zip(jobs, res):
        died = False
        for w, p in worlds:
            if p != place or died:
                continue
            recs = w.records(got, prof, 10 ** 7 + runs * 1000)
            runs += 1
            if any(r.get("out") in ("crash", "hang") for r in recs):
                # what follows in this process has not run
                n = next(k for k, r in enumerate(recs) if r.get("out") in ("crash", "hang"))
                recs, died = recs[:n + 1], True
            for r in recs:
                of[r["id"]] = w
            parts[runs % len(parts)].append(recs)
    # instances of different arenas are different keys
    flat = []
    for k, p in enumerate(parts):
        out = []
        for n, recs in enumerate(p):
            for r in recs:
                r["key"] += n * 10
                out.append(r)
        flat.append(out)
    v = vlib.judge("TraceFB", None, c.work, "fb", cfg="TraceFB.cfg", parts=flat)
    calls = [r for p in flat for r in p if r["ev"] == "call"]
    c.take(calls, v, context=lambda r: of[r["id"]].context({**r, "key": 1}))
    c.add(behaviours=runs, calls=len(calls))
