"""Runs the scenarios of a property and reports obligations, violations and evidence."""
from __future__ import annotations

import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

ROOT = os.environ.get("GSA_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class Result:
    """what one scenario established"""

    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.ok = 0
        self.checked = {}  # rule -> number of obligations
        self.bad = []  # (rule, key, where, detail)
        self.open = []  # unresolved
        self.functions = set()
        self.notes = {}

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n


class Scenario:
    def __init__(self, name, fn, raises="bad", maxpaths=200, tier="quick"):
        self.name, self.fn, self.raises, self.maxpaths, self.tier = name, fn, raises, maxpaths, tier


class Obl:
    """obligation sink handed to a scenario"""

    def __init__(self, res, ip):
        self.res, self.ip = res, ip

    def __call__(self, rule, where, f):
        """f() -> None where the obligation holds, else a description of the witness"""
        from . import arrays as A
        from . import evalr, scen

        r = self.res
        c = A.CTX
        try:
            d = f() if callable(f) else f
            if d is not None and d is not True and not feasible(c):
                raise scen.Undecided("no draw satisfies the path condition")
        except (scen.Undecided, A.Unresolved, evalr.Skip, evalr.OutOfBounds, RecursionError) as e:
            r.open.append((rule, where, str(e)))
            return None
        from .interp import Raised

        r.checked[rule] = r.checked.get(rule, 0) + 1
        if d is None or d is True:
            return True
        if d is False:
            d = "does not hold"
        r.bad.append((rule, f"{rule}|{r.name.split('@')[0]}|{where}", where, str(d)))
        return False


def feasible(c):
    from . import evalr

    facts = c.path()
    if not facts:
        return True
    for _ in evalr.samples(facts, 1, evalr.constants(*facts), SEED + 7, tries=200, small=True, effort=2000000):
        return True
    for _ in evalr.samples(facts, 1, evalr.constants(*facts), SEED, tries=200, effort=6000000):
        return True
    return False


def exc_name(e):
    from .interp import Obj

    if isinstance(e, Obj):
        a = e.d.get("args") or ()
        return f"{e.cls.name}({', '.join(map(str, a))})"
    return f"{type(e).__name__}({e})"


def run_scenario(sc, root=None):
    from . import interp as I
    from . import arrays as A

    from . import evalr, scen

    for d in (evalr.DOMAIN, evalr.POOL, evalr.SHAPES, evalr.GENERATORS, scen.FORCED):
        d.clear()
    res = Result(sc.name)
    t0 = time.time()
    ip = I.Interp(root or ROOT)

    def go(c):
        o = Obl(res, ip)
        c.scenario = sc.name
        return sc.fn(c, ip, o)

    try:
        for c, (kind, val) in ip.paths(go, sc.maxpaths):
            if kind == "infeasible":
                continue
            res.paths += 1
            if kind == "ok":
                res.ok += 1
            elif kind == "raised":
                if sc.raises == "ignore":
                    res.ok += 1
                    continue
                loc = val.loc or ("?", "?", 0)
                if not feasible(c):
                    res.open.append(("completes", f"{loc[0]}:{loc[1]}", "raises on a path without a draw"))
                    continue
                w = f"{loc[0]}:{loc[1]}"
                res.checked["completes"] = res.checked.get("completes", 0) + 1
                res.bad.append(("completes", f"completes|{sc.name}|{w}", w, f"{exc_name(val.exc)} at line {loc[2]}"))
            elif kind == "diverges":
                loc = c.loc()
                res.checked["terminates"] = res.checked.get("terminates", 0) + 1
                res.bad.append(("terminates", f"terminates|{sc.name}", sc.name, val))
            else:
                res.open.append(("analysis", sc.name, val))
            fin = getattr(sc, "finish", None)
            if fin and kind == "ok":
                fin(c, ip, Obl(res, ip))
    except _Late:
        res.open.append(("analysis", sc.name, f"not decided within {SCENARIO_LIMIT} s"))
    except Exception as e:  # a defect of the analysis itself
        res.open.append(("analysis", sc.name, "internal: " + "".join(traceback.format_exception_only(e)).strip() + " " + " <- ".join(f"{f.name}:{f.lineno}" for f in traceback.extract_tb(e.__traceback__)[-5:])))
    res.functions = set(ip.visited)
    res.wall = time.time() - t0
    return res


_work = None


class _Late(BaseException):
    pass


def _alarm(*_):
    raise _Late()


def _worker(k):
    """one scenario, within its share of the time"""
    sys.setrecursionlimit(20000)
    sc = _work[k]
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(SCENARIO_LIMIT)
    try:
        return k, run_scenario(sc)
    except _Late:
        return k, _unreached(sc, f"not decided within {SCENARIO_LIMIT} s")
    finally:
        signal.alarm(0)


def _unreached(sc, why):
    r = Result(sc.name)
    r.open.append(("analysis", sc.name, why))
    return r


# seconds: one scenario; all of them; all of them once a violation is known
SCENARIO_LIMIT, LIMIT, LIMIT_BAD = 240, 720, 240


def run_all(scs, jobs=None, is_bad=lambda r: False):
    global _work
    _work = scs
    sys.setrecursionlimit(20000)
    jobs = jobs or min(8, os.cpu_count() or 1)
    t0 = time.time()
    out = {}
    found = False
    with mp.get_context("fork").Pool(jobs) as pool:
        it = pool.imap_unordered(_worker, range(len(scs)), chunksize=1)
        while len(out) < len(scs):
            left = t0 + (LIMIT_BAD if found else LIMIT) - time.time()
            try:
                k, r = it.next(max(left, 0.01))
            except mp.TimeoutError:
                break
            except StopIteration:
                break
            out[k] = r
            found = found or is_bad(r)
        pool.terminate()
    return [out.get(k) or _unreached(sc, "not reached within the time limit") for k, sc in enumerate(scs)]


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def check(prop, scs, tier, level, explain, assumptions=(), min_resolved=1):
    """run, print, write evidence; returns the exit code"""
    t0 = time.time()
    if tier == "quick":
        scs = [s for s in scs if s.tier == "quick"]
    known = [k for k in known_findings() if k["property"] == prop]
    results = run_all(scs, is_bad=lambda r: any(not any(k["key"] in b[1] for k in known) for b in r.bad))
    bad, kn = [], []
    for r in results:
        for b in r.bad:
            k = next((k for k in known if any(p in b[1] for p in [k["key"]])), None)
            (kn if k else bad).append((k, r, b))
    rules = {}
    for r in results:
        for k, n in r.checked.items():
            rules[k] = rules.get(k, 0) + n
    total = sum(rules.values())
    opened = [(r.name, *o) for r in results for o in r.open]
    fns = sorted({f"{p}:{q}" for r in results for p, q in r.functions if p.startswith("src/")})
    notes = {}
    for r in results:
        for k, n in r.notes.items():
            notes[k] = notes.get(k, 0) + n
    print(f"property {prop} tier {tier}: {len(results)} scenarios, {sum(r.paths for r in results)} paths, {total} obligations "
          f"({', '.join(f'{k} {n}' for k, n in sorted(rules.items()))}), {len(fns)} functions analysed")
    for k, n in sorted(notes.items()):
        print(f"  {k}: {n}")
    for o in opened[:40]:
        print(f"UNRESOLVED scenario={o[0]} rule={o[1]} at={o[2]} why={o[3]}")
    if len(opened) > 40:
        print(f"UNRESOLVED ... {len(opened) - 40} more")
    seen = set()
    for k, r, b in kn:
        if k["key"] not in seen:
            seen.add(k["key"])
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    violations = []
    dedup = set()
    for _, r, b in bad:
        if (b[1], b[3]) in dedup:
            continue
        dedup.add((b[1], b[3]))
        violations.append({"rule": b[0], "scenario": r.name, "construct": b[2], "witness": b[3]})
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    replay = os.path.join(VERIF, "evidence", f"{prop}.violation.json")
    if violations:
        with open(replay, "w") as f:
            json.dump({"property": prop, "violations": violations}, f, indent=1)
        for v in violations[:12]:
            print(f"  rule {v['rule']}: {v['construct']}: {v['witness']} [scenario {v['scenario']}]")
        print(f"VIOLATION property={prop} replay={replay}")
    elif os.path.exists(replay):
        os.remove(replay)
    ev = {
        "property": prop, "tier": tier, "seed": SEED, "level": level,
        "coverage": {
            "explanation": explain,
            "scenarios": len(results), "paths": sum(r.paths for r in results), "obligations": total, "obligations_by_rule": rules,
            "unresolved": len(opened), "unresolved_list": [" ".join(map(str, o)) for o in opened[:60]],
            "functions_analysed": fns, "known_findings_seen": sorted(seen), **notes,
        },
        "wall_s": round(time.time() - t0, 3),
        "violations": len(violations),
        "assumptions": list(assumptions),
    }
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if violations:
        return 1
    if total < min_resolved:
        print(f"nothing could be decided for {prop}: {len(opened)} obligations unresolved")
        return 2
    return 0
