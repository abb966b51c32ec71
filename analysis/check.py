#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] : decide one property of /repo's working tree.

Exit 0: it holds on everything analysed.  Exit 1 and a line "VIOLATION property=ID replay=FILE": the
code breaks it.  Exit 2: the analysis itself could not be carried out.
"""
import argparse
import json
import os
import signal
import sys
import time
import traceback
from multiprocessing import Pool

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "py"))
TOP = os.path.dirname(HERE)
import build                                                             # noqa: E402
import components                                                        # noqa: E402
import spec                                                              # noqa: E402
from absint import Program                                               # noqa: E402

sys.setrecursionlimit(20000)
JOBS = []
PROG = {}


# wall-clock limits, in seconds: one entry point; all of them
LIMIT = {"quick": (60, 420), "thorough": (200, 700)}
DEADLINE = [None, None]


class Timeout(Exception):
    pass


def on_alarm(*_):
    raise Timeout()


def run_job(i):
    comp, root, sp, opts = JOBS[i]
    left = DEADLINE[1] - time.time()
    if left <= 1:
        return (i, 0, 0, 0, [], 0, ["%s: not reached within the time limit" % root], [])
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, min(left, DEADLINE[0]))
    spec.PARTIAL[0] = None
    why = None
    try:
        if "group" in opts:
            o = opts["group"](PROG[comp], opts["roots"])
        else:
            o = spec.check(PROG[comp], root, sp, **opts)
    except Timeout:
        why = "time limit"
    except RecursionError:
        why = "recursion limit"
    except MemoryError:
        why = "memory limit"
    except Exception:
        why = "analysis failed: " + traceback.format_exc()[-600:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if why is not None:
        # what was found before stands
        o = spec.PARTIAL[0] or spec.Outcome()
        o.undecided.append("%s: %s" % (root, why))
    return (i, o.discharged, o.paths, o.steps, sorted(o.functions), o.sites, o.undecided, o.violations)


def run_all(tier):
    each, total = LIMIT[tier]
    if DEADLINE[1] is None:
        DEADLINE[:] = [each, time.time() + total]
    n = min(8, os.cpu_count() or 1, len(JOBS)) or 1
    if n == 1:
        return [run_job(i) for i in range(len(JOBS))]
    with Pool(n) as p:
        return p.map(run_job, range(len(JOBS)), chunksize=1)


def known():
    try:
        with open(os.path.join(TOP, "known_findings.json")) as f:
            return json.load(f)["findings"]
    except FileNotFoundError:
        return []


def matches(k, pid, v):
    return k.get("status", "open") == "open" and k["property"] == pid and k["entry"] == v["root"] and k["got"] == v["got"] \
        and k["expected"] == v["expected"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    t0 = time.time()
    pid = a.property
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    try:
        res = components.decide(pid, tier)
    except build.BuildError as e:
        print("ERROR: %s" % e)
        return 2
    coverage, violations, undecided, assumptions = res
    new, old = [], []
    ks = known()
    for v in violations:
        k = next((k for k in ks if matches(k, pid, v)), None)
        (old if k else new).append((v, k))
    os.makedirs(os.path.join(TOP, "evidence"), exist_ok=True)
    coverage["undecided"] = len(undecided)
    if undecided:
        coverage["undecided_samples"] = undecided[:10]
    coverage["known_findings"] = len(old)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": coverage, "assumptions": assumptions, "wall_s": round(time.time() - t0, 2),
          "violations": len(new)}
    with open(os.path.join(TOP, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    for k in coverage:
        if isinstance(coverage[k], int):
            print("%s: %d" % (k, coverage[k]))
    for u in undecided[:10]:
        print("undecided: " + u[:300])
    for t in sorted({"KNOWN-FINDING: property=%s %s" % (pid, k["what"]) for v, k in old}):
        print(t)
    if not new:
        print("property %s holds on everything analysed (%s, %.1f s)" % (pid, tier, time.time() - t0))
        return 0
    d = os.path.join(build.WORK, "report")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, pid + ".txt")
    with open(path, "w") as f:
        for v, _ in new:
            f.write("entry point: %s\ninput:       %s\ncode:        %s\nspecified:   %s\n" %
                    (v["root"], v.get("input", ""), v["got"], v["expected"]))
            if v.get("facts"):
                f.write("where:       %s\n" % v["facts"])
            for n in v.get("functions", ()):
                f.write("  through    %s\n" % n)
            f.write("\n")
    for v, _ in new[:10]:
        print("  %s: for %s the code gives %s; specified is %s" % (v["root"], v.get("input", "")[:200], v["got"][:300],
                                                                 v["expected"][:300]))
        for n in v.get("functions", ())[:12]:
            print("      through " + n)
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


if __name__ == "__main__":
    components.driver = sys.modules[__name__]
    sys.exit(main())
