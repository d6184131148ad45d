#!/usr/bin/env python3
"""Decide one property by bounded symbolic execution of /repo/src/svdsuite.

usage: check.py --property ID            (VERIF_TIER=quick|thorough, VERIF_SEED)
       check.py --replay FILE            re-run a recorded counterexample on the plain package
       check.py --list
"""
import argparse
import json
import multiprocessing as mp
import os
import random
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv") and not os.environ.get("SYMX_REEXEC"):
    os.environ["SYMX_REEXEC"] = "1"
    os.execv(PY, [PY, "-X", "utf8", *sys.argv])
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

import registry  # noqa: E402


def _init():
    os.environ["PYTHONHASHSEED"] = "0"
    from symx import worker

    worker.init_worker()


def _run(task):
    from symx import worker

    try:
        return worker.run_task(task)
    except Exception as e:  # noqa: BLE001
        import traceback

        return {"task": {k: task[k] for k in ("module", "harness", "params")},
                "fatal": f"{type(e).__name__}: {e}\n{traceback.format_exc()[-2500:]}"}


def load_known():
    """known_findings.txt: 'known: property=<id> harness=<name> label=<text>' lines."""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) harness=(\S+) label=(.*?) \| (.*)$", line.strip())
            if m:
                out.append({"property": m[1], "harness": m[2], "label": m[3], "text": m[4]})
    return out


def run(tasks, a):
    """Run tasks on all cores until one reports a violation.  Returns (results, stopped)."""
    results = []
    with mp.get_context("fork").Pool(min(a.jobs, max(1, len(tasks))), initializer=_init, maxtasksperchild=None) as pool:
        try:
            for r in pool.imap_unordered(_run, tasks):
                results.append(r)
                if a.verbose:
                    print(json.dumps({k: r.get(k) for k in r if r.get(k) not in (None, [], {}) and k in (
                        "task", "paths", "infeasible", "forks", "queries", "solver_s", "checks", "validated", "complete",
                        "wall_s", "inconclusive", "reached", "fatal", "errors", "mismatch", "spurious", "violations",
                        "left")})[:3000], file=sys.stderr)
                if r.get("violations"):
                    return results, True
        finally:
            pool.terminate()
    return results, False


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("SYMX_JOBS", "8")))
    ap.add_argument("--verbose", "-v", action="store_true")
    a = ap.parse_args()
    if a.list:
        for pid, p in registry.PROPERTIES.items():
            print(pid, len(p["tasks"]("quick")), "tasks")
        return 0
    if a.replay:
        from symx.worker import Replayer

        d = json.load(open(a.replay))
        out = Replayer().run({k: d[k] for k in ("module", "harness", "params", "inputs", "rehearse") if k in d})
        print(json.dumps(out, indent=1))
        return 1 if out["failures"] else 0

    pid = a.property
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = registry.PROPERTIES[pid]
    tasks = prop["tasks"](tier)
    if a.only:
        tasks = [t for t in tasks if a.only in json.dumps(t)]
    budget = float(os.environ.get("SYMX_BUDGET", prop.get("budget", {}).get(tier, 150 if tier == "quick" else 780)))
    t0 = time.monotonic()
    deadline = t0 + budget
    known = [k for k in load_known() if k["property"] == pid]
    every = [{"module": t["module"], "harness": t["harness"], "params": t.get("params", {})} for t in tasks]
    rng = random.Random(seed)
    others = rng.sample(every, min(12, len(every)))
    for i, t in enumerate(tasks):
        t.setdefault("params", {})
        t["others"] = others
        t["seed"] = seed * 1000 + i
        t["deadline"] = min(deadline, t0 + budget)
        t["known"] = known
        t.setdefault("validate", 6 if tier == "quick" else 20)

    results, stop = run(tasks, a)
    left = {json.dumps(r["task"], sort_keys=True): r.get("left", []) for r in results}
    if not stop and any(left.values()):
        # the package keeps something between runs: every task again, from the states other runs leave behind
        print("NOTE the package keeps state between runs; exploring again from the states left behind")
        took = {k: r.get("wall_s", 0) for k, r in zip(left, results)}
        key = lambda t: json.dumps({k: t[k] for k in ("module", "harness", "params")}, sort_keys=True)  # noqa: E731
        again = [{**t, "round": "later", "left": left.get(key(t), []), "deadline": time.monotonic() + budget}
                 for t in sorted(tasks, key=lambda t: took.get(key(t), 0))]
        more, stop = run(again, a)
        results += [r for r in more if not r.get("nothing")]
        tasks = tasks + again[:len([r for r in more if not r.get("nothing")])]
    wall = time.monotonic() - t0
    return report(pid, prop, tier, seed, tasks, results, wall, stop, known)


def report(pid, prop, tier, seed, tasks, results, wall, stopped, known):
    ev_dir = os.path.join(HERE, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    viol = [(r, v) for r in results for v in r.get("violations", [])]
    kfound = [(r, v) for r in results for v in r.get("known", [])]
    spurious = [(r, v) for r in results for v in r.get("spurious", [])]
    mismatch = [(r, v) for r in results for v in r.get("mismatch", [])]
    errors = [(r["task"], e) for r in results for e in r.get("errors", [])]
    fatal = [(r["task"], r["fatal"]) for r in results if r.get("fatal")]

    def tot(k):
        return sum(r.get(k, 0) or 0 for r in results)

    inconclusive = {}
    for r in results:
        for k, n in r.get("inconclusive", {}).items():
            inconclusive[k] = inconclusive.get(k, 0) + n
    functions = sorted({f for r in results for f in r.get("functions", [])})
    samples = []
    for r in sorted(results, key=lambda r: json.dumps(r["task"])):
        for s in r.get("samples", [])[:1]:
            if len(samples) < 6:
                samples.append({"harness": r["task"]["harness"], "params": r["task"]["params"], **s})
    incomplete = [
        {"harness": r["task"]["harness"], "params": r["task"]["params"], "paths": r.get("paths", 0)}
        for r in results if not r.get("fatal") and not r.get("complete")
    ]
    coverage = {
        "states": tot("paths"),
        "transitions": tot("forks"),
        "traces_validated_against_impl": tot("validated"),
        "samples": samples,
        "exhaustive": not incomplete and not inconclusive and not fatal and not stopped and not mismatch and not spurious and not errors and len(results) == len(tasks),
        "explanation": "states = feasible program paths explored (each covers every value of the symbolic inputs that "
                       "follows it); transitions = solver-decided two-way forks; checks are discharged by unsat of "
                       "(path condition and not assertion).",
        "tasks": len(tasks), "tasks_run": len(results), "tasks_complete": len([r for r in results if r.get("complete")]),
        "incomplete_tasks": incomplete[:40],
        "infeasible_paths": tot("infeasible"),
        "branch_decisions": tot("decisions"),
        "queries": tot("queries"), "solver_s": round(tot("solver_s"), 2),
        "assertions": tot("checks"), "assertions_discharged": tot("discharged"), "assertions_unknown": tot("unknown"),
        "inconclusive_paths": inconclusive,
        "reachability": {"paths_reaching_final_assertion": tot("reached"), "witnesses_replayed": tot("reached_witness")},
        "encoded_functions": functions, "encoded_function_count": len(functions),
        "bounds": prop["bounds"],
        "outside": prop.get("outside", ""),
        "encoding_mismatches": len(mismatch), "spurious_counterexamples": len(spurious),
        "per_harness": summarise(results),
    }
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": prop.get("level", "model_checking"),
        "coverage": coverage, "assumptions": prop.get("assumptions", []) + registry.COMMON_ASSUMPTIONS,
        "wall_s": round(wall, 2), "violations": len(viol),
    }
    path = os.path.join(ev_dir, f"{pid}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(path + ".tmp", path)

    print(f"{pid} [{tier}] tasks {len(results)}/{len(tasks)} paths {coverage['states']} forks {coverage['transitions']} "
          f"queries {coverage['queries']} solver {coverage['solver_s']}s assertions {coverage['assertions_discharged']}/"
          f"{coverage['assertions']} validated {coverage['traces_validated_against_impl']} "
          f"incomplete {len(incomplete)} wall {wall:.1f}s")
    if inconclusive:
        print("inconclusive paths:", json.dumps(inconclusive)[:600])
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['text']}")
    if viol:
        r, v = viol[0]
        rp = os.path.join(ev_dir, f"replay_{pid}.json")
        with open(rp, "w") as f:
            json.dump({"property": pid, **r["task"], **v}, f, indent=1)
        print("counterexample:", json.dumps({"harness": r["task"]["harness"], "params": r["task"]["params"],
                                             "failed": v["labels"][:5], "inputs": v["inputs"]})[:3000])
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    bad = False
    strict = os.environ.get("SYMX_STRICT") == "1"
    for t, e in fatal[:3]:
        print("ERROR" if strict else "NOTE not covered:", "task", json.dumps(t), e[-1800:])
        bad = bad or strict or len(fatal) == len(results)
    # Paths the encoding could not decide faithfully count as not covered (see coverage.exhaustive); they are an error
    # of the check only under SYMX_STRICT=1, which is how the machinery is validated on the unchanged tree.
    for what, items in (("harness", errors), ("counterexample did not reproduce on the real code", spurious),
                        ("encoding mismatch", mismatch)):
        for t, e in items[:3]:
            t = t["task"] if "task" in t else t
            print("ERROR" if strict else "NOTE not covered:", what, json.dumps(t), str(e)[-1800:])
            bad = bad or strict
    vac = [r["task"] for r in results if not r.get("fatal") and not r.get("reached") and r.get("complete")]
    for t in vac[:3]:
        print("ERROR" if strict else "NOTE not covered:", "final assertion never reached", json.dumps(t))
        bad = bad or strict or len(vac) == len(results)
    return 2 if bad else 0


def summarise(results):
    out = {}
    for r in results:
        h = out.setdefault(r["task"]["harness"], {"tasks": 0, "paths": 0, "queries": 0, "assertions": 0, "complete": 0,
                                                   "wall_s": 0.0})
        h["tasks"] += 1
        h["paths"] += r.get("paths", 0)
        h["queries"] += r.get("queries", 0)
        h["assertions"] += r.get("checks", 0)
        h["complete"] += int(bool(r.get("complete")))
        h["wall_s"] = round(h["wall_s"] + r.get("wall_s", 0), 2)
    return out


if __name__ == "__main__":
    sys.exit(main())
