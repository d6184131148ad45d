"""One exploration task: run a harness symbolically over all paths, confirm counterexamples concretely."""
import importlib
import json
import os
import random
import select
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMX_REPO", "/repo")
Z3_PATH = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


class Replayer:
    """Persistent subprocess running the plain package."""

    def __init__(self):
        self.p = None

    def start(self):
        self.p = subprocess.Popen(
            [sys.executable, "-X", "utf8", os.path.join(HERE, "symx", "replay_worker.py")],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, bufsize=1,
            env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1"},
        )

    def run(self, req, timeout=40):
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write(json.dumps(req) + "\n")
            self.p.stdin.flush()
            r, _, _ = select.select([self.p.stdout], [], [], timeout)
            if not r:
                self.stop()
                return {"hang": True, "failures": [f"does not terminate within {timeout} s"], "observed": [],
                        "error": None, "assume_failed": False, "checks": 0, "reached": False}
            line = self.p.stdout.readline()
            if not line:
                raise OSError("replay worker died")
            return json.loads(line)
        except (OSError, ValueError) as e:
            self.stop()
            return {"error": f"replay: {e}", "failures": [], "observed": [], "assume_failed": False, "checks": 0,
                    "reached": False}

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except OSError:
                pass
            self.p = None


_state = {}


def init_worker():
    sys.dont_write_bytecode = True
    if Z3_PATH not in sys.path:
        sys.path.append(Z3_PATH)
    sys.setrecursionlimit(4000)
    from . import instr

    finder = instr.install({"svdsuite": os.path.join(REPO, "src"), "props": HERE})
    _state["finder"] = finder
    from . import state

    state.load()
    _state["initial"] = state.State()
    _state["replayer"] = Replayer()

    def alarm(signum, frame):
        from .engine import PathTimeout

        raise PathTimeout("path wall-clock limit")

    signal.signal(signal.SIGALRM, alarm)


def _functions_profile(fn):
    seen = set()

    def prof(frame, event, arg):
        if event == "call":
            f = frame.f_code.co_filename
            if "/svdsuite/" in f:
                seen.add(f.split("/svdsuite/")[1][:-3].replace("/", ".") + ":" + frame.f_code.co_qualname)

    sys.setprofile(prof)
    try:
        fn()
    finally:
        sys.setprofile(None)
        _state.setdefault("functions", set()).update(seen)


def rehearse(items, rng, limit=20):
    """Run harnesses on concrete inputs, starting afresh.  Returns (what ran, state, memo tables, changed)."""
    from .api import AssumeFailed, SxConc, SxRand
    from .engine import Engine
    from .state import State

    initial = _state["initial"]
    initial.restore()
    eng = Engine()
    done, calls = [], {}
    signal.setitimer(signal.ITIMER_REAL, limit)
    Engine.current = eng
    try:
        for r in items:
            fn = getattr(importlib.import_module(r["module"]), r["harness"])
            for _ in range(1 if "inputs" in r else 4):
                eng.base_calls = calls
                eng.begin_path()
                sx = SxConc(r["inputs"]) if "inputs" in r else SxRand(rng)
                ok = True
                try:
                    fn(sx, **r["params"])
                except AssumeFailed:
                    ok = False
                except (Exception, Control) as e:
                    if type(e).__name__ == "PathTimeout":
                        raise
                calls = eng.calls
                done.append({**{k: r[k] for k in ("module", "harness", "params")}, "inputs": dict(sx.used)})
                if ok:
                    break
    except Control:
        done = []
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        Engine.current = None
    changed = bool(done) and (initial.diff() or any(calls.values()))
    return done, State() if changed else None, calls, changed


SUMS = ("paths", "infeasible", "forks", "decisions", "queries", "solver_s", "checks", "discharged", "unknown", "wall_s",
        "validated", "reached", "reached_witness")
LISTS = ("violations", "spurious", "known", "samples", "mismatch", "errors")


def run_task(task):
    """task: dict(module, harness, params, seed, deadline, validate, path_limit, max_paths, cap, others, round)

    round "fresh": explore from the state of the freshly imported package; the result says whether a path left something
    behind in the package ("left": inputs of such a path).  round "later": explore from the states left by other runs.
    """
    from .engine import Control as C

    global Control
    Control = C
    if task.get("round", "fresh") == "fresh":
        return explore(task, _state["initial"], {}, [])
    rng = random.Random(task["seed"])
    others = task.get("others") or []
    own = {k: task[k] for k in ("module", "harness", "params")}
    runs = []
    for items in ([own] + rng.sample(others, len(others)), rng.sample(others, len(others)) + [own],
                  rng.sample(others, len(others)) + [{**own, "inputs": i} for i in task.get("left", [])[:1]]):
        done, base, calls, changed = rehearse(items, rng)
        if changed:
            runs.append(explore(task, base, calls, done))
            if runs[-1]["violations"]:
                break
    if not runs:
        return {"task": own, "nothing": True}
    res = runs[0]
    for more in runs[1:]:
        for k in SUMS:
            res[k] = res.get(k, 0) + more.get(k, 0)
        for k in LISTS:
            res[k] += more[k]
        for k, n in more["inconclusive"].items():
            res["inconclusive"][k] = res["inconclusive"].get(k, 0) + n
        res["complete"] = res["complete"] and more["complete"]
    return res


def explore(task, base, calls, rehearsed):
    from .engine import Engine
    from .api import SxSym, conc

    t0 = time.monotonic()
    _state["functions"] = set()
    base.restore()
    mod = importlib.import_module(task["module"])
    harness = getattr(mod, task["harness"])
    rng = random.Random(task["seed"])
    eng = Engine(seed=task["seed"], deadline=task["deadline"], concretize_cap=task.get("cap", 80),
                 max_paths=task.get("max_paths"))
    eng.base_calls = calls
    rep = _state["replayer"]
    res = {
        "left": [],
        "task": {k: task[k] for k in ("module", "harness", "params")},
        "violations": [], "spurious": [], "known": [], "samples": [], "validated": 0, "mismatch": [],
        "reached": 0, "reached_witness": 0, "errors": [],
    }
    known = task.get("known", [])
    nvalid = task.get("validate", 6)
    path_limit = task.get("path_limit", 25)
    excluded = 0

    def one():
        base.restore()
        sx = SxSym(eng)
        signal.setitimer(signal.ITIMER_REAL, path_limit)
        try:
            if eng.paths in (0, 7, 40):
                _functions_profile(lambda: harness(sx, **task["params"]))
            else:
                harness(sx, **task["params"])
        except Exception as e:  # harness or encoding error outside sx.run
            import traceback

            res["errors"].append(f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1800:]}")
            from .engine import Unsupported

            raise Unsupported(f"harness error {type(e).__name__}")
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    def inputs(m):
        return {k: conc(v, m) for k, (kind, v) in eng.inputs.items()}

    def req(inp):
        return {"module": task["module"], "harness": task["harness"], "params": task["params"], "inputs": inp,
                **({"rehearse": rehearsed} if rehearsed else {})}

    def confirm(labels, inp, out):
        """A failure reproduced on the plain package: a listed finding or a violation (True stops the task)."""
        v = {"labels": labels, "inputs": inp, "observed": out["observed"], "replay_error": out["error"]}
        if rehearsed:
            v["rehearse"] = rehearsed
        mine = [k["label"] for k in known if k["harness"] == task["harness"]]
        if mine and all(any(k in l for k in mine) for l in labels):
            res["known"].append(v)
            return False
        res["violations"].append(v)
        return len(res["violations"]) >= task.get("stop_after", 1)

    def on_path(status, detail):
        if eng.reached:
            res["reached"] += 1
        if not rehearsed and not res["left"] and (base.diff() or any(eng.calls.values())):
            try:
                res["left"].append(inputs(eng._ensure_model()))
            except BaseException:
                pass
        if status == "timeout":
            try:
                inp = inputs(eng._ensure_model())
            except BaseException:
                return False
            out = rep.run(req(inp))
            if out.get("hang"):
                res["violations"].append({"labels": out["failures"], "inputs": inp, "observed": []})
                return True
            if out["failures"] and not out["assume_failed"]:
                return confirm(out["failures"], inp, out)
            return False
        bad = eng.flush_checks()
        if bad is not None:
            labels, m = bad
            inp = inputs(m)
            out = rep.run(req(inp))
            v = {"labels": labels, "inputs": inp, "observed": out["observed"], "replay_failures": out["failures"],
                 "replay_error": out["error"]}
            if out["failures"] and not out["assume_failed"]:
                return confirm(out["failures"], inp, out)
            res["spurious"].append(v)
            return len(res["spurious"]) >= 5
        if status in ("unsupported", "budget"):
            try:
                inp = inputs(eng._ensure_model())
            except BaseException:
                return False
            if res.setdefault("inconclusive_replays", 0) < 25:
                out = rep.run(req(inp))
                res["inconclusive_replays"] += 1
                labels = list(out["failures"])
                if out["error"]:
                    labels.append("result cannot be inspected: " + out["error"].splitlines()[0])
                if labels and not out["assume_failed"]:
                    return confirm(labels, inp, out)
            return False
        # encoding validation: sampled paths are replayed on the real code and every observation compared
        k = eng.paths
        if res["validated"] < nvalid and (k <= 2 or rng.random() < 0.25):
            try:
                m = eng._ensure_model()
                inp = inputs(m)
                obs = [[l, conc(v, m)] for l, v in eng.observed]
            except BaseException:
                return False
            out = rep.run(req(inp))
            if out["error"] or out["failures"] or out["observed"] != obs:
                if out["failures"] and not out["assume_failed"]:
                    return confirm(out["failures"], inp, out)
                res["mismatch"].append({"inputs": inp, "symbolic": obs, "concrete": out["observed"],
                                        "error": out["error"]})
            else:
                res["validated"] += 1
                if out["reached"]:
                    res["reached_witness"] += 1
                if len(res["samples"]) < 2:
                    res["samples"].append({"inputs": inp, "observed": obs[:12]})
        return False

    eng.explore(one, on_path)
    from . import engine as _eng

    if _eng.FORKLOG:
        print(json.dumps(task["params"]), *[f"\n   {n:6d} {k}" for k, n in sorted(_eng.FORKLOG.items(), key=lambda x: -x[1])[:12]],
              file=sys.stderr)
        _eng.FORKLOG.clear()
    res.update(
        paths=eng.paths - eng.infeasible, infeasible=eng.infeasible, forks=eng.forks, decisions=eng.decisions,
        queries=eng.queries, solver_s=round(eng.solver_time, 3), checks=eng.checks_total,
        discharged=eng.checks_discharged, unknown=eng.checks_unknown, inconclusive=eng.inconclusive,
        complete=eng.complete, wall_s=round(time.monotonic() - t0, 3),
        functions=sorted(_state["functions"]),
    )
    return res
