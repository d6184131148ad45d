"""Concrete replay on the plain, unmodified package: JSON lines on stdin, JSON lines on stdout."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMX_REPO", "/repo")


def setup():
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.join(REPO, "src"))
    sys.path.insert(0, HERE)
    from symx import state

    state.load()
    global initial
    initial = state.State()


initial = None


def run_one(req):
    from symx.api import SxConc, AssumeFailed, plain

    initial.restore()
    initial.clear_memo()
    for r in req.get("rehearse") or ():
        try:
            getattr(importlib.import_module(r["module"]), r["harness"])(SxConc(r["inputs"]), **r["params"])
        except Exception:  # noqa: BLE001  only what it leaves behind counts
            pass
    mod = importlib.import_module(req["module"])
    sx = SxConc(req["inputs"])
    err = None
    try:
        getattr(mod, req["harness"])(sx, **req["params"])
    except AssumeFailed:
        pass
    except Exception as e:  # noqa: BLE001
        import traceback

        err = f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:]
    return {
        "failures": sx.failures,
        "checks": sx.n_checks,
        "observed": plain(sx.observed),
        "assume_failed": sx.assume_failed,
        "reached": sx.reached,
        "error": err,
    }


def main():
    setup()
    out = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    for line in sys.stdin:
        req = json.loads(line)
        out.write(json.dumps(run_one(req)) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
