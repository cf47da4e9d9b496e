"""Runs cases of one property, one request (a JSON spec) per line of stdin."""
import importlib
import json
import os
import sys
import time
import traceback


def jsonable(x):
    import numpy as np

    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist()) if x.size <= 64 else f"array{x.shape}"
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating, float)):
        x = float(x)
        return x if abs(x) < 1e308 and x == x else repr(x)
    if isinstance(x, (str, int, bool, type(None))):
        return x
    return repr(x)[:300]


def main():
    # the protocol keeps the real stdout; anything the library prints goes to fd 1
    proto = os.fdopen(os.dup(1), "w", buffering=1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    prop = sys.argv[1]
    from . import core

    try:
        from . import lib

        mod = importlib.import_module(f"vlib.props.{prop.lower()}")
        getattr(mod, "worker_init", lambda: None)()
    except BaseException as e:
        verdict = "error"
        tb = traceback.format_exc()
        if "fast_bss_eval" in tb.split("During handling")[0] and isinstance(e, Exception):
            frames = traceback.extract_tb(e.__traceback__)
            repo = os.path.realpath(os.environ.get("FBE_REPO", "/repo"))
            if any(os.path.realpath(f.filename).startswith(repo + os.sep) for f in frames):
                verdict = "import_failed"
        proto.write(json.dumps({"init": verdict, "msg": str(e), "tb": tb[-3000:]}) + "\n")
        return
    if getattr(mod, "STEPS", True):
        lib.STEPS.install()
    proto.write(json.dumps({"init": "ok", "pid": os.getpid()}) + "\n")
    for line in sys.stdin:
        spec = json.loads(line)
        ctx = core.Ctx()
        t0 = time.monotonic()
        res = {"verdict": "held"}
        try:
            mod.check(spec, ctx)
        except core.Violation as e:
            res = {"verdict": "violated", "msg": e.msg, "key": e.key, "detail": jsonable(e.detail)}
        except core.LibraryRaised as e:
            res = {"verdict": "violated", "msg": str(e), "key": "raised", "detail": {"where": e.where}}
        except lib.StepBudgetExceeded:
            res = {"verdict": "violated", "msg": "the call did not return within the logical step budget", "key": "steps", "detail": {}}
        except core.Inconclusive as e:
            res = {"verdict": "inconclusive", "msg": str(e)}
        except Exception as e:
            res = {"verdict": "error", "msg": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()[-3000:]}
        res["counts"] = ctx.counts
        res["stats"] = ctx.stats
        res["sig"] = ctx.sig
        res["dt"] = time.monotonic() - t0
        res["events"] = lib.EVENTS.copy()
        lib.EVENTS.clear()
        res["lines"] = sorted(f"{os.path.relpath(f, lib.REPO)}:{l}" for f, l in lib.STEPS.lines)
        lib.STEPS.lines.clear()
        res["max_steps"] = lib.STEPS.max_seen
        proto.write(json.dumps(res) + "\n")
    fin = getattr(mod, "worker_exit", None)
    if fin:
        fin()


if __name__ == "__main__":
    main()
