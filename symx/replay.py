"""Concrete runs of harnesses on the unmodified code, in the project's own interpreter.

usage: replay.py JOBFILE      (JSON: [{"module":..., "harness":..., "values":..., "bounds":...}])
prints one JSON line per job: {"outcome": "ok|violated|exception|assume", "msg":..., "notes":...}
"""
import importlib
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import boot

boot.paths(False)

import logging
import warnings

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)


def patch_everywhere(old, new):
    for m in list(sys.modules.values()):
        d = getattr(m, "__dict__", None)
        if not d or m.__name__.startswith("symx"):
            continue
        for k, v in list(d.items()):
            if v is old:
                d[k] = new


class _Uuid:
    def __init__(self, s):
        self.hex = s

    def __str__(self):
        return self.hex


def run_one(job):
    from symx import api
    from symx.models_names import time_functions, random_functions, secret_functions
    importlib.import_module("harness." + job["module"])
    spec = [s for ss in api.REGISTRY.values() for s in ss if s.name == job["harness"]][0]
    env = api.ConcEnv(job["values"], job["bounds"])
    import time
    import uuid
    for f in time_functions() + [time.time]:
        patch_everywhere(f, lambda *a, **k: env.time_value())
    for f in random_functions():
        patch_everywhere(f, env.rnd)
    for f in secret_functions():
        patch_everywhere(f, lambda n=32: env.rnd(n))
    patch_everywhere(uuid.uuid4, lambda: _Uuid(env.rnd(32)))
    uuid.uuid4 = lambda: _Uuid(env.rnd(32))
    time.time = lambda: env.time_value()
    from symx import clock
    clock.patch(env)
    try:
        spec.fn(env)
        out = {"outcome": "ok"}
    except api.CheckFailed as e:
        out = {"outcome": "violated", "msg": e.msg}
    except api.AssumeFailed:
        out = {"outcome": "assume"}
    except Exception as e:
        out = {"outcome": "exception", "msg": "%s: %s" % (type(e).__name__, str(e)[:300]),
               "tb": traceback.format_exc()[-1500:]}
    out["notes"] = env.notes
    out["reached"] = sorted(env.reached)
    if os.environ.get("SYMX_VERBOSE"):
        out["missing"] = env.missing
    return out


def main():
    with open(sys.argv[1]) as f:
        jobs = json.load(f)
    if isinstance(jobs, dict):
        jobs = [jobs]
    for m in {j["module"] for j in jobs}:
        importlib.import_module("harness." + m)
    bad = False
    for j in jobs:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                o = run_one(j)
            except BaseException:
                o = {"outcome": "error", "msg": traceback.format_exc()[-1500:], "notes": []}
            with os.fdopen(w, "w") as f:
                f.write(json.dumps(o, default=str))
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            line = f.read()
        os.waitpid(pid, 0)
        print(line, flush=True)
        if '"outcome": "violated"' in line or '"outcome": "exception"' in line:
            bad = True
    sys.exit(1 if bad and len(jobs) == 1 else 0)


if __name__ == "__main__":
    main()
