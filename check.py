#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only HARNESS] [-v]

Decides one property: explores every harness of the property symbolically on the current source
of /repo, replays every counterexample on the unmodified code, writes evidence/<id>.json.
exit 0: held on everything explored; 1: VIOLATION; anything else: no answer."""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0" or "symx_child" not in os.environ:
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["symx_child"] = "1"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    py = "/opt/veriftools/pyvenv/bin/python"
    os.execv(py, [py] + sys.argv)

import argparse
import glob
import importlib
import json
import logging
import subprocess
import tempfile
import time
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from symx import boot

boot.paths(True)
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)

BUDGET = {"quick": 780, "thorough": 850}


def load(prop):
    from symx import rewrite
    rewrite.install()
    import oidcmsg.oidc          # noqa
    from symx import api, models
    import cryptojwt             # noqa
    models.register()
    mods = []
    for f in sorted(glob.glob(os.path.join(HERE, "harness", "*.py"))):
        name = os.path.basename(f)[:-3]
        if name.lower().startswith(prop.lower() + "_") or name.lower() == prop.lower():
            importlib.import_module("harness." + name)
            mods.append(name)
    models.register()            # functions that only exist now
    return mods, api.REGISTRY.get(prop, [])


def replay_jobs(jobs, timeout=300):
    if not jobs:
        return []
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
        json.dump(jobs, f)
    env = dict(os.environ)
    env.pop("symx_child", None)
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    p = subprocess.run([boot.REAL_PY, os.path.join(HERE, "symx", "replay.py"), f.name],
                       capture_output=True, text=True, timeout=timeout, env=env, cwd=HERE)
    os.unlink(f.name)
    out = [json.loads(x) for x in p.stdout.splitlines() if x.startswith("{")]
    if len(out) != len(jobs):
        raise RuntimeError("replay failed: " + p.stderr[-2000:] + p.stdout[-500:])
    return out


def known_findings(prop):
    out = []
    path = os.path.join(HERE, "known_findings.json")
    if os.path.exists(path):
        for e in json.load(open(path)):
            if e.get("property") == prop and e.get("status") == "known":
                out.append(e)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mods, specs = load(a.prop)
    from symx import core, explore, rewrite
    if not specs:
        print("no harness for", a.prop)
        sys.exit(2)
    deadline = t0 + BUDGET[a.tier]
    stats = core.Stats()
    states = transitions = validated = 0
    vio, problems, soft, samples, per, mism = [], [], [], [], [], []
    known, reproduced_known = known_findings(a.prop), set()
    complete = True
    for spec in specs:
        if a.only and spec.name != a.only:
            continue
        if a.tier == "quick" and not spec.quick:
            continue
        bounds = spec.bounds if a.tier == "quick" else spec.thorough_bounds
        mod = spec.fn.__module__.split(".")[-1]
        rep = explore.explore(spec, bounds, deadline, a.jobs,
                              sample_every=1 if a.tier == "quick" else 4)
        stats.merge(rep.stats)
        n_paths = sum(rep.paths.values())
        states += n_paths
        transitions += rep.transitions
        complete = complete and rep.complete
        for pr in rep.problems:
            soft.append("%s: %s" % (spec.name, pr))
        if not rep.complete and not rep.violations:
            soft.append("%s: exploration incomplete" % spec.name)
        if not rep.paths["ok"] and not rep.violations:
            problems.append("%s: no path could be decided" % spec.name)
        # counterexamples: on the real code
        jobs = [{"module": mod, "harness": spec.name, "bounds": bounds, "values": m}
                for _, m in rep.violations]
        res = replay_jobs(jobs)
        unrep = 0
        got = False
        for (msg, m), job, r in zip(rep.violations, jobs, res):
            if r["outcome"] in ("violated", "exception"):
                k = [e for e in known if e["harness"] == spec.name and
                     e["match"] in r.get("msg", "")]
                if k:
                    reproduced_known.add(k[0]["id"])
                    continue
                vio.append((spec, msg, job, r))
                got = True
            else:
                unrep += 1
                soft.append("%s: counterexample does not reproduce: %s %s" % (
                    spec.name, msg, {k: v for k, v in list(m.items())[:30]}))
        # validation of the encoding: sampled paths on the real code
        sm = rep.samples
        cap = 60 if a.tier == "quick" else 200
        if len(sm) > cap:
            step = len(sm) / cap
            sm = [sm[int(i * step)] for i in range(cap)]
        if not got:
            jobs = [{"module": mod, "harness": spec.name, "bounds": bounds, "values": v}
                    for v, _ in sm]
            res = replay_jobs(jobs)
            for (v, notes), job, r in zip(sm, jobs, res):
                if r["outcome"] == "ok" and notes is None:
                    pass
                elif r["outcome"] == "ok":
                    cn = [[l, "?" if n[1] == "?" else x] for (l, x), n in
                          zip(r["notes"], notes)]
                    if len(r["notes"]) == len(notes) and json.dumps(cn, default=str) == \
                            json.dumps([list(n) for n in notes], default=str):
                        validated += 1
                    else:
                        mism.append("%s: notes differ: real %s symbolic %s" % (
                            spec.name, r["notes"], notes))
                elif r["outcome"] in ("violated", "exception"):
                    k = [e for e in known if e["harness"] == spec.name and
                         e["match"] in r.get("msg", "")]
                    if k:
                        reproduced_known.add(k[0]["id"])
                        continue
                    # the real code breaks the property on a path the encoding let pass
                    vio.append((spec, "on validation: " + r.get("msg", ""), job, r))
                    mism.append("%s: real code fails where the encoding passed: %s" % (
                        spec.name, r.get("msg")))
                else:
                    mism.append("%s: %s %s" % (spec.name, r["outcome"], r.get("msg", "")))
        miss = [w for w in spec.witness if w not in rep.reached]
        if miss and not rep.violations and rep.complete:
            problems.append("%s: vacuous, never reached %s" % (spec.name, miss))
        good = [x for x in rep.samples if x[1] is not None]
        if good:
            samples.append({"harness": spec.name, "inputs": good[0][0], "observed": good[0][1]})
        per.append({"harness": spec.name, "paths": dict(rep.paths), "bounds": bounds,
                    "branch_decisions": rep.transitions, "wall_s": round(rep.wall, 2),
                    "queries": rep.stats.queries, "solver_s": round(rep.stats.solver_s, 2),
                    "asserts": rep.stats.asserts, "witnesses": sorted(rep.reached),
                    "bound_cuts": dict(rep.bound_cuts),
                    "concretised": dict(rep.stats.concretised), "complete": rep.complete})
        if a.v:
            print(json.dumps(per[-1]))
            for m in rep.violations[:4]:
                print("  cex:", m[0], {k: v for k, v in m[1].items()})
            for m in rep.problems[:5]:
                print("  problem:", m)
    for m in mism[:5]:
        print("ENCODING-MISMATCH", m)
    repo_funcs = sorted({q for f, q in stats.functions if f.startswith(boot.REPO)})
    lib_funcs = sorted({q for f, q in stats.functions if "site-packages" in f})
    ev = {
        "property": a.prop, "tier": a.tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": states, "transitions": transitions,
            "traces_validated_against_impl": validated,
            "samples": samples[:6],
            "meaning": "states = symbolic paths explored (each covers all values satisfying its "
                       "path condition); transitions = branch decisions on symbolic conditions; "
                       "traces_validated = paths whose model was re-run on the unmodified code "
                       "with the same observations",
            "harnesses": per,
            "functions_encoded": repo_funcs,
            "library_functions_encoded": len(lib_funcs),
            "source_files_encoded": sorted(f for f in rewrite.ENCODED_FILES
                                           if f.startswith(boot.REPO)),
            "queries_discharged": stats.queries, "assertions": stats.asserts,
            "solver_seconds": round(stats.solver_s, 2), "solver_unknown": stats.unknown,
            "cvc5_fallback": stats.cvc5, "concretisations": stats.concretised,
            "bound_cuts": stats.cuts, "encoding_mismatches": mism[:10],
            "inconclusive": (problems + soft)[:20],
            "exhaustive": complete and not problems and not soft},
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(vio),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for e in known:
        if e["id"] not in reproduced_known and complete and not a.only:
            print("NOTE: a known finding no longer fails: %s" % e["id"])
            continue
        print("KNOWN-FINDING: property=%s %s" % (a.prop, e["what"]))
    if vio:
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        for i, (spec, msg, job, r) in enumerate(vio[:5]):
            path = os.path.join(d, "%s-%d.json" % (a.prop, i))
            with open(path, "w") as f:
                json.dump(job, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
            print("  harness %s: %s" % (spec.name, msg))
            print("  real code: %s %s" % (r["outcome"], r.get("msg")))
            print("  re-run: %s %s %s" % (boot.REAL_PY, os.path.join(HERE, "symx/replay.py"),
                                          path))
            if a.v:
                print("  inputs:", job["values"])
                print(r.get("tb", ""))
        sys.exit(1)
    for p in (problems + soft)[:10]:
        print("INCONCLUSIVE", p)
    print("%s %s: %d paths, %d decisions, %d assertions, %d queries (%.1fs solver), "
          "%d validated, %.1fs" % (a.prop, "no answer" if problems else "held", states,
                                   transitions, stats.asserts, stats.queries, stats.solver_s,
                                   validated, time.time() - t0))
    sys.exit(2 if problems else 0)


ASSUMPTIONS = [
    "signatures, MACs and hashes are injective and unforgeable (uninterpreted functions); "
    "base64/JSON/URL encodings are modelled by their inverses",
    "generated random strings are distinct and not guessable by the environment",
    "the clock moves only between calls of the library",
    "structural bounds (number of sessions, messages, optional claims) as listed per harness; "
    "string contents and lengths are unbounded unless the harness says otherwise",
]

if __name__ == "__main__":
    main()
