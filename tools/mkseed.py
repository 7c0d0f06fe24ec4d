#!/usr/bin/env python3
"""mkseed.py SPEC.py ...: make /verif/seeded/<id>/ from specs (PROP, NEEDS, BREAKS, EDITS, DEMO),
confirming that the bug builds, passes the stable tests, and that the demo tells it apart."""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def tests(tree):
    w = tempfile.mkdtemp(prefix="mkseed")
    try:
        shutil.copytree(tree + "/tests", w + "/tests")
        for f in ("pytest.ini", "tox.ini", "setup.cfg", "pyproject.toml", "conftest.py"):
            if os.path.exists(tree + "/" + f):
                shutil.copy(tree + "/" + f, w)
        env = dict(os.environ, PYTHONPATH=tree + "/src")
        env.pop("PYTHONHASHSEED", None)
        sh("%s -m pytest -q -p no:cacheprovider --rootdir=%s -o junit_family=xunit2 "
           "--junitxml=%s/j.xml tests" % (PY, w, w), cwd=w, env=env)
        sh("python3 /opt/vp/results.py %s/o.json junit:%s/j.xml" % (w, w))
        got = set(json.load(open(w + "/o.json"))["passed"])
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        return [t for t in stable if t not in got]
    finally:
        shutil.rmtree(w)


def make(spec):
    s = runpy.run_path(spec)
    sid = os.path.basename(spec)[:-3]
    tree = tempfile.mkdtemp(prefix="seed-" + sid + "-")
    try:
        sh("git -C /repo archive HEAD | tar x -C " + tree)
        clean = tree + "-clean"
        shutil.copytree(tree, clean)
        sh("git init -q . && git add -A && git commit -qm x", cwd=tree)
        for f, old, new in s["EDITS"]:
            p = tree + "/src/oidcrp/" + f
            t = open(p).read()
            if t.count(old) != 1:
                return "%s: %d occurrences of %r in %s" % (sid, t.count(old), old[:60], f)
            open(p, "w").write(t.replace(old, new))
        diff = sh("git diff", cwd=tree).stdout
        d = os.path.join(HERE, "seeded", sid)
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(s["DEMO"])
        shutil.copy(HERE + "/harness/common.py", d + "/fx.py")
        shutil.copy(HERE + "/harness/keys.json", d + "/keys.json")
        open(d + "/demo.sh", "w").write(
            "#!/bin/bash\n# exit 0: behaves; nonzero: the property is broken\n"
            "export PYTHONPATH=\"$PWD/src\" PYTHONDONTWRITEBYTECODE=1\n"
            "exec /opt/venv/bin/python \"$(dirname \"$0\")/demo.py\"\n")
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]},
                  open(d + "/meta.json", "w"), indent=1)
        r = sh("bash %s/demo.sh" % d, cwd=clean)
        if r.returncode:
            return "%s: demo fails on the clean tree: %s" % (sid, (r.stdout + r.stderr)[-800:])
        r2 = sh("bash %s/demo.sh" % d, cwd=tree)
        if not r2.returncode:
            return "%s: demo passes with the bug" % sid
        m = tests(tree)
        if m:
            return "%s: tests fail: %s" % (sid, m)
        return "%s ok: %s" % (sid, (r2.stdout + r2.stderr).strip().splitlines()[-1][:150])
    finally:
        shutil.rmtree(tree, ignore_errors=True)
        shutil.rmtree(tree + "-clean", ignore_errors=True)


if __name__ == "__main__":
    for f in sys.argv[1:]:
        print(make(f), flush=True)
