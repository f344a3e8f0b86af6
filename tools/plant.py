#!/usr/bin/env python3
"""Planted bugs: generate, confirm, and run the checks against them. Development tool, used by no check.

  plant.py make DEFS.py [ID...]   write seeded/<id>/ from a definition file (list BUGS of dicts) if confirmed
  plant.py confirm ID...          confirm existing seeded/<id>: applies, builds, 821 tests, demo clean/patched
  plant.py catch [ID...] [--checks C01,C02] [--all]   run checks against the patched scratch copy (VERIF_REPO)
"""
import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
PY = "/opt/venv/bin/python"
ENV = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1",
       "OPENBLAS_NUM_THREADS": "1", "POLARS_MAX_THREADS": "1", "PYTHONNOUSERSITE": "1"}
DEMO = '#!/bin/bash\n# exits 0 when the behaviour holds, nonzero when it does not\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'
IGN = """test_derivatives.py test_dist.py betainflated/test_coefs.py betainflated/test_dist.py betainflatedzero/test_coefs.py
exponential/test_coefs.py gumbel/test_coefs.py inversegamma/test_coefs.py inversegaussian/test_coefs.py logistic/test_coefs.py
reversegumbel/test_coefs.py zeroadjustedgamma/test_coefs.py""".split()


def scratch(tag):
    d = tempfile.mkdtemp(prefix=f"plant_{tag}_", dir="/tmp")
    r = os.path.join(d, "repo")
    shutil.copytree("/repo", r, symlinks=True)
    return d, r


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=timeout)


def tests(r):
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    x = os.path.join(os.path.dirname(r), "junit.xml")
    out = os.path.join(os.path.dirname(r), "out.json")
    env = {**ENV, "PYTHONPATH": os.path.join(r, "src")}
    p = sh([PY, "-m", "pytest", "tests", "-q", "-n", "8", "-p", "no:cacheprovider", "--disable-warnings", "--randomly-seed=1",
            "--randomly-dont-reorganize", "--timeout=300", "--continue-on-collection-errors", "-o", "junit_family=xunit2",
            f"--junitxml={x}"] + [f"--ignore=tests/distributions/{f}" for f in IGN], r, env)
    sh([PY, "/opt/vp/results.py", out, f"junit:{x}"], r, env)
    res = json.load(open(out))
    passed = set(res["passed"])
    missing = sorted(base - passed)
    return len(passed), missing, p.stdout[-300:]


def demo(d, r):
    return sh(["bash", os.path.join(d, "demo.sh")], r, {**ENV, "PYTHONPATH": os.path.join(r, "src")}, 300)


def confirm(d, quick=False):
    t, r = scratch("c")
    try:
        a = demo(d, r)
        if a.returncode:
            return f"demo fails on the unchanged tree: {a.stdout[-600:]} {a.stderr[-800:]}"
        p = sh(["git", "apply", os.path.join(d, "patch.diff")], r)
        if p.returncode:
            return "does not apply: " + p.stderr
        b = demo(d, r)
        if b.returncode == 0:
            return f"demo passes with the change: {b.stdout[-500:]}"
        msg = (b.stdout + b.stderr).strip().splitlines()[-1:]
        if quick:
            return None, msg
        n, missing, tail = tests(r)
        if missing:
            return f"tests fail: {len(missing)} {missing[:4]} {tail}"
        return None, (n, msg)
    finally:
        shutil.rmtree(t)


def make(bug):
    d = os.path.join(SEEDED, bug["id"])
    t, r = scratch("m")
    try:
        for f, old, new in bug["edits"]:
            path = os.path.join(r, "src/ondil", f)
            s = open(path).read()
            if s.count(old) != 1:
                return f"edit matches {s.count(old)} times in {f}: {old[:60]!r}"
            open(path, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], r).stdout
    finally:
        shutil.rmtree(t)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    open(os.path.join(d, "demo.py"), "w").write(bug["demo"].lstrip())
    json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    res = confirm(d)
    if not isinstance(res, tuple):
        shutil.rmtree(d)
    return res


def catch(bid, checks=None, extra=()):
    d = os.path.join(SEEDED, bid)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    t, r = scratch("k")
    out = {}
    try:
        p = sh(["git", "apply", os.path.join(d, "patch.diff")], r)
        assert p.returncode == 0, p.stderr
        for c in checks or [prop]:
            q = sh(["/usr/bin/env", "python3", os.path.join(HERE, "check.py"), c, *extra], HERE,
                   {**os.environ, "VERIF_REPO": r, "VERIF_SEED": "1"}, 1200)
            line = [l for l in q.stdout.splitlines() if l.startswith(("VIOLATION", "KNOWN"))]
            info = [l for l in q.stdout.splitlines() if l.strip()][-3:]
            out[c] = (q.returncode, (line or info)[:1], q.stderr[-300:] if q.returncode not in (0, 1) else "")
    finally:
        shutil.rmtree(t)
    return prop, out


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        ns = {}
        exec(open(args[0]).read(), ns)
        for b in ns["BUGS"]:
            if len(args) > 1 and b["id"] not in args[1:]:
                continue
            if len(args) == 1 and os.path.exists(os.path.join(SEEDED, b["id"])):
                continue
            print(b["id"], make(b), flush=True)
    elif cmd == "confirm":
        for a in args or sorted(os.listdir(SEEDED)):
            print(a, confirm(os.path.join(SEEDED, a)), flush=True)
    elif cmd == "catch":
        checks, ids, it = None, [], iter(args)
        for a in it:
            if a == "--checks":
                checks = next(it).split(",")
            elif a == "--all":
                checks = [f"C{i:02d}" for i in range(1, 19)]
            else:
                ids.append(a)
        for a in ids or sorted(os.listdir(SEEDED)):
            p, o = catch(a, checks)
            print(a, p, json.dumps(o), flush=True)
