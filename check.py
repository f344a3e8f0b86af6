#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--runs N] | check.py --replay FILE

Exit 0: the property held on everything explored. Exit 1 with a VIOLATION line: it is broken.
Exit 2: the machinery itself failed (never a verdict).
"""
import argparse
import contextlib
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PIN = {
    "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONNOUSERSITE": "1",
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "1", "NUMBA_OPT": "1", "POLARS_MAX_THREADS": "1", "TZ": "UTC", "LANG": "C.UTF-8",
}
# properties whose decisions lie in the Python code: compiled functions run as their Python source (traceable, no start-up cost)
NOJIT = {"C03", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18"}
PY = "/opt/venv/bin/python"


def pin_environment(prop):
    env = dict(PIN)
    if os.environ.get("VERIF_HASHSEED"):
        env["PYTHONHASHSEED"] = os.environ["VERIF_HASHSEED"]
    if os.environ.get("VERIF_PINNED") == prop and all(os.environ.get(k) == v for k, v in env.items()):
        return
    env["VERIF_PINNED"] = prop
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], {**os.environ, **env})


@contextlib.contextmanager
def muted():
    sys.stdout.flush()
    so, dn = os.dup(1), os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    try:
        yield
    finally:
        sys.stdout.flush()
        os.dup2(so, 1)
        os.close(so)
        os.close(dn)


def warm(prop):
    """Compile before forking. A call that fails here fails again, visibly, in the runs."""
    try:
        prop.warmup()
    except Exception as e:  # noqa: BLE001
        print(f"start-up: {type(e).__name__}: {e}", file=sys.stderr)


def load(prop):
    sys.path.insert(0, HERE)
    from sim import core
    sys.path.insert(0, core.SRC)
    mod = importlib.import_module(f"sim.props.{prop.lower()}")
    from sim import gen
    gen.import_check()
    if prop in NOJIT:
        gen.unjit()
    return mod


def known_findings(pid):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [f for f in json.load(open(path))["findings"] if f["property"] == pid and f["status"] == "known"]


def match_known(v, known):
    for k in known:
        m = k["match"]
        if v["kind"] == m["kind"] and all(v.get("detail", {}).get(a) == b for a, b in m.get("detail", {}).items()):
            return k
    return None


def fresh_replay(path, limit):
    """Replay in a fresh interpreter; returns the reported (kind, digest) or None."""
    env = {k: v for k, v in os.environ.items() if k != "VERIF_PINNED"}
    try:
        r = subprocess.run([sys.executable, os.path.abspath(__file__), "--replay", path, "--json"], env=env,
                           capture_output=True, text=True, timeout=limit)
    except subprocess.TimeoutExpired:
        return {"kind": "no-termination", "digest": None}
    for line in r.stdout.splitlines():
        if line.startswith("REPLAY-JSON "):
            return json.loads(line[len("REPLAY-JSON "):])
    return None


def do_replay(a):
    rp = json.load(open(a.replay))
    pin_environment(rp["property"])
    prop = load(rp["property"])
    from sim import core
    import warnings
    warnings.simplefilter("ignore")
    with muted():
        warm(prop)
        res = core.execute_plan(prop, rp["plan"], trace=True)
    if res["harness_error"]:
        print(res["harness_error"])
        return 2
    v = res["violation"]
    if a.json:
        print("REPLAY-JSON " + json.dumps({"kind": v and v["kind"], "digest": res["digest"]}))
        return 0
    for line in (res["trace"] or [])[-40:]:
        print("  ", line)
    if v:
        print(f"reproduced: {v['kind']}: {v['message']}")
        same = rp.get("digest") in (None, res["digest"]) and rp.get("kind") == v["kind"]
        print("identical to the recorded run" if same else "differs from the recorded run")
        print(f"VIOLATION property={rp['property']} replay={os.path.abspath(a.replay)}")
        return 1
    print("no violation on this tree")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "8")))
    ap.add_argument("--replay")
    ap.add_argument("--json", action="store_true")
    ap.add_argument("--digests", help="write per-run digests to this file (determinism check)")
    ap.add_argument("--all", action="store_true", help="do not stop at the first violation; summarise kinds")
    a = ap.parse_args()
    if a.replay:
        return do_replay(a)
    pid = a.property
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    pin_environment(pid)
    t0 = time.time()
    prop = load(pid)
    from sim import core
    import warnings
    warnings.simplefilter("ignore")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    runs = a.runs or prop.RUNS[tier]
    print(f"{pid} tier={tier} VERIF_SEED={seed} runs={runs} repo={core.REPO}", flush=True)
    try:
        with muted():
            warm(prop)
    except Exception as e:  # noqa: BLE001
        if not core.frames_in_repo(e.__traceback__):
            raise
        print(f"warm-up call failed inside the repository: {type(e).__name__}: {e}", flush=True)
    limit = getattr(prop, "RUN_LIMIT", 120)
    cap = getattr(prop, "WALL", {"quick": 480, "thorough": 7200})[tier]
    pool = core.Pool(prop, seed, tier, a.workers, limit)
    t_jit = time.time() - t0
    results, bad, known_hits, herr = {}, {}, {}, []
    known = known_findings(pid)
    kinds = {}

    def on_result(i, r):
        results[i] = r
        if r.get("hang"):
            r["violation"] = {"kind": "no-termination", "message": f"run {i} did not finish within {limit}s of real time "
                              "(every simulated call is bounded)", "detail": {}, "step": None}
        if r.get("harness_error"):
            herr.append((i, r["harness_error"]))
            return False
        v = r.get("violation")
        if v:
            kinds.setdefault(v["kind"], []).append(i)
            k = match_known(v, known)
            if k:
                known_hits.setdefault(k["what"], []).append(i)
                return False
            bad[i] = v
            return not a.all
        return False

    t1 = time.time()
    pool.map(((i, i) for i in range(runs)), t0 + cap, on_result)
    t_run = time.time() - t1
    rc = 0
    nviol = 0
    if a.all:
        for k, v in sorted(kinds.items()):
            print(f"  kind {k}: {len(v)} runs, e.g. {v[:8]}  e.g. {results[v[0]]['violation']['message'][:500]}")
    if bad:
        i = min(bad)
        v = bad[i]
        plan = core.make_plan(prop, seed, i, tier)
        print(f"violation in run {i} (seed {seed}): {v['kind']}: {v['message']}", flush=True)
        small = plan
        if os.environ.get("VERIF_DETECT_ONLY"):   # development: mutation campaigns only need the verdict
            pool.close()
            return 1
        if v["kind"] != "no-termination":
            def pool_run(p):
                box = {}
                pool.map([(0, p)], time.time() + 60, lambda _, r: box.update(r=r) or False)
                return box.get("r", {})
            small = core.minimise(prop, pool_run, plan, v["kind"], time.time() + (60 if tier == "quick" else 300))
            rr = pool_run(small)
            final = rr.get("violation") or v
            digest = rr.get("digest")
        else:
            final, digest = v, None
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", f"{pid}-s{seed}-r{i}.json")
        doc = {"property": pid, "seed": seed, "run": i, "tier": tier, "kind": final["kind"], "message": final["message"],
               "detail": final.get("detail"), "digest": digest, "ops_before": len(plan.get("ops", [])),
               "ops_after": len(small.get("ops", [])), "plan": small}
        json.dump(doc, open(path, "w"), indent=1)
        rep = fresh_replay(path, limit + 60)
        if rep is not None and rep.get("kind") == final["kind"]:
            print(f"minimised to {doc['ops_after']} of {doc['ops_before']} operations; replay in a fresh process reproduces it"
                  f"{' bit-identically' if rep.get('digest') == digest else ''}")
            nviol = len(bad)
            rc = 1
        else:
            # a shrunk plan that does not replay is never reported: fall back to the original plan
            doc.update(plan=plan, kind=v["kind"], digest=results[i].get("digest"), ops_after=len(plan.get("ops", [])))
            json.dump(doc, open(path, "w"), indent=1)
            rep = fresh_replay(path, limit + 60)
            if rep is not None and rep.get("kind") == v["kind"]:
                nviol, rc = len(bad), 1
            else:
                print(f"HARNESS-ERROR: violation did not replay in a fresh process: {rep}")
                rc = 2
        if rc == 1:
            print(f"{final['kind']}: {final['message']}")
            print(f"VIOLATION property={pid} replay={path}", flush=True)
    elif herr:
        print("HARNESS-ERROR in run", herr[0][0])
        print(herr[0][1])
        rc = 2
    for what, idx in known_hits.items():
        print(f"KNOWN-FINDING: property={pid} {what} (runs {idx[:5]})")
    pool.close()
    wall = time.time() - t0
    write_evidence(prop, pid, tier, seed, results, wall, t_run, t_jit, nviol, a.workers)
    if a.digests:
        json.dump({i: r.get("digest") for i, r in sorted(results.items())}, open(a.digests, "w"))
    done = [r for r in results.values() if "digest" in r]
    print(f"{pid}: {len(done)} runs, {sum(r['checks'] for r in done)} oracle evaluations, "
          f"{sum(r['discard'] for r in done)} discarded, {wall:.1f}s wall ({t_jit:.1f}s start-up), rc={rc}", flush=True)
    return rc


def write_evidence(prop, pid, tier, seed, results, wall, t_run, t_jit, nviol, workers):
    from collections import Counter
    from sim import core
    done = {i: r for i, r in results.items() if "digest" in r}
    ok = {i: r for i, r in done.items() if not r["discard"]}
    faults, probes, calls = Counter(), Counter(), Counter()
    states = set()
    for r in ok.values():
        faults.update(r["faults"]); probes.update(r["probes"]); calls.update(r["calls"]); states.update(r["states"])
    nontriv = {r["digest"] for r in ok.values() if r["nontrivial"]}
    samples = []
    for i in sorted(ok)[:200]:
        if ok[i]["nontrivial"]:
            p = core.make_plan(prop, seed, i, tier)
            s = json.dumps(p)
            samples.append({"run": i, "plan": json.loads(s) if len(s) < 6000 else s[:6000] + "...", "digest": ok[i]["digest"],
                            "faults_fired": ok[i]["faults"], "oracle_evaluations": ok[i]["checks"]})
            if len(samples) >= 2:
                break
    cov = {
        "evaluations": len(ok), "distinct_nontrivial": len(nontriv),
        "rule": prop.RULE,
        "samples": samples,
        "simulated_runs_per_hour": round(len(done) / max(t_run, 1e-6) * 3600),
        "first_seed_index": min(done) if done else None, "last_seed_index": max(done) if done else None,
        "simulated_time_units": round(sum(r["sim_time"] for r in ok.values()), 1),
        "events_logged": sum(r["events"] for r in ok.values()),
        "oracle_evaluations": sum(r["checks"] for r in ok.values()),
        "api_calls_on_real_code": dict(sorted(calls.items())),
        "faults_fired": dict(sorted(faults.items())),
        "probes_hit": dict(sorted(probes.items())),
        "distinct_states": len(states), "state_measure": prop.STATE_MEASURE,
        "discarded_outside_premise": sum(r["discard"] for r in done.values()),
        "components_real": prop.REAL, "components_stubbed": prop.STUB,
        "workers": workers, "startup_s": round(t_jit, 1), "exhaustive": False,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": prop.LEVEL, "coverage": cov,
          "assumptions": prop.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
