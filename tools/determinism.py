#!/usr/bin/env python3
"""Determinism of the simulator: each property's first N runs executed three times - 8 workers, 3 workers, another hash
seed - must give identical per-run digests. Development tool; prints one line per property."""
import json, os, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = sys.argv[2:] or [f"C{i:02d}" for i in range(1, 19)]
n = sys.argv[1] if len(sys.argv) > 1 else "80"
bad = 0
with tempfile.TemporaryDirectory() as t:
    for p in props:
        got = []
        for k, (w, h) in enumerate((("8", "0"), ("3", "0"), ("5", "77"))):
            f = os.path.join(t, f"{p}-{k}.json")
            env = {**os.environ, "VERIF_HASHSEED": h}
            subprocess.run(["python3", os.path.join(HERE, "check.py"), p, "--runs", n, "--workers", w, "--digests", f], env=env, capture_output=True)
            got.append(json.load(open(f)))
        diff = [i for i in got[0] if not got[0][i] == got[1].get(i) == got[2].get(i)]
        bad += bool(diff)
        print(p, f"{len(got[0])} runs x 3:", "identical" if not diff else f"DIFFER {diff[:5]}", flush=True)
sys.exit(bool(bad))
