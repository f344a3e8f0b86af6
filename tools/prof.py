"""Per-run cost profile of a property: prof.py PROP N"""
import os
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
pid, n = sys.argv[1], int(sys.argv[2])
import check  # noqa: E402
os.environ.update(check.PIN)
import warnings  # noqa: E402
warnings.simplefilter("ignore")
prop = check.load(pid)
from sim import core  # noqa: E402
so = sys.stdout
sys.stdout = open(os.devnull, "w")
prop.warmup()
rows = []
for i in range(n):
    p = core.make_plan(prop, 1, i, "quick")
    t = time.time()
    r = core.execute_plan(prop, p)
    rows.append((time.time() - t, i, p.get("cfg", {}).get("est"), p.get("cfg", {}).get("dist"), str(p.get("cfg", {}).get("method"))[:60], len(p.get("ops", [])), r["violation"] and r["violation"]["kind"], (r["harness_error"] or "")[-200:]))
sys.stdout = so
rows.sort(reverse=True)
for x in rows[:15]:
    print(x)
print("total", sum(x[0] for x in rows), "mean", sum(x[0] for x in rows) / n)
