"""Execute one run with its trace: one.py PROP INDEX [SEED] [TIER]"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
pid, i = sys.argv[1], int(sys.argv[2])
seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
tier = sys.argv[4] if len(sys.argv) > 4 else "quick"
import check  # noqa: E402
os.environ.update(check.PIN)
import warnings  # noqa: E402
warnings.simplefilter("ignore")
prop = check.load(pid)
from sim import core  # noqa: E402
p = core.make_plan(prop, seed, i, tier)
print({k: v for k, v in p.items() if k != "ops"})
for n, o in enumerate(p.get("ops", [])):
    print("  ", n, {k: (v if k != "rows" or len(v) < 8 else f"{len(v)} rows") for k, v in o.items()})
with check.muted():
    r = core.execute_plan(prop, p, trace=True)
print("\n".join(r.pop("trace")))
print({k: v for k, v in r.items() if k not in ("states",)})
