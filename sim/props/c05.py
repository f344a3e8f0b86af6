"""C05: the served row of the path minimises the criterion over the discounted weighted residual history."""
import numpy as np

from .. import linpath, models
from ..common import LIN_STUB, TRUST

ID = "C05"
LEVEL = "exploration"
RUNS = {"quick": 6000, "thorough": 60000}
ORACLE = "the criterion computed by definition from the residuals of every accepted observation under the path in force when it arrived"
RULE = ("seeded deployment histories of path-based linear models (lasso, elastic net, OnlineLasso); after every call the reference recomputes every row's discounted weighted residual "
        "sum over the whole accepted history and the criterion, and the served coefficients must be a minimal row. Non-trivial: at least two updates and the "
        "selected row changed over the run or is not the last row; distinct by event-log digest")
STATE_MEASURE = "hash of (criterion, selected row, path length, batch size class, weight kind, forget)"
REAL = ["OnlineLinearModel", "OnlineLasso", "LassoPath, ElasticNetPath", "InformationCriterion", "coordinate descent and gram recursion (numba)", "OnlineScaler"]
STUB = LIN_STUB + ["coordinate permutations (seeded generator of the compiled code)"]
ASSUMPTIONS = TRUST + ["rows whose criterion is within 1e-6 (relative to the history length) of the minimum are all acceptable",
                       "a coefficient counts as non-zero when it is not within 1e-8 of zero; rows with a coefficient between 1e-10 and 1e-6 are given either count"]
simplify = linpath.simplify


def plan(rng, i, tier):
    p = linpath.rnd_plan(rng, ("lasso", "lasso", "elasticnet", "onlinelasso"))
    c = p["cfg"]
    m = c["kw"] if c["est"] == "lasso" else c["method"]
    m["max_iterations"] = max(m["max_iterations"], 200)
    m["lambda_n"] = rng.choice([5, 10, 20, 30])
    m["lambda_eps"] = rng.choice([1e-1, 1e-2, 1e-3])
    if rng.random() < 0.3:
        p["data"]["noise"] = 3.0
    return p


def warmup():
    linpath.warm()


def execute(plan, ctx):
    upd, rows = 0, set()
    rss = None
    for r in linpath.history(plan, ctx):
        s, path, f = r["s"], r["path"], r["forget"]
        res2 = (r["y"][:, None] - r["A"] @ path.T) ** 2
        disc = r["w"] * models.ages_weights(len(r["y"]), f)
        new = (disc[:, None] * res2).sum(axis=0)
        rss = new if r["init"] else (1 - f) ** len(r["y"]) * rss + new
        n = models.eff_len(f, r["wsum"])
        if n <= 3 or np.min(rss) <= 1e-12 * np.max(rss):
            return  # log(log(n)) and perfect fits are outside the premise
        a = np.abs(path)
        p_hi, p_lo = (a > 1e-10).sum(axis=1), (a > 1e-6).sum(axis=1)
        ic_hi, ic_lo = models.ic_from_rss(s["ic"], n, p_hi, rss), models.ic_from_rss(s["ic"], n, p_lo, rss)
        hi, lo = np.maximum(ic_hi, ic_lo), np.minimum(ic_hi, ic_lo)
        hits = np.flatnonzero(np.max(np.abs(path - r["coef"]), axis=1) <= 1e-12 * (1 + np.max(np.abs(path))))
        ctx.require(hits.size > 0, "coef-not-in-path", lambda: f"step {r['step']}: coef_ {r['coef']} is not a row of the current path")
        tol = 1e-6 * (n + 1)
        best = np.min(hi)
        ok = np.min(lo[hits]) <= best + tol
        ctx.require(ok, "selected-row-not-minimal", lambda: f"step {r['step']}: served row {hits.tolist()} has {s['ic']}={np.min(lo[hits]):.6g}, row {int(np.argmin(hi))} has {best:.6g} (n={n:.5g})")
        pq = np.asarray(r["est"].predict(r["data"].X[:3]))
        want = models.design(r["sc"].transform(r["data"].X[:3]), s["icpt"]) @ r["coef"]
        ctx.require(models.relerr(pq, want, max(np.max(np.abs(want)), 1e-3 * np.max(np.abs(r["data"].y)))) <= 1e-7, "predict-not-selected-row", lambda: f"step {r['step']}: predict {pq} vs selected row {want}")
        rows.add(int(hits[0]))
        upd += not r["init"]
        ctx.log("sel", int(hits[0]))
        ctx.logbits("coef", r["coef"])
        ctx.state(s["ic"], int(hits[0]), s["n"], min(len(r["y"]), 9), plan["data"]["w"], f)
        ctx.probe("selected_interior", 0 < hits[0] < s["n"] - 1)
        ctx.probe("selected_last", hits[0] == s["n"] - 1)
    ctx.nontrivial = upd >= 2 and (len(rows) > 1 or (s["n"] - 1) not in rows)
