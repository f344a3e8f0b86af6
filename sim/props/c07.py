"""C07: the served path row of each distribution parameter minimises the criterion over the discounted weighted history."""
import numpy as np

from .. import ests, irls, models, world
from ..common import LIN_STUB, TRUST
from ..core import Discard

ID = "C07"
LEVEL = "exploration"
RUNS = {"quick": 900, "thorough": 20000}
ORACLE = "the criterion computed by definition from every accepted observation (weighted working residuals, or an independent log density) under the path in force when it arrived"
RULE = ("seeded deployment histories of distributional regressions with path-based methods, both selection strategies, all criteria, weights and per-parameter forgetting; after every call the criterion "
        "of every path row is recomputed from the whole accepted history and the served row must be minimal. Non-trivial: at least two updates and some parameter's served row is neither "
        "always the first nor always the last; distinct by event-log digest")
STATE_MEASURE = "hash of (distribution, strategy, criterion, selected rows, batch size class)"
REAL = ["OnlineDistributionalRegression model selection", "InformationCriterion", "distributions and links", "LassoPath, ElasticNetPath (numba)", "OnlineScaler", "diagnostics"]
STUB = LIN_STUB
ASSUMPTIONS = TRUST + ["rows whose criterion is within 1e-6 (relative to history length and magnitude) of the minimum are all acceptable",
                       "the public diagnostics report the iterations that ran (C14)"]
simplify = ests.simplify_any


def plan(rng, i, tier):
    cfg, data, n_init = ests.rnd_gamlss(rng, methods=("lasso", "lasso", "elasticnet", "ols"), tol=1e-6)
    ms = [v for _, v in cfg["method"]["per"]] if isinstance(cfg["method"], dict) and "per" in cfg["method"] else [cfg["method"]]
    if all(m == "ols" or m["name"] == "ols" for m in ms):
        cfg["method"] = ests.rnd_method(rng, "lasso", None, 1e-6)
        ms = [cfg["method"]]
    for m in ms:
        if isinstance(m, dict) and m["name"] != "ols":
            m["max_iterations"] = 1000
            m["lambda_n"] = rng.choice([5, 10, 20])
            m["lambda_eps"] = rng.choice([1e-1, 1e-2])
    data["signal"] = rng.choice([0.05, 0.2, 0.3])
    data["w"] = rng.choice(["none", "random", "int", "zeros", "wide", "small"])
    cfg["forget"] = {"per": [[p, rng.choice([0.0, 0.001, 0.01, 0.05])] for p in range(ests.k_of(cfg))]} if rng.random() < 0.5 else rng.choice([0.0, 0.01, 0.05])
    ops, net = world.schedule(rng, data["n"], n_init, first=rng.choice(["fit", "fit", "partial_fit"]), rejects=0.05, reject_kinds=["nan_x", "cols"])
    return {"cfg": cfg, "data": data, "ops": world.cap(ops, 8, rng), "net": net}


def warmup():
    ests.warm(("gamlss",))


def contribution(r, p, it, strategy):
    path = np.asarray(it["coef_path"])
    P = r["A"][p] @ path.T
    e = r["w"] * models.ages_weights(len(r["y"]), r["fs"][p])
    if strategy == "local_rss":
        return ((e * it["weights"])[:, None] * (it["working_vectors"][:, None] - P) ** 2).sum(axis=0)
    out = np.zeros(P.shape[1])
    th = np.array(it["fv"])
    for j in range(P.shape[1]):
        th[:, p] = r["maps"][p](P[:, j])
        lp = r["D"].logpdf(r["y"], th)
        lp = np.where(e > 0, lp, 0.0)
        out[j] = np.sum(e * lp)
    return out


def execute(plan, ctx):
    acc, upd, sel = {}, 0, {}
    for r in irls.history(plan, ctx):
        strat = r["cfg"]["ms"]
        if any(np.any(np.abs(it["fv"]) > 1e6) for b in r["blocks"] for it in b[2]):
            raise Discard()
        upd += not r["init"]
        chosen = []
        for p in range(r["k"]):
            if not irls.method_spec(r["cfg"], p)["path"]:
                continue
            cand, _ = irls.committed(r["blocks"], p, r["coef"][p], r["path"][p])
            where = f"step {r['step']} parameter {p} ({strat})"
            ctx.require(cand, "served-coef-not-recorded", f"{where}: served coefficients are the result of no recorded round")
            g = (1 - r["fs"][p]) ** len(r["y"])
            with np.errstate(all="ignore"):
                if r["init"]:
                    acc[p] = [contribution(r, p, it, strat) for it in cand]
                else:
                    new = contribution(r, p, cand[0], strat)
                    acc[p] = [g * a + new for a in acc[p]]
            n = models.eff_len(r["fs"][p], r["wsum"])
            ic = ests.setting(r["cfg"], "ic", "aic", p)
            path, coef = r["path"][p], r["coef"][p]
            hits = np.flatnonzero(np.max(np.abs(path - coef), axis=1) == 0.0)
            ctx.require(hits.size > 0, "coef-not-in-path", f"{where}: served coefficients are no row of the path")
            a = np.abs(path)
            p_hi, p_lo = (a > 0).sum(axis=1), (a > 1e-8 * (1 + a.max())).sum(axis=1)
            keep, why = [], None
            for h in acc[p]:
                if not np.all(np.isfinite(h)) or (strat == "local_rss" and np.min(h) <= 1e-12 * np.max(h)):
                    raise Discard()
                f = (lambda q: models.ic_from_rss(ic, n, q, h)) if strat == "local_rss" else (lambda q: models.ic_from_ll(ic, n, q, h))
                v1, v2 = f(p_hi), f(p_lo)
                hi, lo = np.maximum(v1, v2), np.minimum(v1, v2)
                tol = 1e-6 * (n + 1) + 1e-8 * np.max(np.abs(h if strat == "global_ll" else 0.0))
                ctx.checks += 1
                if np.min(lo[hits]) <= np.min(hi) + tol:
                    keep.append(h)
                else:
                    why = why or f"{where}: served row {hits.tolist()} has {ic}={np.min(lo[hits]):.6g}, row {int(np.argmin(hi))} has {np.min(hi):.6g} (n={n:.5g})"
            if not keep:
                ctx.fail("selected-row-not-minimal", why)
            acc[p] = keep
            chosen.append(int(hits[0]))
            sel.setdefault(p, set()).add(0 if hits[0] == 0 else 2 if hits[-1] == len(path) - 1 else 1)
            ctx.probe("selected_interior", 0 < hits[0] < len(path) - 1)
        ctx.log("sel", tuple(chosen))
        ctx.logbits("coef", r["coef"])
        ctx.state(r["cfg"]["dist"], strat, str(r["cfg"].get("ic")), tuple(chosen), min(len(r["y"]), 9))
    ctx.nontrivial = upd >= 2 and any(s not in ({0}, {2}) for s in sel.values())
