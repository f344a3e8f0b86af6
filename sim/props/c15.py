"""C15: served predictions are valid and coherent at every point of the stream."""
import numpy as np

from .. import ests, gen, irls, models, world
from ..common import LIN_STUB, TRUST, add_stats, call
from ..core import Discard

ID = "C15"
LEVEL = "exploration"
RUNS = {"quick": 2500, "thorough": 40000}
ORACLE = "independent distribution formulas (scipy) evaluated at the predicted parameters, and the link maps evaluated at the reported link-scale prediction"
RULE = ("seeded deployment histories of distributional regressions (17 distributions, default and alternative links, all methods) with outlying and boundary responses; after every accepted call drawn rows, "
        "including single rows, repeated rows and rows at the edge of the seen covariates, are requested through every prediction method and compared with independent formulas. "
        "Non-trivial: at least one update and one multi-level quantile request; distinct by event-log digest")
STATE_MEASURE = "hash of (distribution, links, method, call, rows requested, number of levels)"
REAL = ["OnlineDistributionalRegression", "distributions and links", "estimation methods", "OnlineScaler"]
STUB = LIN_STUB
ASSUMPTIONS = TRUST + ["compiled functions run as their Python source", "histories whose first fit raises are outside the premise (discarded)",
                       "quantiles are compared away from the probability atoms and where the independent quantile function is accurate"]
simplify = ests.simplify_any
LOWER = {"Normal": [None, 0], "NormalMeanVariance": [None, 0], "StudentT": [None, 0, 0], "JSU": [None, 0, None, 0], "Gamma": [0, 0], "LogNormal": [None, 0], "LogNormalMedian": [0, 0],
         "Logistic": [None, 0], "Exponential": [0], "Beta": [0, 0], "Gumbel": [None, 0], "ReverseGumbel": [None, 0], "InverseGaussian": [0, 0], "InverseGamma": [0, 0],
         "BetaInflated": [0, 0, 0, 0], "BetaInflatedZero": [0, 0, 0], "ZeroAdjustedGamma": [0, 0, 0]}
UPPER = {"Beta": [1, 1], "BetaInflated": [1, 1, None, None], "BetaInflatedZero": [1, 1, None], "ZeroAdjustedGamma": [None, None, 1]}


def plan(rng, i, tier):
    cfg, data, n_init = ests.rnd_gamlss(rng, methods=("ols", "ols", "ols", "ols", "lasso", "ridge"))
    if gen.DISTS[cfg["dist"]].support[1] != 1 and rng.random() < 0.3:
        data["outliers"] = {str(rng.randrange(data["n"])): rng.choice([5.0, 10.0, 0.05]) for _ in range(rng.choice([1, 2]))}
    ops, net = world.schedule(rng, data["n"], n_init, first=rng.choice(["fit", "fit", "partial_fit"]), rejects=0.05, reject_kinds=["nan_x"])
    ops = world.cap(ops, 6, rng)
    for o in ops:
        o["ask"] = {"rows": [rng.randrange(data["n"]) for _ in range(rng.choice([1, 1, 2, 3, 5]))], "edge": rng.choice([1.0, 1.0, 1.5, 2.0]),
                    "levels": [rng.choice([1e-4, 0.001, 0.999, 0.9999]) if rng.random() < 0.15 else round(rng.uniform(0.005, 0.995), 4) for _ in range(rng.choice([1, 2, 3, 7]))],
                    "sorted": rng.random() < 0.5, "scalar": rng.random() < 0.3}
    return {"cfg": cfg, "data": data, "ops": ops, "net": net}


def warmup():
    ests.warm(("gamlss",))


def near(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    with np.errstate(all="ignore"):
        return np.abs(a - b) <= tol * (1 + np.abs(b))


def execute(plan, ctx):
    add_stats(ctx, plan)
    cfg, data = plan["cfg"], gen.Data(plan["data"])
    d = plan["data"]["d"]
    D, maps = irls.dist_of(cfg)
    k = D.k
    eqs = ests.full_eq(cfg)
    icpt = [ests.setting(cfg, "intercept", True, p) for p in range(k)]
    est, fitted, upd, multi, bad_state = gen.build(cfg), False, 0, False, False
    sc = None
    mid = data.X.mean(axis=0)
    for step, op in enumerate(plan["ops"]):
        ctx.step = step
        if op["op"] == "update" and not fitted:
            continue
        X, y, w = data.batch(op["rows"])
        if op["op"] == "reject":
            if fitted:
                try:
                    call(est, "update", X * np.nan, y, w)
                except ValueError:
                    ctx.fault("reject:nan_x")
            continue
        if w is not None and w.sum() == 0:
            continue
        init = op["op"] == "fit" or not fitted
        gen.seed_jit(ests.jseed(op))
        try:
            call(est, op["op"], X, y, w)
        except (ValueError, np.linalg.LinAlgError, FloatingPointError):
            if not fitted:
                raise Discard() from None
            # an update that diverged: the model is the one before it
            ctx.fault("diverged_update_rejected")
            continue
        fitted = True
        upd += not init
        ctx.calls[op["op"]] += 1
        if init:
            sc = models.ScalerLog(irls.scaler_forget(cfg), models.select_of(cfg["scale"], d))
        sc.add(X, data.weights(op["rows"]))
        ask = op["ask"]
        Xq = mid + (data.X[np.array(ask["rows"])] - mid) * ask["edge"]
        n = len(Xq)
        where = f"step {step} ({op['op']})"
        th = est.predict_distribution_parameters(Xq)
        ctx.require(isinstance(th, np.ndarray) and th.shape == (n, k), "shape", lambda: f"{where}: parameters have shape {np.shape(th)} for {n} rows and {k} parameters")
        if not np.all(np.isfinite(th)):
            if any(not np.all(np.isfinite(c)) or np.max(np.abs(c)) > 1e3 for c in est.coef_.values()):
                ctx.probe("diverged")
            ctx.fail("parameter-not-finite", f"{where}: {th} with coefficients {dict(est.coef_)}")
        link, contrib = est.predict_distribution_parameters(Xq, what="link", return_contributions=True)
        link2 = est.predict_distribution_parameters(Xq, what="link")
        th2, contrib2 = est.predict_distribution_parameters(Xq, return_contributions=True)
        ctx.require(link.shape == (n, k) and np.array_equal(link, link2) and np.array_equal(th, th2), "request-form-changes-prediction", f"{where}: contributions change the prediction")
        ctx.require(len(contrib) == k and all(np.array_equal(a, b) for a, b in zip(contrib, contrib2)), "request-form-changes-prediction", f"{where}: contributions depend on the scale asked for")
        A = {}
        Xs = sc.transform(Xq)
        for p in range(k):
            A[p] = np.ones((n, 1)) if eqs[p] == "intercept" else models.design(Xs[:, irls.columns(eqs[p], d)], icpt[p])
            c = np.asarray(contrib[p])
            ctx.require(c.shape == A[p].shape, "shape", lambda: f"{where}: contributions of parameter {p} have shape {c.shape}, expected {A[p].shape}")
            mag = np.sum(np.abs(c), axis=1)
            ctx.require(np.all(np.abs(c.sum(axis=1) - link[:, p]) <= 1e-10 * (1 + mag)), "contributions", lambda: f"{where}: parameter {p}: contributions add up to {c.sum(axis=1)}, link prediction {link[:, p]}")
            want = A[p] * np.asarray(est.coef_[p])
            ctx.require(np.all(np.abs(c - want) <= 1e-7 * (1 + np.abs(want))), "contribution-per-covariate", lambda: f"{where}: parameter {p}: {c[:2]} instead of {want[:2]}")
            with np.errstate(all="ignore"):
                m = maps[p](link[:, p])
                ok = np.abs(link[:, p]) < 20
            ctx.require(np.all(near(th[:, p], m, 1e-7) | ~ok), "link-map", lambda: f"{where}: parameter {p}: response {th[:, p]}, inverse link of {link[:, p]} is {m}")
            lo, up = LOWER[cfg["dist"]][p], UPPER.get(cfg["dist"], [None] * k)[p]
            tame = np.abs(link[:, p]) < 30
            ctx.require(lo is None or np.all((th[:, p] > lo) | ~tame & (th[:, p] >= lo)), "parameter-outside-support", lambda: f"{where}: parameter {p}: {th[:, p]}")
            ctx.require(up is None or np.all((th[:, p] < up) | ~tame & (th[:, p] <= up)), "parameter-outside-support", lambda: f"{where}: parameter {p}: {th[:, p]}")
        s0, s1 = D.support
        q = np.array(sorted(ask["levels"]) if ask.get("sorted", True) else ask["levels"])
        Q = est.predict_quantile(Xq, q)
        ctx.require(np.shape(Q) == (n, len(q)), "shape", lambda: f"{where}: quantiles have shape {np.shape(Q)} for {n} rows and {len(q)} levels")
        multi |= len(q) > 1
        extreme = np.max(np.abs(link), axis=1) > 8
        with np.errstate(all="ignore"):
            ref = np.stack([D.ppf(a, th) for a in q], axis=1)
            lo_p, hi_p = D.probs(th)
            # away from the jumps of the quantile function
            smooth = (np.abs(q - lo_p[:, None]) > 1e-6) & (np.abs(q - (1 - hi_p)[:, None]) > 1e-6) if D.inflate else np.ones_like(ref, bool)
            mean, med_ref = D.mean(th), D.ppf(0.5, th)
            med_ok = (np.abs(0.5 - lo_p) > 1e-6) & (np.abs(0.5 - (1 - hi_p)) > 1e-6) if D.inflate else np.ones(n, bool)
            sdv = np.abs(D.ppf(0.75, th) - D.ppf(0.25, th))
        use = smooth & np.isfinite(ref) & ~extreme[:, None]
        tol = 1e-6
        if cfg["dist"] in ("Beta", "BetaInflated", "BetaInflatedZero"):
            use &= (np.min(np.stack(gen._beta_ab(th[:, 0], th[:, 1])), axis=0) > 0.05)[:, None]
        ctx.require(np.all((np.abs(Q - ref) <= tol * (np.abs(ref) + np.where(np.isfinite(sdv), sdv, 1)[:, None]) + 1e-9) | ~use), "quantile", lambda: f"{where}: levels {q}: {Q} instead of {ref} at {th}")
        tame = ~extreme
        ctx.require(np.all(((Q >= s0) & (Q <= s1)) | ~tame[:, None]), "quantile-outside-support", lambda: f"{where}: {Q}, support {D.support}")
        if len(q) > 1:
            Qs = Q[:, np.argsort(q, kind="stable")]
            ctx.require(np.all((Qs[:, 1:] >= Qs[:, :-1]) | (Qs[:, :-1] - Qs[:, 1:] <= 1e-9 * (1 + np.abs(Qs[:, 1:]))) | ~tame[:, None]), "quantiles-cross", lambda: f"{where}: levels {q}: {Q}")
        if ask["scalar"]:
            one = est.predict_quantile(Xq, float(q[0]))
            ctx.require(np.shape(one) == (n, 1) and np.all(near(one[:, 0], Q[:, 0], 1e-12) | ~tame), "scalar-level", lambda: f"{where}: {one} vs {Q[:, 0]}")
        pm = est.predict(Xq)
        ctx.require(np.shape(pm) == (n,), "shape", lambda: f"{where}: predict has shape {np.shape(pm)} for {n} rows")
        ctx.require(np.all(near(pm, mean, 1e-6) | ~np.isfinite(mean) | extreme), "mean", lambda: f"{where}: predict {pm}, mean of the predicted distribution {mean} at {th}")
        md = est.predict_median(Xq)
        ctx.require(np.shape(md) == (n,), "shape", lambda: f"{where}: predict_median has shape {np.shape(md)} for {n} rows")
        half = est.predict_quantile(Xq, 0.5)[:, 0]
        ctx.require(np.all(near(md, half, 1e-9) | ~tame), "median-is-not-50%-quantile", lambda: f"{where}: {md} vs {half}")
        ctx.require(np.all((np.abs(md - med_ref) <= 1e-6 * (1 + np.abs(med_ref))) | extreme | ~med_ok | ~np.isfinite(med_ref)), "median", lambda: f"{where}: {md} instead of {med_ref} at {th}")
        ctx.probe("extreme_row", int(extreme.sum()))
        ctx.logbits("pred", [th, link])
        ctx.state(cfg["dist"], str(cfg.get("links")), str(cfg["method"])[:16], op["op"], n, len(q))
    ctx.nontrivial = upd > 0 and multi
