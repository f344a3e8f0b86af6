"""C18: with forgetting, the model recovers within a bounded number of observations once disturbances stop."""
import math

import numpy as np

from .. import ests, faults, gen, models
from ..common import LIN_STUB, TRUST, add_stats, call
from ..core import Discard

ID = "C18"
LEVEL = "exploration"
RUNS = {"quick": 450, "thorough": 8000}
ORACLE = "expected log score (distributional) or squared error (linear) on held-out data against the true process, within a bound on the number of clean observations proportional to 1/forget"
RULE = ("seeded streams with a positive forget factor: an initial fit, a drawn finite disturbance (a different regime, outliers, bursts, a silent gap, rejected batches, injected exceptions inside calls, "
        "a crash with restart from a checkpoint), then clean batches of drawn sizes from one fixed process; after 10/forget clean observations (12/forget for linear models) the excess log score over the true process on 400 held-out rows must be "
        "below 0.3 + 4*K*forget (K coefficients; wider for penalised methods and for scaled linear models), and every clean batch must be accepted. Non-trivial: a disturbance fired; distinct by event-log digest")
STATE_MEASURE = "hash of (estimator, distribution, method, disturbance kinds, forget, size class of the excess score)"
REAL = ["OnlineLinearModel", "OnlineLasso", "OnlineDistributionalRegression", "OnlineScaler", "estimation methods"]
STUB = LIN_STUB + ["exceptions raised at drawn points inside calls"]
ASSUMPTIONS = TRUST + ["compiled functions run as their Python source", "the bound is calibrated for the simulated processes; expectations are taken over 400 held-out rows"]
DISTS = ["Normal", "NormalMeanVariance", "Gamma", "LogNormal", "Logistic", "Beta", "LogNormalMedian", "ZeroAdjustedGamma", "Exponential"]
HELD = 400


def plan(rng, i, tier):
    lin = rng.random() < 0.35
    f = rng.choice([0.02, 0.05]) if lin else rng.choice([0.01, 0.015, 0.02])
    d = rng.randrange(1, 4)
    c = 12 if lin else 10
    n_clean = math.ceil(c / f)
    n_init, n_bad = 40 + rng.randrange(0, 40), rng.choice([0, 20, 60, 150])
    n = n_init + n_bad + n_clean + HELD
    if lin:
        name = rng.choice(["ols", "ols", "lasso", "ridge", "elasticnet"])
        m = name if name == "ols" else ests.rnd_method(rng, name)
        if isinstance(m, dict):
            m.update(max_iterations=30)
            m.pop("early_stop", None)
            if name == "ridge":
                m["lambda_reg"] = 0.05
            else:
                m.update(lambda_eps=1e-3, lambda_n=5)
        cfg = {"est": "linear", "forget": f, "scale": rng.random() < 0.5, "intercept": True, "method": m, "ic": rng.choice(["aic", "bic", "max"])}
        data = {"seed": rng.randrange(1 << 40), "n": n, "d": d, "y": "linear", "beta": [rng.choice([-2.0, -1.0, 0.0, 1.0, 2.0]) for _ in range(d)], "y0": rng.uniform(-3, 3), "noise": rng.choice([0.3, 1.0])}
    else:
        dist = rng.choice(DISTS)
        k = gen.DISTS[dist].k
        eq = [[p, "all" if p == 0 or rng.random() < 0.4 else "intercept"] for p in range(k)]
        m = "ols" if rng.random() < 0.75 else {"name": "lasso", "lambda_n": 5, "lambda_eps": 1e-3, "max_iterations": 30}
        cfg = {"est": "gamlss", "dist": dist, "forget": f if rng.random() < 0.7 else {"per": [[p, rng.choice([f, 0.02])] for p in reversed(range(k))]}, "eq": eq, "method": m, "ms": rng.choice(["local_rss", "global_ll"]),
               "scale": rng.random() < 0.5, "max_it_outer": rng.choice([5, 10, 30]), "max_it_inner": rng.choice([5, 10, 30])}
        if rng.random() < 0.25:
            cfg["cautious_updates"] = True
        data = {"seed": rng.randrange(1 << 40), "n": n, "d": d, "y": dist, "signal": 0.25, "signal_scale": 1.0}
        for p, e in eq:
            if e == "intercept":
                data.setdefault("flat", []).append(p)
    bad = {"kind": rng.choice(["regime", "regime", "outliers", "shift_x", "none"] + ["spike_x"] * 2 * lin + ["gross"] * 3 * (cfg["method"] == "ols") * lin), "n": n_bad, "s": rng.randrange(1 << 30), "size": rng.choice([2.0, 5.0]),
           "events": [{"at": rng.randrange(0, max(n_bad, 1)), "what": rng.choice(["reject", "fail", "crash", "gap"]), "u": rng.random(), "exc": rng.choice(faults.EXC_KINDS)} for _ in range(rng.choice([0, 1, 2]))]}
    ops, t, a = [], 0.0, n_init
    ops.append({"t": t, "op": "fit", "rows": list(range(n_init))})
    end_bad, end = n_init + n_bad, n_init + n_bad + n_clean
    while a < end:
        lim = end_bad if a < end_bad else end
        b = min(lim, a + rng.choice([1, 5, 20, 40]) if a < end_bad else a + rng.choice([10, 30, 40]))
        t += (b - a) * 1.0
        ops.append({"t": t, "op": "update", "rows": list(range(a, b)), "bad": a < end_bad})
        a = b
    return {"cfg": cfg, "data": data, "ops": ops, "bad": bad, "n_init": n_init, "net": {}}


def warmup():
    ests.warm(("linear", "lasso", "gamlss"))


def simplify(plan):
    b = plan["bad"]
    if b["events"]:
        yield dict(plan, bad=dict(b, events=[]))
    if b["kind"] != "none":
        yield dict(plan, bad=dict(b, kind="none"))
    # dropping clean observations would change the premise: operations are only removed by execute's row bookkeeping
    c = plan["cfg"]
    if c["method"] != "ols":
        yield dict(plan, cfg=dict(c, method="ols"))


class Stream(gen.Data):
    """Fixed process; parameters without covariates in the model have none in the process either."""

    def __init__(self, spec):
        super().__init__(spec)
        if spec.get("flat"):
            rng = np.random.Generator(np.random.PCG64(spec["seed"] + 1))
            self.eta[:, spec["flat"]] = np.asarray(self.dist.base, float)[spec["flat"]]
            self.theta = self.dist.theta(self.eta)
            self.y = self.dist.sample(rng, self.theta)


def disturb(b, data, rows, X, y):
    rng = np.random.Generator(np.random.PCG64(b["s"] + rows[0]))
    lin = data.spec["y"] == "linear"
    s0, s1 = (-np.inf, np.inf) if lin else data.dist.support
    if b["kind"] == "regime":
        if lin:
            return X, -3 * y + b["size"] * 5
        eta = -data.eta[rows] + 2 * np.asarray(data.dist.base) + 0.9 * rng.choice([-1, 1], size=(1, data.dist.k))
        return X, data.dist.sample(rng, data.dist.theta(eta))
    if b["kind"] == "outliers":
        hit = rng.random(len(y)) < 0.3
        if s1 == 1:
            return X, np.where(hit, np.clip(1 - y, 1e-4, 1 - 1e-4), y)
        return X, np.where(hit, y * b["size"], y)
    if b["kind"] == "gross":
        # gross errors in the response: single wild values, or a level far away (least squares only: the squared residuals that
        # path methods accumulate for selection need longer by the logarithm of the error)
        if b["s"] % 2:
            return X, y + 100.0 * b["size"] ** (1 + b["s"] % 3)
        return X, np.where(rng.random(len(y)) < 0.2, 100.0 * b["size"] ** (1 + b["s"] % 3), y)
    if b["kind"] == "spike_x":
        # isolated rows of extreme leverage, with responses that follow the process or not
        hit = rng.random(len(y)) < 0.1
        hit[0] |= rng.random() < 0.5
        far = X + hit[:, None] * rng.choice([-1, 1], size=(len(y), 1)) * 20 * b["size"]
        follow = rng.random() < 0.5
        beta = np.asarray(data.spec["beta"])
        return far, np.where(hit & follow, y + (far - X) @ beta, y)
    if b["kind"] == "shift_x":
        return X + b["size"] / 4, y
    return X, y


def execute(plan, ctx):
    add_stats(ctx, plan)
    cfg, data, b = plan["cfg"], Stream(plan["data"]), plan["bad"]
    f = min(ests.forget_of(cfg, p) for p in range(ests.k_of(cfg)))
    lin = cfg["est"] != "gamlss"
    est = gen.build(cfg)
    n = plan["data"]["n"]
    clean = refused = 0
    ck = None
    seen_bad = 0
    for step, op in enumerate(plan["ops"]):
        ctx.step = step
        rows = np.array(op["rows"])
        X, y, w = data.batch(rows)
        gen.seed_jit(ests.jseed(op))
        if op["op"] == "fit":
            try:
                call(est, "fit", X, y, None)
            except (ValueError, FloatingPointError, np.linalg.LinAlgError):
                raise Discard() from None
            ctx.calls["fit"] += 1
            continue
        if op.get("bad"):
            X, y = disturb(b, data, rows, X, y)
            if b["kind"] != "none":
                ctx.fault("disturbance:" + b["kind"], len(rows))
            ev = [e for e in b["events"] if seen_bad <= e["at"] < seen_bad + len(rows)]
            seen_bad += len(rows)
            skip = False
            for e in ev:
                ctx.fault("event:" + e["what"])
                if e["what"] == "gap":
                    skip = True
                elif e["what"] == "reject":
                    try:
                        call(est, "update", X * np.nan, y, None)
                    except ValueError:
                        pass
                elif e["what"] == "fail":
                    tr = faults.Tracer(target=1 + int(e["u"] * 400), exc=e["exc"])
                    try:
                        with tr:
                            call(est, "update", X, y, None)
                    except BaseException as x:  # noqa: BLE001
                        if tr.fired is None and not isinstance(x, Exception):
                            raise
                elif e["what"] == "crash":
                    import pickle
                    est = pickle.loads(ck) if ck else est
                    import pickle as pk
                    ck = pk.dumps(est)
            if not skip:
                try:
                    call(est, "update", X, y, None)
                except (ValueError, FloatingPointError, np.linalg.LinAlgError):
                    ctx.fault("disturbed_batch_refused")
            import pickle
            ck = pickle.dumps(est)
            ctx.calls["update"] += 1
            continue
        try:
            call(est, "update", X, y, None)
            clean += len(rows)
        except (FloatingPointError, np.linalg.LinAlgError):
            refused += 1
        ctx.calls["update"] += 1
    if clean == 0:
        return
    held = np.arange(n - HELD, n)
    Xh, yh = data.X[held], data.y[held]
    need = (12 if lin else 10) / f
    if clean < need and refused == 0:
        return   # a shrunk plan without enough clean observations
    ctx.require(refused <= 2, "clean-batches-refused", lambda: f"{refused} clean batches were refused after the disturbance ended")
    if lin:
        mu = np.asarray(est.predict(Xh))
        beta = np.asarray(data.spec["beta"])
        true = data.spec["y0"] + data.Z[held] @ beta
        gap = float(np.mean((mu - true) ** 2)) / data.spec["noise"] ** 2
        K = plan["data"]["d"] + 1
    else:
        th = np.asarray(est.predict_distribution_parameters(Xh))
        with np.errstate(all="ignore"):
            gap = float(np.mean(data.dist.logpdf(yh, data.theta[held]) - data.dist.logpdf(yh, th)))
        K = sum(len(c) for c in est.coef_.values())
    g = max(ests.forget_of(cfg, p) for p in range(ests.k_of(cfg)))
    bound = 0.3 + 4 * K * g
    if isinstance(cfg["method"], dict):
        bound += 0.5 if lin else 0.2
    if lin and cfg["scale"]:
        # the estimated scaling multiplies the signal
        bound += 5 * g * float(beta @ beta) / data.spec["noise"] ** 2
    ctx.logbits("gap", gap)
    ctx.gap = gap / bound
    ctx.require(np.isfinite(gap) and gap <= bound, "not-recovered",
                lambda: f"{clean} clean observations after the disturbance ({b['kind']}, forget {f}) the excess {'squared error (in noise variances)' if lin else 'log score'} over the true process is {gap:.3f} > {bound:.3f}")
    ctx.state(cfg["est"], cfg.get("dist"), str(cfg["method"])[:12], b["kind"], f, int(gap / bound * 5))
    ctx.nontrivial = sum(ctx.faults.values()) > 0
