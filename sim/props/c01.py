"""C01: streaming OLS == one discounted weighted batch solve over the accepted observations."""
import numpy as np

from .. import gen, models, world
from ..common import LIN_STUB, TRUST, add_stats, call, lin_simplify, rnd_data, rnd_forget, rnd_scale, rnd_size, wide_scale

ID = "C01"
LEVEL = "exploration"
RUNS = {"quick": 4000, "thorough": 40000}
RULE = ("seeded deployment histories: source, lossy/duplicating/reordering network with partitions, stalling trainer; each run "
        "is a fit plus a schedule of updates whose batch boundaries the simulation decides, over random weights, forgetting, scaling "
        "and intercept options. Non-trivial: at least two updates with at least two different batch sizes absorbed; distinct by event-log digest")
STATE_MEASURE = "hash of (batch size class, absorbed count class, forget, weight kind, scaling kind, intercept)"
REAL = ["OnlineLinearModel", "OrdinaryLeastSquares", "gram recursion (numba)", "OnlineScaler"]
STUB = LIN_STUB
ASSUMPTIONS = TRUST + ["designs whose weighted condition number exceeds 1e4 are outside the premise (counted as discarded)"]


def plan(rng, i, tier):
    d = rng.randrange(1, 6) if rng.random() < 0.96 else rng.randrange(6, 14)
    n_init = 2 * d + 4 + rng.randrange(0, 12)
    long = rng.random() < 0.1
    n_init, more = rnd_size(rng, n_init, rng.randrange(60, 200) if long else rng.randrange(4, 40))
    n = n_init + more
    data = rnd_data(rng, n, d, yscale=rng.choice([1.0, 1.0, 100.0, 0.01]))
    cfg = {"est": "linear", "method": rng.choice(["ols", "ols", {"name": "ols"}]), "forget": rnd_forget(rng),
           "scale": rnd_scale(rng, d), "intercept": rng.random() < 0.8}
    if cfg["intercept"] is False or cfg["scale"] is not True:
        # unscaled designs with big offsets are ill conditioned by construction
        data["xshift"] = [s if abs(s) <= 1 else s / 25 for s in data["xshift"]]
    elif cfg["scale"] is True:
        wide_scale(rng, data)
    ops, net = world.schedule(rng, n, n_init, reads=0.15, first=rng.choice(["fit", "fit", "partial_fit"]),
                              rejects=0.08, reject_kinds=["nan_x", "nan_y", "cols", "len"])
    for o in ops:
        if o["op"] == "update" and rng.random() < 0.25:
            o["op"] = "partial_fit"
        if o["op"] == "update" and data["w"] == "none" and rng.random() < 0.1:
            o["wscalar"] = rng.choice([0.5, 2.0, 1.0])
    return {"cfg": cfg, "data": data, "ops": ops, "net": net}


simplify = lin_simplify


def bad_batch(kind, X, y, w):
    X, y = X.copy(), y.copy()
    if kind == "nan_x":
        X[0, 0] = np.nan
    elif kind == "nan_y":
        y[-1] = np.inf
    elif kind == "cols":
        X = np.hstack([X, X[:, :1]])
    elif kind == "len":
        X = np.vstack([X, X[:1]])
    return X, y, w


def warmup():
    for w in ("none", "random"):
        p = {"cfg": {"est": "linear", "method": "ols", "forget": 0.01, "scale": True},
             "data": {"seed": 1, "n": 20, "d": 2, "w": w}, "ops": [{"op": "fit", "rows": list(range(12))},
             {"op": "update", "rows": [12]}, {"op": "update", "rows": [13, 14]}]}
        from ..core import Ctx
        execute(p, Ctx())


def execute(plan, ctx):
    add_stats(ctx, plan)
    cfg, data = plan["cfg"], gen.Data(plan["data"])
    d = plan["data"]["d"]
    est = gen.build(cfg)
    f, icpt = cfg["forget"], cfg.get("intercept", True)
    log = models.LSLog(f)
    sc = models.ScalerLog(f, models.select_of(cfg["scale"], d))
    Xq = data.X[: min(5, len(data.X))] * 1.25
    fitted, sizes, kappa = False, set(), 0.0
    for step, op in enumerate(plan["ops"]):
        ctx.step = step
        if op["op"] in ("fit", "update", "partial_fit"):
            X, y, w = data.batch(op["rows"])
            if "wscalar" in op:
                w = op["wscalar"]
            wv = np.full(len(y), float(op["wscalar"])) if "wscalar" in op else data.weights(op["rows"])
            if not fitted and (op["op"] == "update" or wv.sum() <= d + icpt + 1):
                return
            if wv.sum() == 0:  # documented rejection (weights sum to zero)
                try:
                    call(est, op["op"], X, y, w)
                except ValueError:
                    ctx.fault("reject:zero_weights")
                    continue
                return
            ctx.calls[op["op"]] += 1
            if op["op"] == "fit":
                log = models.LSLog(f)
                sc = models.ScalerLog(f, models.select_of(cfg["scale"], d))
            sc.add(X, wv)
            with np.errstate(all="ignore"):
                if sc.select is not None and not np.all(sc.moments()[1] > 1e-12 * np.abs(data.X).max(axis=0)[sc.select] ** 2):
                    return
                A = models.design(sc.transform(X), icpt)
            log.add(A, y, wv)
            ref, cond, raw = log.solve()
            kappa = max(kappa, raw)
            if kappa > 1e4:
                from ..core import Discard
                raise Discard()
            call(est, op["op"], X, y, w)
            fitted = True
            if op["op"] != "fit":
                sizes.add(len(op["rows"]))
            scale = max(np.max(np.abs(ref)), 1e-9 * max(1.0, np.max(np.abs(y))))
            coef = np.asarray(est.coef_)
            tol = min(1e-9 + 1e-13 * kappa**2, 1e-6)
            ctx.require(coef.shape == ref.shape, "coef-shape", f"{coef.shape} vs {ref.shape}")
            err = models.relerr(coef, ref, scale)
            ctx.require(err <= tol, "coef-not-discounted-ls",
                        lambda: f"step {step}: coefficients {coef} differ from the discounted weighted solve {ref} (rel {err:.2e} > {tol:.1e})")
            m = sc
            pq = models.design(m.transform(Xq), icpt) @ ref
            got = est.predict(Xq)
            e2 = models.relerr(got, pq, max(np.max(np.abs(pq)), np.max(np.abs(data.y)), 1e-12))
            ctx.require(e2 <= tol * 100 + 1e-9, "predict-not-discounted-ls", lambda: f"step {step}: predict {got} vs {pq} (rel {e2:.2e})")
            ctx.logbits("coef", coef)
            ctx.state(min(len(op["rows"]), 9), len(log.z), f, plan["data"]["w"], str(cfg["scale"])[:6], icpt)
            ctx.probe("weight_zero_batch", bool(wv.sum() == 0))
            ctx.probe("batch_gt_1", len(op["rows"]) > 1)
        elif op["op"] == "reject" and fitted:
            X, y, w = data.batch(op["rows"])
            X, y, w = bad_batch(op["kind"], X, y, w)
            try:
                call(est, "update", X, y, w)
            except ValueError:
                ctx.fault("reject:" + op["kind"])
            else:
                return  # acceptance of malformed input is C08's subject
        elif op["op"] == "read" and fitted:
            r = np.random.Generator(np.random.PCG64(op["s"])).integers(0, len(data.y), 6)
            A = models.design(sc.transform(data.X[r]), icpt)
            yr = data.y[r]
            tss = ((yr - yr.mean()) ** 2).sum()
            ctx.calls["read"] += 1
            if tss > 1e-6 * (yr**2).sum():
                ref = log.solve()[0]
                want = 1 - ((yr - A @ ref) ** 2).sum() / tss
                got = est.score(data.X[r], yr)
                ctx.require(abs(got - want) <= 1e-5 * (1 + abs(want)), "score", f"step {step}: R2 {got} vs {want}")
    ctx.nontrivial = len(sizes) >= 2 and ctx.calls["update"] + ctx.calls["partial_fit"] >= 2
