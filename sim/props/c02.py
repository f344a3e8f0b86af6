"""C02: the online scaler equals one weighted, discounted pass over its accepted rows."""
import numpy as np

from .. import gen, models, world
from ..common import LIN_STUB, TRUST, add_stats, call, lin_simplify, rnd_data, rnd_forget, rnd_scale, rnd_size
from ..core import Discard

ID = "C02"
LEVEL = "exploration"
RUNS = {"quick": 6000, "thorough": 150000}
RULE = ("seeded deployment histories feeding OnlineScaler through fit/update/partial_fit with simulated batch boundaries, weights, "
        "forgetting, column selections, column magnitudes 1e-8 to 1e7, offsets up to 1e4 standard deviations, rejected batches in between. Non-trivial: at least two updates "
        "with two different batch sizes; distinct by event-log digest")
STATE_MEASURE = "hash of (batch size class, rows absorbed, forget, weight kind, selection)"
REAL = ["OnlineScaler", "init_forget_vector (numba)"]
STUB = LIN_STUB
ASSUMPTIONS = TRUST + ["columns whose discounted variance is below 1e-10 of their squared magnitude are outside the premise (discarded)"]


def plan(rng, i, tier):
    d = rng.randrange(1, 6) if rng.random() < 0.96 else rng.randrange(6, 14)
    n_init, more = rnd_size(rng, rng.randrange(2, 14), rng.randrange(3, 60))
    n = n_init + more
    xscale = [rng.choice([1e-8, 1e-5, 0.01, 1.0, 1.0, 5.0, 1e3, 1e7]) for _ in range(d)]
    data = rnd_data(rng, n, d, xshift=[rng.choice([0.0, 1.0, -10.0, 50.0, 1e4]) * min(s, 1.0) for s in xscale], xscale=xscale)
    if rng.random() < 0.15:
        data["drift"] = 20.0
    cfg = {"est": "scaler", "forget": rng.choice([0.0, 1e-4, 0.01, 0.05, 0.2, 0.5]), "scale": rnd_scale(rng, d)}
    ops, net = world.schedule(rng, n, n_init, reads=0.1, first=rng.choice(["fit", "fit", "partial_fit"]),
                              rejects=0.08, reject_kinds=["nan_x", "cols", "wlen", "wneg"])
    for o in ops:
        if o["op"] == "update" and rng.random() < 0.25:
            o["op"] = "partial_fit"
        if o["op"] == "update" and data["w"] == "none" and rng.random() < 0.1:
            o["wscalar"] = rng.choice([0.5, 2.0])
        if o["op"] == "update" and rng.random() < 0.03:
            o["op"] = "fit"
    return {"cfg": cfg, "data": data, "ops": ops, "net": net}


simplify = lin_simplify


def warmup():
    from ..core import Ctx
    execute({"cfg": {"est": "scaler", "forget": 0.01, "scale": True}, "data": {"seed": 1, "n": 9, "d": 2},
             "ops": [{"op": "fit", "rows": [0, 1, 2]}, {"op": "update", "rows": [3]}]}, Ctx())
    execute({"cfg": {"est": "scaler", "forget": 0.0, "scale": True}, "data": {"seed": 1, "n": 9, "d": 2},
             "ops": [{"op": "fit", "rows": [0, 1, 2]}, {"op": "update", "rows": [3]}]}, Ctx())


def execute(plan, ctx):
    add_stats(ctx, plan)
    cfg, data = plan["cfg"], gen.Data(plan["data"])
    d = plan["data"]["d"]
    sel = models.select_of(cfg["scale"], d)
    est = gen.build(cfg)
    ref = None
    sizes = set()
    Xq = np.vstack([data.X[:3] * 1.5, data.X[-2:]])
    for step, op in enumerate(plan["ops"]):
        ctx.step = step
        if op["op"] in ("fit", "update", "partial_fit"):
            X, _, w = data.batch(op["rows"])
            wv = data.weights(op["rows"])
            if "wscalar" in op:
                w, wv = op["wscalar"], np.full(len(X), op["wscalar"])
            fresh = ref is None or op["op"] == "fit"
            if (ref is None and op["op"] == "update") or (fresh and len(X) < 2):
                continue
            if wv.sum() == 0:
                try:
                    call(est, op["op"], X, None, w)
                except ValueError:
                    ctx.fault("reject:zero_weights")
                    continue
                return
            if fresh:
                ref = models.ScalerLog(cfg["forget"], sel)
            ref.add(X, wv)
            ctx.calls[op["op"]] += 1
            call(est, op["op"], X, None, w)
            if op["op"] != "fit":
                sizes.add(len(X))
            ctx.state(min(len(X), 9), sum(map(len, ref.w)), cfg["forget"], plan["data"].get("w"), str(cfg["scale"]))
            verify(ctx, est, ref, sel, Xq, step)
        elif op["op"] == "reject" and ref is not None:
            X, _, w = data.batch(op["rows"])
            k = op["kind"]
            if k == "nan_x":
                X[0, 0] = np.nan
            elif k == "cols":
                X = np.hstack([X, X[:, :1]])
            elif k == "wlen":
                w = np.ones(len(X) + 1)
            else:
                continue
            try:
                call(est, "update", X, None, w)
            except ValueError:
                ctx.fault("reject:" + k)
            else:
                return
        elif op["op"] == "read" and ref is not None:
            verify(ctx, est, ref, sel, data.X[:: max(1, len(data.X) // 4)], step)
    ctx.nontrivial = len(sizes) >= 2 and ctx.calls["update"] + ctx.calls["partial_fit"] >= 2


def verify(ctx, est, ref, sel, Xq, step):
    if sel is None:
        T = est.transform(Xq)
        ctx.require(np.array_equal(T, Xq), "unscaled-changed", f"step {step}: transform changed data although nothing is to be scaled")
        ctx.require(np.array_equal(est.inverse_transform(Xq), Xq), "unscaled-changed", f"step {step}: inverse_transform changed data")
        return
    with np.errstate(all="ignore"):
        m, v = ref.moments()
    mag = np.max(np.abs(np.vstack(ref.X)[:, sel]), axis=0)
    if not np.all(v > 1e-10 * mag**2) or not np.all(np.isfinite(v)):
        raise Discard()
    gm, gv = np.asarray(est.mean_, float), np.asarray(est.var_, float)
    ctx.require(gm.shape == m.shape and gv.shape == v.shape, "moment-shape", f"step {step}: {gm.shape} {gv.shape} vs {m.shape}")
    em = np.max(np.abs(gm - m) / (np.sqrt(v) + 1e-300))
    tol = 1e-9 + 1e-12 * np.max(mag**2 / v)
    ev = np.max(np.abs(gv - v) / v)
    ctx.require(em <= tol, "mean", lambda: f"step {step}: mean {gm} vs {m} (err {em:.2e} std)")
    ctx.require(ev <= tol, "variance", lambda: f"step {step}: variance {gv} vs {v} (rel {ev:.2e})")
    ctx.require(models.relerr(est.std_, np.sqrt(gv)) < 1e-12, "std", f"step {step}: std_ is not the root of var_")
    T = est.transform(Xq)
    want = ref.transform(Xq)
    ctx.require(T.shape == Xq.shape, "transform-shape", f"{T.shape}")
    scale = np.maximum(np.max(np.abs(want), axis=0), 1.0)
    et = np.max(np.abs(T - want) / scale)
    rest = np.setdiff1d(np.arange(Xq.shape[1]), sel)
    ctx.require(et <= 10 * tol, "transform", lambda: f"step {step}: transform off by {et:.2e}")
    ctx.require(np.array_equal(T[:, rest], Xq[:, rest]), "unselected-changed", f"step {step}: unselected columns changed")
    back = est.inverse_transform(T)
    eb = np.max(np.abs(back - Xq) / (np.max(np.abs(Xq), axis=0) + np.sqrt(np.max(v)) * 0 + 1e-300))
    ctx.require(eb <= 1e-9, "inverse", lambda: f"step {step}: inverse_transform(transform(X)) off by {eb:.2e}")
    ctx.logbits("m", [gm, gv])
