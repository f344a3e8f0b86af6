"""C17: fit on a used estimator == fit on a new one, now and under all later updates."""
import numpy as np

from .. import ests, gen, twin, world
from ..common import LIN_STUB, TRUST, add_stats

ID = "C17"
LEVEL = "exploration"
RUNS = {"quick": 1200, "thorough": 20000}
RULE = ("seeded lives of an estimator: a first life (fit, updates, refused calls) on one data set, optional parameter changes, then fit on another "
        "data set (possibly with another number of features) and more updates; a newly built twin lives only the second life and must be bit-identical "
        "after every call. Non-trivial: at least one update in the first life and at least one after the refit; distinct by event-log digest")
STATE_MEASURE = "hash of (estimator, calls in first life, features changed, parameters changed, calls after refit)"
REAL = ["OnlineScaler", "OnlineLinearModel", "OnlineLasso", "OnlineDistributionalRegression"]
STUB = LIN_STUB
ASSUMPTIONS = TRUST
simplify = ests.simplify_any
D_AGNOSTIC = ("all", "intercept")


def plan(rng, i, tier):
    cfg, data, n_init = ests.rnd_any(rng, methods=("ols", "ols", "lasso", "elasticnet", "ridge"))
    ops1, net = world.schedule(rng, data["n"], n_init, reads=0.1)
    ops1 = world.cap(ops1, 8, rng)
    free = isinstance(cfg.get("scale"), bool) and (cfg["est"] != "gamlss" or all(e in D_AGNOSTIC for _, e in (cfg["eq"] or [])))
    d2 = data["d"]
    if free and rng.random() < 0.6:
        d2 = rng.randrange(1, 5)
    data2 = dict(data, seed=rng.randrange(1 << 40), d=d2, n=data["n"], w=rng.choice(["none", "random", "int"]))
    for k, v in (("xscale", 1.0), ("xshift", 0.0)):
        data2[k] = [v] * d2
    n2 = n_init + 2 * d2
    data2["n"] = max(data["n"], n2 + 8)
    ops2, net2 = world.schedule(rng, data2["n"], n2, reads=0.1)
    ops2 = world.cap(ops2, 8, rng)
    ops = [dict(o, life=1) for o in ops1] + [dict(o, life=2) for o in ops2]
    params = {}
    if rng.random() < 0.4:
        params["forget"] = rng.choice([0.0, 0.01, 0.1])
    if cfg["est"] == "linear" and rng.random() < 0.3:
        params["ic"] = rng.choice(["aic", "bic", "max"])
    if cfg["est"] in ("linear", "gamlss") and rng.random() < 0.3:
        params["method"] = rng.choice(["ols", ests.rnd_method(rng, "lasso"), ests.rnd_method(rng, "ridge")])
    if cfg["est"] == "gamlss" and rng.random() < 0.3:
        params["max_it_outer"] = rng.choice([1, 3, 7])
    if cfg["est"] == "gamlss" and rng.random() < 0.2 and cfg.get("order") is None and not isinstance(params.get("forget", cfg["forget"]), dict):
        params["model_selection"] = rng.choice(["local_rss", "global_ll"])
    if cfg["est"] != "scaler" and isinstance(cfg["scale"], bool) and rng.random() < 0.2:
        params["scale_inputs"] = not cfg["scale"]
    return {"cfg": cfg, "data": data, "data2": data2, "params": params, "ops": ops, "net": net}


def warmup():
    ests.warm()


def conv(params):
    return {k: gen.make_method(v) if k == "method" else v for k, v in params.items()}


def execute(plan, ctx):
    add_stats(ctx, plan)
    cfg = plan["cfg"]
    data = {1: gen.Data(plan["data"]), 2: gen.Data(plan["data2"])}
    est, ref = gen.build(cfg), gen.build(cfg)
    used, turned, upd2 = 0, False, 0
    fitted = {1: False, 2: False}
    Xq = data[2].X[:4]
    for step, op in enumerate(plan["ops"]):
        ctx.step = step
        life = op["life"]
        if op["op"] == "read":
            if fitted[life]:
                twin.observe(est, data[life].X[:3])
            continue
        if life == 2 and not turned:
            if op["op"] != "fit":
                continue
            turned = True
            est.set_params(**conv(plan["params"]))
            ref.set_params(**conv(plan["params"]))
        if op["op"] == "update" and not fitted[life]:
            continue
        r = ests.attempt(est, op, data[life])
        ctx.calls[op["op"]] += 1
        if life == 1:
            fitted[1] |= r[0] == "ok"
            used += r[0] == "ok"
            ctx.log("life1", r[0])
            continue
        r2 = ests.attempt(ref, op, data[life])
        ctx.require(r[0] == r2[0], "refit-outcome", f"step {step}: refitted estimator {r}, new estimator {r2}")
        if r[0] == "ok":
            fitted[2] = True
            upd2 += op["op"] == "update"
        elif not fitted[2]:
            return          # the second life never starts
        twin.same(ctx, est, ref, Xq, "refit-differs", f"step {step} ({op['op']})")
        ctx.state(cfg["est"], min(used, 5), plan["data"]["d"] != plan["data2"]["d"], sorted(plan["params"]), min(upd2, 5))
    ctx.probe("features_changed", plan["data"]["d"] != plan["data2"]["d"])
    ctx.probe("params_changed", bool(plan["params"]))
    ctx.nontrivial = used >= 2 and upd2 >= 1
    _ = np
