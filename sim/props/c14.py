"""C14: same history, same bits; diagnostics never change results and describe what ran."""
import contextlib
import io

import numpy as np

from .. import ests, gen, twin, world
from ..common import LIN_STUB, TRUST, add_stats

ID = "C14"
LEVEL = "exploration"
RUNS = {"quick": 1100, "thorough": 12000}
RULE = ("seeded histories run on a silent estimator and on twins: the same configuration again after unrelated estimators ran in the process, and "
        "(distributional regression) with debug mode, a drawn verbosity and diagnostics read after every call; all must stay bit-identical, and the "
        "recorded diagnostics are checked against the batch, the iteration limits and the resulting model. Non-trivial: at least two accepted calls; "
        "distinct by event-log digest")
STATE_MEASURE = "hash of (estimator, distribution, method, verbosity, outer iterations recorded, call kind)"
REAL = ["OnlineScaler", "OnlineLinearModel", "OnlineLasso", "OnlineDistributionalRegression incl. debug mode and verbose printing"]
STUB = LIN_STUB + ["standard output (captured)"]
ASSUMPTIONS = TRUST + ["coordinate order drawn by selection='random' is seeded per call by the simulator (all other configurations run under different process-wide random states)"]
simplify = ests.simplify_any
VARS = ["weights", "working_vectors", "dl1dlp1", "dl2dlp2", "eta", "fv", "coef", "coef_path"]


def plan(rng, i, tier):
    cfg, data, n_init = ests.rnd_any(rng, ("scaler", "linear", "lasso", "gamlss", "gamlss", "gamlss", "gamlss"),
                                     methods=("ols", "ols", "lasso", "elasticnet", "ridge"))
    ops, net = world.schedule(rng, data["n"], n_init, reads=0.15)
    ops = world.cap(ops, 9, rng)
    if rng.random() < 0.2:
        ops.append({"t": ops[-1]["t"] + 1, "op": "fit", "rows": list(range(n_init))})
    return {"cfg": cfg, "data": data, "ops": ops, "net": net, "verbose": rng.choice([0, 1, 2, 3]), "noise": rng.randrange(1 << 30)}


def warmup():
    ests.warm()


def pollute(seed):
    """Unrelated work in the same process: another model, global random numbers."""
    rng = np.random.Generator(np.random.PCG64(seed))
    X, y = rng.standard_normal((30, 2)), rng.standard_normal(30)
    e = gen.build({"est": "gamlss", "dist": "Normal", "method": {"name": "lasso", "lambda_n": 3}, "max_it_outer": 2, "max_it_inner": 2})
    e.fit(X, y)
    e.update(X[:2], y[:2])
    gen.build({"est": "linear", "method": "ols", "forget": 0.1}).fit(X, y)
    np.random.random(seed % 17)


def iterations(est, p, max_out, max_in):
    """What get_debug_information offers for parameter p: {(outer, inner)} (one-based), by asking."""
    got = set()
    for o in range(1, max_out + 2):
        for i in range(1, max_in + 2):
            try:
                est.get_debug_information("weights", param=p, it_outer=o, it_inner=i)
                got.add((o, i))
            except KeyError:
                break
    return got


def check_diag(ctx, cfg, est, op, data, pre, step):
    k = ests.k_of(cfg)
    mo, mi = cfg.get("max_it_outer", 30), cfg.get("max_it_inner", 30)
    n = len(op["rows"])
    keys = {}
    for p in range(k):
        its = iterations(est, p, mo, mi)
        keys[p] = its
        ctx.require(bool(its), "diagnostics-missing", lambda: f"step {step}: no recorded iteration for parameter {p}")
        outs = sorted({o for o, _ in its})
        ctx.require(outs == list(range(1, len(outs) + 1)) and outs[-1] <= mo, "diagnostics-outer", lambda: f"step {step}: outer iterations {outs}, limit {mo}")
        ctx.require(max(i for _, i in its) <= mi, "diagnostics-inner", lambda: f"step {step}: inner iterations {sorted(its)}, limit {mi}")
        for o, i in ((1, 1), max(its)):
            for v in VARS:
                val = est.get_debug_information(v, param=p, it_outer=o, it_inner=i)
                if v in ("weights", "working_vectors", "dl1dlp1", "dl2dlp2", "eta"):
                    ctx.require(np.shape(val) == (n,), "diagnostics-shape", lambda: f"step {step}: {v} has shape {np.shape(val)} for {n} rows")
                if v == "fv":
                    ctx.require(np.shape(val) == (n, k), "diagnostics-shape", lambda: f"step {step}: fv has shape {np.shape(val)}")
            w, d2 = (est.get_debug_information(v, param=p, it_outer=o, it_inner=i) for v in ("weights", "dl2dlp2"))
            ctx.require(np.all((np.sign(w) >= 0)), "diagnostics-weights", lambda: f"step {step}: negative working weights {w}, d2 {d2}")
            dv = est.get_debug_information("dv", param=p, it_outer=o, it_inner=i)
            ctx.require(np.ndim(dv) == 0, "diagnostics-dv", f"step {step}")
        cols = est.get_debug_information("X_dict", param=p)
        ctx.require(np.shape(cols) == (n, len(est.coef_[p])), "diagnostics-X", lambda: f"step {step}: X_dict {np.shape(cols)}, coef {np.shape(est.coef_[p])}")
        # the served coefficients are the last ones recorded (a fit may discard later, worse iterations)
        rec = [est.get_debug_information("coef", param=p, it_outer=o, it_inner=i) for o, i in sorted(its)]
        last = rec[-1]
        ok = np.array_equal(last, est.coef_[p], equal_nan=True)
        if op["op"] == "fit" and not ok:
            ok = any(np.array_equal(r, est.coef_[p], equal_nan=True) for r in rec)
        ctx.require(ok, "diagnostics-coef", lambda: f"step {step}: parameter {p}: served coefficients {est.coef_[p]} are not the recorded {last}")
    outs = {p: max(o for o, _ in keys[p]) for p in keys}
    ctx.require(len(set(outs.values())) == 1, "diagnostics-outer-differ", lambda: f"step {step}: outer iterations per parameter {outs}")
    if op["op"] == "update" and pre is not None:
        first = cfg.get("order", list(range(k)))[0]
        fv = est.get_debug_information("fv", param=first, it_outer=1, it_inner=1)
        ctx.require(np.allclose(fv, pre, rtol=1e-9, atol=1e-12, equal_nan=True), "diagnostics-stale", lambda: f"step {step}: recorded start values {fv} are not the predictions before the update {pre}")
    ctx.state(cfg["est"], cfg.get("dist"), str(cfg.get("method"))[:20], max(outs.values()), op["op"])


def execute(plan, ctx):
    add_stats(ctx, plan)
    cfg, data = plan["cfg"], gen.Data(plan["data"])
    Xq = data.X[:4]
    gam = cfg["est"] == "gamlss"
    est, again = gen.build(cfg), gen.build(cfg)
    loud = gen.build(cfg, debug=True, verbose=plan["verbose"]) if gam else gen.build(cfg)
    fitted, ok = False, 0
    # only the drawn coordinate order may depend on the process-wide random state
    salt = 0 if "'selection': 'random'" in str(cfg) else 1 + plan["noise"] % 997
    pollute(plan["noise"])
    for step, op in enumerate(plan["ops"]):
        ctx.step = step
        if op["op"] == "read":
            if fitted:
                twin.observe(loud, Xq)
                ctx.calls["read"] += 1
            continue
        if op["op"] == "update" and not fitted:
            continue
        pre = None
        if gam and fitted:
            pre = loud.predict_distribution_parameters(data.X[np.array(op["rows"])])
        r = ests.attempt(est, op, data)
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            r2 = ests.attempt(loud, op, data)
        if plan["noise"] % 3 == step % 3:
            pollute(plan["noise"] + step)
        r3 = ests.attempt(again, op, data, salt)
        ctx.fault("process_random_state_changed", int(salt > 0))
        ctx.calls[op["op"]] += 3
        ctx.require(r == r2, "debug-outcome", f"step {step}: silent {r}, debug/verbose {r2}")
        ctx.require(r == r3, "rerun-outcome", f"step {step}: {r} vs {r3}")
        if r[0] != "ok":
            continue
        fitted, ok = True, ok + 1
        if gam:
            check_diag(ctx, cfg, loud, op, data, pre, step)
            loud.get_params()
        twin.same(ctx, est, loud, Xq, "diagnostics-change-result", f"step {step} ({op['op']})")
        twin.same(ctx, est, again, Xq, "rerun-differs", f"step {step} ({op['op']})")
        ctx.probe("verbose_output", bool(buf.getvalue()))
    ctx.nontrivial = ok >= 2
