"""C16: partial_fit == fit on the first accepted batch, update afterwards."""
import numpy as np

from .. import ests, gen, twin, world
from ..common import LIN_STUB, TRUST, add_stats, call
from .c03 import BAD, corrupt

ID = "C16"
LEVEL = "exploration"
RUNS = {"quick": 1500, "thorough": 20000}
RULE = ("seeded streams over all four estimators in which fit, update and partial_fit are mixed and batches are refused before and after the first "
        "accepted one; a twin estimator gets fit/update by the definition of the protocol and must stay bit-identical. Non-trivial: at least two "
        "partial_fit calls accepted, or a refused first batch; distinct by event-log digest")
STATE_MEASURE = "hash of (estimator, call kind, fitted before, accepted, calls class)"
REAL = ["OnlineScaler", "OnlineLinearModel", "OnlineLasso", "OnlineDistributionalRegression"]
STUB = LIN_STUB
ASSUMPTIONS = TRUST
simplify = ests.simplify_any


def plan(rng, i, tier):
    cfg, data, n_init = ests.rnd_any(rng, methods=("ols", "ols", "lasso", "ridge"))
    ops, net = world.schedule(rng, data["n"], n_init, reads=0.1, rejects=0.3, first="partial_fit", reject_kinds=BAD)
    ops = world.cap(ops, 16)
    for o in ops:
        if o["op"] == "update":
            o["op"] = "partial_fit" if rng.random() < 0.75 else "update"
    if rng.random() < 0.4:
        k = rng.randrange(1, len(ops) + 1)
        ops.insert(k, {"t": ops[k - 1]["t"], "op": "fit", "rows": list(range(n_init))})
    if rng.random() < 0.4:
        # trouble right at the start: refused or too small first batches
        ops.insert(0, {"t": 0.0, "op": "reject", "kind": rng.choice(BAD), "rows": list(range(n_init)), "s": 0})
        if rng.random() < 0.5:
            ops.insert(0, {"t": 0.0, "op": rng.choice(["partial_fit", "fit"]), "rows": [0]})
    return {"cfg": cfg, "data": data, "ops": ops, "net": net}


def warmup():
    ests.warm()


def is_fitted(e):
    v = getattr(e, "is_fitted", None)
    return hasattr(e, "n_observations_") if v is None else bool(v)


def execute(plan, ctx):
    add_stats(ctx, plan)
    cfg, data = plan["cfg"], gen.Data(plan["data"])
    Xq = data.X[:4]
    est, ref = gen.build(cfg), gen.build(cfg)
    fitted, n_pf, rej_first = False, 0, 0
    ctx.require(not is_fitted(est), "fitted-at-start", "a new estimator reports to be fitted")
    for step, op in enumerate(plan["ops"]):
        ctx.step = step
        kind = op["op"]
        if kind == "read":
            if fitted:
                twin.observe(est, Xq)
                ctx.calls["read"] += 1
            continue
        if kind == "reject":
            if cfg["est"] == "scaler" and op["kind"] in ("nan_y", "len"):
                continue
            X, y, w = corrupt(op["kind"], *data.batch(op["rows"]))
            if cfg["est"] == "scaler" and op["kind"] == "cols" and not fitted:
                continue
            try:
                if op["kind"] == "cols" and not fitted:
                    X = X[:, :0]
                call(est, "partial_fit", X, y, w)
            except Exception:  # noqa: BLE001
                ctx.fault("reject:" + op["kind"])
                rej_first += not fitted
            else:
                return          # acceptance of malformed input is C08's subject
        else:
            if kind == "update" and not fitted:
                continue
            meant = kind if kind != "partial_fit" else ("update" if fitted else "fit")
            r = ests.attempt(est, op, data)
            X, y, w = data.batch(op["rows"])
            gen.seed_jit(ests.jseed(op))
            try:
                call(ref, meant, X, y, w)
                r2 = ("ok", None)
            except Exception as e:  # noqa: BLE001
                r2 = ("err", type(e).__name__)
            ctx.calls[kind] += 1
            ctx.require(r[0] == r2[0], "outcome", f"step {step}: {kind} gave {r}, {meant} gave {r2}")
            if r[0] == "ok":
                fitted = True
                n_pf += kind == "partial_fit"
            else:
                ctx.fault("reject:" + str(r[1]))
                rej_first += not fitted
        ctx.require(is_fitted(est) == fitted, "is-fitted", f"step {step} ({kind}): is_fitted={is_fitted(est)}, an accepted batch: {fitted}")
        twin.same(ctx, est, ref, Xq, "partial-fit-differs", f"step {step} ({kind})")
        ctx.state(cfg["est"], kind, fitted, min(n_pf, 5))
    ctx.probe("first_batch_refused", rej_first > 0)
    ctx.nontrivial = n_pf >= 2 or rej_first > 0
    _ = np
