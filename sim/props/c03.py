"""C03: reported observation counts and effective training lengths are conserved over any history."""
import pickle

import numpy as np

from .. import ests, gen, models, world
from ..common import LIN_STUB, TRUST, add_stats, call
from ..faults import EXC_KINDS, InjectedCrash, Tracer

ID = "C03"
LEVEL = "fault_enumeration"
RUNS = {"quick": 1200, "thorough": 20000}
RULE = ("seeded histories over all four estimators: accepted batches, refused batches, errors injected at a drawn point inside a call, reads, "
        "checkpoints, crashes with restore and replay, refits. Counters are compared after every operation with the sum of accepted weights. "
        "Non-trivial: at least two accepted calls and at least one refused, failed, crashed or refit operation; distinct by event-log digest")
STATE_MEASURE = "hash of (estimator, operation kind, accepted calls class, forget, weights)"
REAL = ["OnlineScaler", "OnlineLinearModel", "OnlineLasso", "OnlineDistributionalRegression (iterations as configured)"]
STUB = LIN_STUB + ["disk (simulated checkpoint store)"]
ASSUMPTIONS = TRUST + ["the point at which an injected error strikes is a source line of the package"]
simplify = ests.simplify_any
BAD = ["nan_x", "nan_y", "inf_x", "cols", "len", "w_len", "w_nan", "empty"]


def plan(rng, i, tier):
    cfg, data, n_init = ests.rnd_any(rng, ("scaler", "linear", "linear", "lasso", "gamlss"), methods=("ols", "ols", "lasso"))
    ops, net = world.schedule(rng, data["n"], n_init, reads=0.15, rejects=0.2, faults=0.2, ckpts=0.25, crashes=0.12,
                              first=rng.choice(["fit", "partial_fit"]), exc_kinds=EXC_KINDS, reject_kinds=BAD)
    ops = world.cap(ops, 30)
    for o in ops:
        if o["op"] == "update" and rng.random() < 0.3:
            o["op"] = "partial_fit"
    if rng.random() < 0.3 and len(ops) > 4:
        k = rng.randrange(3, len(ops))
        ops.insert(k, {"t": ops[k - 1]["t"], "op": "fit", "rows": list(range(rng.randrange(n_init - 2), n_init)) if rng.random() < 0.3
                       else list(range(n_init))})
    return {"cfg": cfg, "data": data, "ops": ops, "net": net}


def warmup():
    ests.warm()


def corrupt(kind, X, y, w):
    y, w = np.array(y), np.ones(len(y)) if w is None else np.array(w)
    if kind == "nan_x":
        X[0, 0] = np.nan
    elif kind == "inf_x":
        X[-1, -1] = np.inf
    elif kind == "nan_y":
        y[0] = np.nan
    elif kind == "cols":
        X = np.hstack([X, X[:, :1]])
    elif kind == "len":
        y = np.append(y, 1.0)
    elif kind == "w_len":
        w = np.append(w, 1.0)
    elif kind == "w_nan":
        w[0] = np.nan
    elif kind == "empty":
        X, y, w = X[:0], y[:0], w[:0]
    return X, y, w


def expect(ctx, cfg, est, wsum, step):
    n, t = ests.expected_counts(cfg, wsum)
    got = est.n_observations_
    ctx.require(abs(got - n) <= 1e-9 * max(1, n), "observation-count", lambda: f"step {step}: n_observations_ {got}, accepted weight {n}")
    if hasattr(est, "n_samples_"):
        ctx.require(abs(est.n_samples_ - n) <= 1e-9 * max(1, n), "sample-count", lambda: f"step {step}: n_samples_ {est.n_samples_} vs {n}")
    if cfg["est"] == "scaler":
        return
    tr = est.n_training_
    if isinstance(t, dict):
        ctx.require(sorted(tr) == sorted(t), "training-length-keys", lambda: f"{tr} vs {t}")
        for p in t:
            ctx.require(abs(tr[p] - t[p]) <= 1e-6 * max(1, t[p]), "training-length", lambda: f"step {step} param {p}: {tr[p]} vs {t[p]}")
    else:
        ctx.require(abs(tr - t) <= 1e-6 * max(1, t), "training-length", lambda: f"step {step}: {tr} vs {t}")


def execute(plan, ctx):
    add_stats(ctx, plan)
    cfg, data = plan["cfg"], gen.Data(plan["data"])
    est = gen.build(cfg)
    fitted, wsum, accepted, special = False, 0.0, 0, 0
    disk = {"live": None, "durable": None}
    since = []          # operations accepted after the durable checkpoint
    for step, op in enumerate(plan["ops"]):
        ctx.step = step
        kind = op["op"]
        if kind in ("fit", "update", "partial_fit"):
            if kind == "update" and not fitted:
                continue
            r = ests.attempt(est, op, data)
            ctx.calls[kind] += 1
            if r[0] == "ok":
                ws = float(np.sum(data.weights(op["rows"])))
                if kind == "fit" or not fitted:
                    wsum = ws
                    special += fitted
                    ctx.probe("refit", fitted)
                else:
                    wsum += ws
                fitted = True
                accepted += 1
                since.append(op)
            else:
                special += 1
                ctx.fault("reject:" + r[1])
        elif kind == "reject":
            X, y, w = corrupt(op["kind"], *data.batch(op["rows"]))
            if cfg["est"] == "scaler" and op["kind"] in ("nan_y", "len"):
                continue
            try:
                call(est, "partial_fit", X, y, w)
            except Exception:  # noqa: BLE001
                special += 1
                ctx.fault("reject:" + op["kind"])
            else:
                return
        elif kind == "fail":
            call_op = dict(op, op="partial_fit")
            probe = pickle.loads(pickle.dumps(est))
            with Tracer() as t:
                ests.attempt(probe, call_op, data)
            target = max(1, int(op["u"] * t.n))
            X, y, w = data.batch(op["rows"])
            gen.seed_jit(ests.jseed(call_op))
            done = True
            with Tracer(target, op["exc"]) as t2:
                try:
                    call(est, "partial_fit", X, y, w)
                except BaseException as e:  # noqa: BLE001
                    if "injected" not in str(e) and not isinstance(e, (ValueError, np.linalg.LinAlgError)):
                        raise
                    done = False
            if t2.fired:
                ctx.fault("inject:" + op["exc"])
                special += 1
            ws = float(np.sum(data.weights(op["rows"])))
            if not done and t2.fired and ws > 0 and hasattr(est, "n_observations_"):
                # struck after the call had taken effect: completed in full
                done = abs(est.n_observations_ - ((wsum if fitted else 0.0) + ws)) < 1e-9 * (1 + wsum)
                ctx.probe("struck_after_commit", done)
            if done:
                wsum = wsum + float(np.sum(data.weights(op["rows"]))) if fitted else float(np.sum(data.weights(op["rows"])))
                fitted = True
                accepted += 1
                since.append(call_op)
            ctx.log("fail", t2.fired is not None, done)
        elif kind == "read" and fitted:
            Xq = data.X[:3]
            if cfg["est"] == "scaler":
                est.transform(Xq)
            else:
                est.predict(Xq)
                if cfg["est"] == "gamlss":
                    est.predict_quantile(Xq, np.array([0.1, 0.5]))
            ctx.calls["read"] += 1
        elif kind == "ckpt":
            blob = (pickle.dumps(est), wsum, fitted)
            if op["sync"]:
                disk["durable"] = blob
                since = []
                ctx.fault("checkpoint_synced")
            else:
                ctx.fault("checkpoint_lost")
        elif kind == "crash" and disk["durable"] is not None:
            est, wsum, fitted = pickle.loads(disk["durable"][0]), disk["durable"][1], disk["durable"][2]
            special += 1
            ctx.fault("crash_restart")
            if fitted:
                expect(ctx, cfg, est, wsum, step)
            replay, since = since, []
            for o in replay:
                if ests.attempt(est, o, data)[0] == "ok":
                    ws = float(np.sum(data.weights(o["rows"])))
                    wsum = ws if (o["op"] == "fit" or not fitted) else wsum + ws
                    fitted = True
                    since.append(o)
        else:
            continue
        if fitted:
            expect(ctx, cfg, est, wsum, step)
        else:
            ctx.require(not est.is_fitted if hasattr(est, "is_fitted") else not hasattr(est, "n_observations_"), "fitted-without-data",
                        f"step {step}: no accepted batch, yet the estimator reports to be fitted")
        ctx.log(kind, round(wsum, 9), fitted)
        ctx.state(cfg["est"], kind, min(accepted, 6), str(cfg.get("forget"))[:12], plan["data"]["w"])
    ctx.nontrivial = accepted >= 2 and special >= 1
    _ = InjectedCrash, models
