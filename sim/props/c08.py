"""C08: a rejected or failed fit/update/partial_fit leaves no trace."""
import copy
import pickle

import numpy as np

from .. import ests, gen, twin, world
from ..common import LIN_STUB, TRUST, add_stats, call
from ..core import bits
from ..faults import EXC_KINDS, Tracer

ID = "C08"
LEVEL = "fault_enumeration"
RUNS = {"quick": 1000, "thorough": 20000}
RULE = ("seeded histories over all four estimators with refused inputs (shape, NaN, infinity, support, weights, too few rows, singular design) and "
        "errors (memory, arithmetic, linear algebra, I/O, interrupt) raised at a drawn source line inside fit, update or partial_fit, before the first "
        "fit, between updates and during refits. A twin receives only the accepted calls and must be bit-identical after every operation. Non-trivial: "
        "at least one refused or failed call with a later accepted one; distinct by event-log digest")
STATE_MEASURE = "hash of (estimator, kind of refusal or error, function struck, fitted before)"
REAL = ["OnlineScaler", "OnlineLinearModel", "OnlineLasso", "OnlineDistributionalRegression", "estimation methods, distributions, links"]
STUB = LIN_STUB + ["numba compilation (the compiled functions run as their Python source so that faults can strike inside them)"]
ASSUMPTIONS = TRUST + ["an error strikes between two source lines of the package; a call struck after it took effect counts as completed"]
simplify = ests.simplify_any
BAD_ANY = ["nan_x", "inf_x", "cols", "w_len", "w_nan", "empty"]
BAD_Y = ["nan_y", "inf_y", "len"]


def plan(rng, i, tier):
    cfg, data, n_init = ests.rnd_any(rng, ("scaler", "linear", "linear", "lasso", "gamlss", "gamlss", "gamlss"),
                                     methods=("ols", "ols", "lasso", "ridge"))
    kinds = list(BAD_ANY)
    if cfg["est"] != "scaler":
        kinds += BAD_Y
    if cfg["est"] == "gamlss" and np.isfinite(gen.DISTS[cfg["dist"]].support[0]):
        kinds += ["support_lo"] * 3
    if cfg["est"] == "gamlss" and np.isfinite(gen.DISTS[cfg["dist"]].support[1]):
        kinds += ["support_hi"] * 3
    ops, net = world.schedule(rng, data["n"], n_init, rejects=0.35, faults=0.5, exc_kinds=EXC_KINDS, reject_kinds=kinds,
                              first=rng.choice(["fit", "fit", "partial_fit"]))
    ops = world.cap(ops, 14, rng)
    for o in ops:
        if o["op"] == "reject":
            o["call"] = rng.choice(["update", "update", "partial_fit", "fit"])
        if o["op"] == "fail" and rng.random() < 0.15:
            o["call"], o["rows"] = "fit", list(range(n_init))       # a failing refit
        if o["op"] == "update" and rng.random() < 0.2:
            o["op"] = "partial_fit"
    if rng.random() < 0.3:
        ops.insert(rng.randrange(len(ops) + 1), {"t": 0.0, "op": "reject", "kind": rng.choice(["few", "singular"]), "call": "fit",
                                                 "rows": list(range(n_init)), "s": 0})
    if rng.random() < 0.3:
        ops.append({"t": ops[-1]["t"], "op": "fit", "rows": list(range(n_init))})
    return {"cfg": cfg, "data": data, "ops": ops, "net": net}


def warmup():
    ests.warm()


def corrupt(kind, cfg, X, y, w):
    X, y, w = np.array(X), np.array(y), np.ones(len(y)) if w is None else np.array(w)
    if kind == "nan_x":
        X[len(X) // 2, -1] = np.nan
    elif kind == "inf_x":
        X[-1, 0] = -np.inf
    elif kind == "nan_y":
        y[-1] = np.nan
    elif kind == "inf_y":
        y[0] = np.inf
    elif kind == "cols":
        X = np.hstack([X, X[:, :1]])
    elif kind == "len":
        y = np.append(y, y[-1])
    elif kind == "w_len":
        w = np.append(w, 1.0)
    elif kind == "w_nan":
        w[-1] = np.nan
    elif kind == "empty":
        X, y, w = X[:0], y[:0], w[:0]
    elif kind == "support_lo":
        y[-1] = gen.DISTS[cfg["dist"]].support[0] - 0.25
    elif kind == "support_hi":
        hi = gen.DISTS[cfg["dist"]].support[1]
        # beyond the upper end, or exactly on it where it does not belong to the support
        y[len(y) // 2] = hi if cfg["dist"] in ("Beta", "BetaInflatedZero") and len(y) % 3 == 0 else hi + 0.25
    elif kind == "few":
        # one observation; least squares by name also refuses as many observations as coefficients
        n = X.shape[1] + cfg["intercept"] if cfg["est"] == "linear" and cfg["method"] == "ols" and len(y) % 2 else 1
        X, y, w = X[:n], y[:n], np.ones(n) if cfg["est"] == "linear" else w[:n]
    elif kind == "singular":
        X = np.array(X)
        X[:, -1] = X[0, -1]
    return X, y, w


def execute(plan, ctx):
    add_stats(ctx, plan)
    cfg, data = plan["cfg"], gen.Data(plan["data"])
    Xq = data.X[:4]
    est, ref = gen.build(cfg), gen.build(cfg)
    fitted, bad, good_after = False, 0, 0

    def outcome(step, label, op, must=None):
        """after an error: est must equal ref (nothing happened) or ref plus the call (it completed)"""
        nonlocal ref, fitted
        oe = twin.observe(est, Xq)
        orr = twin.observe(ref, Xq)
        if bits(oe) == bits(orr):
            ctx.checks += 1
            ctx.log(label, bits(oe))
            return
        if op is not None:
            post = copy.deepcopy(ref)
            try:
                if ests.attempt(post, op, data)[0] == "ok":
                    op_ = twin.observe(post, Xq)
                    if bits(op_) == bits(oe):
                        ctx.probe("struck_after_commit")
                        ctx.checks += 1
                        ctx.log(label, "completed")
                        ref, fitted = post, True
                        return
            except Exception:  # noqa: BLE001
                pass
        k, x, y = twin.first_diff(oe, orr)
        ctx.fail("trace-of-failed-call", f"step {step}: after {label} the estimator differs from one that never saw the call: {k}: {twin.short(x)} vs {twin.short(y)}")

    for step, op in enumerate(plan["ops"]):
        ctx.step = step
        kind = op["op"]
        if kind in ("fit", "update", "partial_fit"):
            if kind == "update" and not fitted:
                continue
            r = ests.attempt(est, op, data)
            r2 = ests.attempt(ref, op, data)
            ctx.calls[kind] += 1
            ctx.require(r[0] == r2[0], "later-call-differs", f"step {step}: {kind} gave {r}; on an estimator that never saw the failed calls {r2}")
            if r[0] == "ok":
                fitted = True
                good_after += bad > 0
            else:
                bad += 1
                ctx.fault("reject:" + r[1])
            twin.same(ctx, est, ref, Xq, "trace-of-failed-call" if bad else "twins-differ", f"step {step} ({kind})")
        elif kind == "reject":
            name = op["call"]
            if name == "update" and not fitted:
                name = "fit"
            if op["kind"] == "cols" and (name == "fit" or not fitted):
                continue                    # a fit may have any number of columns
            if op["kind"] in ("few", "singular") and (cfg["est"] in ("scaler",)):
                continue
            X, y, w = corrupt(op["kind"], cfg, *data.batch(op["rows"]))
            gen.seed_jit(7)
            try:
                call(est, name, X, y, w)
            except Exception as e:  # noqa: BLE001
                ctx.fault("reject:" + op["kind"])
                bad += 1
                ctx.calls["rejected_" + name] += 1
                ctx.state(cfg["est"], op["kind"], type(e).__name__, fitted)
                if op["kind"].startswith("support"):
                    # refused as invalid input, not noticed later as a numerical accident
                    ctx.require(isinstance(e, ValueError) or "Support" in type(e).__name__, "invalid-input-not-refused",
                                lambda: f"step {step}: {name} with a response outside the support failed with {type(e).__name__}: {e}")
                outcome(step, f"rejected {name} ({op['kind']}: {type(e).__name__})", None)
            else:
                if op["kind"] == "singular" or (op["kind"] == "few" and cfg["est"] != "linear"):
                    # not refused by this method: adopt the outcome
                    gen.seed_jit(7)
                    call(ref, name, X, y, w)
                    fitted = True
                    continue
                ctx.fail("invalid-input-accepted", f"step {step}: {name} accepted a batch with {op['kind']}", estimator=cfg["est"], kind=op["kind"])
        elif kind == "fail":
            name = op["call"] if fitted or op["call"] != "update" else "fit"
            cop = {"op": name, "rows": op["rows"]}
            try:
                dry = pickle.loads(pickle.dumps(est))
            except Exception:  # noqa: BLE001 - persistence is C09's subject
                dry = copy.deepcopy(est)
            with Tracer() as t:
                ests.attempt(dry, cop, data)
            target = 1 + int(op["u"] * t.n)
            X, y, w = data.batch(op["rows"])
            gen.seed_jit(ests.jseed(cop))
            err = None
            with Tracer(min(target, t.n), op["exc"]) as t2:
                try:
                    call(est, name, X, y, w)
                except BaseException as e:  # noqa: BLE001
                    err = e
            ctx.calls["struck_" + name] += 1
            if t2.fired is None:
                # never reached (an earlier error): treat as an ordinary call
                pass
            else:
                ctx.fault("inject:" + op["exc"])
                bad += 1
                ctx.state(cfg["est"], op["exc"], t2.fired[1], fitted)
            if err is None:
                r2 = ests.attempt(ref, cop, data)
                ctx.require(r2[0] == "ok", "swallowed-error", f"step {step}: the call returned although {r2}")
                fitted = True
                twin.same(ctx, est, ref, Xq, "swallowed-error", f"step {step}: {name} returned normally although {op['exc']} struck at {t2.fired}")
            else:
                outcome(step, f"{name} struck by {type(err).__name__} at {t2.fired and t2.fired[:2]}", cop)
    ctx.probe("failed_before_first_fit", bad > 0 and not fitted)
    ctx.nontrivial = bad > 0 and good_after > 0
