"""Histories of distributional regressions with diagnostics on: a driver shared by C06 and C07.

Everything the oracles use is either computed here from the plan (designs, weights, discounts) or read through the
public diagnostics (get_debug_information) and attributes of the real estimator."""
import numpy as np

from . import ests, gen, models
from .common import add_stats, call
from .core import Discard


def softplus(x):
    return np.logaddexp(0.0, x)


ALT_MAPS = {"InverseSoftPlus": softplus, "LogIdent": lambda x: np.where(x <= 0, np.exp(np.minimum(x, 0.0)), x + 1), "InverseSoftPlusShiftTwo": lambda x: 2 + softplus(x)}
LINK_POS = {"loc_link": 0, "mu_link": 0, "scale_link": 1, "skew_link": 2, "tail_link": None}


def dist_of(cfg):
    """Independent distribution with the maps of the configured links."""
    D = gen.DISTS[cfg["dist"]]
    if not cfg.get("links"):
        return D, list(D.maps)
    maps = list(D.maps)
    for k, v in cfg["links"].items():
        pos = LINK_POS[k] if LINK_POS[k] is not None else D.k - 1
        maps[pos] = ALT_MAPS[v]
    return D, maps


def columns(eq, d):
    if eq == "intercept":
        return np.array([], int)
    if eq == "all":
        return np.arange(d)
    return np.flatnonzero(np.array(eq["mask"], bool)) if "mask" in eq else np.array(eq["idx"], int)


def debug_blocks(est, cfg, order):
    """Recorded iterations of the last call in execution order: list of (param, outer, [iteration dicts])."""
    names = ("weights", "working_vectors", "dl1dlp1", "dl2dlp2", "eta", "fv", "coef", "coef_path")
    out = []
    for o in range(1, cfg.get("max_it_outer", 30) + 1):
        any_ = False
        for p in order:
            its = []
            for i in range(1, cfg.get("max_it_inner", 30) + 1):
                try:
                    rec = {n: est.get_debug_information(n, p, o, i) for n in names}
                except (KeyError, IndexError, ValueError):
                    break
                its.append(rec)
            if its:
                any_ = True
                out.append((p, o, its))
        if not any_:
            break
    return out


def committed(blocks, p, coef, path):
    """Recorded last iterations whose coefficients (and path) are the served ones, newest first, and whether the newest round is one.
    Several rounds can produce identical coefficients from different working weights (constant predictors)."""
    mine = [b for b in blocks if b[0] == p]
    out, newest = [], False
    for b in reversed(mine):
        it = b[2][-1]
        bp = it["coef_path"]
        if np.array_equal(np.asarray(it["coef"]), np.asarray(coef)) and (path is None or bp is None or np.array_equal(np.asarray(bp), path)):
            if not any(np.array_equal(o["weights"], it["weights"]) and np.array_equal(o["working_vectors"], it["working_vectors"]) for o in out):
                out.append(it)
            newest |= b is mine[-1]
    return out, newest


def history(plan, ctx):
    add_stats(ctx, plan)
    cfg, data = plan["cfg"], gen.Data(plan["data"])
    d = plan["data"]["d"]
    D, maps = dist_of(cfg)
    k = D.k
    eqs = ests.full_eq(cfg)
    order = cfg.get("order") or list(range(k))
    est = gen.build(cfg, debug=True)
    fs = [ests.forget_of(cfg, p) for p in range(k)]
    icpt = [ests.setting(cfg, "intercept", True, p) for p in range(k)]
    sf = scaler_forget(cfg)
    sc, fitted, wsum = None, False, 0.0
    for step, op in enumerate(plan["ops"]):
        ctx.step = step
        if op["op"] == "reject":
            if fitted:
                X, y, w = data.batch(op["rows"])
                try:
                    call(est, "update", X * np.nan if op["kind"] == "nan_x" else np.hstack([X, X]), y, w)
                except ValueError:
                    ctx.fault("reject:" + op["kind"])
                else:
                    return
            continue
        if op["op"] not in ("fit", "update", "partial_fit"):
            continue
        init = not fitted or op["op"] == "fit"
        if not fitted and op["op"] == "update":
            return
        X, y, w = data.batch(op["rows"])
        wv = data.weights(op["rows"])
        if wv.sum() == 0:
            continue
        if init:
            sc = models.ScalerLog(sf, models.select_of(cfg["scale"], d))
            wsum = 0.0
        before = None if init else np.array(est.predict_distribution_parameters(X))
        sc.add(X, wv)
        wsum += wv.sum()
        if sc.select is not None and not np.all(sc.moments()[1] > 1e-10):
            return
        Xs = sc.transform(X)
        A = {}
        for p in range(k):
            cols = Xs[:, columns(eqs[p], d)]
            A[p] = np.ones((len(y), 1)) if eqs[p] == "intercept" else models.design(cols, icpt[p])
        gen.seed_jit(ests.jseed(op))
        try:
            call(est, op["op"], X, y, w)
        except FloatingPointError:
            raise Discard() from None   # diverged, and said so
        except (ValueError, np.linalg.LinAlgError, ZeroDivisionError):
            if init or not np.all(np.abs(before) < 1e5):
                raise Discard() from None   # a model that diverged (e.g. infinitely light tails) has no penalty grid
            raise
        ctx.calls[op["op"]] += 1
        fitted = True
        if not all(np.all(np.isfinite(c)) for c in est.coef_.values()):
            raise Discard()   # finiteness is C15's subject
        yield dict(step=step, op=op, est=est, init=init, X=X, y=y, w=wv, A=A, D=D, maps=maps, k=k, order=order, fs=fs, before=before, wsum=wsum,
                   blocks=debug_blocks(est, cfg, order), cfg=cfg, eqs=eqs, icpt=icpt, coef={p: np.array(est.coef_[p]) for p in range(k)},
                   path={p: None if est.coef_path_[p] is None else np.array(est.coef_path_[p]) for p in range(k)}, data=data)


def scaler_forget(cfg):
    """The documented scaler of the distributional model has no setting of its own: it forgets like the first parameter (see repository)."""
    return ests.forget_of(cfg, 0) if cfg.get("scaler_forget") is None else cfg["scaler_forget"]


def method_spec(cfg, p):
    m = ests.setting(cfg, "method", "ols", p)
    if isinstance(m, str):
        m = {"name": m}
    return {"name": m["name"], "alpha": {"lasso": 1.0, "ridge": 0.0}.get(m["name"], m.get("alpha")), "n": m.get("lambda_n", 100),
            "eps": m.get("lambda_eps", 1e-4), "tol": m.get("tolerance", 1e-4), "it": m.get("max_iterations", 1000), "early": m.get("early_stop", 0),
            "sel": m.get("selection", "cyclic"), "lambda_reg": m.get("lambda_reg"), "path": m["name"] in ("lasso", "elasticnet")}


def reg_mask(cfg, p, J, eqs, icpt):
    reg = np.ones(J, bool)
    if icpt[p] and eqs[p] != "intercept" and not ests.setting(cfg, "reg_int", False, p):
        reg[0] = False
    return reg
