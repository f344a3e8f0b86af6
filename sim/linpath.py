"""Histories of regularised linear models: a driver shared by C04 and C05."""
import numpy as np

from . import gen, models, world
from .common import add_stats, call, rnd_data, rnd_forget, rnd_scale, rnd_size, wide_scale
from .core import Discard
from .ests import jseed


def rnd_plan(rng, names=("lasso", "lasso", "elasticnet", "ridge", "onlinelasso"), tight=False):
    d = rng.randrange(1, 6) if rng.random() < 0.97 else rng.randrange(6, 12)
    n_init = 2 * d + 5 + rng.randrange(0, 14)
    n_init, more = rnd_size(rng, n_init, rng.randrange(40, 120) if rng.random() < 0.1 else rng.randrange(4, 40))
    n = n_init + more
    data = rnd_data(rng, n, d, yscale=rng.choice([1.0, 1.0, 1.0, 100.0, 0.01]), y0=rng.choice([0.5, 0.5, -3.0, 0.0]))
    data["beta"] = [rng.choice([0.0, 0.0, 0.3, -0.5, 1.0, -2.0]) for _ in range(d)]
    if not any(data["beta"]):
        data["beta"][rng.randrange(d)] = rng.choice([-1.0, 1.0])
    data["noise"] = rng.choice([0.3, 1.0])
    data["xshift"] = [s if abs(s) <= 1 else s / 25 for s in data["xshift"]]
    data["xscale"] = [min(max(s, 0.3), 5.0) for s in data["xscale"]]
    data["corr"] = min(data["corr"], 0.7)
    name = rng.choice(names)
    icpt = rng.random() < 0.75
    J = d + icpt
    cfg = {"forget": rnd_forget(rng), "scale": rnd_scale(rng, d), "intercept": icpt, "ic": rng.choice(["aic", "bic", "hqc", "max"])}
    if cfg["scale"] is True:
        wide_scale(rng, data, 0.2)
    reg_int = icpt and rng.random() < 0.2
    tol = rng.choice([1e-4, 1e-6, 1e-8, 1e-10])
    common = {"tolerance": tol, "max_iterations": rng.choice([1000, 1000, 1000, 200, 3, 1])}
    if rng.random() < 0.25:
        common["selection"] = "random"
    if rng.random() < 0.3:
        lo, hi = [], []
        for _ in range(J):
            r = rng.random()
            lo.append("-inf" if r < 0.4 else 0.0 if r < 0.6 else -0.4 if r < 0.9 else 0.1)
            hi.append("inf" if rng.random() < 0.5 else rng.choice([0.25, 0.8]))
        common.update(beta_lower_bound=lo, beta_upper_bound=hi)
    sv = ["previous_lambda", "previous_fit", "average"]
    path = {"lambda_n": rng.choice([1, 2, 3, 5, 10, 20]), "lambda_eps": rng.choice([1e-1, 1e-2, 1e-3, 1e-4])}
    if rng.random() < 0.2:
        path["early_stop"] = rng.randrange(1, J + 1)
    if path["lambda_n"] == 1:
        path["lambda_eps"] = 1.0
    if name == "onlinelasso":
        kw = dict(path, **common, start_value=rng.choice(sv), ic=cfg["ic"], fit_intercept=icpt, regularize_intercept=reg_int)
        cfg = {"est": "lasso", "kw": kw, "forget": cfg["forget"], "scale": cfg["scale"]}
    else:
        m = {"name": name, **common}
        if name == "ridge":
            m["lambda_reg"] = rng.choice([None, None, 0.1, 1.0, 20.0])
            if rng.random() < 0.2:
                m["start_beta"] = [rng.choice([0.0, 0.5, -1.0]) for _ in range(J)]
        else:
            m.update(path, start_value_initial=rng.choice(sv), start_value_update=rng.choice(sv))
            if name == "elasticnet":
                m["alpha"] = rng.choice([0.1, 0.5, 0.9, 1.0])
        cfg.update(est="linear", method=m, reg_int=reg_int)
    ops, net = world.schedule(rng, n, n_init, first=rng.choice(["fit", "fit", "partial_fit"]), rejects=0.05, reject_kinds=["nan_x", "cols"])
    for o in ops:
        if o["op"] == "update" and rng.random() < 0.2:
            o["op"] = "partial_fit"
    return {"cfg": cfg, "data": data, "ops": ops[:40], "net": net}


def spec(cfg):
    """Flat description of the estimation problem of a configuration, documented defaults filled in."""
    if cfg["est"] == "lasso":
        m = dict(cfg["kw"])
        s = {"alpha": 1.0, "init": "previous_lambda", "upd": m.get("start_value", "previous_fit"), "path": True,
             "icpt": m.get("fit_intercept", True), "reg_int": m.get("regularize_intercept", False), "ic": m.get("ic", "bic")}
    else:
        m = cfg["method"]
        if isinstance(m, str):
            m = {"name": m}
        s = {"alpha": {"lasso": 1.0, "ridge": 0.0}.get(m["name"], m.get("alpha")), "init": m.get("start_value_initial", "previous_lambda"),
             "upd": m.get("start_value_update", "previous_fit"), "path": m["name"] != "ridge", "icpt": cfg.get("intercept", True),
             "reg_int": cfg.get("reg_int", False), "ic": cfg.get("ic", "bic"), "lambda_reg": m.get("lambda_reg"), "start_beta": m.get("start_beta")}
    s.update(n=m.get("lambda_n", 100), eps=m.get("lambda_eps", 1e-4), early=m.get("early_stop", 0), sel=m.get("selection", "cyclic"),
             tol=m.get("tolerance", 1e-4), it=m.get("max_iterations", 1000), lo=m.get("beta_lower_bound"), hi=m.get("beta_upper_bound"))
    return s


def bounds(s, J):
    cv = lambda v: -np.inf if v == "-inf" else np.inf if v == "inf" else float(v)  # noqa: E731
    lo = np.full(J, -np.inf) if s["lo"] is None else np.array([cv(v) for v in s["lo"]])
    hi = np.full(J, np.inf) if s["hi"] is None else np.array([cv(v) for v in s["hi"]])
    return lo, hi


def history(plan, ctx):
    """Drives the real estimator; yields one record per accepted batch."""
    add_stats(ctx, plan)
    cfg, data = plan["cfg"], gen.Data(plan["data"])
    d = plan["data"]["d"]
    s = spec(cfg)
    est = gen.build(cfg)
    f = cfg["forget"]
    J = d + s["icpt"]
    lo, hi = bounds(s, J)
    reg = np.ones(J, bool)
    if s["icpt"]:
        reg[0] = s["reg_int"]
    log = sc = None
    fitted, old = False, None
    wsum = 0.0
    for step, op in enumerate(plan["ops"]):
        ctx.step = step
        if op["op"] == "reject":
            if fitted:
                X, y, w = data.batch(op["rows"])
                X = X * np.nan if op["kind"] == "nan_x" else np.hstack([X, X])
                try:
                    call(est, "update", X, y, w)
                except ValueError:
                    ctx.fault("reject:" + op["kind"])
                else:
                    return
            continue
        if op["op"] not in ("fit", "update", "partial_fit"):
            continue
        X, y, w = data.batch(op["rows"])
        wv = data.weights(op["rows"])
        if not fitted and (op["op"] == "update" or wv.sum() <= J + 1):
            return
        if wv.sum() == 0:
            continue
        init = not fitted or op["op"] == "fit"
        if init:
            log = models.LSLog(f)
            sc = models.ScalerLog(f, models.select_of(cfg["scale"], d))
            wsum = 0.0
        sc.add(X, wv)
        with np.errstate(all="ignore"):
            if sc.select is not None and not np.all(sc.moments()[1] > 1e-10 * np.abs(data.X).max(axis=0)[sc.select] ** 2):
                return
            A = models.design(sc.transform(X), s["icpt"])
        log.add(A, y, wv)
        G, b = log.gram()
        if np.min(np.diag(G)) < 1e-9 or np.linalg.cond(G) > 1e6:
            raise Discard()
        wsum += wv.sum()
        gen.seed_jit(jseed(op))
        call(est, op["op"], X, y, w)
        ctx.calls[op["op"]] += 1
        fitted = True
        coef = np.array(est.coef_)
        path = np.array(est.coef_path_) if s["path"] else None
        yield dict(step=step, op=op, est=est, s=s, G=G, b=b, A=A, y=y, w=wv, reg=reg, lo=lo, hi=hi, J=J, init=init, old=old, coef=coef,
                   path=path, wsum=wsum, sc=sc, data=data, forget=f, cfg=cfg)
        old = path if s["path"] else coef


def simplify(plan):
    from .common import lin_simplify
    yield from lin_simplify(plan)
    c = plan["cfg"]
    key = "kw" if c["est"] == "lasso" else "method"
    for k in ("beta_lower_bound", "early_stop", "selection", "start_beta"):
        if k in c[key]:
            yield dict(plan, cfg=dict(c, **{key: {a: b for a, b in c[key].items() if a != k and not (k == "beta_lower_bound" and a == "beta_upper_bound")}}))
    if c[key].get("lambda_n", 0) > 2:
        yield dict(plan, cfg=dict(c, **{key: dict(c[key], lambda_n=2)}))


def warm():
    from .core import Ctx
    base = {"forget": 0.01, "scale": True, "intercept": True, "ic": "bic"}
    for m in ({"name": "lasso", "lambda_n": 3}, {"name": "ridge"}, {"name": "ridge", "start_beta": [0.0, 0.0, 0.0]},
              {"name": "elasticnet", "alpha": 0.5, "lambda_n": 3, "selection": "random"}):
        p = {"cfg": dict(base, est="linear", method=m), "data": {"seed": 1, "n": 30, "d": 2, "w": "random"},
             "ops": [{"op": "fit", "rows": list(range(20))}, {"op": "update", "rows": [20]}, {"op": "update", "rows": [21, 22]}]}
        for _ in history(p, Ctx()):
            pass
