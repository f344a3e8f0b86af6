"""Random estimator configurations with matching data, and helpers to drive them through a history."""
import numpy as np

from . import gen, models
from .common import call, rnd_data, rnd_forget, rnd_scale, rnd_size


def rnd_method(rng, name=None, J=None, tol=None, small=True):
    name = name or rng.choice(["ols", "lasso", "elasticnet", "ridge"])
    if name == "ols":
        return {"name": "ols"}
    m = {"name": name}
    if name == "ridge":
        m["lambda_reg"] = rng.choice([None, 0.1, 1.0, 20.0])
    else:
        m.update(lambda_n=rng.choice([3, 5, 10] if small else [5, 20, 100]), lambda_eps=rng.choice([1e-1, 1e-2, 1e-3, 1e-4]),
                 start_value_initial=rng.choice(["previous_lambda", "previous_lambda", "previous_fit", "average"]),
                 start_value_update=rng.choice(["previous_lambda", "previous_fit", "previous_fit", "average"]))
        if name == "elasticnet":
            m["alpha"] = rng.choice([0.1, 0.5, 0.9, 1.0])
        if J and rng.random() < 0.1:
            m["early_stop"] = rng.randrange(1, J + 1)
    if rng.random() < 0.15:
        m["selection"] = "random"
    m["tolerance"] = tol if tol is not None else rng.choice([1e-4, 1e-6, 1e-8])
    m["max_iterations"] = rng.choice([1000, 1000, 100])
    if gen.NOJIT:
        m["tolerance"], m["max_iterations"] = max(m["tolerance"], 1e-6), rng.choice([30, 5, 60])
    return m


def add_bounds(rng, m, J):
    """Bounds (and, for ridge, a start vector) as user-supplied arrays, including ones that exclude zero."""
    if not isinstance(m, dict) or m["name"] == "ols":
        return m
    lo = [rng.choice(["-inf", "-inf", 0.0, -0.4, 0.1]) for _ in range(J)]
    hi = [rng.choice(["inf", "inf", 0.25, 0.8]) for _ in range(J)]
    if rng.random() < 0.2:
        hi[rng.randrange(J)] = -0.05
        lo = ["-inf" if v != "-inf" and hi[i] != "inf" and hi[i] < v else v for i, v in enumerate(lo)]
    m = dict(m, beta_lower_bound=lo, beta_upper_bound=hi)
    if m["name"] == "ridge" and rng.random() < 0.6:
        m["start_beta"] = [rng.choice([0.0, 0.5, -1.0]) for _ in range(J)]
    return m


def rnd_linear(rng, n=None, methods=None):
    d = rng.randrange(1, 5)
    n_init = 2 * d + 6 + rng.randrange(0, 12)
    cfg = {"est": "linear", "forget": rnd_forget(rng), "scale": rnd_scale(rng, d), "intercept": rng.random() < 0.8,
           "ic": rng.choice(["aic", "bic", "hqc", "max"])}
    J = d + cfg["intercept"]
    name = rng.choice(methods or ["ols", "lasso", "elasticnet", "ridge"])
    cfg["method"] = name if name != "ridge" and rng.random() < (0.05 if gen.NOJIT else 0.2) else rnd_method(rng, name, J)
    if name != "ols" and cfg["intercept"] and rng.random() < 0.2:
        cfg["reg_int"] = True
    if rng.random() < 0.2:
        cfg["method"] = add_bounds(rng, cfg["method"], J)
    n_init, more = rnd_size(rng, n_init, rng.randrange(6, 40))
    data = rnd_data(rng, n or n_init + more, d)
    data["xshift"] = [s if abs(s) <= 1 else s / 25 for s in data["xshift"]]
    data["xscale"] = [min(max(s, 0.3), 5.0) for s in data["xscale"]]
    data["corr"] = min(data["corr"], 0.5)
    return cfg, data, n_init


def rnd_lasso(rng, n=None):
    d = rng.randrange(1, 5)
    n_init = 2 * d + 6 + rng.randrange(0, 12)
    kw = {"lambda_n": rng.choice([5, 10, 20]), "lambda_eps": rng.choice([1e-2, 1e-3]), "ic": rng.choice(["aic", "bic", "hqc", "max"]),
          "start_value": rng.choice(["previous_fit", "previous_lambda", "average"]), "fit_intercept": rng.random() < 0.8,
          "tolerance": rng.choice([1e-4, 1e-8])}
    if gen.NOJIT:
        kw.update(max_iterations=40, tolerance=1e-4)
    cfg = {"est": "lasso", "kw": kw, "forget": rnd_forget(rng), "scale": rnd_scale(rng, d)}
    n_init, more = rnd_size(rng, n_init, rng.randrange(6, 40))
    data = rnd_data(rng, n or n_init + more, d)
    data["xshift"] = [s if abs(s) <= 1 else s / 25 for s in data["xshift"]]
    return cfg, data, n_init


def rnd_scaler(rng, n=None):
    d = rng.randrange(1, 5)
    n_init, more = rnd_size(rng, 3 + rng.randrange(0, 12), rng.randrange(6, 40))
    return ({"est": "scaler", "forget": rnd_forget(rng), "scale": rnd_scale(rng, d)},
            rnd_data(rng, n or n_init + more, d), n_init)


def rnd_gamlss(rng, n=None, dists=None, methods=("ols", "ols", "ols", "lasso", "elasticnet", "ridge"), iters=True, extra=True,
               tol=None, n_init=None, upd=None):
    dist = rng.choice(dists or gen.ALL_DISTS)
    k = gen.DISTS[dist].k
    d = rng.randrange(1, 4)
    n_init = n_init or 25 + 8 * k + rng.randrange(0, 20)
    cfg = {"est": "gamlss", "dist": dist, "scale": rnd_scale(rng, d)}

    def one_eq(p):
        r = rng.random()
        if r < 0.45:
            return "all"
        if r < 0.7:
            return "intercept"
        if r < 0.85:
            return {"idx": rng.sample(range(d), rng.randrange(1, d + 1))}
        m = [rng.random() < 0.6 for _ in range(d)]
        m[rng.randrange(d)] = True
        return {"mask": m}
    eq = None
    if rng.random() < 0.85:
        keys = [p for p in range(k) if rng.random() < 0.85] or [0]
        rng.shuffle(keys)
        eq = [[p, one_eq(p)] for p in keys]
    cfg["eq"] = eq
    eqd = full_eq(cfg)

    def J(p):
        e = eqd[p]
        return 1 if e == "intercept" else 1 + (d if e == "all" else len(e["idx"]) if "idx" in e else sum(e["mask"]))

    def per(f, p_dict=0.35, partial=None):
        """a scalar setting, or a per-parameter dictionary in some key order (possibly partial when a default exists)"""
        if rng.random() < p_dict:
            ks = list(range(k))
            rng.shuffle(ks)
            if partial and rng.random() < 0.3 and k > 1:
                ks = ks[:-1]
            return {"per": [[p, f(p)] for p in ks]}
        return f(0)
    names = list(methods)
    nm = rng.choice(names)
    if nm == "ols" and rng.random() < 0.7:
        cfg["method"] = "ols"
    elif rng.random() < 0.5:
        cfg["method"] = rnd_method(rng, nm, None, tol)
    else:
        cfg["method"] = per(lambda p: rnd_method(rng, rng.choice(names), None, tol), 1.0, partial=True)
    cfg["forget"] = per(lambda p: rng.choice([0.0, 0.0, 0.001, 0.01, 0.03]), partial=True)
    cfg["ic"] = per(lambda p: rng.choice(["aic", "bic", "hqc", "max"]), 0.2, partial=True)
    cfg["ms"] = rng.choice(["local_rss", "global_ll"])
    if rng.random() < 0.15:
        # no intercept for parameters that have covariates
        cfg["intercept"] = {"per": [[p, eqd[p] == "intercept" or rng.random() < 0.6] for p in range(k)]}
    if iters:
        for key, vals in (("max_it_outer", [1, 2, 5, 10]), ("max_it_inner", [1, 2, 5, 10]), ("rel_tol_outer", [1e-5, 1e-3]),
                          ("abs_tol_inner", [1e-3, 1e-1]), ("rel_tol_inner", [1e-5, 1e-3]), ("min_it_outer", [1, 2])):
            if rng.random() < 0.3:
                cfg[key] = rng.choice(vals)
        if rng.random() < 0.15:
            cfg["prefit_initial"] = rng.randrange(1, 4)
        if rng.random() < 0.15:
            cfg["prefit_update"] = rng.randrange(1, 4)
    if gen.NOJIT and cfg["method"] != "ols":
        cfg.setdefault("max_it_outer", rng.choice([2, 4, 8]))
        cfg.setdefault("max_it_inner", rng.choice([2, 4, 8]))
    if extra:
        if rng.random() < 0.15:
            o = list(range(k))
            rng.shuffle(o)
            cfg["order"] = o
        if rng.random() < 0.15:
            cfg["step"] = per(lambda p: rng.choice([0.3, 0.7, 1.0]), partial=True)
        if rng.random() < 0.1 and gen.DISTS[dist].inflate is None:
            cfg["cautious_updates"] = True
        if dist in gen.ALT_LINKS and rng.random() < 0.3:
            cfg["links"] = rng.choice(gen.ALT_LINKS[dist])
    if n is None:
        n_init, more = rnd_size(rng, n_init, upd or rng.randrange(6, 30))
        n = n_init + more
    data = {"seed": rng.randrange(1 << 40), "n": n, "d": d, "y": dist, "signal": 0.2,
            "xscale": [rng.choice([0.5, 1.0, 3.0]) for _ in range(d)], "xshift": [rng.choice([0.0, 0.0, 1.0, -2.0]) for _ in range(d)],
            "w": rng.choice(["none", "none", "random", "int", "zeros", "small"])}
    if cfg["scale"] is not True:
        data["xscale"], data["xshift"] = [1.0] * d, [0.0] * d
    return cfg, data, n_init


def rnd_any(rng, kinds=("scaler", "linear", "lasso", "gamlss", "gamlss"), n=None, **gk):
    kind = rng.choice(kinds)
    if kind == "gamlss":
        return rnd_gamlss(rng, n, **gk)
    return {"scaler": rnd_scaler, "linear": rnd_linear, "lasso": rnd_lasso}[kind](rng, n)


def full_eq(cfg):
    """Equation per parameter, defaults filled in (documented: missing -> intercept; None -> first parameter gets all)."""
    k = gen.DISTS[cfg["dist"]].k
    if cfg.get("eq") is None:
        return {p: "all" if p == 0 else "intercept" for p in range(k)}
    e = {p: "intercept" for p in range(k)}
    e.update({int(a): b for a, b in cfg["eq"]})
    return e


def setting(cfg, key, default, p):
    """Value of a per-parameter setting for parameter p."""
    v = cfg.get(key, default)
    if isinstance(v, dict) and "per" in v:
        return dict((int(a), b) for a, b in v["per"]).get(p, default)
    return v


def forget_of(cfg, p=0):
    return setting(cfg, "forget", 0.0, p)


def k_of(cfg):
    return gen.DISTS[cfg["dist"]].k if cfg["est"] == "gamlss" else 1


def jseed(op):
    import zlib
    return zlib.crc32(repr((op.get("op"), op.get("rows"))).encode())


def run_op(est, op, data, seed=True, salt=0):
    """fit/update/partial_fit of one planned batch. Exceptions propagate."""
    X, y, w = data.batch(op["rows"])
    if seed:
        gen.seed_jit(jseed(op) + salt)
    return call(est, op["op"], X, y, w)


def attempt(est, op, data, salt=0):
    """Like run_op, but an error is an outcome: (ok, exception type name)."""
    try:
        run_op(est, op, data, salt=salt)
        return ("ok", None)
    except Exception as e:  # noqa: BLE001
        return ("err", type(e).__name__)


def zero_batch(op, data):
    return data.w is not None and float(np.sum(data.weights(op["rows"]))) == 0.0


def simplify_any(plan):
    """Simplifications for arbitrary estimator plans."""
    d = plan.get("data", {})
    for k, v in (("corr", 0.0), ("drift", 0.0), ("w", "none")):
        if d.get(k) not in (v, None):
            yield dict(plan, data=dict(d, **{k: v}))
    if "xscale" in d and (set(d["xscale"]) != {1.0} or set(d["xshift"]) != {0.0}):
        yield dict(plan, data=dict(d, xscale=[1.0] * d["d"], xshift=[0.0] * d["d"]))
    c = plan.get("cfg", {})
    for k in ("prefit_initial", "prefit_update", "order", "step", "cautious_updates", "links", "max_it_outer", "max_it_inner",
              "rel_tol_outer", "abs_tol_inner", "rel_tol_inner", "min_it_outer", "intercept", "reg_int"):
        if k in c and c["est"] == "gamlss":
            yield dict(plan, cfg={a: b for a, b in c.items() if a != k})
    for k, v in (("forget", 0.0), ("scale", False), ("scale", True)):
        if k in c and c[k] != v:
            yield dict(plan, cfg=dict(c, **{k: v}))
    if c.get("est") == "gamlss":
        for k, v in (("method", "ols"), ("ic", "aic"), ("eq", None)):
            if c.get(k) != v:
                yield dict(plan, cfg=dict(c, **{k: v}))
    ops = plan.get("ops", [])
    for i, o in enumerate(ops):
        if len(o.get("rows", [])) > 1 and i > 0:
            yield dict(plan, ops=ops[:i] + [dict(o, rows=o["rows"][:1])] + ops[i + 1:])
    if plan.get("net"):
        yield dict(plan, net={})


def warm(kinds=("scaler", "linear", "lasso", "gamlss"), predict=True):
    """Compile everything once in the parent, before workers are forked."""
    rng = np.random.Generator(np.random.PCG64(0))
    X = rng.standard_normal((60, 2))
    y = np.exp(0.3 * X[:, 0] + 0.2 * rng.standard_normal(60))
    gen.seed_jit(0)
    if gen.NOJIT:
        return
    cfgs = []
    if "scaler" in kinds:
        cfgs += [{"est": "scaler"}]
    if "linear" in kinds:
        cfgs += [{"est": "linear", "method": m} for m in ("ols", "lasso", {"name": "ridge"})]
        cfgs += [{"est": "linear", "method": "ols", "forget": 0.1}]
    if "lasso" in kinds:
        cfgs += [{"est": "lasso", "kw": {"lambda_n": 5}}]
    if "gamlss" in kinds:
        cfgs += [{"est": "gamlss", "dist": "Normal", "method": m} for m in ("ols", {"name": "lasso", "lambda_n": 5}, {"name": "ridge"})]
        eq = [[0, {"idx": [1]}], [1, "intercept"]]   # column selections reach the compiled code in Fortran order
        cfgs += [{"est": "gamlss", "dist": "Normal", "method": m, "eq": eq, "forget": 0.01} for m in ("ols", {"name": "lasso", "lambda_n": 5})]
    for c in cfgs:
        e = gen.build(c)
        for f in ("fit", "update"):
            call(e, f, X, y, None)
        call(e, "update", X[:1], y[:1], np.ones(1))
        call(e, "update", X[:1], y[:1], np.ones(1))
        call(e, "update", X[:2], y[:2], np.ones(2))


def expected_counts(cfg, wsum):
    """(n_observations, n_training) by definition."""
    if cfg["est"] == "gamlss":
        return wsum, {p: models.eff_len(forget_of(cfg, p), wsum) for p in range(k_of(cfg))}
    return wsum, models.eff_len(cfg.get("forget", 0.0), wsum)
