"""Shared pieces of the property modules."""
import numpy as np

from . import gen, models, world  # noqa: F401

LIN_STUB = ["data source, network, trainer loop and clock (simulated)"]
TRUST = ["numpy/BLAS (one thread), numba-compiled code of the repository, CPython"]


def rnd_forget(rng, hi=0.2):
    return rng.choice([0.0, 0.0, 1e-4, 1e-3, 0.005, 0.02, 0.05, hi])


def rnd_size(rng, n_init, n_more):
    """Mostly small; now and then a large initial batch, a long stream, or both, to reach code that depends on size."""
    r = rng.random()
    if 0.87 <= r < 0.96 or r >= 0.99:
        n_init += rng.choice([120, 260, 260, 600])
    if r >= 0.96:
        n_more += rng.choice([100, 300])
    return n_init, n_more


def rnd_scale(rng, d, allow_false=True):
    r = rng.random()
    if r < 0.45:
        return True
    if r < 0.65 and allow_false:
        return False
    if r < 0.85:
        m = [rng.random() < 0.6 for _ in range(d)]
        if not any(m):
            m[rng.randrange(d)] = True
        return {"mask": m}
    k = rng.randrange(1, d + 1)
    idx = rng.sample(range(d), k)
    return {"idx": idx}


def rnd_data(rng, n, d, **over):
    spec = {"seed": rng.randrange(1 << 40), "n": n, "d": d,
            "xscale": [rng.choice([0.1, 1.0, 1.0, 5.0, 30.0]) for _ in range(d)],
            "xshift": [rng.choice([0.0, 0.0, 1.0, -10.0, 50.0]) for _ in range(d)],
            "corr": rng.choice([0.0, 0.0, 0.5, 1.5]),
            "drift": rng.choice([0.0, 0.0, 0.0, 2.0]),
            "w": rng.choice(["none", "none", "random", "int", "zeros", "wide", "small"])}
    spec.update(over)
    return spec


def wide_scale(rng, data, prob=0.3):
    """Features in wildly different units (only meaningful when every column is standardised)."""
    if rng.random() < prob:
        data["xscale"] = [rng.choice([1e-7, 1e-4, 0.01, 1.0, 100.0, 1e6]) for _ in range(data["d"])]
        data["xshift"] = [rng.choice([0.0, 1.0, -10.0]) * s for s in data["xscale"]]


def call(est, name, X, y, w):
    kw = {} if w is None else {"sample_weight": w}
    if type(est).__name__ == "OnlineScaler":
        return getattr(est, name)(X, None, **kw)
    return getattr(est, name)(X, y, **kw)


def add_stats(ctx, plan):
    for k, v in plan.get("net", {}).items():
        if v:
            ctx.fault(k, v)
    if plan.get("ops"):
        ctx.sim_time = max(o.get("t", 0.0) for o in plan["ops"])


def lin_simplify(plan):
    """Generic simplifications for data/config specs."""
    d = plan.get("data", {})
    for k, v in (("corr", 0.0), ("drift", 0.0), ("w", "none")):
        if d.get(k) not in (v, None):
            yield dict(plan, data=dict(d, **{k: v}))
    if "xscale" in d:
        yield dict(plan, data=dict(d, xscale=[1.0] * d["d"], xshift=[0.0] * d["d"]))
    c = plan.get("cfg", {})
    for k, v in (("forget", 0.0), ("scale", False), ("scale", True)):
        if k in c and c[k] != v:
            yield dict(plan, cfg=dict(c, **{k: v}))
    ops = plan.get("ops", [])
    for i, o in enumerate(ops):
        if len(o.get("rows", [])) > 1 and i > 0:
            yield dict(plan, ops=ops[:i] + [dict(o, rows=o["rows"][:1])] + ops[i + 1:])
    if "net" in plan:
        yield dict(plan, net={})
