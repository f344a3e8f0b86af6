"""Bit-exact comparison of two estimators that must be indistinguishable."""
import numpy as np

from . import gen
from .core import bits


def observe(est, Xq):
    """Everything observable, or the fact that the estimator is unfitted."""
    if not hasattr(est, "n_observations_"):
        return {"fitted": False}
    try:
        out = gen.snapshot(est, Xq)
    except Exception as e:  # noqa: BLE001 - a model that cannot predict is an observation too
        out = {"read_error": type(e).__name__}
    out["fitted"] = True
    return out


def first_diff(a, b):
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b:
            return k, a.get(k), b.get(k)
        if bits(a[k]) != bits(b[k]):
            return k, a[k], b[k]
    return None


def same(ctx, a, b, Xq, kind, where):
    oa, ob = observe(a, Xq), observe(b, Xq)
    ctx.checks += 1
    ba, bb = bits(oa), bits(ob)
    ctx.log(where, ba)
    if ba != bb:
        k, x, y = first_diff(oa, ob)
        ctx.fail(kind, f"{where}: {k} differs: {short(x)} vs {short(y)}")


def same_obs(ctx, oa, ob, kind, where):
    ctx.checks += 1
    ba = bits(oa)
    ctx.log(where, ba)
    if ba != bits(ob):
        k, x, y = first_diff(oa, ob)
        ctx.fail(kind, f"{where}: {k} differs: {short(x)} vs {short(y)}")


def short(x):
    return np.array2string(np.asarray(x), precision=12, threshold=12) if isinstance(x, np.ndarray) else str(x)[:200]
