"""C12: caller data is never modified, never retained, and any container or memory layout gives the same result."""
import copy

import numpy as np

from .. import ests, gen, models, twin, world
from ..common import LIN_STUB, TRUST, add_stats
from ..core import bits

ID = "C12"
LEVEL = "exploration"
RUNS = {"quick": 2400, "thorough": 15000}
ORACLE = "byte comparison of the caller's buffers and twin estimators whose callers never touch a buffer again"
RULE = ("seeded deployment histories in which every call passes its data in a drawn container (C, Fortran, strided, reversed, sliced out of a wider table, read-only, list, data frame, series; column selections by index or by name) and the caller "
        "overwrites the buffers, and arrays returned by reads and diagnostics, at drawn points after the call. Buffers must be unchanged by the call, the model must be bit-identical to a twin whose caller "
        "keeps its buffers untouched, and equal to a model fed with plain arrays (to 1e-6, or 100 times what a 1e-15 perturbation of the inputs does in the same step). Non-trivial: at least two updates with overwritten buffers and at least one non-plain container; distinct by event-log digest")
STATE_MEASURE = "hash of (estimator, call, container of X, y and weights, scribble pattern)"
REAL = ["OnlineScaler", "OnlineLinearModel", "OnlineLasso", "OnlineDistributionalRegression", "scikit-learn input validation", "pandas and polars containers"]
STUB = LIN_STUB + ["callers' buffer management"]
ASSUMPTIONS = TRUST + ["compiled functions run as their Python source (no difference in aliasing)", "results for different layouts may differ by rounding (1e-6 relative)"]
simplify = ests.simplify_any
XK = ["C", "C", "F", "strided", "reversed", "slice", "readonly", "list", "pandas", "polars", "readonlyF"]
YK = ["C", "C", "strided", "reversed", "readonly", "list", "series", "column"]
SCRIB = ["nan", "huge", "zero", "negate"]


def plan(rng, i, tier):
    cfg, data, n_init = ests.rnd_any(rng, ("scaler", "linear", "lasso", "gamlss", "gamlss"))
    ops, net = world.schedule(rng, data["n"], n_init, reads=0.0, first=rng.choice(["fit", "fit", "partial_fit"]))
    ops = world.cap(ops, 6, rng)
    out = []

    def dress(o):
        o.update(xk=rng.choice(XK), yk=rng.choice(YK), wk=rng.choice(YK), scrib=rng.choice(SCRIB))
        return o
    for o in ops:
        out.append(dress(o))
        for _ in range(rng.choice([0, 1, 1, 2])):
            out.append(dress({"t": o["t"], "op": "read", "rows": [-1] if rng.random() < 0.15 else [rng.randrange(data["n"]) for _ in range(rng.choice([1, 2, 4]))],
                              "what": rng.choice(["predict", "params", "link", "contrib", "quantile", "median", "path", "transform", "inverse", "score"])}))
    return {"cfg": cfg, "data": data, "ops": out, "net": net, "debug": cfg["est"] == "gamlss" and rng.random() < 0.4, "names": rng.random() < 0.6}


def warmup():
    ests.warm()


class Buf:
    """One caller-owned buffer in a given container; knows how to overwrite itself."""

    def __init__(self, a, kind):
        a = np.array(a, float)
        self.kind, self.a = kind, a
        base = None
        if a.ndim == 1:
            if kind == "strided":
                base = np.full(2 * len(a), 7.5)
                v = base[::2]
                v[:] = a
            elif kind == "reversed":
                base = np.empty(len(a))
                v = base[::-1]
                v[:] = a
            elif kind == "column":
                base = np.full((len(a), 3), 7.5, order="C")
                v = base[:, 1]
                v[:] = a
            elif kind == "list":
                base = v = a.tolist()
            elif kind == "series":
                import pandas as pd
                base = v = pd.Series(a.copy())
            else:
                base = v = a.copy()
        elif kind == "F" or kind == "readonlyF":
            base = v = np.asfortranarray(a.copy())
        elif kind == "strided":
            base = np.full((2 * a.shape[0], 2 * a.shape[1]), 7.5)
            v = base[::2, ::2]
            v[:] = a
        elif kind == "reversed":
            base = np.empty_like(a)
            v = base[::-1, ::-1]
            v[:] = a
        elif kind == "slice":
            base = np.full((a.shape[0] + 2, a.shape[1] + 2), 7.5)
            v = base[1:-1, 1:-1]
            v[:] = a
        elif kind == "list":
            base = v = a.tolist()
        elif kind == "pandas":
            import pandas as pd
            base = v = pd.DataFrame(a.copy(), columns=[f"c{j}" for j in range(a.shape[1])])
        elif kind == "polars":
            import polars as pl
            base = v = pl.DataFrame({f"c{j}": a[:, j].copy() for j in range(a.shape[1])})
        else:
            base = v = np.ascontiguousarray(a.copy())
        if kind.startswith("readonly"):
            v.flags.writeable = False
        self.base, self.v = base, v
        self.before = self.content()

    def content(self):
        b = self.base
        if isinstance(b, list):
            return bits([list(x) if isinstance(x, list) else x for x in b])
        if hasattr(b, "to_numpy"):
            return bits([np.array(b.to_numpy(), float), list(getattr(b, "columns", []))])
        return bits(b)

    def scribble(self, how):
        f = {"nan": lambda x: x * np.nan, "huge": lambda x: x * 0 + 1e30, "zero": lambda x: x * 0, "negate": lambda x: -x}[how]
        b = self.base
        if isinstance(b, list):
            for i in range(len(b)):
                b[i] = [float(f(z)) for z in b[i]] if isinstance(b[i], list) else float(f(b[i]))
        elif hasattr(b, "iloc"):
            b.iloc[:] = f(b.to_numpy().copy())
        elif hasattr(b, "to_numpy"):
            return   # polars frames are immutable
        else:
            b.flags.writeable = True
            b[...] = f(b.copy())


def do_call(est, name, X, y, w):
    kw = {} if w is None else {"sample_weight": w}
    if type(est).__name__ == "OnlineScaler":
        return getattr(est, name)(X, None, **kw)
    return getattr(est, name)(X, y, **kw)


def read(est, what, X, y):
    if type(est).__name__ == "OnlineScaler":
        return [est.inverse_transform(X)] if what == "inverse" else [est.transform(X)]
    if type(est).__name__ != "OnlineDistributionalRegression":
        if what == "score":
            return [np.asarray(est.score(X, y))]
        return [est.predict_path(X)] if what == "path" and hasattr(est, "coef_path_") else [est.predict(X)]
    if what in ("params", "path"):
        return [est.predict_distribution_parameters(X)]
    if what == "link":
        return [est.predict_distribution_parameters(X, what="link")]
    if what == "contrib":
        a, b = est.predict_distribution_parameters(X, what="link", return_contributions=True)
        return [a] + list(b)
    if what == "quantile":
        return [est.predict_quantile(X, 0.3)]
    if what == "median":
        return [est.predict_median(X)]
    return [est.predict(X)]


DIAG = ["weights", "working_vectors", "dl1dlp1", "dl2dlp2", "eta", "fv", "coef", "coef_path"]


def diagnostics(est, k):
    """Every diagnostic of the first recorded iteration, as returned (not copied)."""
    out = {}
    for p in range(k):
        for v in ["X_dict", "X_scaled"] + DIAG:
            out[(p, v)] = est.get_debug_information(v, param=p, it_outer=1, it_inner=1)
    return out


def close(a, b, tol=1e-6):
    """plain comparison of two observations up to rounding"""
    if set(a) != set(b):
        return f"{sorted(a)} vs {sorted(b)}"
    for k in a:
        va, vb = a[k], b[k]
        items = [(va[q], vb[q]) for q in va] if isinstance(va, dict) else [(va, vb)]
        for x, z in items:
            if x is None or isinstance(x, (str, bool)):
                if x != z:
                    return k
                continue
            x, z = np.asarray(x, float), np.asarray(z, float)
            if x.shape != z.shape:
                return k
            with np.errstate(all="ignore"):
                bad = ~((np.abs(x - z) <= tol * (np.abs(z) + np.nanmax(np.abs(z), initial=0.0)) + 1e-9) | (np.isnan(x) & np.isnan(z)) | (x == z))
            if bad.any():
                return f"{k}: {twin.short(x)} vs {twin.short(z)}"
    return None


def named(cfg):
    """The equation with column selections given as names of data-frame columns; None if there is none."""
    if cfg["est"] != "gamlss" or not any(isinstance(e, dict) for _, e in cfg.get("eq") or []):
        return None
    return {int(p): [f"c{j}" for j in (e["idx"] if "idx" in e else np.flatnonzero(e["mask"]))] if isinstance(e, dict) else e for p, e in cfg["eq"]}


def outcome(est, op, X, y, w):
    gen.seed_jit(ests.jseed(op))
    if op["op"] != "update" and isinstance(getattr(est, "equation", None), dict) and any(isinstance(e, list) for e in est.equation.values()):
        import pandas as pd
        X = pd.DataFrame(X, columns=[f"c{j}" for j in range(X.shape[1])])   # named columns need a frame to learn the names from
    try:
        do_call(est, op["op"], X, y, w)
        return "ok"
    except Exception as e:  # noqa: BLE001
        return type(e).__name__


def rounding(base, op, X, y, w, Xq):
    """The same call on plain arrays that differ by rounding only: how ill-conditioned is this step?"""
    out = []
    for k in range(6):
        r, e = np.random.default_rng(k), copy.deepcopy(base)
        o = outcome(e, op, X * (1 + 1e-15 * r.choice([-1.0, 0.0, 1.0], X.shape)), y * (1 + 1e-15 * r.choice([-1.0, 0.0, 1.0], y.shape)), w)
        out.append((o, twin.observe(e, Xq) if o == "ok" else None))
    return out


def spread(a, b):
    m = 0.0
    for k in b:
        va, vb = a.get(k), b[k]
        for x, z in ([(va[q], vb[q]) for q in vb] if isinstance(vb, dict) else [(va, vb)]):
            if z is None or isinstance(z, (str, bool)):
                continue
            x, z = np.asarray(x, float), np.asarray(z, float)
            if x.shape != z.shape:
                return np.inf
            with np.errstate(all="ignore"):
                d = np.abs(x - z) / (np.abs(z) + np.nanmax(np.abs(z), initial=0.0) + 1e-300)
            m = max(m, float(np.nanmax(np.where((x == z), 0.0, d), initial=0.0)))
    return m


def execute(plan, ctx):
    add_stats(ctx, plan)
    cfg, data = plan["cfg"], gen.Data(plan["data"])
    Xq = data.X[:4]
    dbg = {"debug": True} if plan.get("debug") else {}
    eqn = named(cfg) if plan.get("names") else None
    by_name = {} if eqn is None else {"equation": eqn}
    hostile, calm, plain = gen.build(cfg, **dbg, **copy.deepcopy(by_name)), gen.build(cfg, **dbg, **copy.deepcopy(by_name)), gen.build(cfg, **dbg)
    keepers, fitted, upd, odd, exact = [], False, 0, 0, True
    for step, op in enumerate(plan["ops"]):
        ctx.step = step
        if op["op"] == "read":
            if not fitted:
                continue
            X, y, _ = data.batch(np.abs(op["rows"]))
            X[np.array(op["rows"]) < 0] = 0.0
            bx, by = Buf(X, op["xk"]), Buf(y, op["yk"])
            ctx.calls["read"] += 1
            try:
                ref = [np.array(v) for v in read(copy.deepcopy(hostile), op["what"], X.copy(), y.copy())]
            except Exception as e:  # noqa: BLE001
                ref = type(e).__name__
            try:
                got = read(hostile, op["what"], bx.v, by.v)
            except Exception as e:  # noqa: BLE001
                ctx.require(ref == type(e).__name__, "container-rejected", lambda: f"step {step} {op['what']}: container {op['xk']} raised {type(e).__name__}: {e}")
                continue
            ctx.require(not isinstance(ref, str), "container-outcome", lambda: f"step {step} {op['what']}: plain array raised {ref}, container {op['xk']} did not")
            ctx.require(bx.content() == bx.before and by.content() == by.before, "buffer-modified", lambda: f"step {step}: read {op['what']} modified the caller's {op['xk']} buffer")
            for g, f in zip(got, ref):
                bad = close({"v": np.asarray(g)}, {"v": f}, 1e-8)
                ctx.require(bad is None, "container-result", lambda: f"step {step} {op['what']} with container {op['xk']}: {bad}")
            before = bits(twin.observe(hostile, Xq))
            for g in got:
                if isinstance(g, np.ndarray) and g.ndim and g.flags.writeable:
                    g[...] = -1.2345e11
                    ctx.fault("returned_array_overwritten")
            bx.scribble(op["scrib"])
            ctx.fault("buffer_overwritten")
            if op["scrib"] in ("negate", "zero") and op["xk"] not in ("polars",):
                # the next request comes in the same buffer; a model that was never asked anything knows the answer
                now = np.array(bx.v, float)
                try:
                    ref = [np.array(v) for v in read(copy.deepcopy(calm), op["what"], now, y.copy())]
                    got = read(hostile, op["what"], bx.v, by.v)
                except Exception:  # noqa: BLE001 - values a distribution may refuse are C15's subject
                    ref = got = []
                for g, f in zip(got, ref):
                    bad = close({"v": np.asarray(g)}, {"v": f}, 1e-8)
                    ctx.require(bad is None, "reused-request-buffer", lambda: f"step {step}: second {op['what']} request in the same {op['xk']} buffer: {bad}")
                ctx.fault("request_buffer_reused")
            ctx.require(bits(twin.observe(hostile, Xq)) == before, "model-shares-read-arrays", lambda: f"step {step}: overwriting what {op['what']} took or returned changed the model")
            ctx.log("read", before)
            ctx.state(cfg["est"], op["what"], op["xk"], op["scrib"])
            continue
        if op["op"] == "update" and not fitted:
            continue
        X, y, w = data.batch(op["rows"])
        if eqn and op["op"] != "update" and op["xk"] not in ("pandas", "polars"):
            op = dict(op, xk="pandas")
        ctx.probe("columns_by_name", bool(eqn))
        hb = [Buf(X, op["xk"]), Buf(y, op["yk"]), None if w is None else Buf(w, op["wk"])]
        cb = [Buf(X, op["xk"]), Buf(y, op["yk"]), None if w is None else Buf(w, op["wk"])]
        res = []
        for est, (a, b, c) in ((hostile, hb), (calm, cb)):
            gen.seed_jit(ests.jseed(op))
            try:
                do_call(est, op["op"], a.v, b.v, None if c is None else c.v)
                res.append("ok")
            except Exception as e:  # noqa: BLE001
                res.append(type(e).__name__)
        base = copy.deepcopy(plain)
        res.append(outcome(plain, op, X, y, w))
        ctx.calls[op["op"]] += 1
        kinds = (op["xk"], op["yk"], op["wk"] if w is not None else None)
        ctx.require(res[0] == res[1], "buffer-reuse-changes-outcome", lambda: f"step {step}: {res[0]} after buffers were overwritten, {res[1]} without")
        ctx.require(res[0] == res[2] or res[0] in [r for r, _ in rounding(base, op, X, y, w, Xq)], "container-rejected", lambda: f"step {step} {op['op']}: containers {kinds} gave {res[0]}, plain arrays {res[2]}")
        for b in hb:
            ctx.require(b is None or b.content() == b.before, "buffer-modified", lambda: f"step {step}: {op['op']} modified the caller's {b.kind} buffer")
        for b in hb:
            if b is not None:
                b.scribble(op["scrib"])
                ctx.fault("buffer_overwritten")
        keepers.append(cb)
        fitted |= res[0] == "ok"
        if res[0] != "ok":
            continue
        upd += op["op"] != "fit"
        odd += op["xk"] != "C" or op["yk"] != "C"
        twin.same(ctx, hostile, calm, Xq, "overwritten-buffer-changes-model", f"step {step} ({op['op']}, containers {kinds})")
        if dbg:
            k = ests.k_of(cfg)
            dh, dc = diagnostics(hostile, k), diagnostics(calm, k)
            for q in dh:
                ctx.require(bits(np.asarray(dh[q])) == bits(np.asarray(dc[q])), "diagnostics-share-caller-buffer",
                            lambda: f"step {step} ({op['op']}, containers {kinds}): diagnostic {q} changed when the caller overwrote its buffer")
            before = bits(twin.observe(hostile, Xq))
            for q in dh:
                if isinstance(dh[q], np.ndarray) and dh[q].ndim and dh[q].flags.writeable:
                    dh[q][...] = -1.2345e11
            ctx.fault("returned_array_overwritten")
            ctx.require(bits(twin.observe(hostile, Xq)) == before, "model-shares-read-arrays", lambda: f"step {step}: overwriting diagnostics changed the model")
            ctx.require(all(b is None or b.content() == b.before for b in cb), "buffer-modified", lambda: f"step {step}")
        oh, op_ = twin.observe(hostile, Xq), twin.observe(plain, Xq)
        bad = close(oh, op_)
        if bad is not None:
            tol = 1e-6
            for r, o in rounding(base, op, X, y, w, Xq):
                # how far the same call moves when every input is off by one part in 1e15
                tol = max(tol, 100 * spread(o, op_)) if r == "ok" else np.inf
            bad = close(oh, op_, tol) if np.isfinite(tol) else None
        ctx.require(bad is None, "container-changes-model", lambda: f"step {step} ({op['op']}, containers {kinds}): {bad}")
        # rounding differences between layouts must not accumulate into different iteration counts
        plain = copy.deepcopy(calm)
        ctx.state(cfg["est"], op["op"], kinds, op["scrib"])
    ctx.nontrivial = upd >= 2 and odd > 0
