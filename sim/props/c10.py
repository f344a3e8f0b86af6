"""C10: reads are pure and independent of other requests, of their order and of concurrent readers."""
import copy

import numpy as np

from .. import ests, gen, models, twin, world
from ..common import LIN_STUB, TRUST, add_stats
from ..core import bits
from ..faults import Sched

ID = "C10"
LEVEL = "exploration"
RUNS = {"quick": 900, "thorough": 12000}
RULE = ("seeded service: a model with a drawn history answers requests (means, medians, quantiles, parameters on both scales, contributions, paths, scores, "
        "transforms) from several clients, one after another in drawn order and in simulated threads that switch at source lines (or bytecodes) by the seed; "
        "request buffers are reused between requests. Answers must be bit-identical to the same request alone, rows must not depend on the rows around "
        "them, and a later update must equal that of a model nobody read. Non-trivial: at least two concurrent readers with at least one thread switch; distinct by digest")
STATE_MEASURE = "hash of the thread switch order prefix together with the request kinds"
REAL = ["OnlineScaler", "OnlineLinearModel", "OnlineLasso", "OnlineDistributionalRegression read paths, distributions and links", "Python threads"]
STUB = LIN_STUB + ["thread scheduler (one runnable thread, seeded switches)"]
ASSUMPTIONS = TRUST + ["a switch can happen between source lines or bytecodes of the package, not inside numpy/scipy calls",
                       "row independence is compared to 1e-9 relative (different BLAS kernels for different shapes)"]
simplify = ests.simplify_any
GAM = ["predict", "median", "params", "link", "contrib", "quantile", "quantiles", "meta"]
LIN = ["predict", "score", "path", "predict", "meta"]
NO_ROWS = ("score", "std", "meta")
SCA = ["transform", "inverse", "transform", "std", "std", "meta"]


def plan(rng, i, tier):
    cfg, data, n_init = ests.rnd_any(rng, ("scaler", "linear", "lasso", "gamlss", "gamlss", "gamlss"), methods=("ols", "ols", "ols", "lasso"))
    ops, net = world.schedule(rng, data["n"], n_init)
    ops = world.cap(ops, 4, rng)
    kinds = GAM if cfg["est"] == "gamlss" else SCA if cfg["est"] == "scaler" else LIN
    out = []
    for o in ops:
        out.append(o)
        for _ in range(rng.choice([0, 1, 2])):
            reqs = []
            for _ in range(rng.randrange(2, 6)):
                rows = [rng.randrange(data["n"]) for _ in range(rng.choice([1, 1, 2, 5]) if rng.random() < 0.97 else rng.choice([40, 150]))]
                if rng.random() < 0.08:
                    rows = rows[:-1] + [-1]
                reqs.append([rng.choice(kinds), rows, rng.choice([0.01, 0.25, 0.5, 0.9, 0.999])])
            out.append({"t": o["t"], "op": "reads", "reqs": reqs, "mode": rng.choice(["seq", "threads", "threads", "opcodes"]),
                        "s": rng.randrange(1 << 30), "p": rng.choice([0.05, 0.3, 0.8]), "clients": rng.randrange(2, 4)})
    return {"cfg": cfg, "data": data, "ops": out, "net": net}


def warmup():
    ests.warm()


def query(data, rows):
    """Rows of the table; a negative index asks for the origin."""
    X = data.X[np.abs(rows)].copy()
    X[np.array(rows) < 0] = 0.0
    return X


def ask(est, data, req, buf=None):
    kind, rows, q = req
    X = query(data, rows)
    if buf is not None:
        buf[: len(rows)] = X
        X = buf[: len(rows)]
    if kind == "predict":
        return est.predict(X)
    if kind == "median":
        return est.predict_median(X)
    if kind == "params":
        return est.predict_distribution_parameters(X)
    if kind == "link":
        return est.predict_distribution_parameters(X, what="link")
    if kind == "contrib":
        a, b = est.predict_distribution_parameters(X, what="link", return_contributions=True)
        return [np.array(a)] + [np.array(c) for c in b]
    if kind == "quantile":
        return est.predict_quantile(X, q)
    if kind == "quantiles":
        return est.predict_quantile(X, np.array([q / 2, q]))
    if kind == "score":
        return est.score(X, data.y[np.abs(rows)])
    if kind == "path":
        return est.predict_path(X) if hasattr(est, "coef_path_") else est.predict(X)
    if kind == "transform":
        return est.transform(X)
    if kind == "inverse":
        return est.inverse_transform(X)
    if kind == "std":
        return np.array(est.std_)
    if kind == "meta":
        repr(est)  # rendering must not disturb anything; the text holds addresses and is not compared
        return [sorted(est.get_params()), bool(est.is_fitted), float(est.n_samples_)]
    raise ValueError(kind)


def safe(f, *a):
    try:
        return ("ok", f(*a))
    except Exception as e:  # noqa: BLE001
        return ("err", type(e).__name__)


def per_row(req, val, i):
    """the answer for row i of a request, or None where a request has no per-row answer"""
    kind = req[0]
    if kind in NO_ROWS:
        return None
    if kind == "contrib":
        return np.concatenate([np.atleast_1d(v[i]).ravel() for v in val])
    return np.atleast_1d(np.asarray(val)[i]).ravel()


def execute(plan, ctx):
    add_stats(ctx, plan)
    cfg, data = plan["cfg"], gen.Data(plan["data"])
    Xq = data.X[:4]
    est, unread = gen.build(cfg), gen.build(cfg)
    fitted, conc = False, 0
    for step, op in enumerate(plan["ops"]):
        ctx.step = step
        if op["op"] in ("fit", "update"):
            if op["op"] == "update" and not fitted:
                continue
            r, r2 = ests.attempt(est, op, data), ests.attempt(unread, op, data)
            ctx.require(r == r2, "update-after-reads-outcome", f"step {step}: {r} vs {r2} on a model nobody read")
            fitted |= r[0] == "ok"
            if fitted:
                twin.same(ctx, est, unread, Xq, "reads-change-model", f"step {step} ({op['op']})")
            ctx.calls[op["op"]] += 1
            continue
        if not fitted:
            continue
        reqs = op["reqs"]
        # each request alone, on a copy of the model that has served nothing else
        alone = [safe(ask, copy.deepcopy(unread), data, r) for r in reqs]
        before = bits(twin.observe(est, Xq))
        if op["mode"] == "seq":
            buf = np.empty((160, plan["data"]["d"]))
            order = list(range(len(reqs)))
            got = [None] * len(reqs)
            for j in order:
                got[j] = safe(ask, est, data, reqs[j], buf)
                got[j] = copy.deepcopy(got[j])
                ctx.fault("buffer_reuse")
        else:
            lanes = [list(range(c, len(reqs), op["clients"])) for c in range(op["clients"])]
            lanes = [ln for ln in lanes if ln]

            def client(lane):
                buf = np.empty((160, plan["data"]["d"]))
                return [(j, copy.deepcopy(safe(ask, est, data, reqs[j], buf))) for j in lane]
            sched = Sched(op["s"], op["p"], opcodes=op["mode"] == "opcodes")
            if sched.opcodes:
                dry, est_ = copy.deepcopy(est), est
                est = dry
                for ln in lanes:
                    sched.prepare(lambda ln=ln: client(ln))
                est = est_
            out = sched.run([lambda ln=ln: client(ln) for ln in lanes])
            got = [None] * len(reqs)
            for st, val in out:
                if st == "exc":
                    raise val
                for j, v in val:
                    got[j] = v
            ctx.fault("thread_switch", sched.switches)
            conc += len(lanes) > 1 and sched.switches > 0
            ctx.state(tuple(sched.order[:40]), [r[0] for r in reqs])
            ctx.log("switches", sched.switches, tuple(sched.order))
        for j, req in enumerate(reqs):
            ctx.calls["read:" + req[0]] += 1
            ctx.require(bits(got[j][1]) == bits(alone[j][1]) and got[j][0] == alone[j][0], "concurrent-read-differs" if op["mode"] != "seq" else "read-depends-on-others",
                        lambda: f"step {step}: request {req} answered {twin.short(got[j][1])}, alone {twin.short(alone[j][1])}")
            if req[0] == "score" and got[j][0] == "ok":
                yy = data.y[np.abs(req[1])]
                with np.errstate(all="ignore"):
                    r2 = 1 - np.sum((yy - np.asarray(est.predict(query(data, req[1])))) ** 2) / np.sum((yy - yy.mean()) ** 2)
                ctx.require(not np.isfinite(r2) or abs(float(got[j][1]) - r2) <= 1e-7 * (1 + abs(r2)), "score-not-of-these-rows", lambda: f"step {step}: score of {len(yy)} rows is {got[j][1]}, from their predictions {r2}")
            if got[j][0] == "ok" and len(req[1]) > 1 and req[0] not in NO_ROWS:
                for i, row in enumerate(req[1]):
                    one = safe(ask, est, data, [req[0], [row], req[2]])
                    a, b = per_row(req, got[j][1], i), per_row(req, one[1], 0) if one[0] == "ok" else None
                    ctx.require(b is not None and a.shape == b.shape and (models.relerr(a, b, max(1.0, float(np.nanmax(np.abs(b))))) <= 1e-9 or np.array_equal(a, b, equal_nan=True)),
                                "row-depends-on-request", lambda: f"step {step}: row {i} of request {req} is {a}, asked alone {b}")
        ctx.require(bits(twin.observe(est, Xq)) == before, "reads-change-model", f"step {step}: the model answers differently after the reads")
        ctx.log("reads", bits([g[1] for g in got]))
    ctx.nontrivial = conc > 0
