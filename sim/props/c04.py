"""C04: regularised coefficients are what coordinate descent reaches on the discounted penalised problem of the absorbed rows."""
import numpy as np

from .. import linpath, models
from ..common import LIN_STUB, TRUST

ID = "C04"
LEVEL = "exploration"
RUNS = {"quick": 4000, "thorough": 50000}
ORACLE = "the literal penalised objective, its coordinatewise minimiser and the documented active-set coordinate descent on the discounted gramian of the accepted rows"
RULE = ("seeded deployment histories of lasso, elastic net, ridge and OnlineLasso models: batch boundaries decided by the simulated network and trainer, random "
        "coordinate orders from the seeded generator, warm-start rules, bounds, early stopping, limits, weights, forgetting, scaling. Every row of every path after every "
        "call is checked. Non-trivial: at least two updates after the fit, at least one penalised coefficient active; distinct by event-log digest")
STATE_MEASURE = "hash of (method, warm start, order, bounds, early stop, active-set pattern of the last row, batch size class)"
REAL = ["OnlineLinearModel", "OnlineLasso", "LassoPath, ElasticNetPath, Ridge", "coordinate descent and gram recursion (numba)", "OnlineScaler"]
STUB = LIN_STUB + ["coordinate permutations (seeded generator of the compiled code)"]
ASSUMPTIONS = TRUST + ["gramians with condition number above 1e6 are outside the premise (discarded)",
                       "row-by-row comparison with the reference descent is skipped where an update lies within 1e-7 of the soft-threshold boundary"]
simplify = linpath.simplify


def plan(rng, i, tier):
    return linpath.rnd_plan(rng)


def warmup():
    linpath.warm()


def check_row(ctx, r, k, lam, start, row):
    s, G, b, reg, lo, hi = r["s"], r["G"], r["b"], r["reg"], r["lo"], r["hi"]
    where = f"step {r['step']} row {k} (lambda {lam:.4g})"
    a = s["alpha"]
    dg = np.diag(G)
    sc = max(np.max(np.abs(row)), np.max(np.abs(b)) / np.max(dg), 1e-12)
    if s["early"] and np.count_nonzero(start) >= s["early"]:
        ctx.probe("early_stop")
        ctx.require(np.max(np.abs(row - start)) <= 1e-9 * sc, "early-stop", lambda: f"{where}: early stop must keep {start}, got {row}")
        return
    ref, sweeps, margin = models.cd_reference(G, b, start, lam, reg, a, lo, hi, s["tol"], s["it"])
    eps = 1e-8 * sc
    ctx.require(np.all(row >= lo - 1e-12) and np.all(row <= hi + 1e-12), "bounds", lambda: f"{where}: {row} outside [{lo}, {hi}]")
    feasible = np.all(start >= lo) and np.all(start <= hi)
    if feasible:
        o0, o1 = models.objective(G, b, start, lam, a, reg), models.objective(G, b, row, lam, a, reg)
        ctx.require(o1 <= o0 + 1e-9 * (abs(o0) + abs(o1) + abs(b @ row)), "objective-above-warm-start", lambda: f"{where}: objective {o1} above the warm start's {o0}")
    converged = sweeps < s["it"]
    if s["sel"] == "random":
        # any permutation sequence converges quickly when the (normalised) gramian is well conditioned
        nd = np.sqrt(dg)
        converged = s["it"] >= 1000 and sweeps <= 100 and np.linalg.cond(G / np.outer(nd, nd)) <= 20
    if converged:
        # the last sweep moved no coefficient by more than tol*max|beta|: bound on what an active one could still move
        worst = models.active_violation(G, b, row, lam, a, reg, lo, hi)
        infl = np.max(np.sum(np.abs(G), axis=1) / (dg + np.where(reg, lam * (1 - a), 0.0)))
        bound = 1.01 * infl * s["tol"] * np.max(np.abs(row)) + eps
        ctx.require(worst <= bound, "active-coefficient-not-optimal", lambda: f"{where}: an active coefficient of {row} would move by {worst:.3g} (allowed {bound:.3g})")
        ctx.probe("converged_row")
    if s["sel"] == "cyclic":
        # descent is a contraction: rounding differences stay small unless a coefficient sits on the activation boundary
        if margin > 1e-7:
            err = np.max(np.abs(row - ref))
            ctx.require(err <= 3 * s["tol"] * sc + 10 * eps, "not-coordinate-descent-result", lambda: f"{where}: got {row}, coordinate descent gives {ref} (differs by {err:.3g})")
    else:
        ctx.probe("random_order_row")


def execute(plan, ctx):
    active, upd = False, 0
    fit_lambda = None
    for r in linpath.history(plan, ctx):
        s, G, b, reg = r["s"], r["G"], r["b"], r["reg"]
        J = r["J"]
        upd += not r["init"]
        if s["path"]:
            path, old = r["path"], r["old"]
            ctx.require(path.shape == (s["n"], J), "path-shape", f"step {r['step']}: {path.shape} instead of {(s['n'], J)}")
            ctx.require(np.all(np.isfinite(path)), "path-not-finite", lambda: f"step {r['step']}: {path}")
            lmax = models.lambda_max(G, b, reg)
            grid = lmax * s["eps"] ** (np.arange(s["n"]) / max(s["n"] - 1, 1))
            rule = s["init"] if r["init"] else s["upd"]
            prev = np.zeros_like(path) if r["init"] else old
            for k in range(s["n"]):
                before = path[k - 1] if k else np.zeros(J)
                start = {"previous_lambda": before, "previous_fit": prev[k], "average": (before + prev[k]) / 2}[rule]
                check_row(ctx, r, k, grid[k], start, path[k])
            if s["alpha"] == 1.0 and s["n"] > 1 and s["it"] >= 1 and not (s["early"] and not r["init"]) and np.all(r["lo"] <= 0) and np.all(r["hi"] >= 0) \
                    and not np.any(np.isfinite(np.r_[r["lo"][~reg], r["hi"][~reg]])):
                z = np.max(np.abs(path[0][reg])) if reg.any() else 0.0
                zs = np.max(np.abs(b)[reg] / np.diag(G)[reg])
                ctx.require(z <= 1e-7 * max(zs, np.max(np.abs(path[0]))), "first-row-not-zero", lambda: f"step {r['step']}: first row {path[0]} has active regularised coefficients")
                ctx.probe("first_row_zero")
            ctx.require(np.min(np.max(np.abs(path - r["coef"]), axis=1)) == 0.0, "coef-not-in-path", lambda: f"step {r['step']}: coef_ {r['coef']} is not a path row")
            active |= bool(np.any(path[-1][reg]))
            pat = tuple(int(v != 0) for v in path[-1])
            Xq = r["data"].X[:4] + 0.1
            want = models.design(r["sc"].transform(Xq), s["icpt"]) @ path.T
            got = np.asarray(r["est"].predict_path(Xq))
            ctx.require(got.shape == want.shape and models.relerr(got, want, max(np.max(np.abs(want)), 1e-9)) <= 1e-7, "predict-path",
                        lambda: f"step {r['step']}: predict_path differs from the path applied to the scaled rows")
        else:
            lam = s["lambda_reg"]
            if lam is None:
                # documented default: average variance of the features (mean diagonal of the gramian), fixed at fit
                if r["init"]:
                    fit_lambda = np.trace(G) / J
                lam = fit_lambda
            if r["init"]:
                start = np.array(s["start_beta"], float) if s["start_beta"] is not None else np.linalg.solve(G, b)
            else:
                start = r["old"]
            check_row(ctx, r, 0, lam, start, r["coef"])
            active |= bool(np.any(r["coef"][reg]))
            pat = tuple(int(v != 0) for v in r["coef"])
        ctx.logbits("coef", [r["coef"], r["path"]])
        ctx.state(plan["cfg"]["est"], s["alpha"], s["init"], s["upd"], s["sel"], s["lo"] is not None, s["early"], pat, min(len(r["op"]["rows"]), 9))
    ctx.nontrivial = upd >= 2 and active
