"""C06: distributional updates absorb every observation exactly once, at the working quantities of the last iteration of its call."""
import numpy as np

from .. import ests, irls, models, world
from ..common import LIN_STUB, TRUST
from ..core import Discard, Violation

ID = "C06"
LEVEL = "exploration"
RUNS = {"quick": 1200, "thorough": 20000}
ORACLE = "one weighted least-squares problem over the log of all accepted observations with the recorded last-iteration working quantities, themselves checked against an independent log density"
RULE = ("seeded deployment histories of distributional regressions (17 distributions, all methods, per-parameter forgetting, parameter orders, limits, prefit rounds, step sizes) with diagnostics on; "
        "after every call each parameter's coefficients are compared with the (penalised) weighted least-squares problem over all accepted rows, each once. Working responses are checked against the "
        "numerical score of an independent density, the start of an update against the predictions before it, and the chaining of parameters against the newest fitted values. "
        "Non-trivial: at least two updates of which one needed more than one iteration; distinct by event-log digest")
STATE_MEASURE = "hash of (distribution, method per parameter, iterations per block of the call, batch size class)"
REAL = ["OnlineDistributionalRegression", "distributions and links", "estimation methods, gram recursion, coordinate descent (numba)", "OnlineScaler", "diagnostics"]
STUB = LIN_STUB + ["coordinate permutations (seeded generator of the compiled code)"]
ASSUMPTIONS = TRUST + ["weighted designs with condition number above 1e4 and fits that diverge to non-finite values are outside the premise (discarded)",
                       "the public diagnostics report the iterations that ran (C14)"]
simplify = ests.simplify_any


def plan(rng, i, tier):
    cfg, data, n_init = ests.rnd_gamlss(rng, methods=("ols", "ols", "ols", "lasso", "elasticnet", "ridge"), tol=rng.choice([1e-6, 1e-8]))
    ms = [v for _, v in cfg["method"]["per"]] if isinstance(cfg["method"], dict) and "per" in cfg["method"] else [cfg["method"]]
    for m in ms:
        if isinstance(m, dict) and m["name"] == "ridge":
            m["lambda_reg"] = m["lambda_reg"] or 0.5
        if isinstance(m, dict) and m["name"] != "ols":
            m["max_iterations"] = 1000
    ops, net = world.schedule(rng, data["n"], n_init, first=rng.choice(["fit", "fit", "partial_fit"]), rejects=0.05, reject_kinds=["nan_x", "cols"])
    return {"cfg": cfg, "data": data, "ops": world.cap(ops, 8, rng), "net": net}


def warmup():
    ests.warm(("gamlss",))


def num_deriv(D, maps, y, fv, eta, p):
    """dlogpdf/deta_p of the independent density, and dtheta/deta, by central differences."""
    h = 1e-5 * np.maximum(1.0, np.abs(eta))
    up, dn = fv.copy(), fv.copy()
    up[:, p], dn[:, p] = maps[p](eta + h), maps[p](eta - h)
    with np.errstate(all="ignore"):
        return (D.logpdf(y, up) - D.logpdf(y, dn)) / (2 * h), (up[:, p] - dn[:, p]) / (2 * h)


def same(a, b, tol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1.0 + np.abs(b)) + tol * np.max(np.abs(b), initial=0.0)))


def check_working(ctx, r, p, o, i, it):
    D, maps = r["D"], r["maps"]
    fv, eta, wt, wv = it["fv"], it["eta"], it["weights"], it["working_vectors"]
    where = f"step {r['step']} parameter {p} outer {o} inner {i}"
    ctx.require(same(maps[p](eta), fv[:, p], 1e-6), "eta-not-link-of-fitted-values", lambda: f"{where}: inverse link of eta {maps[p](eta)[:3]} vs fitted {fv[:3, p]}")
    with np.errstate(all="ignore"):
        g, dt = num_deriv(D, maps, r["y"], fv, eta, p)
        score = (wv - eta) * wt
        cl = (wt > 2e-10) & (wt < 5e9)
        want_w = -it["dl2dlp2"] * dt**2
        okw = np.isfinite(want_w) & (want_w > 1e-7) & (want_w < 1e9)
        # a derivative is compared where the numerical one is trustworthy
        lp = D.logpdf(r["y"], fv)
        ok = np.isfinite(g) & np.isfinite(lp) & (np.abs(eta) < 12) & (np.abs(lp) < 300) & np.all(np.abs(fv) < 1e3, axis=1)
    ctx.require(np.all(np.isfinite(wt)) and np.all(wt > 0), "working-weight-not-positive", lambda: f"{where}: {wt}")
    bad = okw & ~(np.abs(wt - want_w) <= 1e-4 * want_w)
    ctx.require(not bad.any(), "working-weight", lambda: f"{where}: weight {wt[bad][:3]} but -d2l*(dtheta/deta)^2 is {want_w[bad][:3]}")
    tol = 1e-4 * (np.abs(g) + 1) + 1e-9 * np.abs(lp) / 1e-5
    bad = ok & ~(np.abs(score - g) <= tol)
    ctx.require(not bad.any(), "working-response-score", lambda: f"{where}: (working response - eta)*weight {score[bad][:3]} is not the score {g[bad][:3]} (y {r['y'][bad][:3]}, fitted {fv[bad][:3]})")
    return cl


def growth(log):
    if len(log.A) < 2:
        return 0.0
    G0 = models.LSLog(log.forget)
    G0.A, G0.z, G0.w = log.A[:-1], log.z[:-1], log.w[:-1]
    a = log.A[-1]
    return float(np.max(log.w[-1] * np.einsum("ij,jk,ik->i", a, np.linalg.pinv(G0.gram()[0]), a)))


def check_solution(ctx, r, p, log, kappa):
    s = irls.method_spec(r["cfg"], p)
    where = f"step {r['step']} parameter {p}"
    coef = r["coef"][p]
    J = r["A"][p].shape[1]
    ctx.require(coef.shape == (J,), "coef-shape", f"{where}: {coef.shape} instead of {(J,)}")
    ref, _, raw = log.solve()
    # conditioning of the recursion: the design, and how much one batch outweighs everything before it
    kappa[p] = max(kappa[p], raw**2, growth(log))
    if kappa[p] > 1e8:
        raise Discard()
    A, z, e = log.arrays()
    with np.errstate(all="ignore"):
        # scale of the solution, also where a huge working response cancels
        cancel = np.nanmax((e[:, None] * np.abs(A) * np.abs(z)[:, None]).sum(axis=0) / (e[:, None] * A**2).sum(axis=0))
    if s["name"] == "ols":
        scale = max(np.max(np.abs(ref)), 1e-3, cancel)
        tol = min(1e-8 + 1e-12 * kappa[p], 1e-5)
        err = models.relerr(coef, ref, scale)
        ctx.require(err <= tol, "coef-not-weighted-ls-of-all-observations", lambda: f"{where}: {coef} vs {ref} over {len(z)} accepted rows (rel {err:.2e} > {tol:.1e})")
        return
    G, b = log.gram()
    reg = irls.reg_mask(r["cfg"], p, J, r["eqs"], r["icpt"])
    dg = np.diag(G)
    nd = np.sqrt(dg)
    quick = np.linalg.cond(G / np.outer(nd, nd)) <= 20
    lo, hi = np.full(J, -np.inf), np.full(J, np.inf)
    if s["path"]:
        path = r["path"][p]
        ctx.require(path.shape == (s["n"], J), "path-shape", f"{where}: {path.shape}")
        ctx.require(np.min(np.max(np.abs(path - coef), axis=1)) == 0.0, "coef-not-in-path", lambda: f"{where}: {coef} is no row of the path")
        grid = models.lambda_max(G, b, reg) * s["eps"] ** (np.arange(s["n"]) / max(s["n"] - 1, 1))
        rows = list(zip(grid, path))
    else:
        rows = [(s["lambda_reg"], coef)]
    if not quick or s["early"]:
        ctx.probe("slow_descent_not_compared")
        return
    infl_base = np.sum(np.abs(G), axis=1)
    for lam, row in rows:
        worst = models.active_violation(G, b, row, lam, s["alpha"], reg, lo, hi)
        sc = max(np.max(np.abs(row)), np.max(np.abs(b)) / np.max(dg), 1e-12)
        bound = 1.01 * np.max(infl_base / dg) * s["tol"] * np.max(np.abs(row)) + (1e-8 + 1e-12 * kappa[p]) * sc + 1e-12 * cancel
        ctx.require(worst <= bound, "penalised-coef-not-optimal-over-all-observations",
                    lambda: f"{where} lambda {lam:.4g}: an active coefficient of {row} would move by {worst:.3g} (allowed {bound:.3g})")


def dev(r, fv):
    with np.errstate(all="ignore"):
        return float(np.sum(-2 * r["D"].logpdf(r["y"], fv) * r["w"]))


def check_chain(ctx, r):
    """an update starts at the served predictions; every block sees the newest values of the others."""
    cur = np.array(r["before"])
    for p, o, its in r["blocks"]:
        where = f"step {r['step']} parameter {p} outer {o}"
        for i, it in enumerate(its):
            fv = it["fv"]
            for q in range(r["k"]):
                if q != p or i == 0:
                    ctx.require(same(fv[:, q], cur[:, q], 1e-6), "update-start" if (o == 1 and q not in [b[0] for b in r["blocks"][: r["blocks"].index((p, o, its))]]) else "stale-fitted-values",
                                lambda: f"{where} inner {i + 1}: uses {fv[:3, q]} for parameter {q}, newest values are {cur[:3, q]}")
            if i > 0:
                prev = its[i - 1]
                new = prev["fv"].copy()
                new[:, p] = r["maps"][p](r["A"][p] @ np.asarray(prev["coef"]))
                d0, d1 = dev(r, prev["fv"]), dev(r, new)
                m = 1e-7 * (1 + abs(d0))
                if np.isfinite(d0) and np.isfinite(d1) and d1 < d0 - m:
                    ctx.require(same(fv[:, p], new[:, p], 1e-6), "iteration-not-advanced", lambda: f"{where} inner {i + 1}: at {fv[:3, p]}, previous iteration gave {new[:3, p]}")
                else:
                    ctx.require(same(fv[:, p], new[:, p], 1e-6) or same(fv[:, p], prev["fv"][:, p], 1e-6), "iteration-values",
                                lambda: f"{where} inner {i + 1}: at {fv[:3, p]}, neither the previous start nor its result")
        cur[:, p] = r["maps"][p](r["A"][p] @ np.asarray(its[-1]["coef"]))


def execute(plan, ctx):
    logs, kappa, upd, multi = {}, {}, 0, False
    for r in irls.history(plan, ctx):
        if r["init"]:
            logs = {}
            kappa = {p: 0.0 for p in range(r["k"])}
        ctx.require(len({b[0] for b in r["blocks"]}) == r["k"], "parameter-not-estimated", lambda: f"step {r['step']}: recorded {[(b[0], b[1]) for b in r['blocks']]}")
        if any(np.any(np.abs(it["fv"]) > 1e8) for b in r["blocks"] for it in b[2]):
            raise Discard()   # diverged towards the end of the number range
        if r["cfg"]["dist"] == "StudentT" and any(np.any(it["fv"][:, 2] <= 2) for b in r["blocks"] for it in b[2]):
            raise Discard()   # moment-free start value below the link's range
        upd += not r["init"]
        multi |= not r["init"] and (len(r["blocks"]) > r["k"] or any(len(b[2]) > 1 for b in r["blocks"]))
        for p in range(r["k"]):
            cand, last = irls.committed(r["blocks"], p, r["coef"][p], r["path"][p])
            ctx.require(cand, "served-coef-not-recorded", lambda: f"step {r['step']} parameter {p}: served {r['coef'][p]} is the result of no recorded round")
            ctx.require(last or r["init"], "update-not-last-round", lambda: f"step {r['step']} parameter {p}: served coefficients are not those of the last round")
            check_working(ctx, r, p, "last", "last", cand[0])
            if r["init"]:
                # which of several rounds with identical coefficients a fit kept shows in the updates
                logs[p] = [models.LSLog(r["fs"][p]) for _ in cand]
                pairs = list(zip(logs[p], cand))
            else:
                pairs = [(lg, cand[0]) for lg in logs[p]]
            err = None
            keep = []
            for lg, it in pairs:
                lg.add(r["A"][p], it["working_vectors"], r["w"] * it["weights"])
                try:
                    check_solution(ctx, r, p, lg, kappa)
                    keep.append(lg)
                except Violation as v:
                    err = err or v
            if not keep:
                raise err
            logs[p] = keep
            ctx.probe("ambiguous_fit_round", len(pairs) > 1)
        if not r["init"]:
            check_chain(ctx, r)
        ctx.logbits("coef", [r["coef"], r["path"]])
        ctx.state(r["cfg"]["dist"], [irls.method_spec(r["cfg"], p)["name"] for p in range(r["k"])], [len(b[2]) for b in r["blocks"]][:12], min(len(r["y"]), 9))
        ctx.probe("multi_iteration_update", multi)
        ctx.probe("outer_gt_1", any(b[1] > 1 for b in r["blocks"]))
    ctx.nontrivial = upd >= 2 and multi
