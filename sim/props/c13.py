"""C13: every call terminates within its iteration limits, whatever the derivatives return, and stops early only when it has converged."""
import sys

import numpy as np

from .. import ests, gen, irls, world
from ..common import LIN_STUB, TRUST, add_stats, call, rnd_data
from ..core import SRC, Discard

ID = "C13"
LEVEL = "exploration"
RUNS = {"quick": 3000, "thorough": 40000}
ORACLE = "counting stand-ins around the distribution's derivatives and a line counter on the coordinate descent, against the configured limits"
RULE = ("seeded histories of distributional regressions over all admissible iteration limits, tolerances, prefit rounds, step sizes and cautious updates. The distribution's derivatives and log density are "
        "behind a counting stand-in which in half of the runs returns drawn wrong values (NaN, infinite, huge, zero, sign-flipped, jittered) at drawn calls; linear models and the descent itself get singular, NaN and "
        "non-converging problems. Rounds, iterations and sweeps are bounded by the limits; without injected faults every call completes, prefit rounds have one iteration, and a loop ends before its limit only when "
        "the deviance settled. Non-trivial: a fault fired, or a call with more than one round; distinct by event-log digest")
STATE_MEASURE = "hash of (distribution, limits, prefit, cautious, fault kinds, outcome, rounds and iterations of the call)"
REAL = ["OnlineDistributionalRegression", "OnlineLinearModel", "estimation methods", "coordinate descent", "distributions and links (behind a counting pass-through)"]
STUB = LIN_STUB + ["values returned by the distribution's derivatives and log density at injected fault points"]
ASSUMPTIONS = TRUST + ["compiled functions run as their Python source", "numerically diverging fits (LinAlgError, ValueError) are outside the completion claim except for the five robust distributions with least squares"]
RUN_LIMIT = 60
EXC = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf, "huge": 1e300, "zero": 0.0}
ROBUST = ["Normal", "Gamma", "LogNormal", "Logistic", "Exponential"]
CODE_ERRORS = (IndexError, KeyError, TypeError, AttributeError, NameError, UnboundLocalError, ZeroDivisionError, AssertionError, OverflowError, RecursionError)


def plan(rng, i, tier):
    if rng.random() < 0.25:
        return plan_cd(rng)
    fault = rng.random() < 0.5
    robust = not fault and rng.random() < 0.5
    cfg, data, n_init = ests.rnd_gamlss(rng, dists=ROBUST if robust else None, methods=("ols",) if robust else ("ols", "ols", "ols", "lasso", "elasticnet", "ridge"), iters=False)
    for m in ([v for _, v in cfg["method"]["per"]] if isinstance(cfg["method"], dict) and "per" in cfg["method"] else [cfg["method"]]):
        if isinstance(m, dict) and m["name"] != "ols":
            m["max_iterations"] = rng.choice([1, 2, 5, 20])
            if "lambda_n" in m:
                m["lambda_n"] = 3
    cfg["max_it_outer"] = rng.choice([1, 1, 2, 3, 4, 5, 8, 12])
    cfg["max_it_inner"] = rng.choice([1, 1, 2, 3, 4, 5, 8, 12])
    for key, vals, pr in (("rel_tol_outer", [0.0, 1e-12, 1e-5, 1e-3, 1.0], 0.6), ("abs_tol_outer", [0.0, 1e-9, 1e-3, 1.0], 0.6), ("rel_tol_inner", [0.0, 1e-12, 1e-5, 1e-3, 1.0], 0.6),
                          ("abs_tol_inner", [0.0, 1e-9, 1e-3, 1.0], 0.6), ("min_it_outer", [1, 2, 3, 20], 0.3), ("prefit_initial", [1, 2, 3, 30], 0.3),
                          ("prefit_update", [1, 2, 3, 30], 0.3), ("cautious_updates", [True], 0.3)):
        if rng.random() < pr and not (key == "cautious_updates" and gen.DISTS[cfg["dist"]].inflate):
            cfg[key] = rng.choice(vals)
    if rng.random() < 0.3:
        cfg["step"] = rng.choice([1.0, 0.5, 0.1, 1e-3])
    ops, net = world.schedule(rng, data["n"], n_init, first=rng.choice(["fit", "fit", "partial_fit"]))
    ops = world.cap(ops, 4, rng)
    if rng.random() < 0.3 and not robust:
        data["outliers"] = {str(rng.randrange(data["n"])): rng.choice([30.0, 1e3, 1e-3]) for _ in range(2)} if gen.DISTS[cfg["dist"]].support[1] != 1 else {}
    for o in ops:
        if fault and rng.random() < 0.7:
            o["faults"] = [{"fn": rng.choice(["dl1_dp1", "dl2_dp2", "dl2_dp2", "dl1_dp1", "logpdf", "logpdf"]), "at": rng.choice([0, 0, 1, 2, 3, 5, 8, 13, 21]), "n": rng.choice([1, 1, 2, 5, 10000]),
                            "v": rng.choice(list(EXC) + ["flip", "jitter", "shrink"]), "row": rng.random() < 0.5} for _ in range(rng.choice([1, 1, 2]))]
    return {"mode": "gamlss", "cfg": cfg, "data": data, "ops": ops, "net": net, "fault": fault}


def plan_cd(rng):
    """coordinate descent through the linear model, on hard problems"""
    d = rng.choice([1, 1, 2, 3])
    name = rng.choice(["lasso", "elasticnet", "ridge"])
    m = {"name": name, "tolerance": rng.choice([0.0, 1e-300, 1e-12, 1e-4]), "max_iterations": rng.choice([0, 1, 2, 7, 40]), "selection": rng.choice(["cyclic", "random"])}
    if name == "ridge":
        m["lambda_reg"] = rng.choice([0.1, 1.0])
    else:
        m.update(lambda_n=rng.choice([2, 4]), lambda_eps=rng.choice([1e-1, 1e-3]), start_value_update=rng.choice(["previous_lambda", "previous_fit", "average"]))
        if name == "elasticnet":
            m["alpha"] = rng.choice([0.1, 0.9])
    cfg = {"est": "linear", "method": m, "forget": rng.choice([0.0, 0.05]), "scale": False, "intercept": d > 1, "ic": rng.choice(["aic", "bic", "max"])}
    data = rnd_data(rng, 20 + rng.randrange(0, 12), d)
    ops, net = world.schedule(rng, data["n"], 12)
    raw = [{"J": rng.choice([1, 1, 2, 4]), "v": rng.choice(["plain", "nan", "inf", "zero", "huge"]), "tol": rng.choice([0.0, -1.0, 1e-4]), "it": rng.choice([0, 1, 3, 10, 33]), "s": rng.randrange(1 << 30),
            "path": rng.random() < 0.5, "sel": rng.choice(["cyclic", "random"]), "start": rng.choice(["previous_lambda", "previous_fit", "average"])} for _ in range(4)]
    return {"mode": "cd", "cfg": cfg, "data": data, "ops": ops[:4], "net": net, "raw": raw}


def simplify(plan):
    if plan["mode"] == "gamlss":
        yield from ests.simplify_any(plan)
        for i, o in enumerate(plan["ops"]):
            if o.get("faults"):
                yield dict(plan, ops=plan["ops"][:i] + [{a: b for a, b in o.items() if a != "faults"}] + plan["ops"][i + 1:])
                if len(o["faults"]) > 1:
                    for f in o["faults"]:
                        yield dict(plan, ops=plan["ops"][:i] + [dict(o, faults=[f])] + plan["ops"][i + 1:])
    elif plan["raw"]:
        yield dict(plan, raw=[])
        for r in plan["raw"]:
            yield dict(plan, raw=[r], ops=[])


def warmup():
    ests.warm()


class Lines:
    """How often each line of the coordinate descent source runs (bounded below by the number of sweeps)."""

    def __init__(self):
        self.c = {}

    def _g(self, frame, event, arg):
        return self._l if frame.f_code.co_filename == FILE else None

    def _l(self, frame, event, arg):
        if event == "line":
            k = frame.f_lineno
            self.c[k] = self.c.get(k, 0) + 1
        return self._l

    def __enter__(self):
        sys.settrace(self._g)
        return self

    def __exit__(self, *a):
        sys.settrace(None)

    def top(self):
        return max(self.c.values(), default=0)


FILE = SRC + "/coordinate_descent.py"


def line_budget(J, sweeps):
    # a line of the coordinate loop runs at most J+1 times per sweep; leave room for one inner loop over coefficients
    return sweeps * (J + 1) * (J if J > 1 else 1)


class Stand:
    """Counts the calls the estimator makes to its distribution; returns drawn wrong values at fault points."""

    FNS = ("dl1_dp1", "dl2_dp2", "link_inverse_derivative")

    def __init__(self, dist, ctx):
        self.ctx, self.seq, self.n, self.faults = ctx, {f: [] for f in self.FNS}, {}, []
        for f in self.FNS + ("logpdf",):
            self._wrap(dist, f)

    def reset(self, faults):
        self.seq, self.n, self.faults = {f: [] for f in self.FNS}, {}, faults or []

    def _wrap(self, dist, name):
        real = getattr(dist, name)

        def fn(*a, **k):
            i = self.n.get(name, 0)
            self.n[name] = i + 1
            out = real(*a, **k)
            if name in self.seq:
                p = k["param"] if "param" in k else a[-1]
                self.seq[name].append(int(p))
            for f in self.faults:
                if f["fn"] == name and f["at"] <= i < f["at"] + f["n"]:
                    out = np.array(out, float)
                    sel = slice(0, 1) if f["row"] else slice(None)
                    with np.errstate(all="ignore"):
                        if f["v"] == "flip":
                            out[sel] = -out[sel]
                        elif f["v"] == "jitter":
                            out[sel] = out[sel] * (1 + 0.5 * (-1) ** i) + (-1) ** i
                        elif f["v"] == "shrink":
                            out[sel] = out[sel] * 1e-250
                        else:
                            out[sel] = EXC[f["v"]]
                    self.ctx.fault(f"{name}:{f['v']}")
            return out
        setattr(dist, name, fn)

    def params(self):
        """one entry per iteration: the shortest of the sequences every iteration needs"""
        return min(self.seq.values(), key=len)


def rounds_of(seq, order):
    """[[(param, iterations)...] per round] from the sequence of estimated parameters (at least two parameters)."""
    runs = []
    for p in seq:
        if runs and runs[-1][0] == p:
            runs[-1][1] += 1
        else:
            runs.append([p, 1])
    out = []
    for p, n in runs:
        if p == order[0] or not out:
            out.append([])
        out[-1].append((p, n))
    return out


def solves(cfg, seq, ests_J):
    """allowed lines of coordinate descent for the coefficient estimations of a call"""
    total = 0
    for p in seq:
        s = irls.method_spec(cfg, p)
        if s["name"] != "ols":
            total += line_budget(ests_J[p], (s["n"] if s["path"] else 1) * (s["it"] + 1))
    return total


def min_rounds(cfg, init):
    pre = cfg.get("prefit_initial", 0) if init else cfg.get("prefit_update", 0)
    if not init and cfg.get("cautious_updates"):
        pre = 0   # cautious updates set their own minimum
    return min(cfg["max_it_outer"], pre or (cfg.get("min_it_outer", 1) if init else 1))


def dev(D, y, fv, w):
    with np.errstate(all="ignore"):
        return float(np.sum(-2 * D.logpdf(y, fv) * w))


def check_stop(ctx, cfg, est, step, y, X, w, init, order, k):
    """Loops end before their limit only when the deviance settled (public diagnostics, independent log density)."""
    D, maps = irls.dist_of(cfg)
    blocks = irls.debug_blocks(est, cfg, order)
    if not blocks or not np.all(np.isfinite(est.predict_distribution_parameters(X))):
        return
    final = np.array(est.predict_distribution_parameters(X))
    R = blocks[-1][1]
    ta, tr = cfg.get("abs_tol_inner", 1e-3), cfg.get("rel_tol_inner", 1e-5)
    for b, (p, o, its) in enumerate(blocks):
        m = len(its)
        pre = cfg.get("prefit_initial" if init else "prefit_update", 0)
        limit = 1 if o <= pre else cfg["max_it_inner"]
        cautious = not init and cfg.get("cautious_updates") and o <= 4
        if m >= limit or cautious:
            continue
        start = its[-1]["fv"]
        end = blocks[b + 1][2][0]["fv"] if b + 1 < len(blocks) else None
        if end is None:
            if not np.array_equal(np.asarray(est.coef_[p]), np.asarray(its[-1]["coef"])) or (init and ests.setting(cfg, "step", 1.0, p) != 1.0):
                continue
            end = start.copy()
            end[:, p] = final[:, p]
        d0 = est.get_debug_information("dv", p, o, m)
        d1 = d0 - dev(D, y, start, w) + dev(D, y, end, w)
        if m >= 6 or not (np.isfinite(d0) and np.isfinite(d1)) or (o > 1 and init and np.array_equal(start, end)):
            continue
        ch = abs(d1 - d0)
        # a fit may halve its step after a worse iteration: it is then one of the ends, recorded or not
        if init and d1 > d0:
            continue
        ctx.require(ch <= max(ta, tr * abs(d0)) * 1.01 + 1e-7 * (1 + abs(d0)), "inner-loop-stopped-early",
                    lambda: f"step {step} parameter {p} round {o}: stopped after {m} of {limit} iterations although the deviance moved from {d0:.9g} to {d1:.9g} (tolerances {ta}, {tr})")
        ctx.probe("inner_converged")
    check_goes_on(ctx, cfg, est, step, blocks, init)
    if R < cfg["max_it_outer"]:
        first = next(b for b in blocks if b[1] == R)
        p, o, its = blocks[-1]
        if not np.array_equal(np.asarray(est.coef_[p]), np.asarray(its[-1]["coef"])) or (init and ests.setting(cfg, "step", 1.0, p) != 1.0):
            return
        d0 = est.get_debug_information("dv", first[0], R, 1)
        base = est.get_debug_information("dv", p, R, 1) - dev(D, y, its[0]["fv"], w)
        end = its[-1]["fv"].copy()
        end[:, p] = final[:, p]
        d1 = base + dev(D, y, end, w)
        if not (np.isfinite(d0) and np.isfinite(d1)) or (init and d1 > d0 - 1e-9):
            return
        tol = max(cfg.get("abs_tol_outer", 1e-3), cfg.get("rel_tol_outer", 1e-5) * abs(d0))
        ctx.require(abs(d1 - d0) <= tol * 1.01 + 1e-7 * (1 + abs(d0)), "outer-loop-stopped-early",
                    lambda: f"step {step}: stopped after {R} of {cfg['max_it_outer']} rounds although the deviance moved from {d0:.9g} to {d1:.9g} (tolerance {tol:.3g})")
        ctx.probe("outer_converged")


def check_goes_on(ctx, cfg, est, step, blocks, init):
    """No further round or iteration is spent once the deviance settled: the deviance each of them started from is recorded."""
    ta, tr = cfg.get("abs_tol_inner", 1e-3), cfg.get("rel_tol_inner", 1e-5)
    for p, o, its in blocks:
        d = [est.get_debug_information("dv", p, o, i + 1) for i in range(len(its))]
        for i in range(1 if init and o == 1 else 0, len(d) - 1):
            # equal deviances: the iteration was worse and not taken
            if d[i + 1] < d[i] and np.isfinite(d[i]):
                ctx.require(d[i] - d[i + 1] >= max(ta, tr * abs(d[i])) * 0.99 - 1e-7 * (1 + abs(d[i])), "iterates-after-convergence",
                            lambda: f"step {step} parameter {p} round {o}: iteration {i + 2} although the deviance had settled ({d[i]:.9g} to {d[i + 1]:.9g}, tolerances {ta}, {tr})")
                ctx.probe("inner_goes_on")
    ta, tr = cfg.get("abs_tol_outer", 1e-3), cfg.get("rel_tol_outer", 1e-5)
    if init or cfg.get("cautious_updates"):
        return   # a fit judges its rounds by their last attempt, taken or not
    first = {}
    for p, o, its in blocks:
        first.setdefault(o, p)
    # an update may keep the larger minimum of the fit before it
    least = max(min_rounds(cfg, False), cfg.get("prefit_initial", 0), cfg.get("min_it_outer", 1))
    for o in range(least, max(first)):
        a, b = (est.get_debug_information("dv", first[r], r, 1) for r in (o, o + 1))
        if np.isfinite(a) and np.isfinite(b):
            ctx.require(abs(a - b) >= max(ta, tr * abs(a)) * 0.99 - 1e-7 * (1 + abs(a)), "rounds-after-convergence",
                        lambda: f"step {step}: round {o + 1} although the deviance had settled ({a:.9g} to {b:.9g}, tolerances {ta}, {tr})")
            ctx.probe("outer_goes_on")


def run_gamlss(plan, ctx):
    cfg, data = plan["cfg"], gen.Data(plan["data"])
    k = gen.DISTS[cfg["dist"]].k
    order = cfg.get("order") or list(range(k))
    robust = cfg["dist"] in ROBUST and cfg["method"] == "ols" and not plan["fault"] and not plan["data"].get("outliers")
    est = gen.build(cfg, debug=True)
    J = {p: (1 if e == "intercept" else len(irls.columns(e, plan["data"]["d"])) + 1) for p, e in ests.full_eq(cfg).items()}
    stand = Stand(est.distribution, ctx)
    MO, MI = cfg["max_it_outer"], cfg["max_it_inner"]
    fitted, hot = False, False
    for step, op in enumerate(plan["ops"]):
        ctx.step = step
        if op["op"] == "update" and not fitted:
            continue
        X, y, w = data.batch(op["rows"])
        if w is not None and w.sum() == 0:
            continue
        init = op["op"] == "fit" or not fitted
        if not init and cfg.get("cautious_updates"):
            th = np.array(est.predict_distribution_parameters(X))
        stand.reset(op.get("faults"))
        gen.seed_jit(ests.jseed(op))
        outcome = "ok"
        err = None
        lines = Lines()
        with np.errstate(all="ignore"):
            try:
                if cfg["method"] == "ols":
                    call(est, op["op"], X, y, w)
                else:
                    with lines:
                        call(est, op["op"], X, y, w)
            except Exception as e:  # noqa: BLE001
                outcome, err = type(e).__name__, e
        seq = stand.params()
        cnt = {f: len(v) for f, v in stand.seq.items()}
        ctx.calls[op["op"]] += 1
        where = f"step {step} ({op['op']})"
        ctx.require(len(seq) <= MO * MI * k, "too-many-iterations", lambda: f"{where}: {len(seq)} coefficient estimations, at most {MO} rounds x {MI} iterations x {k} parameters allowed")
        for p in range(k):
            ctx.require(seq.count(p) <= MO * MI, "too-many-iterations", lambda: f"{where}: parameter {p} was estimated {seq.count(p)} times, limits are {MO} rounds x {MI} iterations")
        bound = solves(cfg, seq, J)
        ctx.require(lines.top() <= bound, "too-many-sweeps", lambda: f"{where}: a line of the coordinate descent ran {lines.top()} times, at most {bound} allowed by max_iterations")
        rr = rounds_of(seq, order) if k > 1 else None
        if rr is not None and seq:
            ctx.require(len(rr) <= MO, "too-many-rounds", lambda: f"{where}: {len(rr)} rounds, limit {MO}: {rr}")
            ctx.require(max(n for r in rr for _, n in r) <= MI, "too-many-inner-iterations", lambda: f"{where}: {rr}, limit {MI}")
            pre = cfg.get("prefit_initial" if init else "prefit_update", 0)
            ctx.require(all(n == 1 for r in rr[:pre] for _, n in r), "prefit-round-iterates", lambda: f"{where}: rounds {rr}, the first {pre} are prefit rounds")
            ctx.require(all(len(r) <= k for r in rr), "round-structure", lambda: f"{where}: {rr} for order {order}")
        hot |= len(seq) > k
        if op.get("faults"):
            ctx.log("faulted", outcome, len(seq))
            ctx.state(cfg["dist"], MO, MI, str(op["faults"][0]["fn"]), op["faults"][0]["v"], outcome, len(seq))
            if outcome == "ok":
                fitted = True
                if not all(np.all(np.isfinite(c)) and np.max(np.abs(c)) < 1e6 for c in est.coef_.values()):
                    break
            continue
        if plan["fault"]:
            # state may be poisoned by an accepted faulty batch: only the bounds apply
            fitted |= outcome == "ok"
            ctx.log("after-fault", outcome, len(seq))
            continue
        if err is not None:
            if isinstance(err, CODE_ERRORS) or robust:
                raise err
            raise Discard()
        fitted = True
        if rr is not None:
            want = min_rounds(cfg, init)
            ctx.require(len(rr) >= want, "too-few-rounds", lambda: f"{where}: {len(rr)} rounds, at least {want} requested: {rr}")
            ctx.require(all([p for p, _ in r] == list(order) for r in rr), "round-structure", lambda: f"{where}: {rr} for order {order}")
            if not init and cfg.get("cautious_updates"):
                D = irls.dist_of(cfg)[0]
                with np.errstate(all="ignore"):
                    lo, hi = D.ppf(0.005, th), D.ppf(0.995, th)
                    m = 1e-6 * (np.abs(lo) + np.abs(hi) + 1)
                if np.any(y < lo - m) or np.any(y > hi + m):
                    ctx.probe("cautious_outlier")
                    ctx.require(all(n == 1 for r in rr[:4] for _, n in r) and len(rr) >= min(4, MO), "cautious-update-rounds", lambda: f"{where}: outlying batch, rounds {rr}")
        check_stop(ctx, cfg, est, step, y, X, data.weights(op["rows"]), init, order, k)
        ctx.logbits("coef", {p: np.array(v) for p, v in est.coef_.items()})
        ctx.state(cfg["dist"], MO, MI, cfg.get("prefit_initial"), cfg.get("prefit_update"), cfg.get("cautious_updates"), len(seq), cnt["dl1_dp1"] if k == 1 else rr and len(rr))
    ctx.nontrivial = hot or sum(ctx.faults.values()) > 0


def run_cd(plan, ctx):
    from ondil.coordinate_descent import online_coordinate_descent, online_coordinate_descent_path
    cfg, data = plan["cfg"], gen.Data(plan["data"])
    s = irls.method_spec(cfg, 0)
    J = plan["data"]["d"] + cfg["intercept"]
    est, fitted = gen.build(cfg), False
    for step, op in enumerate(plan["ops"]):
        ctx.step = step
        if op["op"] == "update" and not fitted:
            continue
        X, y, w = data.batch(op["rows"])
        if w is not None and w.sum() == 0:
            continue
        gen.seed_jit(ests.jseed(op))
        with Lines() as ln:
            call(est, op["op"], X, y, w)
        fitted = True
        ctx.calls[op["op"]] += 1
        bound = line_budget(J, (s["n"] if s["path"] else 1) * (s["it"] + 1))
        ctx.require(ln.top() <= bound, "too-many-sweeps", lambda: f"step {step}: a line of the coordinate descent ran {ln.top()} times, at most {bound} allowed ({s['it']} iterations)")
        ctx.logbits("coef", np.array(est.coef_))
        ctx.state("linear", s["name"], s["it"], s["tol"], J, ln.top())
    for r in plan["raw"]:
        rng = np.random.Generator(np.random.PCG64(r["s"]))
        A = rng.standard_normal((12, r["J"])) * np.exp(rng.uniform(-2, 2, r["J"])) + rng.uniform(0, 2)
        G, b = A.T @ A, A.T @ rng.standard_normal(12)
        if r["v"] != "plain":
            (G if r["s"] % 2 else b).flat[r["s"] % r["J"]] = EXC[r["v"]]
            ctx.fault("gram:" + r["v"])
        kw = dict(is_regularized=np.ones(r["J"], bool), alpha=0.7, beta_lower_bound=np.full(r["J"], -np.inf), beta_upper_bound=np.full(r["J"], np.inf), selection=r["sel"], tolerance=r["tol"], max_iterations=r["it"])
        gen.seed_jit(r["s"])
        with np.errstate(all="ignore"), Lines() as ln:
            if r["path"]:
                _, it = online_coordinate_descent_path(G, b, np.zeros((3, r["J"])), np.array([1.0, 0.1, 0.01]), early_stop=0, which_start_value=r["start"], **kw)
            else:
                _, it = online_coordinate_descent(G, b, np.zeros(r["J"]), 0.1, **kw)
        bound = line_budget(r["J"], (3 if r["path"] else 1) * (r["it"] + 1)) + 3
        ctx.require(np.max(it) <= r["it"] + 1 and ln.top() <= bound, "too-many-sweeps", lambda: f"{r}: {it} sweeps, a line ran {ln.top()} times (allowed {bound})")
        ctx.state("cd", r["J"], r["v"], r["tol"], r["it"], ln.top())
        ctx.log("cd", float(np.max(it)))
    ctx.nontrivial = True


def execute(plan, ctx):
    add_stats(ctx, plan)
    (run_gamlss if plan["mode"] == "gamlss" else run_cd)(plan, ctx)
