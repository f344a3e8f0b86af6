"""Builders: data tables, distributions (independent formulas), estimators from JSON specs."""
import importlib

import numpy as np
import scipy.stats as st


def expit(x):
    return 1.0 / (1.0 + np.exp(-x))


def _beta_ab(mu, s):
    return mu * (1 - s**2) / s**2, (1 - mu) * (1 - s**2) / s**2


class D:
    """Independent description of one distribution: parameter map, sampler, mean, quantile, logpdf."""

    def __init__(self, name, base, maps, frozen, support, inflate=None, kwargs=()):
        self.name, self.base, self.maps, self.frozen = name, base, maps, frozen
        self.support, self.inflate = support, inflate
        self.k = len(base)

    def theta(self, eta):
        return np.stack([m(eta[:, i]) for i, m in enumerate(self.maps)], axis=1)

    def probs(self, th):
        """(p_at_lower, p_at_upper) point masses."""
        if self.inflate == "zaga":
            return th[:, 2], np.zeros(len(th))
        if self.inflate == "beinf0":
            return th[:, 2] / (1 + th[:, 2]), np.zeros(len(th))
        if self.inflate == "beinf":
            d = 1 + th[:, 2] + th[:, 3]
            return th[:, 2] / d, th[:, 3] / d
        z = np.zeros(len(th))
        return z, z

    def sample(self, rng, th):
        u = rng.random(len(th))
        y = np.asarray(self.frozen(th).ppf(rng.uniform(1e-9, 1 - 1e-9, len(th))))
        lo, hi = self.probs(th)
        if self.inflate:
            y = np.where(u < lo, 0.0, np.where(u > 1 - hi, 1.0, y))
        s0, s1 = self.support
        if not self.inflate and np.isfinite(s0):
            y = np.maximum(y, 1e-6 if s1 == np.inf else 1e-4)
        if not self.inflate and s1 == 1:
            y = np.minimum(y, 1 - 1e-4)
        if self.inflate in ("beinf", "beinf0"):
            y = np.where((y > 0) & (y < 1), np.clip(y, 1e-4, 1 - 1e-4), y)
        return y

    def mean(self, th):
        m = np.asarray(self.frozen(th).mean())
        lo, hi = self.probs(th)
        return m * (1 - lo - hi) + hi

    def ppf(self, q, th):
        lo, hi = self.probs(th)
        with np.errstate(all="ignore"):
            core = np.asarray(self.frozen(th).ppf(np.clip((q - lo) / (1 - lo - hi), 0, 1)))
        if self.inflate:
            core = np.where(q <= lo, 0.0, core)
            core = np.where((q >= 1 - hi) & (hi > 0), 1.0, core)
        return core

    def logpdf(self, y, th):
        lo, hi = self.probs(th)
        with np.errstate(all="ignore"):
            core = np.asarray(self.frozen(th).logpdf(y)) + np.log1p(-lo - hi)
            if self.inflate:
                core = np.where(y == 0, np.log(lo), core)
                if self.inflate == "beinf":
                    core = np.where(y == 1, np.log(hi), core)
        return core


I_ = lambda x: x  # noqa: E731
EXP = np.exp
DISTS = {
    "Normal": D("Normal", [1.0, 0.0], [I_, EXP], lambda t: st.norm(t[:, 0], t[:, 1]), (-np.inf, np.inf)),
    "NormalMeanVariance": D("NormalMeanVariance", [1.0, 0.2], [I_, EXP], lambda t: st.norm(t[:, 0], np.sqrt(t[:, 1])), (-np.inf, np.inf)),
    "StudentT": D("StudentT", [1.0, 0.0, 1.6], [I_, EXP, lambda x: 2 + np.exp(x)], lambda t: st.t(df=t[:, 2], loc=t[:, 0], scale=t[:, 1]), (-np.inf, np.inf)),
    "JSU": D("JSU", [0.5, 0.0, 0.2, 0.6], [I_, EXP, I_, EXP], lambda t: st.johnsonsu(a=t[:, 2], b=t[:, 3], loc=t[:, 0], scale=t[:, 1]), (-np.inf, np.inf)),
    "Gamma": D("Gamma", [1.0, -0.7], [EXP, EXP], lambda t: st.gamma(a=1 / t[:, 1]**2, scale=t[:, 0] * t[:, 1]**2), (0, np.inf)),
    "LogNormal": D("LogNormal", [0.5, -0.7], [I_, EXP], lambda t: st.lognorm(s=t[:, 1], scale=np.exp(t[:, 0])), (0, np.inf)),
    "LogNormalMedian": D("LogNormalMedian", [0.5, -0.7], [EXP, EXP], lambda t: st.lognorm(s=t[:, 1], scale=t[:, 0]), (0, np.inf)),
    "Logistic": D("Logistic", [1.0, 0.0], [I_, EXP], lambda t: st.logistic(t[:, 0], t[:, 1]), (-np.inf, np.inf)),
    "Exponential": D("Exponential", [0.7], [EXP], lambda t: st.expon(scale=t[:, 0]), (0, np.inf)),
    "Beta": D("Beta", [0.2, -0.6], [expit, expit], lambda t: st.beta(*_beta_ab(t[:, 0], t[:, 1])), (0, 1)),
    "Gumbel": D("Gumbel", [1.0, 0.0], [I_, EXP], lambda t: st.gumbel_l(t[:, 0], t[:, 1]), (-np.inf, np.inf)),
    "ReverseGumbel": D("ReverseGumbel", [1.0, 0.0], [I_, EXP], lambda t: st.gumbel_r(t[:, 0], t[:, 1]), (-np.inf, np.inf)),
    "InverseGaussian": D("InverseGaussian", [0.7, -0.7], [EXP, EXP], lambda t: st.invgauss(mu=t[:, 0] * t[:, 1]**2, scale=1 / t[:, 1]**2), (0, np.inf)),
    "InverseGamma": D("InverseGamma", [0.7, -0.9], [EXP, EXP], lambda t: st.invgamma(a=1 / t[:, 1]**2, scale=t[:, 0] * (1 + t[:, 1]**2) / t[:, 1]**2), (0, np.inf)),
    "BetaInflated": D("BetaInflated", [0.1, -0.4, -1.0, -1.2], [expit, expit, EXP, EXP], lambda t: st.beta(*_beta_ab(t[:, 0], t[:, 1])), (0, 1), "beinf"),
    "BetaInflatedZero": D("BetaInflatedZero", [0.1, -0.4, -1.0], [expit, expit, EXP], lambda t: st.beta(*_beta_ab(t[:, 0], t[:, 1])), (0, 1), "beinf0"),
    "ZeroAdjustedGamma": D("ZeroAdjustedGamma", [0.8, -0.5, -1.0], [EXP, EXP, expit], lambda t: st.gamma(a=1 / t[:, 1]**2, scale=t[:, 0] * t[:, 1]**2), (0, np.inf), "zaga"),
}
ALL_DISTS = list(DISTS)
SMOOTH_DISTS = [d for d in ALL_DISTS if DISTS[d].inflate is None]
ALT_LINKS = {
    "Normal": [{"scale_link": "InverseSoftPlus"}, {"scale_link": "LogIdent"}],
    "NormalMeanVariance": [{"scale_link": "InverseSoftPlus"}],
    "Gamma": [{"loc_link": "InverseSoftPlus"}, {"scale_link": "InverseSoftPlus"}, {"loc_link": "LogIdent"}],
    "StudentT": [{"tail_link": "InverseSoftPlusShiftTwo"}, {"scale_link": "InverseSoftPlus"}],
    "JSU": [{"scale_link": "InverseSoftPlus"}],
    "Logistic": [{"scale_link": "InverseSoftPlus"}, {"scale_link": "LogIdent"}],
    "LogNormal": [{"scale_link": "InverseSoftPlus"}],
    "Gumbel": [{"scale_link": "InverseSoftPlus"}],
    "ReverseGumbel": [{"scale_link": "LogIdent"}],
    "InverseGaussian": [{"loc_link": "InverseSoftPlus"}],
    "Exponential": [{"mu_link": "InverseSoftPlus"}, {"mu_link": "LogIdent"}],
}


def make_distribution(name, links=None):
    import ondil.distributions as od
    import ondil.links as ol
    cls = getattr(od, name)
    return cls(**{k: getattr(ol, v)() for k, v in (links or {}).items()})


# ------------------------------------------------------------------ data

class Data:
    """Row table of a plan. Row i never depends on which operations use it."""

    def __init__(self, spec):
        rng = np.random.Generator(np.random.PCG64(spec["seed"]))
        n, d = spec["n"], spec["d"]
        Z = rng.standard_normal((n, d))
        if spec.get("corr"):
            Z = Z + spec["corr"] * Z[:, [0]]
        self.Z = Z
        scale = np.asarray(spec.get("xscale", [1.0] * d), float)
        shift = np.asarray(spec.get("xshift", [0.0] * d), float)
        if spec.get("drift"):
            shift = shift + np.outer(np.linspace(0, spec["drift"], n), np.ones(d)) * scale
        self.X = Z * scale + shift
        kind = spec.get("y", "linear")
        if kind == "linear":
            beta = np.asarray(spec.get("beta", rng.normal(size=d)), float)
            self.y = spec.get("y0", 0.5) + Z @ beta + spec.get("noise", 1.0) * rng.standard_normal(n)
            self.y = self.y * spec.get("yscale", 1.0)
        else:
            dist = DISTS[kind]
            B = rng.uniform(-1, 1, size=(d, dist.k)) * spec.get("signal", 0.25)
            if "signal_scale" in spec:
                B[:, 1:] *= spec["signal_scale"]
            eta = Z @ B + np.asarray(spec.get("base", dist.base), float)
            self.eta = eta
            self.theta = dist.theta(eta)
            self.y = dist.sample(rng, self.theta)
            self.dist = dist
        wk = spec.get("w", "none")
        if wk == "none":
            self.w = None
        elif wk == "random":
            self.w = rng.uniform(0.2, 2.0, n)
        elif wk == "int":
            self.w = rng.integers(1, 4, n).astype(float)
        elif wk == "zeros":
            self.w = np.where(rng.random(n) < 0.25, 0.0, rng.uniform(0.5, 1.5, n))
        elif wk == "small":
            self.w = rng.uniform(0.02, 0.2, n)
        elif wk == "wide":
            self.w = np.exp(rng.uniform(-3, 2, n))
        for i, f in spec.get("outliers", {}).items():
            self.y[int(i)] = self.y[int(i)] * f
        self.spec = spec

    def batch(self, rows):
        r = np.asarray(rows, int)
        X, y = self.X[r].copy(), self.y[r].copy()
        w = None if self.w is None else self.w[r].copy()
        return X, y, w

    def weights(self, rows):
        return np.ones(len(rows)) if self.w is None else self.w[np.asarray(rows, int)]


# ------------------------------------------------------------------ estimators

def make_method(m):
    import ondil.methods as om
    if m is None or isinstance(m, str):
        return m
    m = dict(m)
    name = m.pop("name")
    for k in ("beta_lower_bound", "beta_upper_bound", "start_beta"):
        if m.get(k) is not None:
            m[k] = np.array([(-np.inf if v == "-inf" else np.inf if v == "inf" else v) for v in m[k]], float)
    cls = {"lasso": "LassoPath", "elasticnet": "ElasticNetPath", "ridge": "Ridge", "ols": "OrdinaryLeastSquares"}[name]
    return getattr(om, cls)(**m)


def _scale(s):
    if isinstance(s, bool):
        return s
    if isinstance(s, dict):
        return np.array(s["mask"], bool) if "mask" in s else np.array(s["idx"], int)
    raise ValueError(s)


def _perparam(v, conv=lambda x: x):
    if isinstance(v, dict) and "per" in v:
        return {int(k): conv(x) for k, x in v["per"]}
    return conv(v)


def _eq(e):
    if e is None:
        return None
    out = {}
    for k, v in e:
        if isinstance(v, dict):
            v = np.array(v["mask"], bool) if "mask" in v else np.array(v["idx"], int)
        out[int(k)] = v
    return out


def build_kwargs(cfg):
    """Constructor class and keyword arguments for an estimator spec."""
    c = dict(cfg)
    est = c.pop("est")
    if est == "lasso":
        kw = dict(c.get("kw", {}))
        for k in ("beta_lower_bound", "beta_upper_bound"):
            if kw.get(k) is not None:
                kw[k] = np.array([(-np.inf if v == "-inf" else np.inf if v == "inf" else v) for v in kw[k]], float)
        c["kw"] = kw
    if est == "scaler":
        from ondil.scaler import OnlineScaler
        return OnlineScaler, {"forget": c.get("forget", 0.0), "to_scale": _scale(c.get("scale", True))}
    if est == "linear":
        from ondil.estimators import OnlineLinearModel
        return OnlineLinearModel, {
            "forget": c.get("forget", 0.0), "scale_inputs": _scale(c.get("scale", True)),
            "fit_intercept": c.get("intercept", True), "regularize_intercept": c.get("reg_int", False),
            "method": make_method(c.get("method", "ols")), "ic": c.get("ic", "bic")}
    if est == "lasso":
        from ondil.estimators import OnlineLasso
        return OnlineLasso, dict(c.get("kw", {}), scale_inputs=_scale(c.get("scale", True)), forget=c.get("forget", 0.0))
    if est == "gamlss":
        from ondil.estimators import OnlineDistributionalRegression
        kw = {
            "distribution": make_distribution(c["dist"], c.get("links")),
            "equation": _eq(c.get("eq")),
            "forget": _perparam(c.get("forget", 0.0)),
            "method": _perparam(c.get("method", "ols"), make_method),
            "scale_inputs": _scale(c.get("scale", True)),
            "fit_intercept": _perparam(c.get("intercept", True)),
            "regularize_intercept": _perparam(c.get("reg_int", False)),
            "ic": _perparam(c.get("ic", "aic")),
            "model_selection": c.get("ms", "local_rss"),
            "step_size": _perparam(c.get("step", 1.0)),
        }
        if c.get("order") is not None:
            kw["param_order"] = np.array(c["order"], int)
        for k in ("prefit_initial", "prefit_update", "verbose", "debug", "cautious_updates", "cond_start_val",
                  "max_it_outer", "max_it_inner", "abs_tol_outer", "abs_tol_inner", "rel_tol_outer",
                  "rel_tol_inner", "min_it_outer"):
            if k in c:
                kw[k] = c[k]
        return OnlineDistributionalRegression, kw
    raise ValueError(est)


def build(cfg, **over):
    cls, kw = build_kwargs(cfg)
    kw.update(over)
    return cls(**kw)


def n_params(cfg):
    return DISTS[cfg["dist"]].k if cfg["est"] == "gamlss" else 1


# ------------------------------------------------------------------ seeded numba RNG

_seed_fn = None


NOJIT = False


def unjit():
    """Run the package's compiled functions as their Python source (same code, traceable, no compilation)."""
    global NOJIT
    import importlib as il
    import pkgutil
    import sys

    import ondil
    from numba.core.dispatcher import Dispatcher
    for m in pkgutil.walk_packages(ondil.__path__, "ondil."):
        il.import_module(m.name)
    for name, mod in list(sys.modules.items()):
        if name == "ondil" or name.startswith("ondil."):
            for k, v in list(vars(mod).items()):
                if isinstance(v, Dispatcher):
                    setattr(mod, k, v.py_func)
    NOJIT = True


def seed_jit(seed):
    """Seed the random generator of compiled code (coordinate order) and numpy's global one."""
    global _seed_fn
    if NOJIT:
        np.random.seed(seed % (2**31))
        return
    if _seed_fn is None:
        import numba as nb

        @nb.njit()
        def f(s):
            np.random.seed(s)
        _seed_fn = f
    _seed_fn(seed % (2**31))
    np.random.seed(seed % (2**31))


# ------------------------------------------------------------------ observables

def snapshot(est, Xq=None):
    """Everything a user can observe of a fitted estimator, as plain values."""
    name = type(est).__name__
    out = {"n_obs": est.n_observations_}
    if name == "OnlineScaler":
        out.update(mean=np.asarray(est.mean_).copy(), var=np.asarray(est.var_).copy())
        if Xq is not None:
            out["transform"] = np.array(est.transform(Xq))
        return out
    out["n_training"] = dict(est.n_training_) if isinstance(est.n_training_, dict) else est.n_training_
    if name == "OnlineDistributionalRegression":
        out["coef"] = {p: np.array(v) for p, v in est.coef_.items()}
        out["path"] = {p: None if v is None else np.array(v) for p, v in est.coef_path_.items()}
        if Xq is not None:
            out["theta"] = np.array(est.predict_distribution_parameters(Xq))
    else:
        out["coef"] = np.array(est.coef_)
        if hasattr(est, "coef_path_"):
            out["path"] = np.array(est.coef_path_)
        if Xq is not None:
            out["pred"] = np.array(est.predict(Xq))
    return out


def import_check():
    m = importlib.import_module("ondil")
    from .core import SRC
    assert m.__file__.startswith(SRC), (m.__file__, SRC)
