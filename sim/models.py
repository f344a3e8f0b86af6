"""Reference models: trivially simple, direct from the definitions, numpy only."""
import numpy as np


def ages_weights(n, forget):
    """(1-forget)**(number of later rows), oldest row first."""
    return (1.0 - forget) ** np.arange(n - 1, -1, -1, dtype=float)


class ScalerLog:
    """All rows accepted so far; moments computed in one pass, weighted and discounted."""

    def __init__(self, forget, select):
        self.forget, self.select = forget, select   # select: None (no scaling) or column index array
        self.X, self.w = [], []

    def add(self, X, w):
        self.X.append(np.asarray(X, float)); self.w.append(np.asarray(w, float))

    def moments(self):
        X, w = np.vstack(self.X), np.concatenate(self.w)
        e = w * ages_weights(len(w), self.forget)
        X = X[:, self.select]
        c = X.mean(axis=0)
        s = e.sum()
        m = (e[:, None] * (X - c)).sum(axis=0) / s
        v = (e[:, None] * (X - c - m) ** 2).sum(axis=0) / s
        return m + c, v

    def transform(self, X):
        if self.select is None:
            return np.array(X, float)
        m, v = self.moments()
        out = np.array(X, float)
        out[:, self.select] = (out[:, self.select] - m) / np.sqrt(v)
        return out


def select_of(scale, d):
    if scale is True:
        return np.arange(d)
    if scale is False:
        return None
    if "mask" in scale:
        return np.flatnonzero(np.array(scale["mask"], bool))
    return np.array(scale["idx"], int)


class LSLog:
    """Weighted, discounted least-squares history of design rows."""

    def __init__(self, forget):
        self.forget = forget
        self.A, self.z, self.w = [], [], []

    def add(self, A, z, w):
        self.A.append(np.array(A, float)); self.z.append(np.array(z, float)); self.w.append(np.array(w, float))

    def arrays(self):
        A, z, w = np.vstack(self.A), np.concatenate(self.z), np.concatenate(self.w)
        return A, z, w * ages_weights(len(w), self.forget)

    def gram(self):
        A, z, e = self.arrays()
        return (A * e[:, None]).T @ A, (A * e[:, None]).T @ z

    def solve(self):
        """(coefficients, condition number of the weighted design)"""
        A, z, e = self.arrays()
        r = np.sqrt(e)
        Aw, zw = A * r[:, None], z * r
        col = np.sqrt((Aw**2).sum(axis=0))
        col[col == 0] = 1.0
        sol = np.linalg.lstsq(Aw / col, zw, rcond=None)[0] / col
        return sol, np.linalg.cond(Aw / col), np.linalg.cond(Aw)


def design(X, intercept):
    return np.hstack([np.ones((len(X), 1)), X]) if intercept else np.array(X, float)


def soft(x, t):
    return np.sign(x) * max(abs(x) - t, 0.0)


def lambda_max(G, b, reg):
    """Smallest penalty at which every regularised coefficient is zero (unregularised ones free)."""
    reg = np.asarray(reg, bool)
    if reg.all():
        return np.max(np.abs(b))
    free = ~reg
    beta = np.linalg.solve(G[np.ix_(free, free)], b[free])
    return np.max(np.abs(b - G[:, free] @ beta)[reg])


def objective(G, b, beta, lam, alpha, reg):
    reg = np.asarray(reg, bool)
    return 0.5 * beta @ G @ beta - b @ beta + lam * (alpha * np.abs(beta[reg]).sum() + 0.5 * (1 - alpha) * (beta[reg] ** 2).sum())


def active_violation(G, b, beta, lam, alpha, reg, lo, hi):
    """Largest move any *active* coefficient would make in its own exact minimisation."""
    worst = 0.0
    for j in np.flatnonzero(beta):
        u = b[j] - G[j] @ beta + G[j, j] * beta[j]
        if reg[j]:
            new = soft(u, alpha * lam) / (G[j, j] + lam * (1 - alpha))
        else:
            new = u / G[j, j]
        new = min(max(new, lo[j]), hi[j])
        worst = max(worst, abs(new - beta[j]))
    return worst


def cd_reference(G, b, beta, lam, reg, alpha, lo, hi, tol, max_iter):
    """Documented active-set coordinate descent, cyclic order. Returns (beta, sweeps, margin) where margin is
    the smallest distance of any first-sweep update from the activation boundary."""
    beta = np.array(beta, float)
    i, margin = 0, np.inf
    while True:
        i += 1
        old = beta.copy()
        for j in range(len(beta)):
            if i < 2 or beta[j] != 0:
                u = b[j] - G[j] @ beta + G[j, j] * beta[j]
                if reg[j]:
                    margin = min(margin, abs(abs(u) - alpha * lam) / (abs(u) + alpha * lam + 1e-300)) if alpha > 0 else margin
                    new = soft(u, alpha * lam) / (G[j, j] + lam * (1 - alpha))
                else:
                    new = u / G[j, j]
                beta[j] = min(max(new, lo[j]), hi[j])
        if np.max(np.abs(beta - old)) <= tol * np.max(np.abs(beta)):
            break
        if i > max_iter:
            break
    return beta, i, margin


def eff_len(forget, n):
    return n if forget == 0 else (1 - (1 - forget) ** n) / forget


def ic_from_ll(c, n, p, ll):
    if c == "aic":
        return -2 * ll + 2 * p
    if c == "bic":
        return -2 * ll + p * np.log(n)
    if c == "hqc":
        return -2 * ll + 2 * p * np.log(np.log(n))
    if c == "max":
        return -ll + 0 * p
    raise ValueError(c)


def ic_from_rss(c, n, p, rss):
    return ic_from_ll(c, n, p, -n / 2 * np.log(rss / n) - n / 2 * (1 + np.log(2 * np.pi)))


def relerr(a, b, scale=None):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return np.inf
    if a.size == 0:
        return 0.0
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return 0.0 if np.array_equal(a, b, equal_nan=False) else np.inf
    s = max(np.max(np.abs(b)), 1e-12) if scale is None else scale
    return float(np.max(np.abs(a - b)) / s)
