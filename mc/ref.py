"""Independent reference models (numpy / scipy only, no otpod)."""
import itertools
import math
import numpy as np
from scipy import stats, optimize, special

# fixed, library independent pseudo-data: a Weyl sequence in (-1, 1)


def weyl(n, k=1):
    a = (math.sqrt(5.0) - 1.0) / 2.0
    b = math.sqrt(2.0)
    return np.array([2.0 * (((i + 1) * a + k * b * 0.37) % 1.0) - 1.0 for i in range(n)])


def scatter(n, k=1):
    """Irregular values in (-1, 1), not collinear with weyl()."""
    return np.array([math.sin(12.9898 * (i + 1) * (i + 2.7) + 3.1 * k) for i in range(n)])


XPAT = {
    'sorted': lambda n: np.arange(1, n + 1) * 1.0,
    'unsorted': lambda n: np.array([((i * 7) % n) + 1.0 + 0.1 * ((i * 3) % 4) for i in range(n)]),
    'dup': lambda n: np.array([1.0 + (i // 2) for i in range(n)]),
    'far': lambda n: 1000.0 + np.arange(n),
    'shifted': lambda n: 0.1 + 0.05 * np.array([((i * 3) % n) for i in range(n)]),
}


def col(a):
    return np.array(a, dtype=float).reshape(-1, 1)


def boxcox(y, lam):
    y = np.asarray(y, dtype=float)
    if abs(lam) < 1e-9:
        return np.log(y)
    return (y ** lam - 1.0) / lam


def boxcox_inv(z, lam):
    z = np.asarray(z, dtype=float)
    if abs(lam) < 1e-9:
        return np.exp(z)
    return (lam * z + 1.0) ** (1.0 / lam)


def bc_shift(y):
    m = float(np.min(y))
    return -m + 100.0 if m < 0 else 0.0


def split(x, y, noise, sat):
    x, y = np.asarray(x, float), np.asarray(y, float).ravel()
    lo = -np.inf if noise is None else noise
    hi = np.inf if sat is None else sat
    u = (y > lo) & (y < hi)
    return x[u], y[u], x[y <= lo], x[y >= hi]


def ols(x, y):
    x, y = np.asarray(x, float).ravel(), np.asarray(y, float).ravel()
    n = len(x)
    mx, my = math.fsum(x) / n, math.fsum(y) / n
    sxx = math.fsum((x - mx) ** 2)
    slope = math.fsum((x - mx) * (y - my)) / sxx
    icpt = my - slope * mx
    res = y - icpt - slope * x
    s2 = math.fsum(res ** 2) / (n - 2)
    return icpt, slope, math.sqrt(s2), res


def ols_ci(x, y, level=0.95):
    x = np.asarray(x, float).ravel()
    n = len(x)
    b0, b1, s, _ = ols(x, y)
    mx = x.mean()
    sxx = ((x - mx) ** 2).sum()
    t = stats.t.ppf(0.5 + level / 2, n - 2)
    h1 = t * s / math.sqrt(sxx)
    h0 = t * s * math.sqrt(1.0 / n + mx ** 2 / sxx)
    return (b0 - h0, b0 + h0), (b1 - h1, b1 + h1)


def tobit_nll(p, xu, yu, xn, xs, noise, sat):
    b0, b1, s = p
    if not s > 0:
        return np.inf
    r = (yu - b0 - b1 * xu) / s
    v = len(xu) * (math.log(s) + 0.5 * math.log(2 * math.pi)) + 0.5 * float((r ** 2).sum())
    if noise is not None and len(xn):
        v -= float(stats.norm.logcdf((noise - b0 - b1 * xn) / s).sum())
    if sat is not None and len(xs):
        v -= float(stats.norm.logsf((sat - b0 - b1 * xs) / s).sum())
    return v


def tobit_fit(xu, yu, xn, xs, noise, sat):
    """Exact optimum: Olsen's parameters (b0/s, b1/s, 1/s) make the problem
    convex; damped Newton from the least squares fit."""
    b0, b1, s, _ = ols(xu, yu)
    s = max(s, 1e-8)
    nu = len(xu)
    U = np.column_stack([-np.ones(nu), -xu, yu])
    blocks = []
    if noise is not None and len(xn):
        blocks.append(np.column_stack([-np.ones(len(xn)), -xn, np.full(len(xn), float(noise))]))
    if sat is not None and len(xs):
        blocks.append(-np.column_stack([-np.ones(len(xs)), -xs, np.full(len(xs), float(sat))]))
    C = np.vstack(blocks) if blocks else np.zeros((0, 3))

    def f(q):
        if q[2] <= 0:
            return np.inf
        r = U @ q
        return -nu * math.log(q[2]) + 0.5 * float(r @ r) - float(special.log_ndtr(C @ q).sum())

    q = np.array([b0 / s, b1 / s, 1.0 / s])
    v = f(q)
    for _ in range(200):
        r = U @ q
        g = U.T @ r
        g[2] -= nu / q[2]
        H = U.T @ U
        H[2, 2] += nu / q[2] ** 2
        if len(C):
            t = C @ q
            lam = np.exp(-0.5 * t * t - 0.5 * math.log(2 * math.pi) - special.log_ndtr(t))
            g -= C.T @ lam
            H += (C * (lam * (lam + t))[:, None]).T @ C
        d = np.linalg.solve(H, -g)
        if -float(g @ d) < 1e-13:
            break
        step = 1.0
        while step > 1e-10:
            w = f(q + step * d)
            if w <= v + 1e-4 * step * float(g @ d):
                break
            step *= 0.5
        else:
            break
        q, v = q + step * d, w
    p = (q[0] / q[2], q[1] / q[2], 1.0 / q[2])
    return p, tobit_nll(p, xu, yu, xn, xs, noise, sat)


def r2(y, res):
    return 1.0 - np.var(res) / np.var(y)


# ---- residual tests -----------------------------------------------------
def p_zero_mean(res):
    n = len(res)
    t = res.mean() / (res.std(ddof=1) / math.sqrt(n))
    return 2 * stats.t.cdf(-abs(t), n - 1)


def p_breusch_pagan(x, res):
    """Koenker's studentized Breusch-Pagan statistic, n R2 of e^2 on x."""
    n = len(x)
    w = res ** 2 - (res ** 2).mean()
    A = np.column_stack([np.ones(n), x])
    fit = A @ np.linalg.lstsq(A, w, rcond=None)[0]
    return stats.chi2.sf(n * (fit ** 2).sum() / (w ** 2).sum(), 1)


def p_durbin_watson(x, res):
    n = len(x)
    D = np.diff(np.eye(n), axis=0)
    A = D.T @ D
    X = np.column_stack([np.ones(n), x])
    M = np.eye(n) - X @ np.linalg.solve(X.T @ X, X.T)
    d = float(res @ A @ res) / float(res @ res)
    P = np.trace(M @ A)
    Q = np.trace(M @ A @ M @ A)
    k = n - 2
    mean = P / k
    var = 2.0 / (k * (k + 2)) * (Q - P * mean)
    return 2 * stats.norm.sf(abs(d - mean) / math.sqrt(var))


_hmc = {}


def p_harrison_mccabe(res, size=60000):
    n = len(res)
    b = n // 2
    if n not in _hmc:
        rng = np.random.RandomState(20240 + n)
        z = rng.standard_normal((size, n))
        z -= z.mean(axis=1, keepdims=True)
        _hmc[n] = np.sort((z[:, :b] ** 2).sum(axis=1) / (z ** 2).sum(axis=1))
    h = float((res[:b] ** 2).sum() / (res ** 2).sum())
    return np.searchsorted(_hmc[n], h, side='right') / float(size)


def mc_tol(p, n, k=7.0, extra=0.0):
    """Deviation bound of a Monte Carlo proportion: k sigma (Bernstein form)."""
    return k * math.sqrt(max(p * (1 - p), 0.0) / n) + k * k / (3.0 * n) + extra


def ks_stat(res, cdf):
    r = np.sort(res)
    n = len(r)
    F = np.array([cdf(v) for v in r])
    return max((np.arange(1, n + 1) / n - F).max(), (F - np.arange(n) / n).max())


def p_kolmogorov(res, cdf):
    return float(stats.kstwo.sf(ks_stat(res, cdf), len(res)))


# ---- Box Cox likelihood ---------------------------------------------------
def bc_loglik(y, lam):
    """Profile log-likelihood of the Box Cox parameter for an i.i.d. sample."""
    y = np.asarray(y, float)
    z = boxcox(y, lam)
    v = np.var(z)
    return -0.5 * len(y) * math.log(v) + (lam - 1.0) * float(np.log(y).sum())


def bc_best(y):
    grid = np.linspace(-6, 6, 1201)
    v = [bc_loglik(y, l) for l in grid]
    i = int(np.argmax(v))
    r = optimize.minimize_scalar(lambda l: -bc_loglik(y, l), bounds=(grid[max(i - 1, 0)], grid[min(i + 1, 1200)]),
                                 method='bounded', options={'xatol': 1e-8})
    return float(r.x), -float(r.fun)


# ---- linear POD -------------------------------------------------------------
class LinPOD(object):
    """Reference POD of a linear signal model on the (censored, transformed) data."""

    def __init__(self, x, y, det, noise=None, sat=None, lam=None):
        self.xu, yu, self.xn, self.xs = split(x, y, noise, sat)
        self.zn, self.zs, self.zd = noise, sat, det
        if lam is not None:
            sh = bc_shift(yu)
            yu = boxcox(yu + sh, lam)
            self.zd = float(boxcox(det + sh, lam))
            self.zn = None if noise is None else float(boxcox(noise + sh, lam))
            self.zs = None if sat is None else float(boxcox(sat + sh, lam))
        self.yu = yu
        self.cens = noise is not None or sat is not None
        self.b0, self.b1, self.s, self.res = ols(self.xu, yu)
        if self.cens:
            (self.b0, self.b1, self.s), self.nll = tobit_fit(self.xu, yu, self.xn, self.xs, self.zn, self.zs)
            self.res = yu - self.b0 - self.b1 * self.xu
        self.N = len(self.xu)
        m = self.xu.mean()
        self.mx, self.sxx = m, ((self.xu - m) ** 2).sum()

    def lev(self, x):
        return 1.0 / self.N + (x - self.mx) ** 2 / self.sxx

    def thr(self, x):
        return self.zd - self.b0 - self.b1 * x

    def count(self, x):
        return int((self.res > self.thr(x)).sum())

    def margin(self, x):
        return float(np.abs(self.res - self.thr(x)).min())

    def gauss(self, x):
        return float(stats.norm.cdf(-self.thr(x) / (self.s * math.sqrt(1 + self.lev(x)))))

    def gauss_cl_cdf(self, t, x):
        """P(POD_sim(x) <= Phi(t)) under the sampling law of the fitted parameters."""
        nu = self.N - 2
        delta = -self.thr(x) / self.s
        h = math.sqrt(self.lev(x))
        if nu not in _chi:
            u = (np.arange(4000) + 0.5) / 4000
            _chi[nu] = stats.chi.ppf(u, nu) / math.sqrt(nu)
        return float(stats.norm.cdf((t - delta * _chi[nu]) / h).mean())


_chi = {}


def binom_cl(N, n, c):
    """Documented lower bound: (1-c) quantile of Beta(n+1, N-n); (1-c)^(1/N)-free at n=N."""
    if n == N:
        return (1.0 - c) ** (1.0 / N)
    return float(stats.beta.ppf(1 - c, n + 1, N - n))
