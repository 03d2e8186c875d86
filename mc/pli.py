"""Reference of the perturbed laws of the PLI: exponential tilting by Gauss-Legendre quadrature, no closed form of the code."""
import math
import numpy as np

U, W = np.polynomial.legendre.leggauss(400)


def tilt(score, target):
    """Multiplier l such that the law ~ exp(l * score) on [-1, 1] has E[score] = target (bisection)."""
    s = score(U)

    def e(l):
        w = W * np.exp(l * s - np.max(l * s))
        return np.sum(w * s) / np.sum(w)
    lo, hi = -1.0, 1.0
    while e(lo) > target:
        lo *= 2
    while e(hi) < target:
        hi *= 2
    for _ in range(200):
        m = 0.5 * (lo + hi)
        if e(m) < target:
            lo = m
        else:
            hi = m
    return 0.5 * (lo + hi)


_cache = {}


def density(kind, law, value):
    """Perturbed density: kind 'mean' or 'variance', law ('U', a, b) or ('N', mu, s), value of the new moment."""
    key = (kind, tuple(law), float(value))
    if key in _cache:
        return _cache[key]
    if law[0] == 'N':
        mu, s = law[1:]
        m, sd = (value, s) if kind == 'mean' else (mu, math.sqrt(value))

        def f(x):
            return np.exp(-0.5 * ((np.asarray(x, float) - m) / sd) ** 2) / (sd * math.sqrt(2 * math.pi))
    else:
        a, b = law[1:]
        c, h = 0.5 * (a + b), 0.5 * (b - a)
        if kind == 'mean':
            def score(u):
                return u
            l = tilt(score, (value - c) / h)
        else:
            def score(u):
                return u ** 2
            l = tilt(score, value / h ** 2)
        top = np.max(l * score(U))
        norm = np.sum(W * np.exp(l * score(U) - top)) * h

        def f(x):
            u = (np.asarray(x, float) - c) / h
            ins = (u >= -1 - 1e-12) & (u <= 1 + 1e-12)
            return np.where(ins, np.exp(l * score(np.clip(u, -1, 1)) - top), 0.0) / norm
    _cache[key] = f
    return f


def original(law):
    if law[0] == 'N':
        return density('mean', law, law[1])
    a, b = law[1:]
    return lambda x: np.where((np.asarray(x) >= a) & (np.asarray(x) <= b), 1.0 / (b - a), 0.0)


def moments(law):
    return (law[1], law[2]) if law[0] == 'N' else (0.5 * (law[1] + law[2]), (law[2] - law[1]) / math.sqrt(12))


def applied(kind, law, delta, scaled):
    """Value of the moment for a given delta."""
    m, s = moments(law)
    if not scaled:
        return float(delta)
    return m + s * delta if kind == 'mean' else (delta * m + s) ** 2


def hellinger(kind, law, value):
    """2 - 2 int sqrt(f g)."""
    f, g = original(law), density(kind, law, value)
    if law[0] == 'U':
        c, h = 0.5 * (law[1] + law[2]), 0.5 * (law[2] - law[1])
        return 2 - 2 * h * np.sum(W * np.sqrt(f(c + h * U) * g(c + h * U)))
    m, s = law[1:]
    if kind == 'mean':
        return 2 - 2 * math.exp(-(value - m) ** 2 / (8 * s ** 2))
    v = s ** 2
    return 2 - 2 * math.sqrt(2 * math.sqrt(v * value) / (v + value))


def indices(kind, laws, x, fail, N, values):
    """pf, and for every (delta, marginal): perturbed probability, variance of it, index, variance of the index."""
    pf = fail.sum() / float(N)
    xf = x[fail]
    D, M = values.shape
    pfd, var, idx, sig, scale = (np.empty((D, M)) for _ in range(5))
    for j in range(M):
        f0 = original(laws[j])(xf[:, j])
        for i in range(D):
            r = density(kind, laws[j], values[i, j])(xf[:, j]) / f0
            p = r.sum() / N
            v = (r ** 2).sum() / N - p ** 2
            pfd[i, j], var[i, j] = p, v
            idx[i, j] = 1 - pf / p if p < pf else p / pf - 1
            g = (-1 / p, pf / p ** 2) if p < pf else (-p / pf ** 2, 1 / pf)
            t = [g[0] ** 2 * pf * (1 - pf), 2 * g[0] * g[1] * p * (1 - pf), g[1] ** 2 * v]
            sig[i, j] = math.sqrt(max(sum(t), 0.0) / N)
            scale[i, j] = sum(abs(q) for q in t) / N
    return pf, pfd, idx, sig, scale
