"""Explicit universal kriging (numpy), given covariance model and trend."""
import numpy as np
import openturns as ot


class GP(object):
    def __init__(self, U, z, cov, basis):
        """U: normalized inputs (n, d); basis: list of functions of U."""
        self.U, self.z, self.cov, self.basis = np.asarray(U), np.asarray(z).ravel(), cov, basis
        n = len(self.z)
        self.K = np.array(cov.discretize(ot.Sample(self.U)))
        self.F = self.trend(self.U)
        self.Ki = np.linalg.inv(self.K)
        self.G = np.linalg.inv(self.F.T @ self.Ki @ self.F)
        self.beta = self.G @ self.F.T @ self.Ki @ self.z
        self.alpha = self.Ki @ (self.z - self.F @ self.beta)

    def trend(self, U):
        return np.column_stack([np.array(b(ot.Sample(U))).ravel() for b in self.basis])

    def cross(self, V):
        n, m = len(self.U), len(V)
        W = np.vstack([self.U, V])
        return np.array(self.cov.discretize(ot.Sample(W)))[n:, :n]

    def k0(self):
        v = ot.Sample([self.U[0].tolist()])
        return float(np.array(self.cov.discretize(v))[0, 0])

    def predict(self, V):
        V = np.atleast_2d(V)
        mean, var = np.empty(len(V)), np.empty(len(V))
        for s in range(0, len(V), 200):
            k = self.cross(V[s:s + 200])
            f = self.trend(V[s:s + 200])
            mean[s:s + 200] = f @ self.beta + k @ self.alpha
            u = f - k @ self.Ki @ self.F
            var[s:s + 200] = self.k0() - np.einsum('ij,jk,ik->i', k, self.Ki, k) + np.einsum('ij,jk,ik->i', u, self.G, u)
        return mean, np.sqrt(np.maximum(var, 0.0))

    def loo(self):
        n = len(self.z)
        out = np.empty(n)
        for i in range(n):
            m = np.arange(n) != i
            g = GP(self.U[m], self.z[m], self.cov, self.basis)
            out[i] = g.predict(self.U[i:i + 1])[0][0]
        return out

    def loglik(self):
        s, ld = np.linalg.slogdet(self.K)
        r = self.z - self.F @ self.beta
        return -0.5 * (ld + r @ self.Ki @ r)


def trend_functions(name, dim):
    v = ['x%d' % i for i in range(dim)]
    if name == 'default':
        ex = ['1', v[0]]
    elif name == 'const':
        ex = ['1']
    elif name == 'curved':      # not stable by an affine change of the inputs
        ex = ['1', '%s^2' % v[-1], 'exp(0.4*%s)' % v[0]]
    else:
        ex = ['1'] + v
    return [ot.SymbolicFunction(v, [e]) for e in ex]
