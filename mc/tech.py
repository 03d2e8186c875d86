"""The POD techniques of otpod behind one cheap, uniform constructor."""
import numpy as np
import openturns as ot
import otpod
from mc import ref

ALL = ['binomial', 'gauss', 'kernel', 'qr', 'chaos1', 'chaos2', 'kriging', 'adaptive', 'hitmiss']
CLS = [0.6, 0.9]


def dim_of(t):
    return 1 if t in ('binomial', 'gauss', 'kernel', 'qr', 'chaos1') else 2


def seed(s):
    ot.RandomGenerator.SetSeed(s)
    np.random.seed(s)


def signal(X):
    """The physical model used by the adaptive techniques."""
    X = np.atleast_2d(np.asarray(X, float))
    v = 6.0 + 9.0 * X[:, 0]
    if X.shape[1] > 1:
        v = v + 2.0 * np.sin(2.0 * X[:, 1]) + 0.8 * X[:, 0] * X[:, 1]
    return v


def data(t, n=None, k=1, offset=0.0, noise=0.35):
    """Deterministic design on [0.2, 1.2] x [-1, 1] and its signals."""
    d = dim_of(t)
    n = n or (14 if d == 1 else 16)
    u = 0.5 * (1 + ref.weyl(n, k))
    X = (0.2 + u).reshape(-1, 1)
    if d == 2:
        v = np.array([2 * (((i + 1) * 0.7548776662) % 1.0) - 1 for i in range(n)])
        X = np.column_stack([X, v])
    y = signal(X) + offset
    if t not in ('kriging', 'adaptive'):
        y = y + noise * ref.scatter(n, k)
    return X, y


def physical(offset=0.0, dim=2, log=None):
    def f(x):
        x = np.array(x)
        if log is not None:
            log.append([float(v) for v in x])
        return [float(signal(x)[0] + offset)]
    return ot.PythonFunction(dim, 1, f)


def make(t, X, y, det, noise=None, sat=None, bc=False, offset=0.0, more=1, log=None, sim=None, start=4):
    """Build the POD object (not run) with small sizes."""
    Xs, Ys = ot.Sample(X), ot.Sample(ref.col(y))
    if t in ('binomial', 'gauss', 'kernel'):
        fact = {'binomial': None, 'gauss': ot.NormalFactory(), 'kernel': ot.KernelSmoothing()}[t]
        p = otpod.UnivariateLinearModelPOD(Xs, Ys, det, noise, sat, fact, bc)
        p.setSimulationSize(sim or (30 if t == 'kernel' else 200))
        p.setVerbose(False)
    elif t == 'qr':
        p = otpod.QuantileRegressionPOD(Xs, Ys, det, noise, sat, bc)
        p.setQuantile([0.2, 0.5, 0.8, 0.95])
        p.setSimulationSize(sim or 8)
        p.setVerbose(False)
    elif t in ('chaos1', 'chaos2'):
        p = otpod.PolynomialChaosPOD(Xs, Ys, det, noise, sat, bc)
        p.setVerbose(False)
        p.setSimulationSize(sim or 40)
        p.setSamplingSize(100)
        p.setDegree(2)
        p.setDefectSizes(np.linspace(X[:, 0].min(), X[:, 0].max(), 6) if noise is None and sat is None
                         else p.getDefectSizes()[::4])
    elif t == 'kriging':
        p = otpod.KrigingPOD(Xs, Ys, det, noise, sat, bc)
        p.setVerbose(False)
        p.setSimulationSize(sim or 30)
        p.setSamplingSize(60)
        p.setInitialStartSize(start)
        p.setDefectSizes(p.getDefectSizes()[::4])
    elif t == 'adaptive':
        p = otpod.AdaptiveSignalPOD(Xs, Ys, physical(offset, 2, log), more, det, noise, sat, bc)
        p.setVerbose(False)
        p.setSimulationSize(sim or 10)
        p.setSamplingSize(20)
        p.setCandidateSize(4)
        p.setInitialStartSize(start)
        p.setDefectSizes(p.getDefectSizes()[::3])
    elif t == 'hitmiss':
        p = otpod.AdaptiveHitMissPOD(Xs, Ys, physical(offset, 2, log), more, det, noise, sat)
        p.setVerbose(False)
        p.setSamplingSize(200)
        p.setCandidateSize(60)
        p.setClassifierParameters([[10], [None], [2], [0]])
        p.setDefectSizes(p.getDefectSizes()[::4])
    return p


def grid(t, p, X):
    """Defect sizes where every curve of the technique is defined."""
    if t in ('chaos1', 'chaos2', 'kriging', 'adaptive', 'hitmiss'):
        d = np.asarray(p.getDefectSizes())
        lo, hi = d.min(), d.max()
    else:
        lo, hi = X[:, 0].min(), X[:, 0].max()
    return [float(lo + (hi - lo) * f) for f in (0.0, 0.13, 0.31, 0.5, 0.77, 1.0)]


def observe(t, p, xs, cl=True, levels=(0.3, 0.85), conf=CLS):
    """All public numerical results of a run, in canonical form."""
    o = {}
    f = p.getPODModel()
    o['POD'] = [float(f([x])[0]) for x in xs]
    if cl:
        for c in conf:
            g = p.getPODCLModel(c)
            o['CL%g' % c] = [float(g([x])[0]) for x in xs]
    for lv in levels:
        for c in (None,) + ((conf[-1],) if cl else ()):
            try:
                d = p.computeDetectionSize(lv, c) if c is not None else p.computeDetectionSize(lv)
                o['a%g/%s' % (lv, c)] = [float(v) for v in d] + list(d.getDescription())
            except Exception as e:
                if 'does not contain' not in str(e).replace('not  contain', 'not contain'):
                    if 'POD model' not in str(e):
                        raise
                o['a%g/%s' % (lv, c)] = 'refused'
    if t in ('binomial', 'gauss', 'kernel', 'chaos1', 'chaos2'):
        o['R2'] = float(p.getR2())
    if t in ('chaos1', 'chaos2', 'kriging', 'adaptive'):
        o['Q2'] = float(p.getQ2())
    if t == 'qr':
        o['R2'] = float(p.getR2(0.5))
    if t in ('adaptive', 'hitmiss'):
        o['inDOE'] = np.array(p.getInputDOE()).tolist()
        o['outDOE'] = np.array(p.getOutputDOE()).tolist()
    return o


def compare(ctx, a, b, what, rtol=1e-6, atol=1e-7, skip=()):
    ok = True
    for k in sorted(set(a) | set(b)):
        if k in skip:
            continue
        if k not in a or k not in b:
            ok = ctx.check(False, '%s: %s present on one side only' % (what, k)) and ok
            continue
        u, v = a[k], b[k]
        if isinstance(u, str) or isinstance(v, str):
            ok = ctx.check(u == v, '%s: %s is %r and %r' % (what, k, u, v)) and ok
            continue
        if isinstance(u, list) and any(isinstance(w, str) for w in u):
            su, sv = [w for w in u if isinstance(w, str)], [w for w in v if isinstance(w, str)]
            ok = ctx.check(su == sv, '%s: %s labels %r and %r' % (what, k, su, sv)) and ok
            u, v = [w for w in u if not isinstance(w, str)], [w for w in v if not isinstance(w, str)]
        ok = ctx.close(u, v, '%s: %s' % (what, k), rtol=rtol, atol=atol) and ok
    return ok
