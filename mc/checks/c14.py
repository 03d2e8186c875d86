"""C14: adaptive hit-miss POD."""
import numpy as np
from scipy import stats
import openturns as ot
import otpod
from sklearn.ensemble import ExtraTreesClassifier
from sklearn.metrics import confusion_matrix
from mc import ref, tech

META = {'bounds': '3 (8) initial designs x 2 or 3 inputs x 0, 1, 4, 5, 6, 11 (13, 20) added points x classifier (forests of two '
        'settings, support vectors) x candidate band (default, wide, empty) x input law (default, given, dependent) x physical '
        'model returning signals or hit/miss, with signals exactly at the detection threshold; the classifiers of '
        'every iteration are refitted from the reported design and compared (confusion matrix, probabilities, candidate '
        'bands, POD and confidence curves within 7 sigma of their law)',
        'assumptions': ['scikit-learn forests with a fixed random state are deterministic']}

BAND = {'default': (0.45, 0.52), 'wide': (0.2, 0.9), 'empty': (0.5, 0.5), 'low': (0.05, 0.3)}


def cases(tier):
    ns = (0, 1, 4, 5, 6, 11) if tier == 'quick' else (0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 13, 20)
    for k in range(1, 4 if tier == 'quick' else 9):
        for n in ns:
            for clf in ('rf', 'rf2', 'svc'):
                for dim in (2, 3):
                    for b, band in enumerate(BAND):
                        i = k + n + dim + b + len(clf)
                        if clf == 'svc' and (band != 'default' or n in (1, 4)):
                            continue
                        if tier == 'quick' and dim == 3 and i % 2:
                            continue
                        yield {'k': k, 'n': n, 'clf': clf, 'dim': dim, 'band': band, 'law': ['default', 'user', 'copula'][i % 3],
                               'hm': i % 4 == 1}


def signal(X, dim):
    v = tech.signal(X[:, :2]) + (1.5 * X[:, 2] if dim == 3 else 0.0)
    return np.round(2 * v) / 2          # signals at the detection threshold exist


RHO = 0.8


def forest(par):
    return ExtraTreesClassifier(n_estimators=par[0], max_depth=par[1], min_samples_split=par[2], random_state=par[3])


def run(case, ctx):
    k, n, dim, clf = case['k'], case['n'], case['dim'], case['clf']
    N0 = 14
    X, _ = tech.data('hitmiss', N0, k)
    if dim == 3:
        X = np.column_stack([X, [np.cos(3.7 * i + k) for i in range(N0)]])
    y = signal(X, dim)
    det = float(np.sort(y)[N0 // 2])          # exactly on a signal
    hit = (y > det).astype(int)
    calls = []

    def model(x):
        x = np.array(x, float).reshape(1, -1)
        calls.append([float(v) for v in x[0]])
        s = float(signal(x, dim)[0])
        return [float(s > det)] if case['hm'] else [s]
    phys = ot.PythonFunction(dim, 1, model)
    if case['hm']:
        p = otpod.AdaptiveHitMissPOD(ot.Sample(X), ot.Sample(ref.col(hit.astype(float))), phys, n)
    else:
        p = otpod.AdaptiveHitMissPOD(ot.Sample(X), ot.Sample(ref.col(y)), phys, n, det)
    p.setVerbose(False)
    S, C = 1500, 64
    p.setSamplingSize(S)
    p.setCandidateSize(C)
    if clf == 'svc':
        p.setClassifierType('svc')
    else:
        par = [20, None, 2, 0] if clf == 'rf' else [7, 2, 4, 3]
        p.setClassifierParameters([[v] for v in par])
    pmin, pmax = BAND[case['band']]
    p.setPMin(pmin)
    p.setPMax(pmax)
    ctx.check(p.getPMin() == pmin and p.getPMax() == pmax, 'candidate band accessors')
    ds = np.array([0.3, 0.55, 0.7, 0.8, 1.1])
    p.setDefectSizes(ds)
    if case['law'] != 'default':
        m = [ot.Uniform(0.2, 1.2), ot.Normal(0.1, 0.5)] + ([ot.Triangular(-1, 0.3, 1)] if dim == 3 else [])
        if case['law'] == 'copula':
            R = ot.CorrelationMatrix(dim)
            R[0, 1] = 0.4
            if dim == 3:
                R[1, 2] = RHO
            p.setDistribution(ot.JointDistribution(m, ot.NormalCopula(R)))
        else:
            p.setDistribution(ot.JointDistribution(m))
    tech.seed(5)
    ctx.step('run', n)
    p.run()
    D = p.getDistribution()
    if case['law'] == 'default':
        for j in range(dim):
            r = D.getMarginal(j).getRange()
            lo, hi = (ds.min(), ds.max()) if j == 0 else (X[:, j].min(), X[:, j].max())
            ctx.close([r.getLowerBound()[0], r.getUpperBound()[0]], [lo, hi], 'range of the default input law, component %d' % j)
    # ---- design of experiments
    xin, out = np.array(p.getInputDOE()), np.array(p.getOutputDOE()).ravel()
    ctx.check(xin.shape == (N0 + n, dim) and out.shape == (N0 + n,), 'design of %r inputs and %r outputs after adding %d '
              'points to %d' % (xin.shape, out.shape, n, N0))
    if ctx.problems:
        return
    ctx.close(xin[:N0], X, 'initial inputs kept', 0, 0)
    ctx.close(out[:N0], hit, 'initial hits (signal strictly above the detection threshold)', 0, 0)
    added = xin[N0:]
    if n:
        ctx.close(out[N0:], (signal(added, dim) > det).astype(float), 'hits of the added points', 0, 0)
        seen = {tuple(c) for c in calls}
        ctx.check(all(tuple(a) in seen for a in added), 'an added point was not computed with the physical model')
    cand = None
    if case['law'] != 'copula':
        cand = np.array(ot.LowDiscrepancyExperiment(ot.SobolSequence(), D, C).generate())
        for a in added:
            ctx.check(np.abs(cand - a).sum(axis=1).min() < 1e-12, 'added point %r is not a candidate' % list(a))
    # ---- classifiers of every iteration, refitted on the reported design
    f = p.getClassifier()
    steps = [N0]
    while steps[-1] < N0 + n:
        steps.append(min(steps[-1] + 5, N0 + n))
    if clf != 'svc':
        g0 = forest(par).fit(xin[:N0], out[:N0])
        chain = [lambda V, g=g0: g.predict_proba(V)[:, 1]]
        conf = None
        for i, e in enumerate(steps[1:]):
            b = steps[i]
            if cand is not None:
                pr = chain[-1](cand)
                band = (pr >= pmin) & (pr < pmax)
                if not band.any():
                    band = (pr >= 0.1) & (pr < 0.8)
                if band.any():
                    v = chain[-1](xin[b:e])
                    lo, hi = pr[band].min(), pr[band].max()
                    ctx.check((v >= lo - 1e-9).all() and (v <= hi + 1e-9).all(), lambda: 'iteration %d added points classified '
                              'with probabilities %r, the candidate band holds [%r, %r]' % (i + 1, list(v), lo, hi))
                    if e - b == 5:
                        ctx.check(abs(v.min() - lo) < 1e-9 and abs(v.max() - hi) < 1e-9, lambda: 'iteration %d: the five added '
                                  'points (probabilities %r) do not span the band [%r, %r]' % (i + 1, list(v), lo, hi))
                ctx.state('band', case, i)
            raw = forest(par).fit(xin[:e], out[:e])
            conf = np.zeros((2, 2))
            for h in chain:
                c = confusion_matrix(out[:e], h(xin[:e]) >= 0.5).astype(float)
                for col in (0, 1):
                    tot = c[:, col].sum()
                    if tot > 0:
                        conf[:, col] += c[:, col] / tot
                    else:               # never predicted: no observed error
                        conf[col, col] += 1.0
            conf /= len(chain)
            p11, p10 = conf[1, 1], conf[1, 0]
            chain.append(lambda V, g=raw, a=p11, b=p10: np.clip((g.predict_proba(V)[:, 1] - b) / (a - b), 0, 1))
        if conf is not None:
            ctx.close(p.getConfusionMatrix(), conf, 'confusion matrix', 1e-9, 1e-12)
        V = np.vstack([xin, xin.mean(axis=0) + 0.3 * np.cos(np.arange(20 * dim)).reshape(20, dim)])
        got = np.array(f(V))
        ctx.close(got[:, 1], chain[-1](V), 'probability of detection given by the classifier', 1e-9, 1e-12)
        ctx.close(got.sum(axis=1), np.ones(len(V)), 'the two class probabilities add up to one', 1e-9, 1e-12)
    else:
        got = np.array(f(xin))
        ctx.check((got >= 0).all() and (got <= 1).all(), 'class probabilities out of [0, 1]')
    # ---- curves
    nq = 600 if dim == 2 else 40
    u = (np.arange(nq) + 0.5) / nq
    dep = case['law'] == 'copula' and dim == 3
    if dep:             # the other parameters depend on each other
        z = stats.norm.ppf(u)
        u2 = stats.norm.cdf(RHO * z[:, None] + np.sqrt(1 - RHO ** 2) * z[None, :])
        q1 = [D.getMarginal(1).computeQuantile(v)[0] for v in u]
        q2 = np.array(D.getMarginal(2).computeQuantile(u2.ravel().tolist())).ravel()
    mq = [[D.getMarginal(j).computeQuantile(v)[0] for v in u] for j in range(1, dim)]
    q = np.array(mq[0]).reshape(-1, 1) if dim == 2 else np.array([[a, b] for a in mq[0] for b in mq[1]])
    if dep:
        q = np.column_stack([np.repeat(q1, nq), q2])
    pod, vals = p.getPODModel(), []
    for a in ds:
        v = np.array(f(np.column_stack([np.full(len(q), a), q])))[:, 1]
        g = pod([float(a)])[0]
        vals.append(g)
        ctx.step('POD', a)
        tol = 7 * v.std() / np.sqrt(S) + 49.0 / 3 / S + (2e-3 if dim == 2 else 1e-2)
        ctx.check(abs(g - v.mean()) <= tol, lambda: 'POD(%r) = %r, mean of the classifier %r (tolerance %.4f)' % (a, g, v.mean(), tol))
        for c in (0.5, 0.75, 0.9, 0.985):
            h = p.getPODCLModel(c)([float(a)])[0]
            ctx.step('POD CL', c, a)
            t = ref.mc_tol(1 - c, S, 7.0, 3e-3 if dim == 2 else 3e-2)
            up, dn = np.mean(v <= h + 1e-9), np.mean(v < h - 1e-9)
            ctx.check(up >= 1 - c - t and dn <= 1 - c + t, lambda: 'POD at confidence level %r, defect %r is %r: P(below)=%.4f, '
                      'P(up to)=%.4f over the inputs, expected to straddle %.4f' % (c, a, h, dn, up, 1 - c))
        ctx.state(case, a)
    for i in range(len(ds) - 1):
        ctx.close(pod([float(0.5 * (ds[i] + ds[i + 1]))])[0], 0.5 * (vals[i] + vals[i + 1]), 'POD between two defect sizes',
                  1e-9, 1e-9)
