"""C10: quantile regression POD."""
import numpy as np
import openturns as ot
import otpod
from scipy.interpolate import interp1d
from statsmodels.regression.quantile_regression import QuantReg
from mc import ref, tech
from mc.checks import c08

META = {'bounds': 'POD: 6 (16) data sets of 12-14 observations x 4 quantile lists (single, default 21, unsorted, dense) x '
        'censoring x Box Cox given x 2 detection thresholds; confidence curve: all 6^6 resamples of 6 observations give '
        'its exact law, single-resample curves must be the curve of one of the resamples',
        'assumptions': ['statsmodels QuantReg computes the regression quantiles',
                        'detection thresholds reached by every resample, otherwise run() refuses']}

QS = [[0.5], None, [0.8, 0.3, 0.55], [0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9]]


def cases(tier):
    for k in range(1, 7 if tier == 'quick' else 17):
        for q in range(4):
            for cens in ('none', 'noise', 'sat'):
                for lam in (None, 0.5):
                    yield {'kind': 'pod', 'k': k, 'q': q, 'cens': cens, 'lam': lam}
    for k in range(1, 5 if tier == 'quick' else 9):
        for lam in (None, 0.5):
            for q in (0.3, 0.6, 0.85):
                yield {'kind': 'law', 'k': k, 'lam': lam, 'q': q, '_w': 20}


def fit(x, z, tau):
    X = np.column_stack([np.ones(len(x)), x])
    b = QuantReg(np.asarray(z), X).fit(tau, max_iter=300, p_tol=0.01).params
    return b[0], b[1]


def nodes(x, z, zd, qs):
    out = []
    for q in qs:
        b0, b1 = fit(x, z, 1.0 - q)
        out.append((zd - b0) / b1)
    return np.array(out)


def curve(nd, qs, xmax):
    return interp1d(np.hstack([0, nd, xmax]), np.hstack([0.0, qs, np.max(qs)]), kind='linear')


def transform(x, y, det, noise, sat, lam):
    xu, yu, _, _ = ref.split(x, y, noise, sat)
    if lam is None:
        return xu, yu, det
    sh = ref.bc_shift(yu)
    return xu, ref.boxcox(yu + sh, lam), float(ref.boxcox(det + sh, lam))


def run(case, ctx):
    if case['kind'] == 'pod':
        n = 12 + case['k'] % 3
        X, y = tech.data('qr', n, case['k'], 0.0, noise=0.5)
        x = X[:, 0]
        ys = np.sort(y)
        noise = float(0.5 * (ys[0] + ys[1])) if case['cens'] == 'noise' else None
        sat = float(0.5 * (ys[-1] + ys[-2])) if case['cens'] == 'sat' else None
        for dq in (0.3, 0.45):
            det = float(np.quantile(y, dq))
            ctx.step('run', dq)
            p = otpod.QuantileRegressionPOD(ot.Sample(X), ot.Sample(ref.col(y)), det, noise, sat,
                                            False if case['lam'] is None else case['lam'])
            p.setVerbose(False)
            p.setSimulationSize(1)
            if QS[case['q']] is not None:
                p.setQuantile(QS[case['q']])
            qs = np.sort(QS[case['q']]) if QS[case['q']] is not None else np.linspace(0.05, 0.98, 21)
            ctx.close(p.getQuantile(), qs, 'quantile list')
            tech.seed(4)
            try:
                p.run()
            except RuntimeError as e:
                if 'Brent' in str(e):       # a resample that never reaches the threshold: refused
                    ctx.state('refused', case['k'], dq)
                    continue
                raise
            xu, z, zd = transform(x, y, det, noise, sat, case['lam'])
            nd = nodes(xu, z, zd, qs)
            f = p.getPODModel()
            g = curve(nd, qs, xu.max())
            xs = [float(v) for v in np.linspace(0.0, xu.max(), 23)] + \
                 [float(v) for v in nd if 0 < v < xu.max()]
            got, want = [f([v])[0] for v in xs], [float(g(v)) for v in xs]
            # a jump between close nodes amplifies the solver tolerance
            slope = max(1.0, np.max(np.abs(np.diff(qs)), initial=0) / max(1e-9, np.min(np.abs(np.diff(np.sort(nd))), initial=1.0)))
            ctx.close(got, want, 'POD with quantiles %r' % (list(qs)[:5],), rtol=0, atol=min(0.05, 1e-5 * slope) + 1e-6)
            for lv in (0.35, 0.6, 0.9):
                b0, b1 = fit(xu, z, 1 - lv)
                a = (zd - b0) / b1
                if xu.min() < a < xu.max():
                    d = p.computeDetectionSize(lv)
                    ctx.step('computeDetectionSize', lv)
                    ctx.close(d[0], a, 'detection size at %r' % lv, rtol=1e-5, atol=1e-6)
            for tau in (0.3, 0.5, 0.8, 0.24, 0.66):
                XX = np.column_stack([np.ones(len(xu)), xu])
                r = QuantReg(np.asarray(z), XX).fit(tau)
                ctx.step('getR2', tau)
                ctx.close(p.getR2(tau), r.prsquared, 'pseudo R2 at %r' % tau, rtol=1e-6, atol=1e-8)
            ctx.state(case['k'], case['q'], case['cens'], case['lam'], dq, nd)
        return
    n = 6
    x = 5.0 + ref.XPAT['unsorted'](n)
    y = 2.0 * x + 1.2 * ref.scatter(n, case['k'])
    det = 7.0
    qs = np.array([case['q']])
    lam = case['lam']
    size = 800

    def build(size, seed, qs=qs):
        p = otpod.QuantileRegressionPOD(ot.Sample(ref.col(x)), ot.Sample(ref.col(y)), det, None, None,
                                        False if lam is None else lam)
        p.setVerbose(False)
        p.setQuantile(qs)
        p.setSimulationSize(size)
        tech.seed(seed)
        p.run()
        return p
    nds, wts, amb = [], [], 0.0
    for idx, w in c08.multisets(n):
        if len(set(idx)) < 2:
            amb += w
            continue
        xu, z, zd = transform(x[idx], y[idx], det, None, None, lam)
        nds.append(nodes(xu, z, zd, qs))
        wts.append(w)
        ctx.state('resample', list(idx))
    nds, wts = np.array(nds), np.array(wts)
    p = build(size, 21)
    ctx.step('run', size)
    for c in (0.5, 0.8, 0.95):
        g = p.getPODCLModel(c)
        ctx.step('POD CL', c)
        # position of the node from the curve itself: bisection on its values
        for j, q in enumerate(qs):
            lo, hi = 0.0, float(x.max())
            for _ in range(60):
                mid = 0.5 * (lo + hi)
                if g([mid])[0] < q - 1e-12:
                    lo = mid
                else:
                    hi = mid
            v = nds[:, j]
            tol = ref.mc_tol(c, size, 7.0, amb + 1e-4)
            eps = 1e-3 * (1 + abs(hi))
            up, dn = wts[v <= hi + eps].sum(), wts[v < hi - eps].sum()
            ctx.check(up >= c - tol and dn <= c + tol, lambda: 'at confidence level %r the defect of quantile %r is '
                      '%r: over all resamples P(below)=%.4f, P(up to)=%.4f, expected to straddle %.4f'
                      % (c, q, hi, dn, up, c))
        xmax = float(x.max())
        ctx.close([g([0.0])[0], g([xmax])[0]], [0.0, qs.max()], 'ends of the confidence curve')
    # single resamples
    curves = []
    for seed in range(1, 21):
        p = build(1, seed)
        ctx.step('run with one resample', seed)
        g = p.getPODCLModel(0.9)
        xs = np.linspace(0.2, x.max() - 0.05, 9)
        o = np.array([g([v])[0] for v in xs])
        best = min(float(np.abs(curve(nd, qs, x.max())(xs) - o).max()) for nd in nds)
        curves.append(best)
    ctx.check(sum(b > 1e-3 for b in curves) <= 1, lambda: 'confidence curves of a single resample match no resample of the '
              'data: distances %r' % [round(b, 4) for b in curves])
    # several quantiles, which may cross in a resample
    many = np.array([0.35, 0.45, 0.5, 0.6, 0.75])
    jn = []
    for idx, w in c08.multisets(n):
        if len(set(idx)) >= 2:
            xu, z, zd = transform(x[idx], y[idx], det, None, None, lam)
            jn.append(nodes(xu, z, zd, many))
    bad, crossed, ran = [], 0, 0
    for seed in range(1, 41 if case['q'] == 0.3 else 1):
        try:
            p = build(1, seed, many)
        except RuntimeError as e:
            if 'Brent' in str(e):
                continue
            raise
        ran += 1
        g = p.getPODCLModel(0.9)
        xs = np.linspace(0.2, x.max() - 0.05, 25)
        ctx.step('run with one resample and %d quantiles' % len(many), seed)
        o = np.array([g([v])[0] for v in xs])
        d = [float(np.abs(curve(nd, many, x.max())(xs) - o).max()) for nd in jn]
        if min(d) > 1e-3:
            bad.append((seed, round(min(d), 4)))
        crossed += bool((np.diff(jn[int(np.argmin(d))]) < 0).any())
        ctx.state('joint', case['k'], lam, seed, jn[int(np.argmin(d))])
    ctx.check(len(bad) <= 1, lambda: 'confidence curves of a single resample with %d quantiles match no resample of the data: '
              '(seed, distance) %r' % (len(many), bad))
    ctx.state('crossings', crossed, ran)
