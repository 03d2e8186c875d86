"""C07: Gaussian linear POD and the law of its confidence curve."""
import math
import numpy as np
import openturns as ot
import otpod
from scipy import stats
from mc import ref

META = {'bounds': 'every error sign pattern for 5-7 observations x 3 defect layouts x settings (plain, Box Cox given, '
        'noise / saturation censoring) for the POD; confidence curves from 40000 simulations at 5 defect sizes and 5 '
        'levels against the exact sampling law, and single-simulation curves for the shape',
        'assumptions': ['confidence curves are compared with their exact law at 7 standard deviations of the simulation error']}

SETTINGS = [{}, {'lam': 0.5}, {'lam': 0.0}, {'noise': 1}, {'sat': 1}, {'noise': 1, 'sat': 1, 'lam': 0.4}]
MAG = np.array([0.9, 0.35, 1.1, 0.6, 0.2, 0.75, 0.5, 1.3, 0.45, 0.8])


def cases(tier):
    for n in (5, 6, 7) if tier == 'quick' else (4, 5, 6, 7, 8):
        for xp in ('sorted', 'unsorted', 'shifted'):
            for k, st in enumerate(SETTINGS):
                if 'noise' in st or 'sat' in st:
                    if n < 7 or (tier == 'quick' and xp == 'sorted'):
                        continue
                yield {'kind': 'pod', 'n': n, 'xp': xp, 'set': k, '_w': 2 if n == 7 else 1}
    for n in (4, 6, 9) if tier == 'quick' else (3, 4, 5, 6, 7, 9, 12, 20):
        for k, st in enumerate(SETTINGS):
            if ('noise' in st or 'sat' in st) and n < 9:
                continue
            for det in (-1.0, 0.3, 2.0):
                yield {'kind': 'cl', 'n': n, 'xp': 'unsorted', 'set': k, 'det': det, '_w': 5}
                yield {'kind': 'one', 'n': n, 'xp': 'unsorted', 'set': k, 'det': det, '_w': 1}


def data(n, xp, signs):
    x = ref.XPAT[xp](n)
    sc, slope = (1.0, 1.5) if xp != 'shifted' else (0.2, 8.0)
    e = sc * MAG[np.arange(n) % 10] * np.array([1.0 if (signs >> i) & 1 else -1.0 for i in range(n)])
    return x, 5.0 + slope * x + e


def settings(k, y):
    st = SETTINGS[k]
    ys = np.sort(y)
    kw = {}
    if 'noise' in st:
        kw['noise'] = 0.5 * (ys[0] + ys[1])
    if 'sat' in st:
        kw['sat'] = 0.5 * (ys[-1] + ys[-2])
    if 'lam' in st:
        kw['lam'] = st['lam']
    return kw


def build(ctx, x, y, det, kw, size=None):
    ctx.step('build', x, y, det, kw)
    p = otpod.UnivariateLinearModelPOD(ot.Sample(ref.col(x)), ot.Sample(ref.col(y)), det, kw.get('noise'),
                                       kw.get('sat'), ot.NormalFactory(), kw.get('lam', False))
    if size is not None:
        p.setSimulationSize(size)
    ot.RandomGenerator.SetSeed(3)
    np.random.seed(3)
    p.run()
    ctx.step('run')
    return p


def grid(m, k=9):
    a = (m.zd - m.b0) / m.b1
    w = m.s / abs(m.b1)
    return [a + w * t for t in np.linspace(-3.2, 3.2, k)]


def run(case, ctx):
    n, xp, k = case['n'], case['xp'], case['set']
    if case['kind'] == 'pod':
        for signs in range(2 ** n):
            if k >= 3 and signs % 4 != 1:
                continue
            x, y = data(n, xp, signs)
            kw = settings(k, y)
            for dq in (0.25, 0.8):
                det = float(np.quantile(y, dq)) + 0.05
                m = ref.LinPOD(x, y, det, **kw)
                p = build(ctx, x, y, det, kw, size=1)
                pod = p.getPODModel()
                tol = 1e-8 if not m.cens else 5e-3
                for xq in grid(m):
                    ctx.step('POD', xq)
                    ctx.close(pod([xq])[0], m.gauss(xq), 'POD(%r)' % xq, rtol=0, atol=tol)
                ctx.close(p.getR2(), ref.r2(m.yu, m.res), 'R2', atol=1e-7 if not m.cens else 1e-2)
                ctx.state(n, xp, k, signs, dq, [m.b0, m.b1, m.s])
            if len(ctx.problems) > 4:
                return
        return
    x, y = data(n, xp, 0b0110101001 & (2 ** n - 1))
    kw = settings(k, y)
    det = float(np.median(y)) + case['det']
    m = ref.LinPOD(x, y, det, **kw)
    if case['kind'] == 'cl':
        size = 40000
        p = build(ctx, x, y, det, kw, size)
        extra = 0.0 if not m.cens else 0.01
        for xq in [m.mx] + grid(m, 4):
            for c in (0.5, 0.8, 0.9, 0.95, 0.985, 0.99, 0.995):
                q = p.getPODCLModel(c)([xq])[0]
                ctx.step('POD CL', c, xq)
                if not ctx.check(0.0 <= q <= 1.0, 'POD CL is %r' % q):
                    return
                if q < 1e-12 or q > 1 - 1e-12:
                    continue
                t = stats.norm.ppf(q)
                F = m.gauss_cl_cdf(t, xq)
                tol = ref.mc_tol(1 - c, size, 7.0, 2e-4 + extra)
                ctx.check(abs(F - (1 - c)) <= tol, lambda: 'POD at confidence level %r and defect %r is %r, whose '
                          'exact probability is %.5f instead of %.5f (tolerance %.5f)' % (c, xq, q, F, 1 - c, tol))
                ctx.state(n, k, case['det'], c, xq)
    else:
        for seed in range(1, 6):
            p = build(ctx, x, y, det, kw, 1)
            p = otpod.UnivariateLinearModelPOD(ot.Sample(ref.col(x)), ot.Sample(ref.col(y)), det, kw.get('noise'),
                                               kw.get('sat'), ot.NormalFactory(), kw.get('lam', False))
            p.setSimulationSize(1)
            ot.RandomGenerator.SetSeed(seed)
            p.run()
            g = grid(m, 7)
            for c in (0.1, 0.5, 0.95):
                f = p.getPODCLModel(c)
                v = np.array([f([q])[0] for q in g])
                ctx.step('POD CL curve of one simulation', seed, c)
                ok = (v > 1e-9) & (v < 1 - 1e-9)
                if ok.sum() >= 3:
                    t = stats.norm.ppf(v[ok])
                    gg = np.array(g)[ok]
                    fit = np.polyfit(gg, t, 1)
                    ctx.check(np.abs(np.polyval(fit, gg) - t).max() < 1e-5 * (1 + np.abs(t).max()),
                              'a single simulated POD curve is not a Gaussian cumulative curve: probits %r at %r'
                              % (list(t), list(gg)))
                ctx.state(n, k, seed, c)
