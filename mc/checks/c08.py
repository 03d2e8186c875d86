"""C08: bootstrap linear POD (any residual law factory)."""
import itertools
import math
import numpy as np
import openturns as ot
import otpod
from scipy import optimize
from mc import ref

META = {'bounds': 'POD: all error sign patterns for 7 observations, 4 residual law factories, Box Cox off/given, '
        'censoring; confidence curve: all 6^6 resamples of 6 observations (462 weighted multisets) give its exact law '
        '(empirical residual law), and every resample multiset of 7-8 observations gives the set of curves one '
        'simulation may return',
        'assumptions': ['confidence curves are compared with their exact law at 7 standard deviations of the simulation error']}

FACT = ['KernelSmoothing', 'LogisticFactory', 'UniformFactory', 'EmpiricalFactory']
SETTINGS = [{}, {'lam': 0.5}, {'noise': 1}, {'sat': 1, 'lam': 0.3}]


def factory(name):
    if name == 'EmpiricalFactory':
        return getattr(ot, 'FiniteDiscreteDistributionFactory', None)() \
            if hasattr(ot, 'FiniteDiscreteDistributionFactory') else ot.UserDefinedFactory()
    return getattr(ot, name)()


def cases(tier):
    for f in range(4):
        for k in range(4):
            for xp in ('unsorted', 'dup'):
                yield {'kind': 'pod', 'fact': f, 'set': k, 'xp': xp, 'n': 9 if k > 1 else 7}
    for dset in range(4 if tier == 'quick' else 8):
        for k in (0, 1):
            for det in (0.0, 1.5):
                yield {'kind': 'law', 'dset': dset, 'set': k, 'det': det, '_w': 10}
        for det in (0.0, 1.5):
            yield {'kind': 'law', 'dset': dset, 'set': 'estim', 'det': det, '_w': 20}
    for k in (0, 1, 2, 3, 'estim'):
        for f in (0, 1):
            yield {'kind': 'member', 'set': k, 'fact': f, 'n': 7, '_w': 20}


def settings(k, y):
    if k == 'estim':
        return {'lam': True}
    st = SETTINGS[k]
    ys = np.sort(y)
    kw = {}
    if 'noise' in st:
        kw['noise'] = 0.5 * (ys[0] + ys[1])
    if 'sat' in st:
        kw['sat'] = 0.5 * (ys[-1] + ys[-2])
    if 'lam' in st:
        kw['lam'] = st['lam']
    return kw


def build(x, y, det, kw, fact, size, seed):
    p = otpod.UnivariateLinearModelPOD(ot.Sample(ref.col(x)), ot.Sample(ref.col(y)), det, kw.get('noise'),
                                       kw.get('sat'), fact, kw.get('lam', False))
    p.setVerbose(False)
    p.setSimulationSize(size)
    ot.RandomGenerator.SetSeed(seed)
    np.random.seed(seed)
    p.run()
    return p


def multisets(n):
    """All multisets of n indices and their probability under resampling."""
    f = math.factorial
    for c in itertools.combinations_with_replacement(range(n), n):
        cnt = np.bincount(c, minlength=n)
        w = f(n)
        for v in cnt:
            w //= f(int(v))
        yield np.array(c), w / float(n ** n)


def models(x, y, det, kw):
    """The model of a data set; with an estimated Box Cox parameter, also those of close or (almost) as likely parameters."""
    if kw.get('lam') is not True:
        return [ref.LinPOD(x, y, det, **kw)]
    t = np.log(y) - np.log(y).mean()

    def ll(v):
        v = np.where(np.abs(v) < 1e-9, 1e-9, v)
        return -0.5 * len(y) * np.log(np.maximum(np.var(np.expm1(np.multiply.outer(v, t)) / np.expand_dims(v, -1), axis=-1), 1e-300))
    lam = np.linspace(-20, 20, 1601)
    g = ll(lam)
    i = int(np.argmax(g))
    best = optimize.minimize_scalar(lambda v: -float(ll(np.float64(v))), bounds=(lam[max(i - 1, 0)], lam[min(i + 1, 1600)]),
                                    method='bounded', options={'xatol': 1e-8}).x
    near = lam[g > g.max() - 2e-4]
    return [ref.LinPOD(x, y, det, lam=float(v)) for v in [best, best - 2e-3, best + 2e-3] + list(near[[0, -1]])]


def curve(m, fact, xs):
    law = fact.build(ot.Sample(ref.col(m.res)))
    return np.array([law.computeComplementaryCDF(m.thr(q)) for q in xs])


def run(case, ctx):
    if case['kind'] == 'pod':
        n = case['n']
        x = ref.XPAT[case['xp']](n)
        fact = factory(FACT[case['fact']])
        for signs in range(0, 128, 1 if case['set'] < 2 else 8):
            e = np.array([1.0 if (signs >> (i % 7)) & 1 else -1.0 for i in range(n)]) * (0.6 + 0.4 * ref.weyl(n, 5))
            y = 6.0 + 1.6 * x + e
            kw = settings(case['set'], y)
            det = float(np.median(y)) + 0.3
            m = ref.LinPOD(x, y, det, **kw)
            ctx.step('run', signs, kw)
            # the simulation part (resamples) is exercised by the other kinds
            p = otpod.UnivariateLinearModelPOD(ot.Sample(ref.col(x)), ot.Sample(ref.col(y)), det, kw.get('noise'),
                                               kw.get('sat'), fact, kw.get('lam', False))
            p.setVerbose(False)
            p.setSimulationSize(1)
            ot.RandomGenerator.SetSeed(5)
            p.run()
            pod = p.getPODModel()
            a, w = (m.zd - m.b0) / m.b1, m.s / m.b1
            xs = [a + w * t for t in (-2.1, -1.13, -0.52, 0.07, 0.61, 1.27, 2.3)]
            if FACT[case['fact']] == 'EmpiricalFactory':
                xs = [q for q in xs if m.margin(q) > (1e-6 if not m.cens else 1e-2)]
            want = curve(m, fact, xs)
            ctx.close([pod([q])[0] for q in xs], want, 'POD with %s' % FACT[case['fact']], rtol=1e-5,
                      atol=1e-6 if not m.cens else 1e-2)
            ctx.state(case['fact'], case['set'], case['xp'], signs)
            if len(ctx.problems) > 4:
                return
    elif case['kind'] == 'law':
        n = 6
        x = ref.XPAT['unsorted' if case['dset'] % 2 else 'shifted'](n)
        slope = 1.5 if case['dset'] % 2 else 25.0
        y = 6.0 + slope * x + 1.8 * ref.weyl(n, 7 + case['dset'])
        kw = settings(case['set'], y)
        det = float(np.median(y)) + case['det']
        size = 600 if case['set'] == 'estim' else 6000
        ctx.step('run', case['dset'], size)
        p = build(x, y, det, kw, factory('EmpiricalFactory'), size, 11)
        m0 = models(x, y, det, kw)[0]
        a, w = (m0.zd - m0.b0) / m0.b1, m0.s / m0.b1
        xs = [a + w * t for t in (-1.57, -0.61, 0.083, 0.77, 1.83)]
        vals = [[] for _ in xs]
        wts, amb = [], np.zeros(len(xs))
        for idx, wt in multisets(n):
            if len(set(x[idx])) < 2:
                amb += wt
                continue
            ms = models(x[idx], y[idx], det, kw)
            wts.append(wt)
            for i, q in enumerate(xs):
                c = [m.count(q) for m in ms]
                vals[i].append(c[0] / float(n))
                if min(m.margin(q) for m in ms) < 1e-9 or len(set(c)) > 1:
                    amb[i] += wt
            ctx.state('resample', list(idx))
        wts = np.array(wts)
        for i, q in enumerate(xs):
            v = np.array(vals[i])
            for c in (0.5, 0.8, 0.9, 0.95):
                g = p.getPODCLModel(c)([q])[0]
                ctx.step('POD CL', c, q)
                tol = ref.mc_tol(1 - c, size, 7.0, float(amb[i]) + 1e-6)
                up, dn = wts[v <= g + 1e-9].sum(), wts[v < g - 1e-9].sum()
                ctx.check(up >= 1 - c - tol and dn <= 1 - c + tol,
                          lambda: 'bootstrap POD at level %r, defect %r is %r: over all resamples P(below)=%.4f, '
                          'P(up to)=%.4f, expected to straddle %.4f' % (c, q, g, dn, up, 1 - c))
    else:
        n = case['n']
        x = ref.XPAT['unsorted'](n)
        y = 7.0 + 1.5 * x + 1.7 * ref.weyl(n, 12)
        kw = settings(case['set'], y)
        det = float(np.median(y)) + 0.4
        name = FACT[case['fact']]
        fact = factory(name)
        m0 = models(x, y, det, kw)[0]
        a, w = (m0.zd - m0.b0) / m0.b1, m0.s / m0.b1
        xs = [a + w * t for t in (-2.0, -1.2, -0.6, 0.0, 0.7, 1.3, 2.1)]
        obs = []
        for seed in range(1, 31):
            ctx.step('run with one simulation', seed)
            try:
                f = build(x, y, det, kw, fact, 1, seed).getPODCLModel(0.9)
            except Exception as e:
                # a resample on (almost) identical observations has no residual law
                if case['set'] in (2, 3) or 'constant' in str(e) or 'null' in str(e) or 'beta' in str(e):
                    continue
                raise
            obs.append((seed, np.array([f([q])[0] for q in xs])))
        ctx.check(len(obs) >= 25, 'only %d of 30 single simulations succeed' % len(obs))
        best = {s: 1.0 for s, _ in obs}
        tol = {0: 1e-4, 1: 1e-4, 'estim': 1e-3}.get(case['set'], 2e-2)
        for idx, wt in multisets(n):
            if all(v < tol for v in best.values()):
                break
            if len(set(x[idx])) < 3:
                continue
            try:
                m = models(x[idx], y[idx], det, kw)[0]
                cv = curve(m, fact, xs)
            except Exception:
                continue
            ctx.state('resample', list(idx))
            for s, o in obs:
                best[s] = min(best[s], float(np.abs(o - cv).max()))
        bad = [s for s in best if best[s] > tol]
        # at most the resamples without a usable reference may be unmatched
        allowed = 3 if case['set'] in (2, 3) else 0
        ctx.check(len(bad) <= allowed, lambda: 'simulated POD curves (seeds %r) are not the curve of any resample of '
                  'the data (closest distances %r)' % (bad[:8], [best[s] for s in bad[:8]]))

