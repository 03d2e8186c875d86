"""C05: one Box Cox transformation is used for signals, threshold and detection."""
import numpy as np
import openturns as ot
import otpod
from mc import ref, tech

META = {'bounds': 'every technique (3 linear PODs, linear analysis, quantile regression, chaos 1-2 inputs, kriging, '
        'adaptive kriging) x 3 (6 thorough) data sets x parameter given (Python or numpy float) as 0.5 / 0.0 / -0.4 / 1.0 / estimated x positive or partly '
        'negative signals x censoring none/noise/saturation/both x 2 detection thresholds'}

TECHS = ['analysis', 'binomial', 'gauss', 'kernel', 'qr', 'chaos1', 'chaos2', 'kriging', 'adaptive']
LAM = [0.5, 0.0, -0.4, 1.0, True]
CENS = ['none', 'noise', 'sat', 'both']


def cases(tier):
    for t in TECHS:
        for k in range(1, 4 if tier == 'quick' else 7):
            for lam in LAM:
                yield {'t': t, 'k': k, 'lam': lam, '_w': 3 if t in ('adaptive', 'qr', 'kernel') else 1}


def run(case, ctx):
    t, lam = case['t'], case['lam']
    if lam is not True and case['k'] == 2:
        lam = np.float64(lam)       # also a float
    for cens in CENS:
        for off in (0.0, -14.0):
            for dq in (0.4, 0.7):
                one(ctx, case, t, lam, cens, off, dq)
                if len(ctx.problems) > 4:
                    return


def one(ctx, case, t, lam, cens, off, dq):
    if t == 'kernel' and (lam is True and off < 0):
        return      # resamples shifted by 100 have huge estimated powers, out of floating point range
    if t == 'qr' and lam is True and off < 0:
        return
    if t == 'qr':
        dq -= 0.25   # every resample must reach the detection threshold
    base = 'binomial' if t == 'analysis' else t
    X, y = tech.data(base, 18, case['k'], off, noise=1.2 if t != 'qr' else 0.6)
    ys = np.sort(y)
    noise = 0.5 * (ys[1] + ys[2]) if cens in ('noise', 'both') else None
    sat = 0.5 * (ys[-2] + ys[-3]) if cens in ('sat', 'both') else None
    det = float(np.quantile(y, dq)) + 0.1
    Xu, yu, Xn, Xs = ref.split(X, y, noise, sat)
    sh = ref.bc_shift(yu)
    nsim = 1 if (t == 'kernel' and cens != 'none') else None
    ctx.step('build', t, cens, off, lam)
    tech.seed(7)
    if t == 'analysis':
        p = otpod.UnivariateLinearModelAnalysis(ot.Sample(X), ot.Sample(ref.col(y)), noise, sat, None, lam)
    else:
        p = tech.make(t, X, y, det, noise, sat, lam, offset=off, sim=nsim, start=0)
        tech.seed(7)
        p.run()
    L = p.getBoxCoxParameter()
    if not ctx.check(isinstance(L, float), 'reported Box Cox parameter is %r' % (L,)):
        return
    if lam is True:
        lb, fb = ref.bc_best(yu + sh)
        f = ref.bc_loglik(yu + sh, L)
        ctx.check(f >= fb - (1e-3 if off >= 0 else 5e-2), lambda: 'reported Box Cox parameter %r has log-likelihood %.5f, the maximum is %.5f '
                  'at %r' % (L, f, fb, lb))
    else:
        ctx.check(L == lam, 'Box Cox parameter given as %r, reported as %r' % (lam, L))
    # the same analysis with the transformation done by hand
    z = ref.boxcox(yu + sh, L)
    zdet = float(ref.boxcox(det + sh, L))
    zn = None if noise is None else float(ref.boxcox(noise + sh, L))
    zs = None if sat is None else float(ref.boxcox(sat + sh, L))
    ctx.state(t, cens, off, lam, L, sh)
    if t in ('analysis', 'binomial', 'gauss', 'kernel'):
        # censored observations take part: any value on the right side of the threshold
        Z = np.empty(len(y))
        lo = -np.inf if noise is None else noise
        hi = np.inf if sat is None else sat
        for i, v in enumerate(y):
            if v <= lo:
                Z[i] = zn - 1.0
            elif v >= hi:
                Z[i] = zs + 1.0
            else:
                Z[i] = float(ref.boxcox(v + sh, L))
        XX = X
    else:
        XX, Z, zn, zs = Xu, z, None, None
    tech.seed(7)
    tol = dict(rtol=1e-5, atol=1e-6)
    if t == 'analysis':
        q = otpod.UnivariateLinearModelAnalysis(ot.Sample(XX), ot.Sample(ref.col(Z)), zn, zs)
        for nm in ('getIntercept', 'getSlope', 'getStandardError', 'getResiduals', 'getR2', 'getDurbinWatsonPValue',
                   'getKolmogorovPValue', 'getBreuschPaganPValue'):
            ctx.step(nm)
            ctx.close(np.array(getattr(p, nm)()), np.array(getattr(q, nm)()), '%s with the transformation done by '
                      'hand' % nm, rtol=1e-4, atol=2e-4 if cens != 'none' else 1e-7)
        return
    if t == 'adaptive':
        # the physical model of the hand transformed problem
        def f(x):
            v = tech.signal(np.array(x))[0] + off + sh
            return [float(ref.boxcox(v, L))]
        q = otpod.AdaptiveSignalPOD(ot.Sample(XX), ot.Sample(ref.col(Z)), ot.PythonFunction(2, 1, f), 1, zdet)
        q.setVerbose(False)
        q.setSimulationSize(10)
        q.setSamplingSize(20)
        q.setCandidateSize(4)
        q.setInitialStartSize(0)
        q.setDefectSizes(q.getDefectSizes()[::3])
    else:
        q = tech.make(t, XX, Z, zdet, zn, zs, False, sim=nsim, start=0)
        if t in ('chaos1', 'chaos2'):
            q.setDefectSizes(p.getDefectSizes())
    tech.seed(7)
    q.run()
    xs = tech.grid(t, p, Xu)
    cl = True
    if t in ('qr', 'kernel'):
        # each resample is transformed with its own shift / estimated parameter
        cl = lam is not True and sh == 0.0 and cens == 'none'
    a, b = tech.observe(t, p, xs, cl), tech.observe(t, q, xs, cl)
    if t == 'adaptive':
        # reported outputs are on the original scale
        w = ref.boxcox_inv(np.array(b['outDOE']).ravel(), L) - sh
        ctx.close(np.array(a['outDOE']).ravel(), w, 'signals of the enriched design on the original scale', 1e-6, 1e-6)
        a.pop('outDOE'), b.pop('outDOE')
    if cens != 'none' and t in ('gauss', 'kernel', 'binomial'):
        tol = dict(rtol=1e-3, atol=3e-3)
        if t == 'binomial':
            m = ref.LinPOD(X[:, 0], y, det, noise, sat, L)
            keep = [i for i, x in enumerate(xs) if m.margin(x) > 2e-2]
            a = {'POD': [a['POD'][i] for i in keep]}
            b = {'POD': [b['POD'][i] for i in keep]}
        else:
            a = {k: v for k, v in a.items() if k in ('POD', 'R2')}
            b = {k: v for k, v in b.items() if k in ('POD', 'R2')}
    ctx.step('observe')
    tech.compare(ctx, a, b, '%s, Box Cox parameter %r, censoring %s' % (t, L, cens), **tol)
