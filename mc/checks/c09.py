"""C09: a POD built from a linear analysis = the POD built from its data."""
import numpy as np
import openturns as ot
import otpod
from mc import ref, tech

META = {'bounds': '3 (8) data sets x censoring none/noise/saturation/both/noise or saturation at exactly 0 x Box Cox off/0.5/0.0/estimated x residual law '
        'Normal (default and given) / kernel / logistic x 2 detection thresholds; same random seed on both sides; every '
        'refused combination of constructor arguments'}

FACT = [None, 'NormalFactory', 'KernelSmoothing', 'LogisticFactory']
BC = [False, 0.5, 0.0, True]
CENS = ['none', 'noise', 'sat', 'both', 'noise0', 'sat0']


def cases(tier):
    for k in range(1, 4 if tier == 'quick' else 9):
        for f in range(4):
            for b in range(4):
                yield {'k': k, 'f': f, 'b': b}
    yield {'k': 0}


def run(case, ctx):
    if case['k'] == 0:
        return refused(ctx)
    fact = FACT[case['f']]
    bc = BC[case['b']]
    for cens in CENS:
        for dq in (0.3, 0.7):
            X, y = tech.data('gauss', 18, case['k'], 0.0, noise=1.3)
            ys = np.sort(y)
            noise = float(0.5 * (ys[1] + ys[2])) if cens in ('noise', 'both') else None
            sat = float(0.5 * (ys[-2] + ys[-3])) if cens in ('sat', 'both') else None
            if cens in ('noise0', 'sat0'):      # a threshold of exactly 0
                if bc is not False and (cens == 'noise0' or bc != 0.5):
                    continue
                t = float(0.5 * (ys[1] + ys[2])) if cens == 'noise0' else float(0.5 * (ys[-2] + ys[-3]))
                y = y - t
                noise, sat = (0.0, None) if cens == 'noise0' else (None, 0.0)
            det = float(np.quantile(y, dq)) if cens != 'noise0' else float(np.quantile(y[y > 0], dq))
            mk = (lambda: getattr(ot, fact)()) if fact else (lambda: None)
            ctx.step('analysis', cens, bc, fact)
            a = otpod.UnivariateLinearModelAnalysis(ot.Sample(X), ot.Sample(ref.col(y)), noise, sat, mk(), bc)
            before = np.array(a.getIntercept()).tolist()
            ctx.step('POD from analysis', det)
            p = otpod.UnivariateLinearModelPOD(analysis=a, detection=det)
            q = otpod.UnivariateLinearModelPOD(ot.Sample(X), ot.Sample(ref.col(y)), det, noise, sat,
                                               mk() or ot.NormalFactory(), bc)
            for o in (p, q):
                o.setVerbose(False)
                o.setSimulationSize(60 if fact in (None, 'NormalFactory') else 12)
                tech.seed(9)
                o.run()
            xs = [float(v) for v in np.linspace(X.min(), X.max(), 7)]
            ctx.step('observe')
            tech.compare(ctx, tech.observe('gauss', p, xs), tech.observe('gauss', q, xs), 'POD from the analysis '
                         '(%s, Box Cox %r, %s) and from its data' % (cens, bc, fact))
            L, M, N = p.getBoxCoxParameter(), q.getBoxCoxParameter(), a.getBoxCoxParameter()
            ctx.check(L == M == N, 'Box Cox parameters %r (POD from analysis), %r (POD from data), %r (analysis)' % (L, M, N))
            ctx.check(np.array(a.getIntercept()).tolist() == before, 'the analysis was changed by the POD')
            # parameters of the POD are those reported by the analysis
            m = 1 if cens != 'none' else 0
            b0, b1, s = a.getIntercept()[m], a.getSlope()[m], a.getStandardError()[m]
            if fact in (None, 'NormalFactory'):
                yu = ref.split(X, y, noise, sat)[1]
                zd = det if bc is False else float(ref.boxcox(det + ref.bc_shift(yu), N))
                mm = ref.LinPOD(X[:, 0], y, det, noise, sat, None if bc is False else N)
                mm.b0, mm.b1, mm.s, mm.zd = b0, b1, s, zd
                f = p.getPODModel()
                ctx.close([f([x])[0] for x in xs], [mm.gauss(x) for x in xs], 'POD curve of the reported coefficients',
                          rtol=1e-6, atol=1e-6)
            ctx.state(case['k'], cens, bc, fact, dq, [b0, b1, s])


def refused(ctx):
    X, y = tech.data('gauss', 18, 1, 0.0, noise=1.3)
    a = otpod.UnivariateLinearModelAnalysis(ot.Sample(X), ot.Sample(ref.col(y)))
    extra = {'inputSample': ot.Sample(X), 'outputSample': ot.Sample(ref.col(y)), 'noiseThres': 1.0,
             'saturationThres': 50.0, 'resDistFact': ot.NormalFactory()}
    keys = sorted(extra)
    for mask in range(1, 2 ** len(keys)):
        kw = {k: extra[k] for i, k in enumerate(keys) if (mask >> i) & 1}
        ctx.raises('POD from analysis and %s' % sorted(kw), AttributeError, otpod.UnivariateLinearModelPOD,
                   analysis=a, detection=3.0, **kw)
        ctx.state('refused', mask)
    ctx.raises('POD from analysis without detection', AttributeError, otpod.UnivariateLinearModelPOD, analysis=a)
    ctx.state('refused', 'nodet')
