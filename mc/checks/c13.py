"""C13: adaptive signal (kriging) POD."""
import numpy as np
import openturns as ot
import otpod
from scipy import stats
from mc import ref, tech, gp

META = {'bounds': '3 (8) initial designs x 0..3 added points x Box Cox off/given/estimated, positive or partly negative signals x '
        'censoring x input law (default, given, dependent, three inputs of correlation 0 or +-0.95) x trend x covariance parameters kept or optimized x smooth or rough '
        'physical model; design, physical model calls, enrichment criterion, kriging, Q2 and curves against explicit models '
        '(simulated curves within 7 sigma of their law)',
        'assumptions': ['an estimated Box Cox parameter with negative signals (shift of 100) is numerically ill-conditioned and left out',
                        'simulated curves compared with their exact law at 7 standard deviations']}


def cases(tier):
    K = 4 if tier == 'quick' else 9
    for k in range(1, K):
        for n in (0, 1, 2, 3):
            for bc in ('off', 'given', 'estim'):
                for cens in (0, 1):
                    for start in (0, 4):
                        i = k + n + cens + len(bc) + start // 2
                        yield {'kind': 'doe', 'k': k, 'n': n, 'bc': bc, 'cens': cens, 'start': start, 'law': ['default', 'user', 'copula'][i % 3],
                               'neg': 0 if bc == 'estim' else i % 2, 'trend': ['default', 'linear'][(i // 2) % 2], 'rough': (k + n) % 2}
    for b in range(1 if tier == 'quick' else 5):
        for bc in ('off', 'given'):
            yield {'kind': 'crit', 'ks': list(range(24 * b + 1, 24 * b + 25)), 'bc': bc, '_w': 40}
    for k in range(1, 3 * K):
        for n in (0, 1):
            for rho in (-0.95, 0.0, 0.95):
                if k < K or n == 0:
                    yield {'kind': 'dep', 'k': k, 'n': n, 'rho': rho, 'bc': 'off' if k % 2 else 'given'}
    for k in range(1, 2 * K):
        for start in (3, 6):
            for amp in (0.3, 0.5, 0.75, 1.0):
                if amp == 1.0 or k % 2:
                    yield {'kind': 'reopt', 'k': k, 'start': start, 'amp': amp}


def rough(X, k):
    X = np.atleast_2d(X)
    return 1.7 * np.sin(37.0 * X[:, 0] + 5 * k) * np.cos(23.0 * X[:, 1])


def make(case, log, n, N=15):
    k = case['k']
    X, _ = tech.data('adaptive', N, k)
    off = -14.0 if case.get('neg') else 0.0
    f = lambda V: tech.signal(V) + off + (case.get('amp', 1.0) * rough(V, k) if case.get('rough') else 0.0)
    y = f(X)

    def model(x):
        x = np.array(x, float)
        log.append([float(v) for v in x])
        return [float(f(x)[0])]
    det = float(np.quantile(y, 0.45)) + 0.13
    noise = float(np.sort(y)[1]) if case.get('cens') else None
    bc = {'off': False, 'given': 0.5, 'estim': True}[case.get('bc', 'off')]
    p = otpod.AdaptiveSignalPOD(ot.Sample(X), ot.Sample(ref.col(y)), ot.PythonFunction(2, 1, model), n, det, noise, None, bc)
    p.setVerbose(False)
    keep = np.ones(N, bool) if noise is None else y > noise
    return p, X[keep], y[keep], f, det


def law(kind):
    m = [ot.Uniform(0.2, 1.2), ot.Normal(0.1, 0.4)]
    if kind == 'copula':
        R = ot.CorrelationMatrix(2)
        R[0, 1] = 0.4
        return ot.JointDistribution(m, ot.NormalCopula(R))
    return ot.JointDistribution(m)


def nodes(D, nq=300):
    u = (np.arange(nq) + 0.5) / nq
    return np.array([D.getMarginal(1).computeQuantile(v)[0] for v in u])


def krig(U, z, cov, basis):
    fit = ot.GaussianProcessFitter(ot.Sample(U), ot.Sample(ref.col(z)), ot.CovarianceModel(cov), ot.Basis(basis))
    fit.setOptimizeParameters(False)
    fit.run()
    a = ot.GaussianProcessRegression(fit.getResult())
    a.run()
    return a.getResult()


def q2_of(U, z, cov, basis):
    """Leave-one-out Q2 by explicit refits."""
    e = []
    for i in range(len(z)):
        m = np.arange(len(z)) != i
        e.append(z[i] - krig(U[m], z[m], cov, basis).getMetaModel()(U[i])[0])
    return 1 - np.mean(np.square(e)) / np.var(z)


def run(case, ctx):
    {'doe': doe, 'crit': crit, 'reopt': reopt, 'dep': dep}[case['kind']](case, ctx)


def norm_of(X):
    mu, sd = X.mean(axis=0), X.std(axis=0, ddof=1)
    return lambda V: (np.asarray(V) - mu) / sd


def doe(case, ctx):
    n, calls = case['n'], []
    p, X, y, f, det = make(case, calls, n)
    N = len(y)
    C = 6
    p.setCandidateSize(C)
    p.setInitialStartSize(case['start'])
    ctx.check(p.getCandidateSize() == C and p.getInitialStartSize() == case['start'], 'accessors')
    basis = gp.trend_functions(case['trend'], 2)
    if case['trend'] != 'default':
        p.setBasis(ot.Basis(basis))
    if case['law'] != 'default':
        p.setDistribution(law(case['law']))
    if case['start'] == 0:
        p.setCovarianceModel(ot.MaternModel([0.9, 0.8], [2.3], 2.5))
    S, M = 300, 60
    p.setSamplingSize(S)
    p.setSimulationSize(M)
    ds = np.array([X[:, 0].min(), 0.55, 0.8, X[:, 0].max()])
    p.setDefectSizes(ds)
    tech.seed(31)
    ctx.step('run', n)
    p.run()
    D = p.getDistribution()
    if case['law'] == 'default':
        for j in range(2):
            r = D.getMarginal(j).getRange()
            ctx.close([r.getLowerBound()[0], r.getUpperBound()[0]], [X[:, j].min(), X[:, j].max()], 'default input law, component %d' % j)
    xin, out = np.array(p.getInputDOE()), np.array(p.getOutputDOE()).ravel()
    if not ctx.check(xin.shape == (N + n, 2) and out.shape == (N + n,), 'design of %r inputs, %r outputs after adding %d points to '
                     '%d' % (xin.shape, out.shape, n, N)):
        return
    ctx.close(xin[:N], X, 'initial inputs kept', 0, 0)
    at = 1e-7
    ctx.close(out[:N], y, 'initial signals kept', 1e-7, at)
    added = xin[N:]
    ctx.check(len({tuple(a) for a in added}) == n, 'a candidate was added twice: %r' % added.tolist())
    ctx.close(np.array(calls).reshape(-1, 2), added, 'calls of the physical model', 0, 0)
    if n:
        ctx.close(out[N:], f(added), 'signals of the added points', 1e-7, at)
        if case['law'] != 'copula':
            cand = np.array(ot.LowDiscrepancyExperiment(ot.SobolSequence(), D, C).generate())
            for a in added:
                ctx.check(np.abs(cand - a).sum(axis=1).min() < 1e-12, 'added point %r is not a candidate' % list(a))
    # ---- final kriging on the enriched design
    lam = p.getBoxCoxParameter()
    shift = 0.0
    if case['bc'] != 'off':
        shift = 100 - y.min() if y.min() < 0 else 0.0
        if case['bc'] == 'given':
            ctx.check(lam == 0.5, 'Box Cox parameter %r' % lam)
        z, zd = ref.boxcox(f(xin) + shift, lam), float(ref.boxcox(det + shift, lam))
    else:
        z, zd = f(xin), det
    norm = norm_of(xin)
    U = norm(xin)
    res = p.getKrigingResult()
    cov = res.getCovarianceModel()
    scz = np.ptp(z)
    ctx.close(np.array(res.getMetaModel()(ot.Sample(U))).ravel(), z, 'kriging prediction at the design points', 1e-4, 1e-3 * scz)
    G = gp.GP(U, z, cov, basis)
    if np.linalg.cond(G.K) < 1e7:
        V = norm(np.column_stack([np.linspace(0.3, 1.1, 7), np.linspace(-0.8, 0.9, 7)]))
        mean, sd = G.predict(V)
        ctx.close(np.array(res.getMetaModel()(ot.Sample(V))).ravel(), mean, 'kriging prediction', 1e-3, 1e-3 * scz)
        ctx.close(p.getQ2(), 1 - np.mean((z - G.loo()) ** 2) / np.var(z), 'Q2 (explicit leave one out on the enriched design)',
                  1e-3, 2e-4)
        ctx.state('well', case)
    if case['start'] == 0:
        ctx.close(np.array(cov.getScale()), [0.9, 0.8], 'covariance parameters kept')
    # ---- curves
    cc = ot.GaussianProcessConditionalCovariance(res)
    q, pod, vals = nodes(D), p.getPODModel(), []
    grid = stats.norm.ppf((np.arange(200) + 0.5) / 200)
    for a in ds:
        V = ot.Sample(norm(np.column_stack([np.full(len(q), a), q])))
        m = np.array(cc.getConditionalMean(V)).ravel()
        s = np.sqrt(np.maximum([cc.getConditionalCovariance(v)[0, 0] for v in V], 1e-24))
        ref_pod = float(stats.norm.cdf((m - zd) / s).mean())
        cond = np.array([np.mean(m + t * s > zd) for t in grid])
        tol = 7 * np.sqrt(ref_pod * (1 - ref_pod) / S + (np.var(cond) + 1e-4) / M) + 49.0 / 3 / S + 5e-3
        g = pod([float(a)])[0]
        vals.append(g)
        ctx.step('POD', a)
        ctx.check(abs(g - ref_pod) <= tol, lambda: 'POD(%r) = %r, the exact probability is %r (tolerance %.4f)' % (a, g, ref_pod, tol))
        for c in (0.5, 0.9):
            h = p.getPODCLModel(c)([float(a)])[0]
            ctx.step('POD CL', c, a)
            dl = ref.mc_tol(1 - c, M, 7.0)
            lo = np.mean(m + stats.norm.ppf(max(1 - c - dl, 1e-12)) * s > zd)
            hi = np.mean(m + stats.norm.ppf(min(1 - c + dl, 1 - 1e-12)) * s > zd)
            sx = np.sqrt(max(hi * (1 - hi), lo * (1 - lo), 0.01) / S)
            ctx.check(lo - 11 * sx - 5e-3 <= h <= hi + 11 * sx + 5e-3, lambda: 'POD at confidence level %r, defect %r is %r, its exact '
                      'law allows [%.4f, %.4f]' % (c, a, h, lo - 11 * sx, hi + 11 * sx))
        ctx.state(case, a)
    for i in range(len(ds) - 1):
        ctx.close(pod([float(0.5 * (ds[i] + ds[i + 1]))])[0], 0.5 * (vals[i] + vals[i + 1]), 'POD between two defect sizes', 1e-9, 1e-9)


def crit(case, ctx):
    """The first added point minimizes the documented criterion among the candidates, for one way of fitting the
    model augmented with a candidate (parameters kept, amplitude or all parameters estimated again)."""
    ok, told = [], []
    for k in case['ks']:
        val, i = criterion(dict(case, k=k, rough=k % 2), ctx)
        ok.append(val[i] <= TOL[0] * val.min(axis=0) + TOL[1])
        told.append((k, i, np.round(val, 4).tolist()))
        ctx.state(case['bc'], k, i)
    # the optimum of the likelihood is not always the same from nearly equal data: a few exceptions
    part = np.mean(ok, axis=0)
    ctx.check(part.max() >= 0.75, lambda: 'the added candidate minimizes the criterion for %r of the data sets only: (data, '
              'candidate, criteria of the candidates) %r' % (list(part), told))


TOL = (1.04, 0.002)


def criterion(case, ctx):
    p, X, y, f, det = make(case, [], 1, N=7)
    C, S, M = 5, 1500, 250
    p.setCandidateSize(C)
    p.setInitialStartSize(0)
    cov0 = ot.SquaredExponential([0.8, 0.7], [2.5])
    p.setCovarianceModel(cov0)
    p.setSamplingSize(S)
    p.setSimulationSize(M)
    ds = np.linspace(X[:, 0].min(), X[:, 0].max(), 3)
    p.setDefectSizes(ds)
    tech.seed(7)
    ctx.step('run', 1)
    p.run()
    D = p.getDistribution()
    cand = np.array(ot.LowDiscrepancyExperiment(ot.SobolSequence(), D, C).generate())
    z, zd = (y, det) if case['bc'] == 'off' else (ref.boxcox(y, 0.5), float(ref.boxcox(det, 0.5)))
    basis = gp.trend_functions('default', 2)
    nm = norm_of(X)
    G0 = gp.GP(nm(X), z, cov0, basis)
    q = nodes(D, 200)
    grid = stats.norm.ppf((np.arange(200) + 0.5) / 200)
    P = [np.column_stack([np.full(len(q), a), q]) for a in ds]
    cur = [np.mean(G0.predict(nm(V))[0] > zd) for V in P]
    val = []
    for c in cand:
        Xa, za = np.vstack([X, c]), np.append(z, G0.predict(nm(c.reshape(1, -1)))[0])
        na = norm_of(Xa)
        Ga = gp.GP(na(Xa), za, cov0, basis)
        r = za - Ga.F @ Ga.beta
        cv = ot.CovarianceModel(cov0)
        cv.setAmplitude([float(np.sqrt(r @ Ga.Ki @ r * cov0.getAmplitude()[0] ** 2 / len(za)))])
        fit = ot.GaussianProcessFitter(ot.Sample(na(Xa)), ot.Sample(ref.col(za)), cov0, ot.Basis(basis))
        opt = fit.getOptimizationAlgorithm()
        opt.setMaximumIterationNumber(0)
        fit.setOptimizationAlgorithm(opt)
        fit.run()
        three = []
        for cc in (cov0, cv, fit.getResult().getCovarianceModel()):
            Gc = gp.GP(na(Xa), za, cc, basis)
            t = 0.0
            for V, c0 in zip(P, cur):
                m, s = Gc.predict(na(V))
                pr = np.array([np.mean(m + u * s > zd) for u in grid])
                t += np.var(pr) + np.mean(pr * (1 - pr)) / S + (pr.mean() - c0) ** 2
            three.append(np.sqrt(t / len(ds)))
        val.append(three)
    added = np.array(p.getInputDOE())[-1]
    return np.array(val), int(np.argmin(np.abs(cand - added).sum(axis=1)))


def reopt(case, ctx):
    """Covariance parameters kept while the enriched model is good, optimized again when it is poor."""
    calls = []
    c2 = dict(case, rough=case['k'] % 2)
    p, X, y, f, det = make(c2, calls, 1)
    k0 = otpod.KrigingPOD(ot.Sample(X), ot.Sample(ref.col(y)), det)
    for o in (p, k0):
        o.setVerbose(False)
        o.setInitialStartSize(case['start'])
        o.setSamplingSize(20)
        o.setSimulationSize(5)
        o.setDefectSizes([0.5, 0.9])
    p.setCandidateSize(3)
    tech.seed(3)
    ctx.step('run', 1)
    p.run()
    k0.run()
    cov0, cov1 = k0.getKrigingResult().getCovarianceModel(), p.getKrigingResult().getCovarianceModel()
    xin = np.array(p.getInputDOE())
    z = f(xin)
    U = norm_of(xin)(xin)
    basis = gp.trend_functions('default', 2)
    q2 = q2_of(U, z, cov0, basis)
    s0, s1 = np.array(cov0.getScale()), np.array(cov1.getScale())
    if q2 > 0.96:
        ctx.close(s1, s0, 'covariance scales kept (Q2 %.3f of the enriched model)' % q2, 1e-9, 1e-12)
        ctx.state('kept', case, int(20 * q2))
    elif q2 < 0.94:
        fit = ot.GaussianProcessFitter(ot.Sample(U), ot.Sample(ref.col(z)), ot.CovarianceModel(cov0), ot.Basis(basis))
        L = fit.getReducedLogLikelihoodFunction()
        st = ot.LowDiscrepancyExperiment(ot.SobolSequence(), ot.JointDistribution([ot.Uniform(0.001, 50)] * 2), case['start']).generate()
        l1, l0 = L(s1)[0], max(L(v)[0] for v in st)
        ctx.check(np.abs(s1 - s0).max() > 1e-12, 'covariance scales not optimized again although Q2 is %.3f' % q2)
        ctx.check(case['amp'] < 1.0 or l1 >= l0 - 1e-2 * max(1.0, abs(l0)), 'scales %r less likely (%r) than a starting point (%r)' % (list(s1), l1, l0))
        ctx.state('optimized', case, int(20 * q2))


def dep(case, ctx):
    """Parameters depending on each other in the given law."""
    k, n, rho = case['k'], case['n'], case['rho']
    X = np.column_stack([tech.data('adaptive', 16, k)[0], ref.scatter(16, k)])
    f = lambda V: 6 + 9 * V[:, 0] + 2 * np.sin(V[:, 1]) + 2 * V[:, 2]
    y = f(X)
    det = 6 + 9 * 0.65 + 1.5
    model = ot.PythonFunction(3, 1, lambda v: [float(f(np.array([v]))[0])])
    lam = 0.5 if case['bc'] == 'given' else None
    p = otpod.AdaptiveSignalPOD(ot.Sample(X), ot.Sample(ref.col(y)), model, n, det, None, None, False if lam is None else lam)
    p.setVerbose(False)
    R = ot.CorrelationMatrix(3)
    R[1, 2] = rho
    p.setDistribution(ot.JointDistribution([ot.Uniform(0.2, 1.2), ot.Normal(0.0, 0.4), ot.Normal(0.0, 0.4)], ot.NormalCopula(R)))
    p.setCandidateSize(4)
    p.setInitialStartSize(0)
    p.setCovarianceModel(ot.SquaredExponential([1.5, 1.5, 1.5], [3.0]))
    S, M = 2000 if n else 4000, 20 if n else 60
    p.setSamplingSize(S)
    p.setSimulationSize(M)
    ds = np.array([0.5, 0.6, 0.7, 0.85])
    p.setDefectSizes(ds)
    tech.seed(11)
    ctx.step('run, correlation', rho)
    p.run()
    xin = np.array(p.getInputDOE())
    ctx.check(xin.shape == (16 + n, 3), 'design of shape %r' % (xin.shape,))
    zd = det if lam is None else float(ref.boxcox(det, lam))
    norm = norm_of(xin)
    cc = ot.GaussianProcessConditionalCovariance(p.getKrigingResult())
    z = stats.norm.ppf((np.arange(24) + 0.5) / 24)
    q = np.array([[0.4 * a, 0.4 * (rho * a + np.sqrt(1 - rho * rho) * b)] for a in z for b in z])
    pod = p.getPODModel()
    grid = stats.norm.ppf((np.arange(200) + 0.5) / 200)
    for a in ds:
        V = ot.Sample(norm(np.column_stack([np.full(len(q), a), q])))
        m = np.array(cc.getConditionalMean(V)).ravel()
        s = np.sqrt(np.maximum([cc.getConditionalCovariance(v)[0, 0] for v in V], 1e-24))
        want = float(stats.norm.cdf((m - zd) / s).mean())
        cond = np.array([np.mean(m + t * s > zd) for t in grid])
        tol = 7 * np.sqrt(want * (1 - want) / S + (np.var(cond) + 1e-4) / M) + 49.0 / 3 / S + 5e-3
        g = pod([float(a)])[0]
        ctx.step('POD', a)
        ctx.check(abs(g - want) <= tol, lambda: 'parameters of correlation %r: POD(%r) = %r, the exact probability is %r '
                  '(tolerance %.4f)' % (rho, a, g, want, tol))
        ctx.state(case, a)
