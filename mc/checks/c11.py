"""C11: polynomial chaos POD."""
import itertools
import numpy as np
import openturns as ot
import otpod
from scipy import stats
from mc import ref, tech

META = {'bounds': '3 (8) data sets x 1 or 2 inputs x degree 1..3 x projection (default sparse / full least squares) x input law '
        '(default uniform / given / given with parameters of correlation 0, +-0.95) x Box Cox off/given x censoring; model, R2 and Q2 against explicit least squares and '
        'explicit leave-one-out refits; POD and confidence curves against their exact binomial laws (7 sigma)',
        'assumptions': ['simulated curves compared with their exact law at 7 standard deviations']}


def cases(tier):
    for k in range(1, 4 if tier == 'quick' else 9):
        for dim in (1, 2):
            for deg in (1, 2, 3):
                for proj in ('default', 'full'):
                    if dim == 2 and deg == 3 and proj == 'full':
                        continue
                    for law in ('default', 'user'):
                        yield {'kind': 'pod', 'k': k, 'dim': dim, 'deg': deg, 'proj': proj, 'law': law, '_w': dim}
            if dim == 2:
                for rho in (-0.95, 0.0, 0.95):
                    for given in (0, 1):
                        yield {'kind': 'dep', 'k': k, 'deg': 1 + k % 2, 'rho': rho, 'given': given, '_w': 3}
            for deg in (1, 2):
                if dim == 1:
                    yield {'kind': 'chi', 'k': k, 'deg': deg, 'bc': (k + deg) % 2, '_w': 5}
                for lam in (None, 0.5):
                    if dim == 1:
                        yield {'kind': 'cl', 'k': k, 'deg': deg, 'lam': lam, '_w': 5}
                    yield {'kind': 'given', 'k': k, 'dim': dim, 'deg': deg, 'lam': lam, '_w': 1}


def run_chi(case, ctx):
    """Variance of the coefficient law over many runs: a scaled inverse chi2 law."""
    k, deg = case['k'], case['deg']
    n = deg + 4
    X = np.linspace(0.2, 1.2, n) + 0.03 * ref.scatter(n, k)
    X = X.reshape(-1, 1)
    y = 6 + 9 * X[:, 0] + ref.scatter(n, k + 3)
    lam = 0.5 if case['bc'] else None
    p = build(case, X, y, float(np.median(y)), lam)
    p.setProjectionStrategy(ot.LeastSquaresStrategy(ot.Sample(X), ot.Sample(ref.col(y if lam is None else ref.boxcox(y, lam)))))
    p.setSamplingSize(1)
    p.setSimulationSize(1)
    p.setDefectSizes([0.5, 0.9])
    z = y if lam is None else ref.boxcox(y, lam)
    u, M = [], 1500
    for seed in range(1, M + 1):
        tech.seed(seed)
        p.run()
        if seed == 1:
            mm, B, coef, s, basis = check_model(ctx, p, X, z, deg, True)
            G = np.linalg.inv(B.T @ B)
            dof = n - B.shape[1] - 1
        v = p.getCoefficientDistribution().getCovariance()[0, 0] / G[0, 0]
        u.append(float(stats.chi2.cdf(dof * s ** 2 / v, dof)))
        ctx.state(k, deg, case['bc'], seed)
        ctx.transitions += 1
    d = ref.ks_stat(np.array(u), lambda t: t)
    ctx.check(d * np.sqrt(M) < 3.0, lambda: 'variance of the coefficients over %d runs: distance %.4f to the scaled inverse chi2 law of '
              '%d degrees of freedom' % (M, d, dof))


def poly_design(X, deg):
    cols = []
    for e in itertools.product(range(deg + 1), repeat=X.shape[1]):
        if sum(e) <= deg:
            cols.append(np.prod([X[:, j] ** e[j] for j in range(X.shape[1])], axis=0))
    return np.column_stack(cols)


def build(case, X, y, det, lam=None, noise=None):
    p = otpod.PolynomialChaosPOD(ot.Sample(X), ot.Sample(ref.col(y)), det, noise, None, False if lam is None else lam)
    p.setVerbose(False)
    p.setDegree(case['deg'])
    if case.get('proj') == 'full':
        p.setProjectionStrategy(ot.LeastSquaresStrategy(ot.Sample(X), ot.Sample(ref.col(y))))
    return p


def check_model(ctx, p, X, z, deg, full):
    """Metamodel, R2, Q2 and standard error against explicit least squares."""
    res = p.getPolynomialChaosResult()
    mm = res.getMetaModel()
    pred = np.array(mm(ot.Sample(X))).ravel()
    A = poly_design(X, deg)
    full_fit = A @ np.linalg.lstsq(A, z, rcond=None)[0]
    if full:
        ctx.close(pred, full_fit, 'chaos model against the least squares polynomial of degree %d' % deg, 1e-6, 1e-6)
        nb = A.shape[1]
    # least squares on the retained polynomials
    basis = ot.ComposedFunction(ot.AggregatedFunction(res.getReducedBasis()), res.getTransformation())
    B = np.array(basis(ot.Sample(X)))
    nb = B.shape[1]
    coef = np.linalg.lstsq(B, z, rcond=None)[0]
    ctx.close(pred, B @ coef, 'chaos model against least squares on its own basis', 1e-6, 1e-6)
    # the retained basis lies in the polynomials of the asked degree
    proj = A @ np.linalg.lstsq(A, B, rcond=None)[0]
    ctx.close(proj, B, 'retained polynomials are of total degree <= %d' % deg, 1e-6, 1e-6)
    r = z - pred
    n = len(z)
    ctx.close(p.getR2(), 1 - np.var(r) / np.var(z), 'R2', 1e-7, 1e-9)
    loo = np.empty(n)
    for i in range(n):
        m = np.arange(n) != i
        loo[i] = z[i] - B[i] @ np.linalg.lstsq(B[m], z[m], rcond=None)[0]
    ctx.close(p.getQ2(), 1 - np.mean(loo ** 2) / np.var(z, ddof=1), 'Q2 (leave one out)', 1e-6, 1e-8)
    s = np.sqrt((r ** 2).sum() / (n - nb - 1))
    return mm, B, coef, s, basis


def xlaw(dist, dim):
    """Quadrature nodes and weights of the input law without the defect."""
    if dim == 1:
        return np.zeros((1, 0)), np.ones(1)
    u = (np.arange(400) + 0.5) / 400
    m = dist.getMarginal(1)
    return np.array([[m.computeQuantile(v)[0]] for v in u]), np.full(400, 1 / 400.0)


def run(case, ctx):
    k = case['k']
    if case['kind'] == 'chi':
        return run_chi(case, ctx)
    if case['kind'] == 'pod':
        dim = case['dim']
        t = 'chaos%d' % dim
        for cens, lam in ((False, None), (True, None), (False, 0.5)):
            X, y = tech.data(t, 20, k, 0.0, noise=1.5)
            noise = float(np.sort(y)[1]) if cens else None
            det = float(np.quantile(y, 0.55))
            p = build(case, X, y, det, lam, noise)
            Xu, z, _, _ = ref.split(X, y, noise, None)
            zd = det
            if lam is not None:
                z, zd = ref.boxcox(z, lam), float(ref.boxcox(det, lam))
            if case['proj'] == 'full':
                p.setProjectionStrategy(ot.LeastSquaresStrategy(ot.Sample(Xu), ot.Sample(ref.col(z))))
            ds = np.linspace(Xu[:, 0].min(), Xu[:, 0].max(), 5)
            p.setDefectSizes(ds[::-1])
            S = 3000
            p.setSamplingSize(S)
            p.setSimulationSize(1)
            if case['law'] == 'user':
                marg = [ot.Uniform(0.1, 1.3)] + ([ot.Normal(0.2, 0.4)] if dim == 2 else [])
                p.setDistribution(ot.JointDistribution(marg))
            tech.seed(13)
            ctx.step('run', case['law'], cens, lam)
            p.run()
            mm, B, coef, s, _ = check_model(ctx, p, Xu, z, case['deg'], case['proj'] == 'full')
            D = p.getDistribution()
            if case['law'] == 'default':
                for j in range(dim):
                    r = D.getMarginal(j).getRange()
                    ctx.close([r.getLowerBound()[0], r.getUpperBound()[0]], [Xu[:, j].min(), Xu[:, j].max()],
                              'range of the default input law, component %d' % j)
                    ctx.close(D.getMarginal(j).computeCDF(0.5 * (Xu[:, j].min() + Xu[:, j].max())), 0.5,
                              'default input law is uniform')
            q, w = xlaw(D, dim)
            f = p.getPODModel()
            vals = []
            for a in ds:
                P = np.column_stack([np.full(len(q), a), q])
                pr = np.array(mm(ot.Sample(P))).ravel()
                pod = float((w * stats.norm.cdf((pr - zd) / s)).sum())
                g = f([float(a)])[0]
                vals.append(g)
                ctx.step('POD', a)
                ctx.check(abs(g - pod) <= ref.mc_tol(pod, S, 7.0, 1e-3), lambda: 'POD(%r) = %r, the exact probability is '
                          '%r (tolerance %r)' % (a, g, pod, ref.mc_tol(pod, S, 7.0, 1e-3)))
                ctx.state(case['dim'], k, case['deg'], case['proj'], case['law'], cens, lam, a)
            for i in range(4):
                for fr in (0.25, 0.5):
                    ctx.close(f([float(ds[i] + fr * (ds[i + 1] - ds[i]))])[0], vals[i] + fr * (vals[i + 1] - vals[i]),
                              'POD between two defect sizes', 1e-9, 1e-9)
            if len(ctx.problems) > 4:
                return
    elif case['kind'] == 'dep':
        # parameters depending on each other in the given law
        X = tech.data('chaos2', 24, k, 0.0)[0]
        X = np.column_stack([X, ref.scatter(24, k + 5)])
        y = 6 + 9 * X[:, 0] + 2 * X[:, 1] + 2 * X[:, 2] + 0.3 * ref.scatter(24, k + 9)
        det = 6 + 9 * 0.65 + 1.5
        R = ot.CorrelationMatrix(3)
        R[1, 2] = case['rho']
        law = ot.JointDistribution([ot.Uniform(0.1, 1.3), ot.Normal(0.1, 0.5), ot.Normal(0.0, 0.5)], ot.NormalCopula(R))
        p = build(case, X, y, det)
        if case['given']:
            src = build(case, X, y, det)
            src.setSimulationSize(1)
            src.setSamplingSize(10)
            src.run()
            p.setPolynomialChaosResult(src.getPolynomialChaosResult())
        p.setDistribution(law)
        S = 6000
        p.setSamplingSize(S)
        p.setSimulationSize(1)
        ds = np.array([0.4, 0.6, 0.7, 0.9])
        p.setDefectSizes(ds)
        tech.seed(5)
        ctx.step('run with a law of correlation', case['rho'])
        p.run()
        ctx.check(p.getDistribution() == law, 'the given law is kept')
        res = p.getPolynomialChaosResult()
        mm = res.getMetaModel()
        r = y - np.array(mm(ot.Sample(X))).ravel()
        s = np.sqrt((r ** 2).sum() / (len(y) - res.getReducedBasis().getSize() - 1))
        z = stats.norm.ppf((np.arange(60) + 0.5) / 60)
        rho = case['rho']
        q = np.array([[0.1 + 0.5 * a, 0.5 * (rho * a + np.sqrt(1 - rho * rho) * b)] for a in z for b in z])
        f = p.getPODModel()
        for a in ds:
            pr = np.array(mm(ot.Sample(np.column_stack([np.full(len(q), a), q])))).ravel()
            pod = float(stats.norm.cdf((pr - det) / s).mean())
            g = f([float(a)])[0]
            ctx.step('POD', a)
            ctx.check(abs(g - pod) <= ref.mc_tol(pod, S, 7.0, 5e-3), lambda: 'parameters of correlation %r: POD(%r) = %r, the '
                      'exact probability is %r' % (rho, a, g, pod))
            ctx.state('dep', k, rho, case['given'], a)
    elif case['kind'] == 'given':
        # a chaos result computed elsewhere is used as it is
        dim = case['dim']
        X, y = tech.data('chaos%d' % dim, 20, k, 0.0, noise=1.5)
        det = float(np.quantile(y, 0.55))
        lam = case['lam']
        z, zd = (y, det) if lam is None else (ref.boxcox(y, lam), float(ref.boxcox(det, lam)))
        src = otpod.PolynomialChaosPOD(ot.Sample(X), ot.Sample(ref.col(z * 1.1 + 0.3)), zd)
        src.setVerbose(False)
        src.setDegree(case['deg'])
        src.setSimulationSize(1)
        src.setSamplingSize(10)
        src.run()
        res = src.getPolynomialChaosResult()
        p = otpod.PolynomialChaosPOD(ot.Sample(X), ot.Sample(ref.col(y)), det, None, None, False if lam is None else lam)
        p.setVerbose(False)
        p.setPolynomialChaosResult(res)
        S = 3000
        p.setSamplingSize(S)
        p.setSimulationSize(1)
        ds = np.linspace(X[:, 0].min(), X[:, 0].max(), 4)
        p.setDefectSizes(ds)
        tech.seed(3)
        ctx.step('run with a given chaos result')
        p.run()
        mm = res.getMetaModel()
        ctx.close(np.array(p.getPolynomialChaosResult().getMetaModel()(ot.Sample(X))), np.array(mm(ot.Sample(X))),
                  'the given chaos result is kept')
        r = z - np.array(mm(ot.Sample(X))).ravel()
        nb = res.getReducedBasis().getSize()
        s = np.sqrt((r ** 2).sum() / (len(z) - nb - 1))
        ctx.close(p.getR2(), 1 - np.var(r) / np.var(z), 'R2 of the given model', 1e-7, 1e-9)
        q, w = xlaw(res.getDistribution(), dim)
        f = p.getPODModel()
        for a in ds:
            P = np.column_stack([np.full(len(q), a), q])
            pr = np.array(mm(ot.Sample(P))).ravel()
            pod = float((w * stats.norm.cdf((pr - zd) / s)).sum())
            g = f([float(a)])[0]
            ctx.step('POD', a)
            ctx.check(abs(g - pod) <= ref.mc_tol(pod, S, 7.0, 1e-3), lambda: 'given model: POD(%r) = %r, exact %r' % (a, g, pod))
            ctx.state('given', dim, k, case['deg'], lam, a)
    else:
        X, y = tech.data('chaos1', 20, k, 0.0, noise=2.0)
        lam = case['lam']
        for dq in (0.4, 0.7):
            det = float(np.quantile(y, dq))
            z, zd = (y, det) if lam is None else (ref.boxcox(y, lam), float(ref.boxcox(det, lam)))
            p = build(dict(case, proj='default'), X, y, det, lam)
            S, M = 60, 1500
            p.setSamplingSize(S)
            p.setSimulationSize(M)
            ds = np.linspace(X.min(), X.max(), 6)
            p.setDefectSizes(ds)
            tech.seed(17)
            ctx.step('run', M, S)
            p.run()
            mm, B, coef, s, basis = check_model(ctx, p, X, z, case['deg'], False)
            n, nb = B.shape
            dof = n - nb - 1
            D = p.getCoefficientDistribution()
            ctx.close(np.array(D.getMean()), np.array(p.getPolynomialChaosResult().getCoefficients()).ravel(),
                      'mean of the coefficient law', 1e-8, 1e-10)
            C = np.array(D.getCovariance())
            G = np.linalg.inv(B.T @ B)
            v = C[0, 0] / G[0, 0]
            ctx.close(C, v * G, 'covariance of the coefficients is proportional to the inverse information matrix', 1e-6, 1e-9)
            chi = dof * s ** 2 / v
            u = stats.chi2.cdf(chi, dof)
            ctx.check(1e-7 < u < 1 - 1e-7, 'variance of the coefficient law %r is not a draw of the scaled inverse chi2 '
                      '(s2=%r, %d degrees of freedom)' % (v, s ** 2, dof))
            nodes = stats.norm.ppf((np.arange(600) + 0.5) / 600)
            for a in ds:
                psi = np.array(basis(ot.Sample([[float(a)]]))).ravel()
                mean, sd = float(psi @ np.array(D.getMean())), float(np.sqrt(psi @ C @ psi))
                ps = stats.norm.cdf((mean + sd * nodes - zd) / s)
                for c in (0.5, 0.8, 0.9, 0.95):
                    g = p.getPODCLModel(c)([float(a)])[0]
                    ctx.step('POD CL', c, a)
                    tol = ref.mc_tol(1 - c, M, 7.0, 2e-3)
                    up = stats.binom.cdf(np.floor(g * S + 1e-6), S, ps).mean()
                    dn = stats.binom.cdf(np.ceil(g * S - 1e-6) - 1, S, ps).mean()
                    ctx.check(up >= 1 - c - tol and dn <= 1 - c + tol, lambda: 'POD at confidence level %r, defect %r is %r: '
                              'its exact law gives P(below)=%.4f, P(up to)=%.4f, expected to straddle %.4f'
                              % (c, a, g, dn, up, 1 - c))
                    ctx.state('cl', k, case['deg'], lam, dq, a, c)
