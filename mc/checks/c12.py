"""C12: kriging POD."""
import numpy as np
import openturns as ot
import otpod
from scipy import stats
from mc import ref, tech, gp

META = {'bounds': '3 (8) data sets x 2 or 3 inputs x trend (default, constant, linear, curved) x covariance (default, Matern) x '
        'parameters optimized or kept x unit of an input (1, 1e-4, 1e4) x input law (default, given wide, given concentrated, given with parameters of correlation +-0.95) x Box Cox off/given x '
        'censoring x result computed by the run or given by the user; predictions and Q2 against an explicit universal '
        'kriging, curves against their exact laws (7 sigma)',
        'assumptions': ['simulated curves compared with their exact law at 7 standard deviations']}


def cases(tier):
    for k in range(1, 4 if tier == 'quick' else 9):
        for dim in (2, 3):
            for trend in ('default', 'const', 'linear'):
                for cov in ('default', 'matern'):
                    for law in ('default', 'wide', 'narrow'):
                        for opt in (0, 6):
                            if dim == 3 and (trend == 'const' or cov == 'matern') and tier == 'quick':
                                continue
                            if tier == 'quick' and (k + len(trend) + len(cov) + len(law) + opt) % 2 and law != 'narrow':
                                continue
                            yield {'kind': 'run', 'k': k, 'dim': dim, 'trend': trend, 'cov': cov, 'law': law, 'opt': opt,
                                   'var': (k + len(trend) + opt) % 3,
                                   'sc': [1.0, 1e-4, 1e4][(k + dim + len(trend) + len(law)) % 3]}
        for law in ('default', 'narrow'):
            for opt in (0, 6):
                yield {'kind': 'run', 'k': k, 'dim': 2 + k % 2, 'trend': 'curved', 'cov': 'default', 'law': law, 'opt': opt,
                       'var': k % 3, 'sc': [1.0, 1e-4, 1e4][(k + 1) % 3]}
        for law in ('dep+', 'dep-'):
            for trend in ('default', 'linear'):
                yield {'kind': 'run', 'k': k, 'dim': 3, 'trend': trend, 'cov': 'default', 'law': law, 'opt': 0,
                       'var': k % 3, 'sc': [1.0, 1e-4, 1e4][k % 3]}
        for trend in ('default', 'linear'):
            for law in ('default', 'narrow'):
                for tr in ('implicit', 'explicit'):
                    yield {'kind': 'given', 'k': k, 'dim': 2, 'trend': trend, 'cov': 'default', 'law': law, 'tr': tr,
                           'opt': 0, 'var': 0}


RHO = {'dep+': 0.95, 'dep-': -0.95}     # parameters depending on each other


def design(k, dim, n=16, c3=0.6):
    X, _ = tech.data('kriging', n, k)
    if dim == 3:
        X = np.column_stack([X, [np.cos(3.7 * i + k) for i in range(n)]])
    y = tech.signal(X) + (c3 * X[:, 2] if dim == 3 else 0.0)
    return X, y


def joint(law, dim, X, sc):
    if law == 'wide':
        m = [ot.Uniform(0.1, 1.3), ot.Normal(0.1 * sc, 0.5 * sc)] + ([ot.Triangular(-1, 0.5, 1)] if dim == 3 else [])
    else:
        m = [ot.Uniform(0.1, 1.3), ot.Uniform(0.31 * sc, 0.3100001 * sc)] + ([ot.Uniform(-0.4, -0.3999999)] if dim == 3 else [])
    if law in RHO:
        R = ot.CorrelationMatrix(3)
        R[1, 2] = RHO[law]
        m = [ot.Uniform(0.1, 1.3), ot.Normal(0.1 * sc, 0.5 * sc), ot.Normal(0.0, 0.6)]
        return ot.JointDistribution(m, ot.NormalCopula(R))
    return ot.JointDistribution(m)


def xnodes(D, dim, law, sc):
    if law == 'narrow':
        return np.array([[0.31 * sc, -0.4][:dim - 1]])
    k = 300 if dim == 2 else 24
    u = (np.arange(k) + 0.5) / k
    if law in RHO:
        z = stats.norm.ppf(u)
        r = RHO[law]
        return np.array([[0.1 * sc + 0.5 * sc * a, 0.6 * (r * a + np.sqrt(1 - r * r) * b)] for a in z for b in z])
    q = [[D.getMarginal(j).computeQuantile(v)[0] for v in u] for j in range(1, dim)]
    if dim == 2:
        return np.array(q[0]).reshape(-1, 1)
    return np.array([[a, b] for a in q[0] for b in q[1]])


def run(case, ctx):
    k, dim, law = case['k'], case['dim'], case['law']
    X, y = design(k, dim, c3=1.5 if law in RHO else 0.6)
    sc = case.get('sc', 1.0)        # unit of the second input
    X[:, 1] *= sc
    lam = 0.5 if case['var'] == 1 else None
    noise = float(np.sort(y)[1]) if case['var'] == 2 else None
    Xu, z, _, _ = ref.split(X, y, noise, None)
    det = float(np.quantile(y, 0.5)) + 0.05
    zd = det
    if lam is not None:
        z, zd = ref.boxcox(z, lam), float(ref.boxcox(det, lam))
    p = otpod.KrigingPOD(ot.Sample(X), ot.Sample(ref.col(y)), det, noise, None, False if lam is None else lam)
    p.setVerbose(False)
    basis = gp.trend_functions(case['trend'], dim)
    cov0 = ot.SquaredExponential([1.0] * dim) if case['cov'] == 'default' else ot.MaternModel([0.8] * dim, [1.7], 2.5)
    p.setInitialStartSize(case['opt'])
    mu, sd = Xu.mean(axis=0), Xu.std(axis=0, ddof=1)
    norm = lambda V: (np.asarray(V) - mu) / sd
    if case['kind'] == 'given':
        # kriging computed elsewhere (on its own normalization when a transformation is given)
        if case['tr'] == 'explicit':
            mu, sd = np.array([0.5, 0.2]), np.array([0.7, 1.4])
            T = ot.LinearFunction(mu, [0.0] * dim, ot.Matrix(np.diag(1 / sd)))
        cov0 = ot.SquaredExponential([1.3, 1.9], [2.5])
        fit = ot.GaussianProcessFitter(ot.Sample(norm(Xu)), ot.Sample(ref.col(z)), cov0, ot.Basis(basis))
        fit.setOptimizeParameters(False)
        fit.run()
        alg = ot.GaussianProcessRegression(fit.getResult())
        alg.run()
        ctx.step('setKrigingResult', case['tr'])
        if case['tr'] == 'explicit':
            p.setKrigingResult(alg.getResult(), T)
        else:
            p.setKrigingResult(alg.getResult())
    else:
        if case['trend'] != 'default':
            p.setBasis(ot.Basis(basis))
        if case['cov'] != 'default':
            p.setCovarianceModel(cov0)
    if law != 'default':
        p.setDistribution(joint(law, dim, X, sc))
    narrow = law == 'narrow'
    S, M = (4, 3000) if narrow else (6000, 60) if law in RHO else (2500, 150)
    p.setSamplingSize(S)
    p.setSimulationSize(M)
    ds = np.linspace(Xu[:, 0].min(), Xu[:, 0].max(), 4)
    if narrow:      # around the detection boundary
        ds = np.array([0.45, 0.58, 0.7, 0.8])
    p.setDefectSizes(ds)
    tech.seed(23)
    ctx.step('run', S, M)
    p.run()
    res = p.getKrigingResult()
    cov = res.getCovarianceModel()
    if case['opt'] == 0 and case['kind'] == 'run':
        ctx.close(np.array(cov.getScale()), np.array(cov0.getScale()), 'covariance parameters kept')
    U = norm(Xu)
    if case['opt'] > 0:
        # likelihood of the optimized scales
        fit = ot.GaussianProcessFitter(ot.Sample(U), ot.Sample(ref.col(z)), ot.CovarianceModel(cov0), ot.Basis(basis))
        L = fit.getReducedLogLikelihoodFunction()
        if L.getInputDimension() == dim:
            # better than any of the starting points of the search, spread in [0.001, 50]
            st = ot.LowDiscrepancyExperiment(ot.SobolSequence(), ot.JointDistribution([ot.Uniform(0.001, 50)] * dim),
                                             case['opt']).generate()
            l1, l0 = L(cov.getScale())[0], max(L(v)[0] for v in st)
            ctx.check(l1 >= l0 - 1e-2 * max(1.0, abs(l0)), 'the optimized covariance scales %s are less likely (%r) than a '
                      'starting point of the search (%r)' % (list(cov.getScale()), l1, l0))
    G = gp.GP(U, z, cov, basis)
    well = np.linalg.cond(G.K) < 1e6
    cc = ot.GaussianProcessConditionalCovariance(res)

    def predict(V):
        V = ot.Sample(norm(V))
        return (np.array(cc.getConditionalMean(V)).ravel(),
                np.sqrt(np.maximum([cc.getConditionalCovariance(v)[0, 0] for v in V], 0.0)))
    V = np.column_stack([np.linspace(0.3, 1.1, 7)] + [np.linspace(-0.8, 0.9, 7)] * (dim - 1))
    V[:, 1] *= sc
    # interpolation of the data by the returned model, in the scale of the signals used
    ctx.close(np.array(res.getMetaModel()(ot.Sample(U))).ravel(), z, 'kriging prediction at the data', 1e-3, 1e-3)
    if well:
        mean, sdv = G.predict(norm(V))
        ctx.close(np.array(res.getMetaModel()(ot.Sample(norm(V)))).ravel(), mean, 'kriging prediction', 1e-3, 1e-3)
        om, os_ = predict(V)
        ctx.close(om, mean, 'kriging prediction (conditional mean)', 1e-3, 1e-3)
        ctx.close(os_, sdv, 'kriging standard deviation', 1e-2, 1e-3)
        loo = G.loo()
        q2 = 1 - np.mean((z - loo) ** 2) / np.var(z)
        ctx.close(p.getQ2(), q2, 'Q2 (explicit leave one out)', 1e-3, 2e-4)
        ctx.state('well', case)
    D = p.getDistribution()
    if law == 'default':
        for j in range(dim):
            r = D.getMarginal(j).getRange()
            ctx.close([r.getLowerBound()[0], r.getUpperBound()[0]], [Xu[:, j].min(), Xu[:, j].max()],
                      'range of the default input law, component %d' % j)
    q = xnodes(D, dim, law, sc)
    f = p.getPODModel()
    vals = []
    for a in ds:
        m, s = predict(np.column_stack([np.full(len(q), a), q]))
        s = np.maximum(s, 1e-12)
        pod = float(stats.norm.cdf((m - zd) / s).mean())
        # sampling error: inputs (shared by the simulations) and simulations
        grid = stats.norm.ppf((np.arange(200) + 0.5) / 200)
        cond = np.array([np.mean(m + t * s > zd) for t in grid])
        vx = 0.0 if narrow else pod * (1 - pod) / S
        vs = (pod * (1 - pod) if narrow else np.var(cond) + 1e-4) / M
        tol = 7 * np.sqrt(vx + vs) + 49.0 / 3 / (M if narrow else S) + 2e-3
        g = f([float(a)])[0]
        vals.append(g)
        ctx.step('POD', a)
        ctx.check(abs(g - pod) <= tol, lambda: 'POD(%r) = %r, the exact probability is %r (tolerance %.4f)' % (a, g, pod, tol))
        for c in (0.5, 0.8, 0.95):
            h = p.getPODCLModel(c)([float(a)])[0]
            ctx.step('POD CL', c, a)
            dlt = ref.mc_tol(1 - c, M, 7.0)
            lo = np.mean(m + stats.norm.ppf(max(1 - c - dlt, 1e-12)) * s > zd)
            hi = np.mean(m + stats.norm.ppf(min(1 - c + dlt, 1 - 1e-12)) * s > zd)
            sx = 0.0 if narrow else np.sqrt(max(hi * (1 - hi), lo * (1 - lo), 0.01) / S)
            ctx.check(lo - 11 * sx - 5e-3 <= h <= hi + 11 * sx + 5e-3, lambda: 'POD at confidence level %r, defect %r is %r, '
                      'its exact law allows [%.4f, %.4f]' % (c, a, h, lo - 11 * sx, hi + 11 * sx))
        ctx.state(case, a)
    for i in range(3):
        ctx.close(f([float(0.5 * (ds[i] + ds[i + 1]))])[0], 0.5 * (vals[i] + vals[i + 1]), 'POD between two defect sizes',
                  1e-9, 1e-9)
