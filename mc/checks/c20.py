"""C20: Sobol' indices are the indices of the POD as a function of the parameters, per defect size and aggregated."""
import itertools
import os
import numpy as np
import openturns as ot
import otpod
from mc import ref, tech
from mc.core import close_figs
from mc.gp import GP, trend_functions

META = {'bounds': '{chaos almost noise-free, chaos noisy, chaos Box-Cox, kriging, adaptive kriging} x dimension 3, 4 x 4 estimators x 4 '
        'defect size lists x 3 parameter laws x 3 design sizes (thorough: all; quick: all but one factor at a time and all pairs with '
        'the estimator), every word up to depth 3 (thorough 4) of settings/runs/drawings',
        'assumptions': ['the Monte Carlo error of a POD of 1500 simulations stays under 5.5 standard deviations for the fixed seeds']}

METHODS = ['Saltelli', 'Jansen', 'Martinez', 'MauntzKucherenko']
SIZES = {'default': None, 'three': [0.9, 0.45, 0.6], 'one': [0.62], 'ends': 'ENDS'}
LAWS = ['default', 'wide', 'normal']
MODELS = ['exact', 'noisy', 'boxcox', 'kriging', 'adaptive']
SIM = 1500
DET = 11.0
_pods = {}


def design(dim, n=26):
    a = (0.2 + 0.5 * (1 + ref.weyl(n, 1))).reshape(-1, 1)
    cols = [a]
    for j, g in enumerate((0.7548776662, 0.5698402910, 0.8191725134)[:dim - 1]):
        cols.append(np.array([[2 * (((i + 1) * g) % 1.0) - 1] for i in range(n)]))
    return np.hstack(cols)


def f(X, dim):
    w = [1.0, -0.6, 0.3][:dim - 1]
    return 6.0 + 8.0 * X[:, 0] + sum(w[j] * X[:, 1 + j] for j in range(dim - 1)) + 0.5 * X[:, 0] * X[:, 1]


def f_smooth(X, dim):
    return f(X, dim) + 0.6 * np.sin(2 * X[:, 1]) + 0.4 * X[:, 2] ** 2


def pod(model, dim):
    """A POD on dim inputs, run once."""
    if (model, dim) in _pods:
        return _pods[model, dim]
    X = design(dim)
    tech.seed(1)
    if model in ('exact', 'noisy', 'boxcox'):
        y = f(X, dim) + {'exact': 1e-5, 'noisy': 0.5, 'boxcox': 0.5}[model] * ref.scatter(len(X), 2)
        p = otpod.PolynomialChaosPOD(ot.Sample(X), ot.Sample(ref.col(y)), DET, None, None, 0.3 if model == 'boxcox' else False)
        p.setDegree(2)
        p.setVerbose(False)
        p.setSimulationSize(5)
        p.setSamplingSize(30)
        p.setDefectSizes([0.4, 0.55, 0.65, 0.8])
        p.run()
    else:
        y = f_smooth(X, dim)
        cov = ot.SquaredExponential([1.3, 1.1, 1.7, 2.3][:dim], [4.0])
        if model == 'kriging':
            p = otpod.KrigingPOD(ot.Sample(X), ot.Sample(ref.col(y)), DET)
        else:
            def phys(x):
                return [float(f_smooth(np.array([list(x)]), dim)[0])]
            p = otpod.AdaptiveSignalPOD(ot.Sample(X), ot.Sample(ref.col(y)), ot.PythonFunction(dim, 1, phys), 1, DET)
            p.setCandidateSize(4)
        p.setVerbose(False)
        p.setCovarianceModel(cov)
        p.setInitialStartSize(0)
        p.setSimulationSize(5)
        p.setSamplingSize(10)
        p.setDefectSizes([0.4, 0.55, 0.65, 0.8])
        p.run()
    _pods[model, dim] = (p, X, y)
    return _pods[model, dim]


def law(name, p, k):
    """Law of the k parameters (without the defect)."""
    if name == 'default':
        d = p.getDistribution()
        return ot.JointDistribution([d.getMarginal(i + 1) for i in range(k)])
    if name == 'wide':
        return ot.JointDistribution([ot.Uniform(-1.5 + 0.3 * i, 1.2 + 0.1 * i) for i in range(k)])
    return ot.JointDistribution([ot.TruncatedNormal(0.1 * i, 0.6, -1.8, 1.8) for i in range(k)])


class Record(object):
    """Records what the estimators of openturns are given."""

    def __enter__(self):
        self.calls, self.old = [], {}
        for m in METHODS:
            cls = getattr(ot, m + 'SensitivityAlgorithm')
            self.old[cls] = cls.__init__

            def init(obj, *a, _o=cls.__init__, _m=m):
                if len(a) == 3:
                    self.calls.append((_m, np.array(a[0]), np.array(a[1]), int(a[2])))
                return _o(obj, *a)
            cls.__init__ = init
        return self

    def __exit__(self, *a):
        for cls, o in self.old.items():
            cls.__init__ = o


def reference_pod(model, dim, sizes, P):
    """Exact POD at (defect size, parameters); one row per parameter point."""
    p, X, y = pod(model, dim)
    out, tol = np.empty((len(P), len(sizes))), np.empty((len(P), len(sizes)))
    if model in ('exact', 'noisy', 'boxcox'):
        r = p.getPolynomialChaosResult()
        basis = ot.ComposedFunction(ot.AggregatedFunction(r.getReducedBasis()), r.getTransformation())
        law_ = p.getCoefficientDistribution()
        mu, S = np.array(law_.getMean()), np.array(law_.getCovariance())
        det = DET if model != 'boxcox' else (DET ** 0.3 - 1) / 0.3
        sig = y if model != 'boxcox' else (y ** 0.3 - 1) / 0.3
        res = sig - np.array(r.getMetaModel()(ot.Sample(X))).ravel()
        s2 = np.sum(res ** 2) / (len(X) - len(mu) - 1)
        for j, a in enumerate(sizes):
            B = np.array(basis(ot.Sample(np.column_stack([np.full(len(P), a), P]))))
            m, v = B @ mu, np.einsum('ij,jk,ik->i', B, S, B) + s2
            out[:, j] = [ot.DistFunc.pNormal(float(t)) for t in (m - det) / np.sqrt(v)]
        tol = 5.5 * np.sqrt(np.maximum(out * (1 - out), 0) / SIM) + 6.0 / SIM
        return out, tol, None
    g, mean, sd = explicit(model, dim)
    bug = np.empty_like(out)
    s0 = None
    for j, a in enumerate(sizes):
        Z = np.column_stack([np.full(len(P), a), P])
        m, s = g.predict((Z - mean) / sd)
        out[:, j] = cdf((m - DET) / np.maximum(s, 1e-150))
        # F-C20-1: inputs not normalized, standard deviation of the first defect size used for all of them
        m, s = g.predict(Z)
        s0 = s if s0 is None else s0
        bug[:, j] = cdf((m - DET) / np.maximum(s0, 1e-150))
    return out, np.full(out.shape, 2e-4), bug


def cdf(t):
    return [ot.DistFunc.pNormal(float(v)) for v in t]


def explicit(model, dim):
    p, X, y = pod(model, dim)
    if model == 'adaptive':
        X, y = np.array(p.getInputDOE()), np.array(p.getOutputDOE()).ravel()
    r = p.getKrigingResult()
    mean, sd = X.mean(axis=0), X.std(axis=0, ddof=1)
    return GP((X - mean) / sd, y, r.getCovarianceModel(), trend_functions('default', dim)), mean, sd


def cases(tier):
    out = []
    for model in MODELS:
        for dim in (3, 4):
            for m in METHODS:
                for sz in SIZES:
                    for lw in LAWS:
                        for N in (8, 20, 60):
                            if tier == 'quick':
                                odd = (sz != 'three') + (lw != 'default') + (N != 20) + (dim != 3)
                                if odd > 1 or (model in ('kriging', 'adaptive') and odd and m != 'Saltelli' and m != 'Jansen'):
                                    continue
                            out.append({'kind': 'one', 'model': model, 'dim': dim, 'method': m, 'sizes': sz, 'law': lw, 'N': N,
                                        '_w': 2 if model in ('kriging', 'adaptive') else 1})
    for model in ('exact', 'noisy', 'kriging'):
        for a in OPS:
            for b in OPS:
                out.append({'kind': 'word', 'model': model, 'pre': [a, b], 'depth': (4 if model == 'exact' else 3) if tier == 'thorough' else
                            3 if model == 'exact' else 2, '_w': 3})
    out.append({'kind': 'refuse'})
    return out


OPS = ['run', 'M', 'S', 'L', 'D', 'G', 'podrun']


def run(case, ctx):
    if case['kind'] == 'word':
        return words(case, ctx)
    if case['kind'] == 'refuse':
        return refuse(ctx)
    p, X, y = pod(case['model'], case['dim'])
    s = otpod.SobolIndices(p, case['N'])
    s.setSimulationSize(SIM)
    s.setSensitivityMethod(case['method'])
    sizes = sizes_of(case['sizes'], p, X)
    if sizes is not None:
        s.setDefectSizes(sizes)
    lw = law(case['law'], p, case['dim'] - 1)
    if case['law'] != 'default':
        s.setDistribution(lw)
    tech.seed(4)
    ctx.step('run', case['model'], case['method'], case['sizes'], case['law'], case['N'])
    full = sorted(sizes) if sizes is not None else [float(v) for v in p.getDefectSizes()]
    with Record() as rec:
        s.run()
    if audit(ctx, s, rec, case['model'], case['dim'], case['method'], full, lw, case['N']) is False:
        return
    drawings(ctx, s, case['dim'] - 1, case['method'], [float(v) for v in s.getDefectSizes()])


def sizes_of(key, p, X):
    v = SIZES[key]
    if v == 'ENDS':
        return [float(X[:, 0].min()), float(X[:, 0].max()), 0.61]
    return v


def audit(ctx, s, rec, model, dim, method, full, lw, N):
    """Everything reported after a run: design, POD, filtering, indices."""
    k = dim - 1
    sa = s.getSensitivityResult()
    ctx.check(sa.getClassName() == method + 'SensitivityAlgorithm', 'method %s gives %s' % (method, sa.getClassName()))
    if not rec.calls:
        return None
    used, P, Y, n = rec.calls[-1]
    ctx.check(used == method, 'estimator %s is used, %s was chosen' % (used, method))
    ctx.check(n == N, 'the size of the design is %d, expected %d' % (n, N))
    if not ctx.check(P.shape == (N * (k + 2), k), 'design of shape %s, expected %s' % (P.shape, (N * (k + 2), k))):
        return None
    A, B = P[:N], P[N:2 * N]
    ctx.check((A != B).all(), 'the two samples of the design share values')
    for i in range(k):
        C = P[(2 + i) * N:(3 + i) * N]
        W = A.copy()
        W[:, i] = B[:, i]
        ctx.check((C == W).all(), 'block %d of the design is not A with its column %d from B' % (i, i))
        u = np.sort([lw.getMarginal(i).computeCDF([v]) for v in np.r_[A[:, i], B[:, i]]])
        m = len(u)
        ks = max(np.max(np.arange(1, m + 1) / m - u), np.max(u - np.arange(m) / m))
        ctx.check(ks <= 1.95 / np.sqrt(m), 'parameter %d does not follow its law (Kolmogorov distance %.3f on %d values)' % (i, ks, m))
    want, tol, bug = reference_pod(model, dim, full, P)
    kept = [float(v) for v in s.getDefectSizes()]
    if not ctx.check(set(kept) <= set(float(v) for v in full) and kept == sorted(kept), 'defect sizes %s after a run with %s' % (kept, full)):
        return None
    idx = [list(map(float, full)).index(v) for v in kept]
    if not ctx.check(Y.shape == (len(P), len(kept)), 'output design of shape %s with %d defect sizes' % (Y.shape, len(kept))):
        return None
    bad = (np.abs(Y - want[:, idx]) > tol[:, idx])
    if bug is not None and bad.any() and (np.abs(Y - bug[:, idx]) <= 1e-6).all():
        ctx.check(False, 'kriging POD of the Sobol indices is computed without the normalization of the inputs', sig='kriging-unnormalized')
        want, tol = bug, np.full(bug.shape, 1e-6)
        bad = (np.abs(Y - want[:, idx]) > tol[:, idx])
    i, j = np.unravel_index(np.argmax(np.abs(Y - want[:, idx]) - tol[:, idx]), Y.shape)
    ctx.check(not bad.any(), lambda: 'POD of the design at defect %g and parameters %s is %.4f, expected %.4f +- %.4f' % (
        kept[j], P[i], Y[i, j], want[i, idx[j]], tol[i, idx[j]]))
    for j in range(len(full)):
        col, t = want[:N, j], tol[:N, j]
        if j not in idx:
            ctx.check(np.ptp(col) <= 2 * t.max(), 'defect size %g is dropped although its POD varies (%.4f to %.4f)' % (full[j], col.min(), col.max()))
        else:
            ctx.check(np.ptp(Y[:N, idx.index(j)]) > 0, 'defect size %g is kept although its POD is constant' % full[j])
    r = getattr(ot, method + 'SensitivityAlgorithm')(ot.Sample(P), ot.Sample(Y), N)
    try:
        r.getFirstOrderIndices(0)
    except TypeError:
        # the estimator itself refuses this design
        ctx.raises('indices refused by the estimator', TypeError, sa.getFirstOrderIndices, 0)
        return False
    for q in range(len(kept)):
        ctx.close(sa.getFirstOrderIndices(q), r.getFirstOrderIndices(q), 'first order indices at %g' % kept[q], rtol=1e-9)
        ctx.close(sa.getTotalOrderIndices(q), r.getTotalOrderIndices(q), 'total order indices at %g' % kept[q], rtol=1e-9)
    ctx.close(sa.getAggregatedFirstOrderIndices(), r.getAggregatedFirstOrderIndices(), 'aggregated first order indices', rtol=1e-9)
    ctx.close(sa.getAggregatedTotalOrderIndices(), r.getAggregatedTotalOrderIndices(), 'aggregated total order indices', rtol=1e-9)
    if method == 'Jansen':
        first, total = jansen(P, Y, N, k)
        for q in range(len(kept)):
            ctx.close(sa.getFirstOrderIndices(q), first[q], 'first order indices at %g (explicit estimator)' % kept[q], rtol=1e-6, atol=1e-8)
            ctx.close(sa.getTotalOrderIndices(q), total[q], 'total order indices at %g (explicit estimator)' % kept[q], rtol=1e-6, atol=1e-8)
    ctx.check(sa.getUseAsymptoticDistribution(), 'the asymptotic distribution of the indices is not used')
    ctx.state(model, dim, method, kept, N, round(float(Y.mean()), 3))
    return True


def blocks(P, Y, N, k):
    Y = Y - Y[:N].mean(axis=0)
    return Y[:N], Y[N:2 * N], [Y[(2 + i) * N:(3 + i) * N] for i in range(k)]


def jansen(P, Y, N, k):
    A, B, E = blocks(P, Y, N, k)
    v = A.var(axis=0, ddof=1)
    first = [[1 - np.sum((B[:, q] - E[i][:, q]) ** 2) / (2 * N - 1) / v[q] for i in range(k)] for q in range(Y.shape[1])]
    total = [[np.sum((A[:, q] - E[i][:, q]) ** 2) / (2 * N - 1) / v[q] for i in range(k)] for q in range(Y.shape[1])]
    return first, total


def drawings(ctx, s, k, method, sizes, short=False):
    sa = s.getSensitivityResult()
    for order, fn in (('First', s.drawFirstOrderIndices), ('Total', s.drawTotalOrderIndices)):
        for label in (None, ['p%d' % i for i in range(k)])[:1 if short else 2]:
            name = 'sobol.png' if label is not None and len(sizes) == 1 else None
            fig, ax = fn(label, name)
            if name:
                ctx.check(os.path.exists(name), 'the figure is not saved')
                os.remove(name) if os.path.exists(name) else None
            ctx.check(order in ax.get_title() and method in ax.get_title(), 'title %r of the %s order figure' % (ax.get_title(), order))
            lines = [ln for ln in ax.get_lines() if len(ln.get_xdata()) == len(sizes)]
            if not ctx.check(len(lines) == k, '%d curves, %d parameters' % (len(lines), k)):
                continue
            for i in range(k):
                ctx.close(lines[i].get_xdata(), sizes, 'defect sizes of the figure', rtol=1e-12)
                want = [(sa.getFirstOrderIndices(q) if order == 'First' else sa.getTotalOrderIndices(q))[i] for q in range(len(sizes))]
                ctx.close(lines[i].get_ydata(), want, '%s order indices drawn for parameter %d' % (order, i), rtol=1e-12)
                if label is not None:
                    ctx.check(lines[i].get_label() == label[i], 'label %r of parameter %d' % (lines[i].get_label(), i))
        close_figs()
    if short:
        return
    fig, ax = s.drawAggregatedIndices(['p%d' % i for i in range(k)])
    ctx.check([t.get_text() for t in ax.get_xticklabels()] == ['p%d' % i for i in range(k)], 'labels of the aggregated indices')
    ys = np.concatenate([np.asarray(ln.get_ydata(), float).ravel() for ln in ax.get_lines()] +
                        [np.asarray(c.get_offsets(), float)[:, 1] for c in ax.collections if len(c.get_offsets())] + [np.zeros(0)])
    for w in list(sa.getAggregatedFirstOrderIndices()) + list(sa.getAggregatedTotalOrderIndices()):
        ctx.check(np.min(np.abs(ys - w)) < 1e-9 if len(ys) else False, 'aggregated index %.6f is not drawn' % w)
    close_figs()
    ctx.raises('labels of another dimension', Exception, s.drawAggregatedIndices, ['a'])
    ctx.raises('labels of another dimension', Exception, s.drawFirstOrderIndices, ['a'] * (k + 1))
    close_figs()


def words(case, ctx):
    model = case['model']
    for rest in range(0, case['depth'] - 2 + 1):
        for tail in itertools.product(OPS, repeat=rest):
            word = case['pre'] + list(tail) + ['run']
            p, X, y = pod(model, 3)
            s = otpod.SobolIndices(p, 10)
            s.setSimulationSize(SIM)
            full, lname, m, ran = [0.4, 0.55, 0.65, 0.8], 'default', 0, None
            n0 = len(ctx.problems)
            for i, o in enumerate(word):
                ctx.step(o)
                if o == 'run':
                    tech.seed(4)
                    with Record() as rec:
                        s.run()
                    before = [float(v) for v in full]
                    if audit(ctx, s, rec, model, 3, METHODS[m], before, law(lname, p, 2), 10) is False:
                        break
                    full = [float(v) for v in s.getDefectSizes()]
                    ran, run_m, run_sizes = snapshot(s), METHODS[m], list(full)
                elif o == 'M':
                    m = (m + 1) % 4
                    s.setSensitivityMethod(METHODS[m])
                elif o == 'S':
                    full = [0.45, 0.62] if full != [0.45, 0.62] else [0.3, 0.55, 0.7]
                    s.setDefectSizes(full[::-1])
                elif o == 'L':
                    lname = 'wide' if lname != 'wide' else 'normal'
                    s.setDistribution(law(lname, p, 2))
                elif o == 'podrun':
                    # another analysis of the same POD, and of another POD
                    t = otpod.SobolIndices(p, 8)
                    t.setSimulationSize(20)
                    t.setDefectSizes([0.6])
                    t.run()
                elif o == 'D' and ran is not None:
                    s.drawAggregatedIndices()
                    close_figs()
                    drawings(ctx, s, 2, run_m, run_sizes, True)
                elif o in 'DG':
                    if ran is None:
                        ctx.raises('getSensitivityResult before run', Exception, s.getSensitivityResult)
                        ctx.raises('drawAggregatedIndices before run', Exception, s.drawAggregatedIndices)
                        ctx.raises('drawFirstOrderIndices before run', Exception, s.drawFirstOrderIndices)
                        close_figs()
                if ran is not None and o != 'run':
                    tech.compare(ctx, snapshot(s), ran, 'indices after %s' % word[:i + 1], rtol=0, atol=0)
                ctx.state(model, o, m, lname, full, ran is not None)
            if len([q for q in ctx.problems[n0:] if q['signature'] is None]):
                return


def snapshot(s):
    sa = s.getSensitivityResult()
    return {'first': [float(v) for v in sa.getAggregatedFirstOrderIndices()], 'total': [float(v) for v in sa.getAggregatedTotalOrderIndices()]}


def refuse(ctx):
    for t in ('binomial', 'qr', 'hitmiss'):
        X, y = tech.data(t)
        p = tech.make(t, X, y, 11.0)
        tech.seed(1)
        p.run()
        ctx.raises('SobolIndices(%s)' % t, Exception, otpod.SobolIndices, p, 10)
    for t in ('chaos1', 'chaos2', 'kriging'):
        X, y = tech.data(t)
        p = tech.make(t, X, y, 11.0)
        tech.seed(1)
        p.run()
        ctx.raises('SobolIndices(%s) with less than two parameters' % t, AssertionError, otpod.SobolIndices, p, 10)
    p, X, y = pod('exact', 3)
    s = otpod.SobolIndices(p, 8)
    s.setDefectSizes([float(X[:, 0].min())])
    tech.seed(2)
    ctx.raises('run with a constant POD at every defect size', Exception, s.run)
