"""C17: configuration of every class: accepted as given, or refused without effect."""
import io
import contextlib
import copy
import numpy as np
import openturns as ot
import otpod
from mc import ref, tech

META = {'bounds': 'every ordered pair (thorough: triple) of setter calls, valid and invalid, on 13 classes, every getter compared '
        'with the reference configuration after every call; every getter again after a run; every invalid construction of '
        'a list of 40',
        'assumptions': []}

ANY = Exception
JD = ot.JointDistribution


def dist(lo, hi):
    return JD([ot.Uniform(a, b) for a, b in zip(lo, hi)])


def base_ops(dim):
    return {
        'Verbose': ('get', 'set', [(True, True), (False, False)], [(1, TypeError), ('yes', TypeError), (None, TypeError), (0, TypeError)]),
        'SimulationSize': ('get', 'set', [(7, 7), (40, 40)], []),
    }


def defects_ops():
    return {'DefectSizes': ('get', 'set', [([0.9, 0.4, 0.6], [0.4, 0.6, 0.9]), (np.array([1.0, 0.3, 0.5, 0.7]), [0.3, 0.5, 0.7, 1.0]),
                                           (ot.Point([0.5, 0.8]), [0.5, 0.8]), ('MINMAX', 'MINMAX'), ([0.55], [0.55])],
                            [([0.01, 0.5], ValueError), ([0.5, 7.0], ValueError), ([-3.0, 0.5, 9.0], ValueError), ('BELOW', ValueError),
                             ('ABOVE', ValueError)])}


def dist_ops(lo, hi):
    return {'Distribution': ('get', 'set', [(dist(lo, hi), None), (dist([v - 1 for v in lo], hi), None)],
                             [(ot.Uniform(), ValueError), ('uniform', ValueError), (None, ValueError), ([ot.Uniform()], ValueError)])}


class NotReady(object):
    pass


def ops_of(cls):
    o = {}
    if cls in ('binomial', 'gauss', 'kernel'):
        o.update(base_ops(1))
    elif cls == 'qr':
        o.update(base_ops(1))
        o['Quantile'] = ('get', 'set', [([0.9, 0.2, 0.5], [0.2, 0.5, 0.9]), (np.array([0.3, 0.1]), [0.1, 0.3]), ([0.75], [0.75]),
                                        (ot.Point([0.8, 0.05]), [0.05, 0.8])],
                         [([0.0, 0.5], ValueError), ([0.5, 1.0], ValueError), ([-0.1], ValueError), ([0.2, 1.3], ValueError)])
    elif cls in ('chaos1', 'chaos2'):
        d = 1 if cls == 'chaos1' else 2
        o.update(base_ops(d))
        o.update(defects_ops())
        o.update(dist_ops([0.2, -1][:d], [1.2, 1][:d]))
        o['SamplingSize'] = ('get', 'set', [(11, 11), (300, 300)], [])
        o['Degree'] = ('get', 'set', [(1, 1), (4, 4)], [])
        basis = ot.OrthogonalProductPolynomialFactory([ot.LegendreFactory()] * d)
        o['AdaptiveStrategy'] = ('get', 'set', [(ot.FixedStrategy(basis, 3), None)], [('fixed', ANY), (3, ANY)])
        o['ProjectionStrategy'] = ('get', 'set', [(ot.LeastSquaresStrategy(), None), (ot.IntegrationStrategy(), None)], [('ls', ANY), (0.5, ANY)])
    elif cls in ('kriging', 'adaptive'):
        o.update(base_ops(2))
        o.update(defects_ops())
        o.update(dist_ops([0.2, -1], [1.2, 1]))
        o['SamplingSize'] = ('get', 'set', [(11, 11), (300, 300)], [])
        o['InitialStartSize'] = ('get', 'set', [(0, 0), (9, 9)], [])
        o['Basis'] = ('get', 'set', [(ot.ConstantBasisFactory(2).build(), None), (ot.LinearBasisFactory(2).build(), None)],
                      [('linear', ANY), (3.5, ANY)])
        o['CovarianceModel'] = ('get', 'set', [(ot.MaternModel([1.0, 1.0], 1.5), None), (ot.SquaredExponential([2.0, 1.0]), None)],
                                [('matern', ANY), (2, ANY)])
    elif cls == 'hitmiss':
        o.update(base_ops(2))
        o.update(defects_ops())
        o.update(dist_ops([0.2, -1], [1.2, 1]))
        o['SamplingSize'] = ('get', 'set', [(11, 11), (300, 300)], [])
        o['PMin'] = ('get', 'set', [(0.0, 0.0), (0.3, 0.3), (1.0, 1.0)], [(-0.01, ValueError), (1.01, ValueError)])
        o['PMax'] = ('get', 'set', [(0.0, 0.0), (0.7, 0.7), (1.0, 1.0)], [(-0.01, ValueError), (1.01, ValueError)])
        o['ClassifierType'] = ('get', 'set', [('rf', 'rf'), ('svc', 'svc')], [('svm', ValueError), (None, ValueError), ('', ValueError)])
        o['ClassifierParameters'] = ('get', 'set', [([[5], [None], [2], [0]], [[5], [None], [2], [0]]),
                                                    ([[1.0, 2.0], ['rbf'], [3], [True]], [[1.0, 2.0], ['rbf'], [3], [True]])], [])
    if cls in ('adaptive', 'hitmiss'):
        o['CandidateSize'] = ('get', 'set', [(5, 5), (70, 70)], [])
        o['GraphActive'] = ('get', 'set', [(True, True), (False, False)], [('yes', TypeError), (1, TypeError), ((True, 0.9, 0.95, 3), TypeError)])
    if cls == 'summary':
        o['Verbose'] = base_ops(2)['Verbose']
        o['SimulationSize'] = base_ops(2)['SimulationSize']
        o['SamplingSize'] = ('get', 'set', [(11, 11), (300, 300)], [])
        for m in METHODS:
            o['Method:' + m] = ('method', 'method', [(False, False), (True, True)], [(1, ValueError), ('no', ValueError), (None, ValueError)])
        o['Method:Nothing'] = (None, 'method', [], [(True, NameError)])
    if cls in ('sobol', 'plimean', 'plivar'):
        o.update(defects_ops())
        D = dist([0, -1], [1, 2])
        o['Distribution'] = ('get', 'set', [(dist([-1, -1], [1, 1]), None), (D, None)],
                             [(ot.Normal(), ValueError), ('x', ValueError), (dist([0], [1]), AttributeError),
                              (dist([0, 0, 0], [1, 1, 1]), AttributeError)])
    if cls == 'sobol':
        o['SimulationSize'] = ('get', 'set', [(5, 5), (60, 60)], [])
        o['SensitivityMethod'] = ('get', 'set', [(m, m) for m in ('Saltelli', 'Jansen', 'Martinez', 'MauntzKucherenko')],
                                  [('saltelli', AttributeError), ('Sobol', AttributeError), (None, AttributeError)])
    if cls in ('plimean', 'plivar'):
        o['SamplingSize'] = ('get', 'set', [(11, 11), (300, 300)], [])
        o['GaussKronrod'] = ('get', 'set', [(ot.GaussKronrod(20, 1e-4, ot.GaussKronrodRule(ot.GaussKronrodRule.G3K7)), None)],
                             [('gk', ANY), ([1, 2], ANY)])
    return o


METHODS = ['LinearGauss', 'LinearBinomial', 'LinearKernelSmoothing', 'QuantileRegression', 'PolynomialChaos', 'Kriging']
CLASSES = ['binomial', 'gauss', 'qr', 'chaos1', 'chaos2', 'kriging', 'adaptive', 'hitmiss', 'summary', 'sobol', 'plimean', 'plivar']
_pod3 = {}


def pod3():
    if not _pod3:
        X, _ = tech.data('chaos2', 20, 1)
        X = np.column_stack([X, [np.cos(3.7 * i) for i in range(20)]])
        p = otpod.PolynomialChaosPOD(ot.Sample(X), ot.Sample(ref.col(tech.signal(X[:, :2]) + X[:, 2])), 12.0)
        p.setVerbose(False)
        p.setDegree(1)
        p.setSimulationSize(5)
        p.setSamplingSize(20)
        p.run()
        _pod3['p'] = (p, X)
    return _pod3['p']


def make(cls):
    if cls in ('sobol', 'plimean', 'plivar'):
        p, X = pod3()
        if cls == 'sobol':
            return otpod.SobolIndices(p, 20), X
        if cls == 'plimean':
            return otpod.PLIMean(p, [-0.5, 0.5]), X
        return otpod.PLIVariance(p, [0.5, 1.5], False), X
    if cls == 'summary':
        X, y = tech.data('chaos2')
        return otpod.PODSummary(ot.Sample(X), ot.Sample(ref.col(y)), 11.0), X
    X, y = tech.data(cls)
    Xs, Ys = ot.Sample(X), ot.Sample(ref.col(y))
    det = 11.0
    if cls == 'binomial':
        return otpod.UnivariateLinearModelPOD(Xs, Ys, det), X
    if cls == 'gauss':
        return otpod.UnivariateLinearModelPOD(Xs, Ys, det, None, None, ot.NormalFactory()), X
    if cls == 'qr':
        return otpod.QuantileRegressionPOD(Xs, Ys, det), X
    if cls in ('chaos1', 'chaos2'):
        return otpod.PolynomialChaosPOD(Xs, Ys, det), X
    if cls == 'kriging':
        return otpod.KrigingPOD(Xs, Ys, det), X
    if cls == 'adaptive':
        return otpod.AdaptiveSignalPOD(Xs, Ys, tech.physical(), 1, det), X
    if cls == 'hitmiss':
        return otpod.AdaptiveHitMissPOD(Xs, Ys, tech.physical(), 1, det), X


def flat_ops(cls):
    out = []
    for name, (g, s, good, bad) in sorted(ops_of(cls).items()):
        out += [(name, i, True) for i in range(len(good))] + [(name, i, False) for i in range(len(bad))]
    return out


def cases(tier):
    for cls in CLASSES:
        n = len(flat_ops(cls))
        for i in range(n):
            yield {'kind': 'seq', 'cls': cls, 'first': i, 'depth': 2, '_w': n}
        if tier != 'quick':
            for i in range(n):
                for j in range(0, n, 8):
                    yield {'kind': 'seq', 'cls': cls, 'first': i, 'second': j, 'depth': 3, '_w': 2 * n}
        if cls not in ('summary', 'sobol', 'plimean', 'plivar'):
            yield {'kind': 'run', 'cls': cls, '_w': 50}
    yield {'kind': 'bad'}
    for cls in ('chaos1', 'chaos2', 'kriging', 'adaptive'):
        for which in ('noise', 'sat', 'both'):
            yield {'kind': 'cens', 'cls': cls, 'which': which}


def call_set(obj, name, arg):
    if name.startswith('Method:'):
        return obj.setMethodActive(name[7:], arg)
    f = getattr(obj, 'set' + name)
    if name == 'GraphActive' and isinstance(arg, tuple):
        return f(*arg)
    return f(arg)


def call_get(obj, name):
    if name.startswith('Method:'):
        return obj.getMethodActive()[name[7:]]
    with contextlib.redirect_stdout(io.StringIO()):
        return getattr(obj, 'get' + name)()


def same(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, (np.ndarray, ot.Point)) or isinstance(b, (np.ndarray, ot.Point)):
        a, b = np.array(a, float).ravel(), np.array(b, float).ravel()
        return a.shape == b.shape and bool(np.all(a == b))
    try:
        if bool(a == b):
            return True
    except Exception:
        pass
    return hasattr(a, 'thisown') and str(a) == str(b)


def concrete(arg, X):
    lo, hi = float(X[:, 0].min()), float(X[:, 0].max())
    if isinstance(arg, str) and arg == 'MINMAX':
        return [hi, lo]
    if isinstance(arg, str) and arg == 'BELOW':
        return [lo - 1e-4, 0.5]
    if isinstance(arg, str) and arg == 'ABOVE':
        return [0.5, hi + 1e-4]
    if isinstance(arg, np.ndarray):
        return arg.copy()
    if isinstance(arg, list):
        return copy.deepcopy(arg)
    if isinstance(arg, ot.Point):
        return ot.Point(arg)
    return arg


def expected(arg, want, X):
    if isinstance(want, str) and want == 'MINMAX':
        return np.array([X[:, 0].min(), X[:, 0].max()])
    if want is None:
        return arg
    if isinstance(want, list) and want and isinstance(want[0], float):
        return np.array(want)
    return want


def observe(obj, ops):
    return {n: call_get(obj, n) for n in ops if ops[n][0] is not None}


def snapshot(v):
    if isinstance(v, list):
        return copy.deepcopy(v)
    return v.copy() if isinstance(v, np.ndarray) else (v if not isinstance(v, ot.Point) else ot.Point(v))


def apply(ctx, obj, X, ops, model, op):
    name, i, good = op
    g, s, gl, bl = ops[name]
    raw = (gl if good else bl)[i]
    arg = concrete(raw[0], X)
    keep = snapshot(arg)
    ctx.step('set' + name, str(arg)[:60], good)
    if good:
        call_set(obj, name, arg)
        model = dict(model)
        model[name] = expected(snapshot(arg), raw[1], X)
        if name == 'ClassifierType':
            model['ClassifierParameters'] = [[100], [None], [2], [0]] if arg == 'rf' else [[1.0], ['poly'], [3], [True]]
    else:
        try:
            call_set(obj, name, arg)
            ctx.fail('set%s(%s) was accepted' % (name, str(arg)[:60]))
        except raw[1]:
            ctx.monitors += 1
        except Exception as e:
            ctx.fail('set%s(%s) raised %s instead of %s' % (name, str(arg)[:60], type(e).__name__, raw[1].__name__))
    if isinstance(arg, (np.ndarray, list, ot.Point)) and name != 'Distribution':
        ctx.check(same(arg, keep) if isinstance(arg, np.ndarray) else list(arg) == list(keep),
                  'set%s modified the given sequence: %r became %r' % (name, keep, arg))
        if good and isinstance(arg, np.ndarray):
            arg[:] = -5.0        # the caller goes on using its array
        if good and isinstance(arg, list):
            for v in arg:
                if isinstance(v, list):
                    v[:] = [-5.0]
            arg[:] = [-5.0]
        if good and isinstance(arg, ot.Point):
            for k in range(len(arg)):
                arg[k] = -5.0
    got = observe(obj, ops)
    for n in model:
        ctx.check(same(got[n], model[n]), lambda: 'after set%s(%s)%s, get%s() is %s, expected %s' % (
            name, str(keep)[:60], '' if good else ' (refused)', n, str(got[n])[:120], str(model[n])[:120]))
    ctx.state(str(sorted((k, str(v)) for k, v in got.items())))
    return model


def run(case, ctx):
    if case['kind'] == 'bad':
        return run_bad(ctx)
    if case['kind'] == 'cens':
        return run_cens(case, ctx)
    cls = case['cls']
    ops = ops_of(cls)
    fl = flat_ops(cls)
    if case['kind'] == 'run':
        return run_run(case, ctx, cls, ops)
    if case['depth'] == 2:
        tails = [(j,) for j in range(len(fl))]
    else:
        tails = [(j, k) for j in range(case['second'], min(case['second'] + 8, len(fl))) for k in range(len(fl))]
    for tail in tails:
        obj, X = make(cls)
        model = {n: snapshot(v) for n, v in observe(obj, ops).items()}
        for i in (case['first'],) + tail:
            model = apply(ctx, obj, X, ops, model, fl[i])
        if len(ctx.problems) > 3:
            return


def run_run(case, ctx, cls, ops):
    """Settings are still there after the run."""
    pick = {'DefectSizes': [0, 3], 'Distribution': [0, 1]}
    for variant in (0, 1):
        obj, X = make(cls)
        model = {}
        for n, (g, s, gl, bl) in sorted(ops.items()):
            if n in ('AdaptiveStrategy', 'ProjectionStrategy', 'PMin', 'PMax', 'ClassifierType', 'ClassifierParameters', 'GraphActive',
                     'CovarianceModel', 'Verbose', 'Degree'):
                continue
            i = pick.get(n, [0, 1])[variant]
            if n == 'Distribution' and cls in ('adaptive', 'hitmiss'):
                i = 0
            arg = concrete(gl[i % len(gl)][0], X)
            model[n] = expected(snapshot(arg), gl[i % len(gl)][1], X)
            call_set(obj, n, arg)
        obj.setVerbose(False)
        model['Verbose'] = False
        if cls == 'hitmiss':
            obj.setClassifierParameters([[5], [None], [2], [0]])
            model['ClassifierParameters'] = [[5], [None], [2], [0]]
        if cls in ('chaos1', 'chaos2'):
            obj.setDegree(2)
            model['Degree'] = 2
        tech.seed(3)
        obj.run()
        ctx.step('run', cls, variant)
        for n in model:
            got = call_get(obj, n)
            ctx.check(same(got, model[n]), lambda: 'after the run, get%s() is %s, expected %s' % (n, str(got)[:100], str(model[n])[:100]))
        # still configurable, and still refusing, after a run
        for op in flat_ops(cls):
            if op[0] in model and op[0] not in ('Verbose',):
                arg = ops[op[0]][2 if op[2] else 3][op[1]][0]
                if cls in ('adaptive', 'hitmiss') and isinstance(arg, str) and arg in ('BELOW', 'ABOVE', 'MINMAX'):
                    continue          # the enriched design may be wider
                model = apply(ctx, obj, X, {k: v for k, v in ops.items() if k in model}, model, op)


def run_cens(case, ctx):
    """Defect sizes are limited by the defects left uncensored."""
    cls = case['cls']
    X, y = tech.data(cls)
    o = np.argsort(X[:, 0])
    y = y.copy()
    y[o] = np.sort(y)                     # signals growing with the defect
    a, b = float(np.sort(y)[2]), float(np.sort(y)[-3])
    noise = None if case['which'] == 'sat' else 0.5 * (a + np.sort(y)[1])
    sat = None if case['which'] == 'noise' else 0.5 * (b + np.sort(y)[-2])
    if cls == 'adaptive':
        p = otpod.AdaptiveSignalPOD(ot.Sample(X), ot.Sample(ref.col(y)), tech.physical(), 1, 11.0, noise, sat)
    else:
        p = (otpod.KrigingPOD if cls == 'kriging' else otpod.PolynomialChaosPOD)(ot.Sample(X), ot.Sample(ref.col(y)), 11.0, noise, sat)
    keep = (y > (-np.inf if noise is None else noise)) & (y < (np.inf if sat is None else sat))
    ctx.check(keep.sum() == len(y) - (2 if case['which'] != 'both' else 4), 'data set')
    lo, hi = float(X[keep, 0].min()), float(X[keep, 0].max())
    d = np.array(p.getDefectSizes())
    ctx.close([d.min(), d.max()], [lo, hi], 'default defect sizes', 1e-12)
    want = d
    for arg, ok in (([hi, lo], 1), ([lo - 1e-4, hi], 0), ([lo, hi + 1e-4], 0), ([float(X[:, 0].min()), lo], case['which'] == 'sat'),
                    ([0.5 * (lo + hi), lo], 1), ([float(X[:, 0].max()), hi], case['which'] == 'noise')):
        ctx.step('setDefectSizes', arg)
        if ok:
            p.setDefectSizes(arg)
            want = np.sort(arg)
        else:
            ctx.raises('setDefectSizes(%r), uncensored defects in [%r, %r]' % (arg, lo, hi), ValueError, p.setDefectSizes, arg)
        ctx.close(np.array(p.getDefectSizes()), want, 'defect sizes', 0, 0)
        ctx.state(case, arg)


def run_bad(ctx):
    X1, y1 = tech.data('gauss')
    X2, y2 = tech.data('chaos2')
    S, c = ot.Sample, ref.col
    U, Q, C, K = otpod.UnivariateLinearModelPOD, otpod.QuantileRegressionPOD, otpod.PolynomialChaosPOD, otpod.KrigingPOD
    A = otpod.UnivariateLinearModelAnalysis
    two = np.column_stack([y1, y1])
    for cl in (U, Q, C, A):
        for lab, a, b in (('sizes differ', X1, y1[:-1]), ('sizes differ 2', X1[:-1], y1), ('two observations', X1[:2], y1[:2])):
            args = (S(a), S(c(b))) + (() if cl is A else (11.0,))
            ctx.raises('%s(%s)' % (cl.__name__, lab), AssertionError, cl, *args)
        ctx.raises('%s(two outputs)' % cl.__name__, AssertionError, cl, *((S(X1), S(two)) + (() if cl is A else (11.0,))))
    for cl in (U, Q, A):
        ctx.raises('%s(two inputs)' % cl.__name__, AssertionError, cl, *((S(X2), S(c(y2))) + (() if cl is A else (11.0,))))
    ctx.raises('KrigingPOD(one input)', AssertionError, K, S(X1), S(c(y1)), 11.0)
    ctx.raises('KrigingPOD(sizes differ)', AssertionError, K, S(X2), S(c(y2[:-1])), 11.0)
    ctx.raises('KrigingPOD(two outputs)', AssertionError, K, S(X2), S(np.column_stack([y2, y2])), 11.0)
    phys = tech.physical()
    ctx.raises('AdaptiveSignalPOD(one input)', AssertionError, otpod.AdaptiveSignalPOD, S(X1), S(c(y1)), phys, 1, 11.0)
    ctx.raises('AdaptiveSignalPOD(sizes differ)', AssertionError, otpod.AdaptiveSignalPOD, S(X2), S(c(y2[1:])), phys, 1, 11.0)
    ctx.raises('AdaptiveHitMissPOD(sizes differ)', AssertionError, otpod.AdaptiveHitMissPOD, S(X2), S(c(y2[1:])), phys, 1, 11.0)
    an = A(S(X1), S(c(y1)))
    for kw in ({'inputSample': S(X1)}, {'outputSample': S(c(y1))}, {'noiseThres': 8.0}, {'saturationThres': 15.0}, {'resDistFact': ot.NormalFactory()}):
        ctx.raises('UnivariateLinearModelPOD(analysis, %s)' % list(kw)[0], AttributeError, U, analysis=an, detection=11.0, **kw)
    ctx.raises('UnivariateLinearModelPOD(analysis without detection)', AttributeError, U, analysis=an)
    for t in ('binomial', 'gauss', 'qr', 'hitmiss'):
        X, y = tech.data(t)
        p = tech.make(t, X, y, 11.0)
        for cl in (lambda q: otpod.SobolIndices(q, 10), lambda q: otpod.PLIMean(q, [0.1]), lambda q: otpod.PLIVariance(q, [0.1])):
            ctx.raises('sensitivity analysis of a %s POD' % t, Exception, cl, p)
    X, y = tech.data('chaos2')
    p = tech.make('chaos2', X, y, 11.0)
    tech.seed(1)
    p.run()
    for cl in (lambda q: otpod.SobolIndices(q, 10), lambda q: otpod.PLIMean(q, [0.1]), lambda q: otpod.PLIVariance(q, [0.1])):
        ctx.raises('sensitivity analysis of one parameter', AssertionError, cl, p)
    ctx.raises('result of an analysis that was not run', Exception, make('sobol')[0].getSensitivityResult)
    s = make('summary')[0]
    for m in ('LinearGauss', 'LinearBinomial', 'LinearKernelSmoothing', 'QuantileRegression', 'PolynomialChaos', 'Kriging'):
        ctx.raises('get%sPOD before run' % m, Exception, getattr(s, 'get%sPOD' % m))
    # thresholds in the wrong order, any container, are used as documented elsewhere (C01)
    ctx.state('constructions')
