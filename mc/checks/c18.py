"""C18: results depend on the data, the settings of the last run and the seed; never on the rest of the history."""
import itertools
import os
import numpy as np
import openturns as ot
import otpod
from mc import ref, tech
from mc.core import close_figs

META = {'bounds': 'every sequence up to depth 3 (thorough 4, linear 5) over {run with seed 1, run with seed 2, read every result, draw '
        'every figure, setting A, setting B, another object of the class run in between, the caller overwrites its data} '
        'for each technique (single run for the adaptive ones), and of the result/figure/file operations of the linear analysis '
        'and the PODs built on it',
        'assumptions': ['the observation of a fresh object with the same settings, run once with the same seed, is the reference']}

CONF = {
    'binomial': [('SimulationSize', [200, 50]), ('Verbose', [False, True])],
    'gauss': [('SimulationSize', [60, 25]), ('Verbose', [False, True])],
    'kernel': [('SimulationSize', [20, 9]), ('Verbose', [False, True])],
    'qr': [('SimulationSize', [6, 3]), ('Quantile', [[0.2, 0.5, 0.8, 0.95], [0.1, 0.3, 0.6]])],
    'chaos1': [('Degree', [2, 1]), ('DefectSizes', [[0.29, 0.5, 0.7, 0.9, 1.1], [0.33, 0.8, 1.0]])],
    'chaos2': [('Distribution', [[0.2, -1, 1.2, 1], [0.1, -0.5, 1.3, 0.7]]), ('DefectSizes', [[0.29, 0.5, 0.7, 0.9, 1.1], [0.33, 0.8, 1.0]])],
    'kriging': [('Distribution', [[0.2, -1, 1.2, 1], [0.1, -0.5, 1.3, 0.7]]), ('DefectSizes', [[0.29, 0.5, 0.9, 1.1], [0.33, 0.8, 1.0]])],
    'krigingopt': [('InitialStartSize', [1, 2]), ('DefectSizes', [[0.29, 0.5, 0.9, 1.1], [0.33, 0.8, 1.0]])],
    'adaptive': [('SimulationSize', [10, 6]), ('DefectSizes', [[0.29, 0.5, 0.9, 1.1], [0.33, 0.8, 1.0]])],
    'hitmiss': [('SamplingSize', [100, 50]), ('DefectSizes', [[0.29, 0.5, 0.9, 1.1], [0.33, 0.8, 1.0]])],
}
SINGLE = ('adaptive', 'hitmiss')
OPS = ['1', '2', 'Q', 'D', 'a', 'b', 'o', 'M']
XS = [0.34, 0.52, 0.55, 0.59, 0.71, 0.93]
_fresh = {}


def base(t):
    return 'kriging' if t == 'krigingopt' else t


def value(t, k, i):
    name, vals = CONF[t][k]
    v = vals[i]
    if name == 'Distribution':
        d = len(v) // 2
        return ot.JointDistribution([ot.Uniform(v[j], v[d + j]) for j in range(d)])
    return v


def apply(p, t, k, i):
    getattr(p, 'set' + CONF[t][k][0])(value(t, k, i))


def build(t, cfg, X=None, y=None, bc=False):
    if X is None:
        X, y = tech.data(base(t))
    p = tech.make(base(t), X, y, 11.0, bc=bc)
    if t == 'kriging':
        p.setInitialStartSize(0)
    if t == 'chaos1' or t == 'chaos2':
        p.setSimulationSize(15)
        p.setSamplingSize(40)
    if t in ('kriging', 'krigingopt'):
        p.setSimulationSize(8)
        p.setSamplingSize(20)
    for k in range(2):
        apply(p, t, k, cfg[k])
    return p




def results(t, p, conf=tech.CLS):
    o = tech.observe(base(t), p, XS, conf=conf)
    for m in ('getBoxCoxParameter',):
        v = getattr(p, m)()
        o[m] = [] if v is None else [float(v)]
    if t in ('chaos1', 'chaos2'):
        o['coefs'] = np.array(p.getPolynomialChaosResult().getCoefficients()).ravel().tolist()
        o['cdist'] = [float(v) for v in p.getCoefficientDistribution().getMean()]
    if t in ('kriging', 'krigingopt'):
        o['cov'] = [float(v) for v in p.getKrigingResult().getCovarianceModel().getFullParameter()]
    if t in ('chaos1', 'krigingopt'):
        d = p.getDistribution()
        o['dist'] = [float(v) for v in d.getMean()] + [float(v) for v in d.getStandardDeviation()]
    if t == 'hitmiss':
        o['conf'] = np.array(p.getConfusionMatrix()).ravel().tolist()
    return o


def reference(t, cfg, s, bc):
    key = (t, tuple(cfg), s, bc)
    if key not in _fresh:
        p = build(t, cfg, bc=bc)
        tech.seed(s)
        p.run()
        _fresh[key] = results(t, p)
    return _fresh[key]


def draw_all(t, p, ctx, k):
    name = 'fig%d.png' % k if k % 3 == 0 else None
    p.drawPOD(None, 0.9)
    try:
        p.drawPOD(0.5, 0.9, name=name)
    except Exception as e:
        if 'POD model' not in str(e):
            raise
    for m in ('drawValidationGraph', 'drawPolynomialChaosModel', 'drawBoxCoxLikelihood', 'drawLinearModel'):
        f = getattr(p, m, None)
        if f is None:
            continue
        try:
            if m == 'drawLinearModel':
                f(0.5)
            else:
                f()
        except Exception as e:
            if m in ('drawPolynomialChaosModel', 'drawBoxCoxLikelihood') and type(e) is Exception:
                continue
            raise
    if name and os.path.exists(name):
        os.remove(name)


def cases(tier):
    out = []
    big = tier == 'thorough'
    for t in CONF:
        depth = 3
        if big:
            depth = 5 if t == 'binomial' else 4 if t != 'kernel' else 3
        ops = [o for o in OPS if not (t in SINGLE and o == '2')]
        if not big and t in ('kernel', 'krigingopt', 'adaptive', 'hitmiss'):
            depth = 2 if t != 'hitmiss' else 3
        bcs = [False, True] if t in ('binomial', 'qr', 'chaos1', 'kriging') else [False]
        for bc in bcs:
            for a in ops:
                for b in (ops if depth > 2 else ['']):
                    out.append({'kind': 'pod', 't': t, 'bc': bc, 'pre': a + b, 'depth': depth, '_w': 8 if '1' in a + b or '2' in a + b else 1})
    for a in AOPS:
        for bc in (False, True):
            for cens in (False, True):
                out.append({'kind': 'analysis', 'first': a, 'bc': bc, 'cens': cens, 'depth': 4 if big and not bc and not cens else 3 if big or not (bc or cens) else 2, '_w': 20})
    return out


def run(case, ctx):
    if case['kind'] == 'analysis':
        return run_analysis(case, ctx)
    t = case['t']
    ops = [o for o in OPS if not (t in SINGLE and o == '2')]
    lead, depth = len(case['pre']), case['depth']
    for rest in range(0, depth - lead + 1):
        for tail in itertools.product(ops, repeat=rest):
            word = case['pre'] + ''.join(tail)
            if t in SINGLE and word.count('1') > 1:
                continue
            if not trace(t, word, case['bc'], ctx):
                return


def trace(t, word, bc, ctx):
    cfg, last, count = [0, 0], None, 0
    X, y = tech.data(base(t))
    Xs, Ys = X.copy(), y.copy()
    p = build(t, cfg, Xs, Ys, bc)
    held, designs = [], []
    n0 = len(ctx.problems)

    def take(where):
        if t in SINGLE:
            for m in ('getInputDOE', 'getOutputDOE'):
                d = getattr(p, m)()
                designs.append((d, np.array(d).tolist(), m, where))

    def audit(where):
        for d, v, m, w in designs:
            ctx.close(np.array(d).ravel(), np.ravel(v), '%s after %s: %s obtained after %r' % (t, where, m, w), rtol=0, atol=0)
        if last is None:
            for q in (lambda: p.getPODModel()([0.5]), lambda: p.getPODCLModel(0.9)([0.5]), lambda: p.computeDetectionSize(0.5)):
                try:
                    q()
                    ctx.fail('%s %s: a result is given before any run' % (t, where))
                except Exception:
                    pass
            ctx.monitors += 3
            return
        tech.compare(ctx, results(t, p), reference(t, last[0], last[1], bc), '%s after %s' % (t, where), rtol=1e-9, atol=1e-10)
        for h, v, w in held:
            ctx.close([[float(f([x])[0]) for x in XS] for f in h], v, '%s after %s: curves obtained after %s' % (t, where, w), rtol=1e-12, atol=0)

    take('')
    for i, o in enumerate(word):
        ctx.step(o)
        if o in '12':
            tech.seed(int(o))
            p.run()
            last = (tuple(cfg), int(o))
            fs = [p.getPODModel(), p.getPODCLModel(0.9)]
            held.append((fs, [[float(f([x])[0]) for x in XS] for f in fs], word[:i + 1]))
        elif o == 'Q':
            audit(word[:i + 1])
            take(word[:i + 1])
        elif o == 'D':
            if last is not None:
                draw_all(t, p, ctx, count)
        elif o in 'ab':
            k = 'ab'.index(o)
            cfg[k] = 1 - cfg[k]
            apply(p, t, k, cfg[k])
        elif o == 'o':
            X2, y2 = tech.data(base(t), 16 if base(t) not in ('kriging', 'adaptive', 'hitmiss') else 17, 2, offset=0.7)
            q = tech.make(base(t), X2, y2, 11.5, bc=bc)
            if base(t) in ('kriging', 'adaptive'):
                q.setInitialStartSize(0)
            if t == 'qr':
                q.setSimulationSize(2)
            else:
                q.setSimulationSize(4)
            if hasattr(q, 'setSamplingSize'):
                q.setSamplingSize(10)
            tech.seed(5)
            q.run()
            q.getPODModel(), q.getPODCLModel(0.8)
        elif o == 'M':
            Xs[:, 0] = 0.5
            Ys[:] = 10.0 + i
        count += 1
        ctx.state(t, bc, last, tuple(cfg), o)
        if len(ctx.problems) > n0:
            return False
    audit(word)
    close_figs()
    return len(ctx.problems) == n0


# ---------------------------------------------------------------- analysis
AOPS = ['results', 'figures', 'files', 'test', 'podG', 'podB', 'podK', 'other', 'mutate']


def a_results(a, cens):
    o = {}
    o['in'] = np.array(a.getInputSample()).ravel().tolist()
    o['out'] = np.array(a.getOutputSample()).ravel().tolist()
    for m in ('getIntercept', 'getSlope', 'getStandardError', 'getBoxCoxParameter', 'getR2', 'getAndersonDarlingPValue',
              'getCramerVonMisesPValue', 'getKolmogorovPValue', 'getZeroMeanPValue', 'getBreuschPaganPValue',
              'getHarrisonMcCabePValue', 'getDurbinWatsonPValue'):
        v = getattr(a, m)()
        o[m] = [] if v is None else [float(w) for w in (v if hasattr(v, '__len__') else [v])]
    o['thr'] = [float(v) for v in (a.getNoiseThreshold(), a.getSaturationThreshold()) if v is not None]
    r = a.getResiduals()
    o['res'] = np.array(r).ravel().tolist()
    return o


def run_analysis(case, ctx):
    bc, cens = case['bc'], case['cens']
    X, y = tech.data('binomial')
    args = (8.5, 15.5) if cens else (None, None)

    def new():
        tech.seed(7)      # the Harrison-McCabe p-value is simulated at construction
        Xs, Ys = ot.Sample(X), ot.Sample(ref.col(y))
        return otpod.UnivariateLinearModelAnalysis(Xs, Ys, args[0], args[1], ot.NormalFactory(), bc), Xs, Ys
    ref_o = a_results(new()[0], cens)
    pods = {}

    def pod(a, key):
        fact = {'podG': ot.NormalFactory(), 'podB': None, 'podK': ot.KernelSmoothing()}[key]
        if key == 'podG':
            p = otpod.UnivariateLinearModelPOD(analysis=a, detection=11.0)
        else:
            p = otpod.UnivariateLinearModelPOD(ot.Sample(X), ot.Sample(ref.col(y)), 11.0, args[0], args[1], fact, bc)
        p.setVerbose(False)
        p.setSimulationSize(6)
        tech.seed(3)
        p.run()
        return tech.observe('gauss', p, XS, conf=[0.8])
    for key in ('podG', 'podB', 'podK'):
        pods[key] = pod(new()[0], key)
    for rest in range(0, case['depth']):
        for tail in itertools.product(AOPS, repeat=rest):
            word = (case['first'],) + tail
            a, Xs, Ys = new()
            n0 = len(ctx.problems)
            for i, o in enumerate(word):
                ctx.step(o)
                where = 'analysis after %s' % (word[:i + 1],)
                if o == 'results':
                    tech.compare(ctx, a_results(a, cens), ref_o, where, rtol=1e-10, atol=1e-12)
                elif o == 'figures':
                    a.drawResiduals('uncensored')
                    a.drawLinearModel('uncensored')
                    if cens:
                        a.drawResiduals('censored')
                        a.drawLinearModel('censored')
                elif o == 'files':
                    a.saveResults('res.csv')
                    os.remove('res.csv')
                elif o == 'test':
                    a.drawResidualsDistribution('uncensored')
                    a.drawResidualsQQplot('uncensored')
                    if bc:
                        a.drawBoxCoxLikelihood()
                elif o.startswith('pod'):
                    tech.compare(ctx, pod(a, o), pods[o], where, rtol=1e-9, atol=1e-10)
                elif o == 'other':
                    X2, y2 = tech.data('binomial', 16, 2)
                    otpod.UnivariateLinearModelAnalysis(ot.Sample(X2), ot.Sample(ref.col(y2)), args[0], args[1], None, bc)
                elif o == 'mutate':
                    for k in range(Xs.getSize()):
                        Xs[k, 0] = 0.5
                        Ys[k, 0] = 10.0
                ctx.state('analysis', bc, cens, o, i)
            tech.compare(ctx, a_results(a, cens), ref_o, 'analysis after %s' % (word,), rtol=1e-10, atol=1e-12)
            close_figs()
            if len(ctx.problems) > n0:
                return
