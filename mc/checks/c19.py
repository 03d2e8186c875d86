"""C19: PODSummary runs the activated techniques on its data and reports exactly their results."""
import contextlib
import io
import itertools
import os
import re
import shutil
import numpy as np
import openturns as ot
import otpod
from mc import ref, tech

META = {'bounds': 'every subset of the six methods x {plain, censored, Box-Cox estimated, Box-Cox given, 1-D}, kriging subsets on '
        'fewer; every report/file/figure query after it; every word up to depth 3 (thorough 4) over activation changes, runs and queries',
        'assumptions': ['the individual techniques, checked by C01-C17, are the reference of the summary']}

M = ['LinearGauss', 'LinearBinomial', 'LinearKernelSmoothing', 'QuantileRegression', 'PolynomialChaos', 'Kriging']
LABEL = {'LinearGauss': 'Gaussian residuals :', 'LinearBinomial': 'No residuals hypothesis :', 'LinearKernelSmoothing':
         'Kernel smoothing on residuals :', 'QuantileRegression': 'Quantile Regression :', 'PolynomialChaos': 'Polynomial chaos :',
         'Kriging': 'Kriging :'}
FIG = {'LinearGauss': 'POD_Gauss', 'LinearBinomial': 'POD_Binomial', 'LinearKernelSmoothing': 'POD_Kernel_Smoothing',
       'QuantileRegression': 'POD_Quantile_Regression', 'PolynomialChaos': 'POD_Polynomial_chaos', 'Kriging': 'POD_Kriging'}
CFG = {'plain': (None, None, False), 'cens': (8.6, 15.9, False), 'noise': (8.6, None, False), 'bc': (None, None, True),
       'bcl': (None, None, 0.5), 'npbcl': (None, None, np.float64(0.5)), 'censbc': (8.6, 15.9, True)}
LEVELS = [(0.5, 0.6), (0.6, 0.95), (0.97, 0.9), (0.3, 0.55), (0.999, 0.8)]
DET = 11.0
HIGH = {'high': 16.0, 'top': 15.9, 'low': 8.4, 'floor': 8.0}
for _c in HIGH:
    CFG[_c] = (None, None, False)
SIZE = {'sim': 5, 'samp': 25}


def data(dim, k=1):
    n = 22
    X, _ = tech.data('chaos2', n, k)
    y = 6 + 9 * X[:, 0] + 0.4 * np.sin(2 * X[:, 1]) + 0.3 * ref.scatter(n, k)
    return X[:, :dim], y


def new(cfg, dim):
    X, y = data(dim)
    s = otpod.PODSummary(ot.Sample(X), ot.Sample(ref.col(y)), HIGH.get(cfg, DET), *CFG[cfg])
    s.setVerbose(False)
    s.setSimulationSize(SIZE['sim'])
    s.setSamplingSize(SIZE['samp'])
    return s


def alone(m, cfg, dim):
    """The technique built directly on the data, not run."""
    X, y = data(dim)
    n, s, b = CFG[cfg]
    X1, Xd, Y = ot.Sample(X[:, :1]), ot.Sample(X), ot.Sample(ref.col(y))
    if m == 'QuantileRegression':
        p = otpod.QuantileRegressionPOD(X1, Y, HIGH.get(cfg, DET), n, s, b)
    elif m == 'PolynomialChaos':
        p = otpod.PolynomialChaosPOD(Xd, Y, HIGH.get(cfg, DET), n, s, b)
    elif m == 'Kriging':
        p = otpod.KrigingPOD(Xd, Y, HIGH.get(cfg, DET), n, s, b)
    else:
        f = {'LinearGauss': ot.NormalFactory(), 'LinearBinomial': None, 'LinearKernelSmoothing': ot.KernelSmoothing()}[m]
        p = otpod.UnivariateLinearModelPOD(X1, Y, HIGH.get(cfg, DET), n, s, f, b)
    p.setVerbose(False)
    if m != 'LinearBinomial':
        p.setSimulationSize(SIZE['sim'])
    if hasattr(p, 'setSamplingSize'):
        p.setSamplingSize(SIZE['samp'])
    return p


T = {'LinearGauss': 'gauss', 'LinearBinomial': 'binomial', 'LinearKernelSmoothing': 'kernel', 'QuantileRegression': 'qr',
     'PolynomialChaos': 'chaos2', 'Kriging': 'kriging'}
_alone = {}


def observe(m, p):
    lo, hi = (0.29, 1.15) if m in ('PolynomialChaos', 'Kriging') else (0.35, 1.1)
    xs = [lo + (hi - lo) * f for f in (0.05, 0.2, 0.3, 0.37, 0.45, 0.8)]
    return tech.observe(T[m], p, xs, levels=(0.5,))


def rerun(m, p):
    if m == 'Kriging':
        p.setInitialStartSize(0)
    tech.seed(11)
    p.run()
    return observe(m, p)


def reference(m, cfg, dim):
    if (m, cfg, dim) not in _alone:
        _alone[m, cfg, dim] = rerun(m, alone(m, cfg, dim))
    return _alone[m, cfg, dim]


def getter(s, m):
    return getattr(s, 'get%sPOD' % m)


def cases(tier):
    out = []
    for cfg in HIGH:
        for sub in (M, M[:3] + M[4:]) if cfg not in ('high', 'top') else (M[:3] + M[4:], M[:2], M[1:3] + M[4:], ['LinearBinomial', 'LinearKernelSmoothing']):
            out.append({'kind': 'subset', 'cfg': cfg, 'dim': 2, 'on': list(sub), '_w': 8})
    for cfg in CFG:
        if cfg in HIGH:
            continue
        for dim in (2, 1):
            for r in range(0, 7):
                for sub in itertools.combinations(M, r):
                    if 'Kriging' in sub and dim == 2 and tier == 'quick' and (cfg in ('noise', 'bcl', 'npbcl') or r not in (1, 2, 6)):
                        continue
                    if (dim == 1 and tier == 'quick' and cfg in ('noise', 'bcl', 'censbc')) or (cfg == 'npbcl' and (dim == 1 or r not in (1, 5))):
                        continue
                    out.append({'kind': 'subset', 'cfg': cfg, 'dim': dim, 'on': list(sub), '_w': 5 if 'Kriging' in sub else 1})
    ops = ['R'] + M[:5] + ['Q']
    for a in ops:
        for b in ops:
            out.append({'kind': 'history', 'pre': [a, b], 'depth': 4 if tier == 'thorough' else 3, '_w': 4})
    return out


def run(case, ctx):
    if case['kind'] == 'history':
        return history(case, ctx)
    cfg, dim, on = case['cfg'], case['dim'], case['on']
    s = new(cfg, dim)
    for m in M:
        s.setMethodActive(m, m in on)
    tech.seed(1)
    ctx.step('run', cfg, dim, on)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        s.run()
    ctx.check('tart' not in out.getvalue(), 'a silent summary prints %r' % out.getvalue()[:100])
    subs = {}
    for m in M:
        if m in on and not (m == 'Kriging' and dim == 1):
            subs[m] = getter(s, m)()
        else:
            ctx.raises('get%sPOD' % m, Exception, getter(s, m))
    report(ctx, s, subs, cfg, dim, on)
    figures(ctx, s, subs, cfg, dim, on)
    for m, p in subs.items():
        want = reference(m, cfg, dim)
        tech.compare(ctx, rerun(m, p), want, 'summary %s (%s, dim %d), technique run again with the same seed' % (m, cfg, dim), rtol=1e-9, atol=1e-9)
        ctx.state(cfg, dim, m, len(on))


def detection(p, pl, cl):
    try:
        d = p.computeDetectionSize(pl, cl)
        return [float(d[0]), float(d[1])]
    except Exception:
        return [-1.0, -1.0]


def patterns(subs):
    """One level for each set of techniques refusing it: between and beyond the values of the curves at their ends."""
    ends = {0.0, 1.0}
    for p in subs.values():
        d = p.getDefectSizes() if hasattr(p, 'getDefectSizes') else data(1)[0][:, 0]
        lo, hi = float(np.min(d)), float(np.max(d))
        for m in (p.getPODModel(), p.getPODCLModel(0.6)):
            ends |= {float(m([v])[0]) for v in (lo, hi)}
    ends = sorted(e for e in ends if 0 <= e <= 1)
    met, out = set(), []
    for a, b in zip(ends, ends[1:]):
        pl = float('%.4g' % (0.5 * (a + b)))
        k = tuple(detection(p, pl, 0.6)[0] == -1 for p in subs.values())
        if k not in met and 0 < pl < 1:
            met.add(k)
            out.append((pl, 0.6))
    return out


def rows(text, sep=None):
    out = {}
    for line in text.split('\n'):
        for lab in list(LABEL.values()) + ['Linear Regression (> 0.8):', 'Polynomial Chaos (> 0.8):', 'Kriging (> 0.8):']:
            if line.startswith(lab):
                out.setdefault(lab, []).append(line[len(lab):])
        if line.startswith('Quantile Regression at level'):
            out.setdefault('QR', []).append(line)
    return out


def report(ctx, s, subs, cfg, dim, on):
    cens = CFG[cfg][0] is not None or CFG[cfg][1] is not None
    an = otpod.UnivariateLinearModelAnalysis(*linear_args(cfg, dim))
    for pl, cl in LEVELS + (patterns(subs) if cfg in HIGH else []):
        for way in ('text', 'file'):
            ctx.step(way, pl, cl)
            name = 'summary_%s.txt' % way
            if way == 'text':
                o = io.StringIO()
                with contextlib.redirect_stdout(o):
                    txt = s.getResults(pl, cl)
                ctx.check(clean(o.getvalue()) == clean(an.getResults()), 'the printed analysis is not the analysis of the data')
                a, b = txt.index('Model validation results'), txt.index('POD results')
            else:
                s.saveResults(name, pl, cl)
                with open(name) as fd:
                    txt = fd.read()
                os.remove(name)
                a, b = txt.index('Model validation results'), txt.index('POD results')
                i, j = txt.index('Linear model analysis results'), txt.index('Residuals analysis results')
                ctx.check(i < j < a < b, 'saved file: sections out of order')
                an.saveResults(name)
                with open(name) as fd:
                    atxt = fd.read()
                os.remove(name)
                ctx.check(clean(txt[:a].strip()) == clean(atxt.strip()), 'saved file: the analysis part is not the analysis of the data: %r / %r' % (
                    clean(txt[:a]), clean(atxt)))
            val, pod = rows(txt[a:b]), rows(txt[b:])
            lab = ['a%d' % round(100 * pl, 6), 'a%d/%d' % (round(100 * pl, 6), round(100 * cl, 6))]
            head = txt[b:].split('\n')
            found = [ln.split() for ln in head if lab[0] in ln.split()]
            ctx.check(len(found) == 1 and found[0] == lab, 'column labels %r, expected %r' % (found, lab))
            want_rows = set(LABEL[m] for m in subs)
            ctx.check(set(pod) == want_rows and all(len(v) == 1 for v in pod.values()),
                      'rows of the POD table %r, expected %r' % (sorted(pod), sorted(want_rows)))
            for m, p in subs.items():
                if LABEL[m] not in pod:
                    continue
                nums = [float(v) for v in pod[LABEL[m]][0].split()]
                ctx.close(nums, detection(p, pl, cl), '%s detection sizes in the %s at (%g, %g)' % (m, way, pl, cl), rtol=0, atol=0.0050001)
            lin = any(m.startswith('Linear') for m in on)
            want = set()
            if lin:
                want.add('Linear Regression (> 0.8):')
            if 'QuantileRegression' in on:
                want.add('QR')
            if 'PolynomialChaos' in on:
                want.add('Polynomial Chaos (> 0.8):')
            if 'Kriging' in subs:
                want.add('Kriging (> 0.8):')
            ctx.check(set(val) == want, 'rows of the validation table %r, expected %r' % (sorted(val), sorted(want)))

            def nums(key):
                return [float(v) for v in val.get(key, [''])[0].replace('Uncensored', '').split() if re.match(r'^-?[0-9.e-]+$', v)]
            if lin:
                ctx.close(nums('Linear Regression (> 0.8):'), list(an.getR2())[:2 if cens else 1], 'linear R2 in the %s' % way, rtol=0, atol=0.0050001)
            if 'PolynomialChaos' in subs:
                p = subs['PolynomialChaos']
                ctx.close(nums('Polynomial Chaos (> 0.8):'), [p.getR2(), p.getQ2()], 'chaos R2 and Q2 in the %s' % way, rtol=0, atol=0.0050001)
            if 'Kriging' in subs:
                ctx.close(nums('Kriging (> 0.8):'), [subs['Kriging'].getQ2()], 'kriging Q2 in the %s' % way, rtol=0, atol=0.0050001)
            if 'QuantileRegression' in subs and 'QR' in val:
                v = re.split(r'\(> 0.6\):', val['QR'][0])
                ctx.check(float(v[0].split()[-1]) == round(pl, 2), 'level of the quantile regression R2 is %r' % v[0])
                ctx.close([float(v[1].split()[0])], [subs['QuantileRegression'].getR2(pl)], 'quantile regression R2 in the %s' % way, rtol=0, atol=0.0050001)
            if way == 'text' and cens:
                w = txt[txt.rindex('-----'):]
                for m, word in (('QuantileRegression', 'quantile regression'), ('PolynomialChaos', 'polynomial chaos'), ('Kriging', 'kriging')):
                    ctx.check((word in w) == (m in subs), 'warning about filtered data %r with methods %r' % (w, sorted(subs)))
            elif way == 'text':
                ctx.check('filtered' not in txt, 'warning about filtered data without censoring')
            ctx.state(cfg, dim, pl, cl, way, len(subs))


def linear_args(cfg, dim):
    X, y = data(dim)
    n, st, b = CFG[cfg]
    return ot.Sample(X[:, :1]), ot.Sample(ref.col(y)), n, st, ot.NormalFactory(), b


def clean(t):
    """Text without the simulated p-value and the sign of rounding zeros."""
    out = []
    for ln in t.split('\n'):
        if 'Harrison' in ln or 'Fitted distribution' in ln or 'mu = ' in ln:
            continue
        out.append(' '.join(ln.split()))
    return '\n'.join(out).strip()


class Stub(object):
    """Figure.savefig without the rendering: the file is created with its name."""

    def __enter__(self):
        from matplotlib.figure import Figure
        self.old = Figure.savefig

        def savefig(fig, name, *a, **k):
            with open(str(name), 'w') as fd:
                fd.write('figure')
        Figure.savefig = savefig

    def __exit__(self, *a):
        from matplotlib.figure import Figure
        Figure.savefig = self.old


def figures(ctx, s, subs, cfg, dim, on):
    if len(on) == 6 or (cfg == 'cens' and len(on) == 1):
        return figures_(ctx, s, subs, cfg, dim, on)
    with Stub():
        figures_(ctx, s, subs, cfg, dim, on)


def figures_(ctx, s, subs, cfg, dim, on):
    n, st, b = CFG[cfg]
    cens = n is not None or st is not None
    here = os.getcwd()
    for k, (pl, cl, ext) in enumerate([(None, None, 'png'), (0.5, 0.6, 'svg'), (0.97, 0.9, 'png'), (None, 0.7, 'png')]):
        if k in (2, 3) and len(on) not in (1, 6):
            continue
        d = os.path.join(here, 'graphs')
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        ctx.step('drawGraphs', pl, cl, ext)
        if k == 3:
            os.chdir(d)
            try:
                figs = s.drawGraphs(None, ext, pl, cl)
            finally:
                os.chdir(here)
        else:
            figs = s.drawGraphs(d, ext, pl, cl)
        want = ['Linear_model', 'Residuals', 'Residuals_distribution', 'Residuals_QQ_plot']
        if cens:
            want += [w + '_censored' for w in want]
        if b is True:
            want.append('BoxCox_likelihood')
        for m, p in subs.items():
            ok = True
            if pl is not None:
                try:
                    p.computeDetectionSize(pl, cl)
                except Exception:
                    ok = False
            if ok:
                want.append(FIG[m])
            if m == 'QuantileRegression' and pl is not None:
                want.append('Quantile_regression_model')
            if m == 'PolynomialChaos':
                want.append('Validation_graph_Polynomial_chaos')
            if m == 'Kriging':
                want.append('Validation_graph_Kriging')
        got = sorted(os.listdir(d))
        ctx.check(got == sorted('%s.%s' % (w, ext) for w in want), 'figures written %r, expected %r' % (got, sorted(want)))
        ctx.check(all(os.path.getsize(os.path.join(d, g)) > 0 for g in got), 'an empty figure file')
        ctx.check(len(figs) == len(want), '%d figures returned, %d expected' % (len(figs), len(want)))
        shutil.rmtree(d)
        import matplotlib.pyplot as plt
        plt.close('all')


def history(case, ctx):
    ops = ['R'] + M[:5] + ['Q']
    for rest in range(0, case['depth'] - 2 + 1):
        for tail in itertools.product(ops, repeat=rest):
            word = case['pre'] + list(tail)
            s = new('plain', 2)
            for m in M:
                s.setMethodActive(m, m in ('LinearBinomial', 'PolynomialChaos'))
            active = {m: m in ('LinearBinomial', 'PolynomialChaos') for m in M}
            ran = {}
            n0 = len(ctx.problems)
            for i, o in enumerate(word + ['Q']):
                ctx.step(o)
                if o == 'R':
                    s.run()
                    for m in M:
                        if active[m]:
                            ran[m] = getter(s, m)()
                elif o != 'Q':
                    active[o] = not active[o]
                    s.setMethodActive(o, active[o])
                else:
                    for m in M:
                        if active[m] and m in ran:
                            ctx.check(getter(s, m)() is ran[m], '%s after %s: not the technique of the last run' % (m, word[:i]))
                        else:
                            ctx.raises('get%sPOD' % m, Exception, getter(s, m))
                    if ran and all(m in ran for m in M if active[m]):
                        with contextlib.redirect_stdout(io.StringIO()):
                            pod = rows(s.getResults(0.5, 0.6).split('POD results')[1])
                        ctx.check(set(pod) == set(LABEL[m] for m in M if active[m]), 'rows %r after %s' % (sorted(pod), word[:i]))
                        for m in M:
                            if active[m]:
                                ctx.close([float(v) for v in pod[LABEL[m]][0].split()], detection(ran[m], 0.5, 0.6),
                                          '%s after %s' % (m, word[:i]), rtol=0, atol=0.0050001)
                ctx.state(tuple(sorted(active.items())), tuple(sorted(ran)), o)
            if len(ctx.problems) > n0:
                return
