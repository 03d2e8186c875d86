"""C23: figures show the results they are about (curves, detection sizes, residuals, predictions), inside the axes."""
import itertools
import os
import numpy as np
import openturns as ot
import otpod
from mc import lin, ref, tech
from mc.core import close_figs
from mc.gp import GP, trend_functions

META = {'bounds': 'drawPOD: 9 techniques x {no transformation, Box Cox given} x {uncensored, noise threshold} x 4 probability levels x 3 confidence '
        'levels x 5 defect ranges x 2 mesh sizes; figures of the linear analysis: 13 configurations x 4 designs x 8 (thorough 32) sign '
        'vectors x {uncensored, censored}; validation graphs: {chaos 1 and 2 inputs, kriging, adaptive} x 4 offsets of the signals '
        '(positive to negative) x Box Cox; fitted lines of quantile regression x 9 levels, chaos with 1 input',
        'assumptions': ['the values shown are those of the getters, which the other properties decide']}

PROB = [None, 0.5, 0.9, 0.855]
CONF = [None, 0.8, 0.95]
RANGES = [(None, None), (0.2, None), (None, 0.7), (0.25, 0.6), (0.4, 0.45)]
TITLE = {'binomial': 'Binomial', 'gauss': 'Gauss', 'kernel': 'KernelSmoothing', 'qr': 'Quantile regression', 'chaos1': 'Polynomial chaos',
         'chaos2': 'Polynomial chaos', 'kriging': 'Kriging', 'adaptive': 'Kriging', 'hitmiss': 'Classifier'}


def cases(tier):
    out = []
    for t in tech.ALL:
        for bc in ((False, 0.3) if t != 'hitmiss' else (False,)):
            for cens in ('none', 'noise'):
                out.append({'kind': 'pod', 't': t, 'bc': bc, 'cens': cens, '_w': 20})
    for cfg in sorted(lin.CFG):
        for xp in ('unsorted', 'sorted', 'dup', 'shifted'):
            for k in range(8 if tier == 'quick' else 32):
                out.append({'kind': 'lin', 'cfg': cfg, 'xp': xp, 'neg': False, 'start': (37 * k + 5) % 256, 'stop': (37 * k + 5) % 256 + 1, '_w': 2})
    for xp in ('unsorted', 'sorted'):
        for k in range(4 if tier == 'quick' else 16):
            out.append({'kind': 'lin', 'cfg': 'bc', 'xp': xp, 'neg': k % 2 == 1, 'start': 11 * k + 3, 'stop': 11 * k + 4, '_w': 2})
    for t in ('chaos1', 'chaos2', 'kriging', 'adaptive'):
        for off in (0.0, -6.5, -11.0, -40.0):
            for bc in (False, 0.3):
                out.append({'kind': 'valid', 't': t, 'off': off, 'bc': bc, '_w': 4})
    for k in range(1, 5 if tier == 'quick' else 13):
        for cens in ('none', 'noise', 'sat'):
            for bc in (False, 0.4):
                out.append({'kind': 'line', 'k': k, 'cens': cens, 'bc': bc, '_w': 2})
    for t in ('gauss', 'qr', 'chaos1', 'kriging'):
        for neg in (False, True):
            out.append({'kind': 'boxcox', 't': t, 'neg': neg, '_w': 2})
    return out


def run(case, ctx):
    {'pod': draw_pod, 'lin': analysis, 'valid': validation, 'line': lines_, 'boxcox': likelihood}[case['kind']](case, ctx)


def files():
    return set(f for f in os.listdir('.') if f != 'stdout.txt')


def saved(ctx, name, before):
    new = files() - before
    ctx.check(new == ({name} if name else set()), 'files written: %s, expected %s' % (sorted(new), name))
    for f in new:
        ctx.check(os.path.getsize(f) > 500, 'figure file %s of %d bytes' % (f, os.path.getsize(f)))
        os.remove(f)


def xy(ln):
    return np.asarray(ln.get_xdata(), float).ravel(), np.asarray(ln.get_ydata(), float).ravel()


def inside(ctx, ax, x, y, what):
    """Every point is within the axes."""
    (a, b), (c, d) = ax.get_xlim(), ax.get_ylim()
    ok = (x >= min(a, b)) & (x <= max(a, b)) & (y >= min(c, d)) & (y <= max(c, d))
    i = int(np.argmin(ok))
    ctx.check(ok.all(), lambda: '%s: point (%g, %g) is outside the axes [%g, %g] x [%g, %g]' % (what, x[i], y[i], a, b, c, d))


def build(t, bc, cens, offset=0.0, smooth=False):
    X, y = tech.data(t, 22 if tech.dim_of(t) == 1 else 24, offset=offset)
    noise = float(np.sort(y)[1] + 1e-3) if cens == 'noise' else None
    det = 11.0 + offset
    kw = {'bc': bc, 'offset': offset}
    if t == 'hitmiss':
        kw.pop('bc')
    p = tech.make(t, X, y, det, noise, None, **kw)
    if smooth and t in ('kriging', 'adaptive'):
        p.setInitialStartSize(0)
        p.setCovarianceModel(ot.SquaredExponential([0.7, 0.9], [4.0]))
    tech.seed(3)
    p.run()
    return p, X, y, noise


def draw_pod(case, ctx):
    t = case['t']
    p, X, y, noise = build(t, case['bc'], case['cens'])
    used = X[:, 0] if noise is None or t in ('binomial', 'gauss', 'kernel') else X[y > noise, 0]
    if t in ('binomial', 'gauss', 'kernel', 'qr'):
        lo, hi = used.min(), used.max()
    else:
        lo, hi = np.min(p.getDefectSizes()), np.max(p.getDefectSizes())
    cl = p.getPODCLModel
    n = 0
    for (ra, rb), pr, cf, nb in itertools.product(RANGES, PROB, CONF, (100, 17)):
        if nb == 17 and (pr not in (None, 0.9) or (ra is None) != (rb is None)):
            continue
        if t == 'hitmiss' and cf is not None and nb == 17:
            continue
        a = None if ra is None else lo + ra * (hi - lo)
        b = None if rb is None else lo + rb * (hi - lo)
        ctx.step('drawPOD', pr, cf, a, b, nb)
        want = None
        if pr is not None:
            try:
                want = p.computeDetectionSize(pr, cf)
            except Exception as e:
                if 'POD model' not in str(e):
                    raise
                ctx.raises('drawPOD(%s, %s)' % (pr, cf), Exception, p.drawPOD, pr, cf, a, b, nb)
                close_figs()
                continue
        n += 1
        name = {0: 'pod.png', 1: 'pod.pdf'}.get(n % 12)
        before = files()
        fig, ax = p.drawPOD(pr, cf, a, b, nb, name) if n % 2 else p.drawPOD(probabilityLevel=pr, confidenceLevel=cf, defectMin=a, defectMax=b, nbPt=nb, name=name)
        saved(ctx, name, before)
        x = np.linspace(lo if a is None else a, hi if b is None else b, nb)
        curves = [('POD', p.getPODModel())] + ([('POD at confidence level %s' % cf, cl(cf))] if cf is not None else [])
        ls = ax.get_lines()
        if not ctx.check(len(ls) == len(curves), '%d curves drawn, expected %d' % (len(ls), len(curves))):
            close_figs()
            continue
        for ln, (label, f) in zip(ls, curves):
            gx, gy = xy(ln)
            if ctx.close(gx, x, 'defects of the curve %r' % label, rtol=1e-9, atol=1e-12):
                ctx.close(gy, [float(f([v])[0]) for v in x], 'curve %r' % label, rtol=1e-9, atol=1e-9)
            ctx.check(ln.get_label() == label, 'curve label %r, expected %r' % (ln.get_label(), label))
        seg = {c.get_label(): c.get_segments() for c in ax.collections}
        exp = {}
        if pr is not None:
            exp['Probability level %s' % pr] = [[x[0], pr], [x[-1], pr]]
            lab = want.getDescription()
            exp['%s : %s' % (lab[0], round(want[0], 3))] = [[want[0], 0], [want[0], pr]]
            if cf is not None:
                exp['%s : %s' % (lab[1], round(want[1], 3))] = [[want[1], 0], [want[1], pr]]
        if ctx.check(set(seg) == set(exp), 'lines %s, expected %s' % (sorted(seg), sorted(exp))):
            for k in exp:
                ctx.close(np.array(seg[k]), np.array([exp[k]]), 'line %r' % k, rtol=1e-9)
        leg = ax.get_legend()
        ctx.check(leg is not None and sorted(v.get_text() for v in leg.get_texts()) == sorted([c[0] for c in curves] + list(exp)), 'legend of the POD figure')
        ctx.check(TITLE[t] in ax.get_title() and ax.get_xlabel() == 'Defects' and ax.get_ylabel() == 'POD',
                  'titles %r %r %r' % (ax.get_title(), ax.get_xlabel(), ax.get_ylabel()))
        close_figs()
        ctx.state(t, case['bc'], case['cens'], pr, cf, ra, rb, nb)
    if t in ('qr', 'chaos1', 'chaos2', 'kriging', 'adaptive', 'hitmiss'):
        eps = 1e-6 * (hi - lo)
        for a, b in ((lo - eps, None), (hi + eps, None), (None, hi + eps), (None, lo - eps), (lo - 1, hi + 1)):
            ctx.raises('drawPOD on [%s, %s]' % (a, b), ValueError, p.drawPOD, None, None, a, b)
        p.drawPOD(None, None, lo, hi)
    close_figs()


def analysis(case, ctx):
    if case['cfg'] == 'bc':
        x = ref.XPAT[case['xp']](8)
        y = 4.0 + 1.7 * x + 0.3 * np.array([1.0 if (case['start'] >> i) & 1 else -1.0 for i in range(8)]) * np.array(lin.MAG[8]) - (7.0 if case['neg'] else 0.0)
        data = {'x': x, 'y': y, 'kw': {'boxCox': True}}
    else:
        data = next(iter(lin.datasets(case)))
    x, y, kw = data['x'], data['y'], dict(data['kw'])
    fact = lin.factory(kw.pop('fact', None))
    args = dict(kw)
    if fact is not None:
        args['resDistFact'] = fact
    a = otpod.UnivariateLinearModelAnalysis(ot.Sample(ref.col(x)), ot.Sample(ref.col(y)), **args)
    xu, yu, _, _ = ref.split(x, y, kw.get('noiseThres'), kw.get('saturationThres'))
    bc = kw.get('boxCox')
    z = yu
    if bc is not None:
        lam = a.getBoxCoxParameter()
        z = ref.boxcox(yu + ref.bc_shift(yu), lam)
    cens = 'noiseThres' in kw or 'saturationThres' in kw
    R = np.array(a.getResiduals())
    ctx.step('analysis', case['cfg'], case['xp'], case['start'])
    for c, model in enumerate(['uncensored'] + (['censored'] if cens else [])):
        b0, b1 = float(a.getIntercept()[c]), float(a.getSlope()[c])
        law = a.getResidualsDistribution()[c]
        before = files()
        name = 'lin.png' if case['start'] % 2 else None
        # regression line
        fig, ax = a.drawLinearModel(model, name)
        saved(ctx, name, before)
        ls = ax.get_lines()
        if ctx.check(len(ls) == 2, 'drawLinearModel: %d curves' % len(ls)):
            gx, gy = xy(ls[0])
            o, q = np.lexsort((gy, gx)), np.lexsort((z, xu))
            ctx.close(gx[o], xu[q], 'defects shown', rtol=1e-9)
            ctx.close(gy[o], z[q], 'signals shown', rtol=1e-6, atol=1e-9)
            inside(ctx, ax, gx, gy, 'drawLinearModel')
            gx, gy = xy(ls[1])
            ctx.check(gx.min() == xu.min() and gx.max() == xu.max(), 'regression line from %g to %g' % (gx.min(), gx.max()))
            ctx.close(gy, b0 + b1 * gx, 'regression line (%s)' % model, rtol=1e-6, atol=1e-8)
        ctx.check(('censored' in ax.get_title()) == (c == 1), 'title %r of the %s model' % (ax.get_title(), model))
        ctx.check(('Box Cox' in ax.get_ylabel()) == (bc is not None), 'ordinate %r with Box Cox %s' % (ax.get_ylabel(), bc))
        # residuals
        fig, ax = a.drawResiduals(model, name)
        saved(ctx, name, before)
        ls = [ln for ln in ax.get_lines() if len(ln.get_xdata()) == len(xu)]
        if ctx.check(len(ls) == 1, 'drawResiduals: %d clouds' % len(ls)):
            gx, gy = xy(ls[0])
            o, q = np.lexsort((gy, gx)), np.lexsort((R[:, c], xu))
            ctx.close(gx[o], xu[q], 'defects of the residuals', rtol=1e-9)
            ctx.close(gy[o], R[q, c], 'residuals (%s)' % model, rtol=1e-9, atol=1e-10)
            inside(ctx, ax, gx, gy, 'drawResiduals')
        ctx.check(('censored' in ax.get_title()) == (c == 1), 'title %r of the %s residuals' % (ax.get_title(), model))
        # QQ plot
        fig, ax = a.drawResidualsQQplot(model, name)
        saved(ctx, name, before)
        m = len(xu)
        pts = [np.asarray(k.get_offsets(), float) for k in ax.collections]
        pts += [np.column_stack(xy(ln)) for ln in ax.get_lines()]
        r = np.sort(R[:, c])
        pts = [k for k in pts if len(k) >= 3]
        if ctx.check(len(pts) == 1, 'QQ plot: %d clouds' % len(pts)):
            # openturns may leave the largest residual out, and merges ties
            k = pts[0][np.argsort(pts[0][:, 0])]
            near = np.abs(k[:, [0]] - r[None, :]) <= 1e-9 * (1 + np.abs(r))
            ctx.check(near.any(axis=1).all(), lambda: 'QQ plot (%s) of values %s, residuals %s' % (model, k[:, 0], r))
            ctx.check(near[:, r < r[-1] - 1e-9 * (1 + abs(r[-1]))].any(axis=0).all(), lambda: 'QQ plot (%s) of values %s, residuals %s' % (model, k[:, 0], r))
            u = np.array([law.computeCDF(v) for v in k[:, 1]]) * m
            for q in range(len(k)):
                if near[q].any():
                    i = np.where(near[q])[0]
                    ctx.check(i[0] - 1e-6 <= u[q] <= i[-1] + 1 + 1e-6, lambda: 'quantile level %g / %d of residual %d in the QQ plot (%s)' % (u[q], m, i[0], model))
            inside(ctx, ax, k[:, 0], k[:, 1], 'QQ plot')
        ctx.check(('censored' in ax.get_title()) == (c == 1) and ax.get_ylabel() == str(law), 'titles of the QQ plot: %r %r' % (ax.get_title(), ax.get_ylabel()))
        # histogram and density
        fig, ax = a.drawResidualsDistribution(model, name)
        saved(ctx, name, before)
        ls = ax.get_lines()
        dens = [ln for ln in ls if ln.get_label() == str(law)]
        if ctx.check(len(dens) == 1, 'residual law in the legend: %s' % [ln.get_label() for ln in ls]):
            gx, gy = xy(dens[0])
            ctx.close(gy, [law.computePDF(v) for v in gx], 'density of the residual law (%s)' % model, rtol=1e-6, atol=1e-9)
        hist = [xy(ln) for ln in ls if ln.get_label() != str(law)]
        poly = [np.asarray(q.get_xy() if hasattr(q, 'get_xy') else q.get_path().vertices, float) for q in ax.patches]
        if len(hist) == 1:
            gx, gy = hist[0]
            wx, wy = np.array(ot.HistogramFactory().build(ot.Sample(ref.col(R[:, c]))).drawPDF().getDrawable(0).getData()).T
            ctx.close(gx, wx, 'histogram of the residuals (%s), abscissas' % model, rtol=1e-7, atol=1e-9)
            ctx.close(gy, wy, 'histogram of the residuals (%s), heights' % model, rtol=1e-6, atol=1e-9)
        else:
            ctx.check(len(poly) > 0, 'no histogram of the residuals')
        ctx.check(('censored' in ax.get_title()) == (c == 1), 'title %r of the %s distribution' % (ax.get_title(), model))
        close_figs()
    for fn in (a.drawLinearModel, a.drawResiduals, a.drawResidualsQQplot, a.drawResidualsDistribution):
        if not cens:
            ctx.raises('censored figure of uncensored data', NameError, fn, 'censored')
        ctx.raises('figure of an unknown model', NameError, fn, 'other')
    if bc is None:
        ctx.raises('Box Cox likelihood without Box Cox', Exception, a.drawBoxCoxLikelihood)
    elif bc is not True:
        ctx.raises('Box Cox likelihood with a given parameter', Exception, a.drawBoxCoxLikelihood)
    else:
        boxcox_graph(ctx, a, yu)
    close_figs()
    ctx.state(case['cfg'], case['xp'], case['start'], case['neg'])


def boxcox_graph(ctx, a, y):
    """The drawn likelihood is the profile likelihood up to a constant, and its mark is at the parameter used."""
    fig, ax = a.drawBoxCoxLikelihood()
    lam = a.getBoxCoxParameter()
    cur = [ln for ln in ax.get_lines() if len(ln.get_xdata()) > 10]
    if ctx.check(len(cur) == 1, 'Box Cox likelihood: %d curves' % len(cur)):
        gx, gy = xy(cur[0])
        w = np.array([ref.bc_loglik(y + ref.bc_shift(y), v) for v in gx])
        i = len(gx) // 2
        ctx.close(gy - gy[i], w - w[i], 'Box Cox likelihood', rtol=1e-3, atol=1e-3)
        ctx.check(gx.min() - 1e-9 <= lam <= gx.max() + 1e-9, 'Box Cox parameter %g outside the graph' % lam)
    pts = np.vstack([np.asarray(k.get_offsets(), float) for k in ax.collections] + [np.column_stack(xy(ln)) for ln in ax.get_lines() if len(ln.get_xdata()) == 1] +
                    [np.zeros((0, 2))])
    ctx.check(len(pts) and np.min(np.abs(pts[:, 0] - lam)) < 1e-6 * max(1, abs(lam)), 'the Box Cox parameter %g is not marked' % lam)
    close_figs()


def likelihood(case, ctx):
    t = case['t']
    off = -30.0 if case['neg'] else 0.0
    X, y = tech.data(t, offset=off)
    p = tech.make(t, X, y, 11.0 + off, bc=True, offset=off)
    tech.seed(1)
    p.run()
    boxcox_graph(ctx, p, y)
    before = files()
    p.drawBoxCoxLikelihood('bc.png')
    saved(ctx, 'bc.png', before)
    close_figs()
    ctx.step('likelihood', t)
    ctx.state(t, off)


def validation(case, ctx):
    t, off, bc = case['t'], case['off'], case['bc']
    p, X, y, noise = build(t, bc, 'none', off, True)
    if t == 'adaptive':
        X, y = np.array(p.getInputDOE()), np.array(p.getOutputDOE()).ravel()
    z = ref.boxcox(y + ref.bc_shift(y), bc) if bc else y
    if t in ('chaos1', 'chaos2'):
        pred = np.array(p.getPolynomialChaosResult().getMetaModel()(ot.Sample(X))).ravel()
    else:
        r = p.getKrigingResult()
        m, s = X.mean(axis=0), X.std(axis=0, ddof=1)
        pred = GP((X - m) / s, z, r.getCovarianceModel(), trend_functions('default', 2)).loo()
    name = 'val.png' if bc else None
    before = files()
    fig, ax = p.drawValidationGraph(name)
    saved(ctx, name, before)
    ctx.step('drawValidationGraph', t, off, bc)
    ls = ax.get_lines()
    cloud = [ln for ln in ls if len(ln.get_xdata()) == len(z)]
    if ctx.check(len(cloud) == 1, 'validation graph: %d clouds' % len(cloud)):
        gx, gy = xy(cloud[0])
        o, q = np.argsort(gx), np.argsort(z)
        ctx.close(gx[o], z[q], 'signals of the validation graph', rtol=1e-6, atol=1e-9)
        ctx.close(gy[o], pred[q], 'predictions of the validation graph', rtol=1e-6, atol=1e-4 * np.ptp(z))
        inside(ctx, ax, gx, gy, 'validation graph')
    diag = [xy(ln) for ln in ls if len(ln.get_xdata()) == 2]
    ctx.check(len(diag) == 1 and np.allclose(diag[0][0], diag[0][1]) and diag[0][0][0] <= z.min() and diag[0][0][1] >= z.max(), 'first diagonal of the validation graph')
    close_figs()
    if t == 'chaos1':
        fig, ax = p.drawPolynomialChaosModel()
        ls = ax.get_lines()
        gx, gy = xy(ls[0])
        o, q = np.argsort(gx), np.argsort(X[:, 0])
        ctx.close(gx[o], X[q, 0], 'defects of the chaos figure', rtol=1e-9)
        ctx.close(gy[o], z[q], 'signals of the chaos figure', rtol=1e-6, atol=1e-9)
        inside(ctx, ax, gx, gy, 'drawPolynomialChaosModel')
        gx, gy = xy(ls[1])
        ctx.check((np.diff(gx) >= 0).all() and gx[0] == X[:, 0].min() and gx[-1] == X[:, 0].max(), 'abscissas of the chaos curve are not ordered over the data')
        w = np.array(p.getPolynomialChaosResult().getMetaModel()(ot.Sample(ref.col(gx)))).ravel()
        ctx.close(gy, w, 'chaos curve', rtol=1e-9, atol=1e-9)
        close_figs()
    elif t == 'chaos2':
        ctx.raises('drawPolynomialChaosModel with 2 inputs', Exception, p.drawPolynomialChaosModel)
    ctx.state(t, off, bc)


def lines_(case, ctx):
    """Fitted line of the quantile regression: a regression quantile at 1 - level."""
    X, y = tech.data('qr', 13 + case['k'] % 3, case['k'], noise=0.5)
    ys = np.sort(y)
    noise = float(ys[1]) if case['cens'] == 'noise' else None
    sat = float(ys[-2]) if case['cens'] == 'sat' else None
    p = tech.make('qr', X, y, float(np.quantile(y, 0.45)), noise, sat, bc=case['bc'])
    tech.seed(2)
    p.run()
    x, yu, _, _ = ref.split(X[:, 0], y, noise, sat)
    z = ref.boxcox(yu + ref.bc_shift(yu), case['bc']) if case['bc'] else yu
    for lev in (0.05, 0.2, 0.35, 0.5, 0.6, 0.75, 0.8, 0.9, 0.97):
        fig, ax = p.drawLinearModel(lev)
        ctx.step('drawLinearModel', lev)
        ls = ax.get_lines()
        if not ctx.check(len(ls) == 2, '%d curves' % len(ls)):
            continue
        gx, gy = xy(ls[0])
        o, q = np.lexsort((gy, gx)), np.lexsort((z, x))
        ctx.close(gx[o], x[q], 'defects shown', rtol=1e-9)
        ctx.close(gy[o], z[q], 'signals shown', rtol=1e-6, atol=1e-9)
        inside(ctx, ax, gx, gy, 'drawLinearModel')
        gx, gy = xy(ls[1])
        b = np.polyfit(gx, gy, 1)
        ctx.close(gy, np.polyval(b, gx), 'the fitted curve is not a line', rtol=1e-6, atol=1e-6)
        tau = 1 - lev

        def loss(v):
            return np.sum(np.maximum(tau * v, (tau - 1) * v))
        # exhaustive: an optimal regression quantile goes through two observations
        best = min(loss(z - (z[i] + (z[j] - z[i]) / (x[j] - x[i]) * (x - x[i]))) for i in range(len(x)) for j in range(i) if x[i] != x[j])
        got = loss(z - np.polyval(b, x))
        ctx.check(got <= best * 1.01 + 1e-6, 'level %g: loss %.5f of the drawn line, the regression quantile at 1 - level has %.5f' % (lev, got, best))
        ctx.check(str(lev) in ax.get_title(), 'title %r' % ax.get_title())
        close_figs()
        ctx.state(case['k'], case['cens'], case['bc'], lev)
    before = files()
    p.drawLinearModel(0.5, 'q.png')
    saved(ctx, 'q.png', before)
    close_figs()
