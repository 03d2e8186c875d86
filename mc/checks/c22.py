"""C22: perturbed densities of the PLI are the exponentially tilted laws with the requested moment."""
import itertools
import numpy as np
import openturns as ot
from otpod._pli import PLIMeanBase, PLIVarianceBase
from mc import pli, tech
from mc.core import close_figs

META = {'bounds': '{mean, variance} x 10 Uniform intervals (1e-3 to 1e3 wide, offsets to 1e3) and 5 Normal laws x 13 perturbation sizes x '
        'position of the perturbed parameter in dimension 1 to 3 x {1-D deltas, 2-D deltas} x {scaled, direct}; every density on a grid '
        'over the support and outside; every pair of perturbations for the order of evaluation; refusals',
        'assumptions': ['variance perturbations of a Uniform between 1% and 98.3% of the largest possible one are resolved to 1e-3 '
                        '(tolerance of the optimizer of the implementation)']}

UNI = [(0., 1.), (-1., 1.), (2., 3.), (10., 12.), (-5., -4.5), (100., 101.), (0., 1000.), (0., 1e-3), (1000., 1001.), (-0.3, 2.1)]
NOR = [(0., 1.), (5., 0.5), (-100., 3.), (1e-3, 1e-4), (2., 40.)]
MEAN = [-.97, -.7, -.3, -.05, -1e-3, -1e-7, 0., 1e-9, 1e-3, .05, .3, .7, .97]
VAR = [.03, .1, .3, .6, .95, .9999, 1., 1.00001, 1.05, 1.3, 1.8, 2.4, 2.8]


def laws_all():
    return [('U',) + u for u in UNI] + [('N',) + n for n in NOR]


def dist(laws):
    return ot.JointDistribution([ot.Uniform(l[1], l[2]) if l[0] == 'U' else ot.Normal(l[1], l[2]) for l in laws])


def simulation(d, thr, op=None, size=20, f=None, block=1):
    """A Monte Carlo result with a recorded history."""
    n = d.getDimension()
    g = ot.MemoizeFunction(ot.PythonFunction(n, 1, f or (lambda x: [sum(x)])))
    g.enableHistory()
    g.clearHistory()
    g.clearCache()
    ev = ot.ThresholdEvent(ot.CompositeRandomVector(g, ot.RandomVector(d)), op or ot.Greater(), thr)
    a = ot.ProbabilitySimulationAlgorithm(ev)
    a.setMaximumOuterSampling(size)
    a.setBlockSize(block)
    a.setMaximumCoefficientOfVariation(-1)
    a.run()
    return a.getResult()


def value(kind, law, frac):
    """New moment for a perturbation size."""
    m, s = pli.moments(law)
    if kind == 'mean':
        return m + frac * ((law[2] - law[1]) / 2 if law[0] == 'U' else 3 * s)
    return frac * s ** 2


def delta_of(kind, law, frac, scaled):
    v = value(kind, law, frac)
    if not scaled:
        return v
    m, s = pli.moments(law)
    return (v - m) / s if kind == 'mean' else (np.sqrt(v) - s) / m


def build(kind, laws, deltas, scaled):
    d = dist(laws)
    tech.seed(3)
    r = simulation(d, float(sum(pli.moments(l)[0] for l in laws)))
    return (PLIMeanBase if kind == 'mean' else PLIVarianceBase)(r, d, deltas, scaled)


def cases(tier):
    out = []
    alls = laws_all()
    for kind in ('mean', 'variance'):
        for i, law in enumerate(alls):
            for scaled in (False, True):
                if scaled and kind == 'variance' and pli.moments(law)[0] == 0:
                    continue
                out.append({'kind': kind, 'laws': [law], 'marginal': 0, 'scaled': scaled, 'two': False, '_w': 2})
        # position of the perturbed parameter among others
        for i, law in enumerate(alls):
            for dim in (2, 3):
                for pos in range(dim):
                    for two in (False, True):
                        if tier == 'quick' and dim == 3 and (i + pos) % 2 == (1 if two else 0):
                            continue
                        others = [alls[(i + 4 + 3 * q) % len(alls)] for q in range(dim - 1)]
                        ls = others[:pos] + [law] + others[pos:]
                        if two:
                            out.append({'kind': kind, 'laws': ls, 'marginal': pos, 'scaled': (i + pos) % 2 == 0 and kind == 'mean', 'two': True})
                        else:
                            out.append({'kind': kind, 'laws': ls, 'marginal': pos, 'scaled': False, 'two': False})
        for i, law in enumerate(alls):
            out.append({'kind': kind, 'order': True, 'laws': [law, alls[(i + 5) % len(alls)]]})
    out.append({'refuse': True})
    return out


def fractions(kind, law, lean):
    f = MEAN if kind == 'mean' else VAR
    return f if not lean else f[::3]


def run(case, ctx):
    if case.get('refuse'):
        return refuse(ctx)
    laws = [tuple(l) for l in case['laws']]
    if case.get('order'):
        return order(case, ctx, laws)
    kind, pos, scaled = case['kind'], case['marginal'], case['scaled']
    law = laws[pos]
    fr = fractions(kind, law, len(laws) > 1)
    col = [delta_of(kind, law, f, scaled) for f in fr]
    if case['two']:
        deltas = [[col[i] if j == pos else delta_of(kind, laws[j], fr[-1 - i], scaled) for j in range(len(laws))] for i in range(len(fr))]
    else:
        deltas = col
    ctx.step('build', kind, laws, pos, scaled)
    o = build(kind, laws, deltas, scaled)
    got = np.array(o.getDeltaSample())
    if not ctx.check(got.shape == (len(fr), len(laws)), 'delta sample of shape %s' % (got.shape,)):
        return
    for j in range(len(laws)):
        want = [pli.applied(kind, laws[j], deltas[i][j] if case['two'] else deltas[i], scaled) for i in range(len(fr))]
        ctx.close(got[:, j], want, 'moments applied to parameter %d' % j, rtol=1e-9, atol=1e-12 * abs(want[0]))
        m, s = pli.moments(laws[j])
        ctx.close([o.getOriginalDelta(j)], [m if kind == 'mean' else s ** 2], 'original moment of parameter %d' % j, rtol=1e-9)
    for i, f in enumerate(fr):
        one(ctx, o, kind, law, pos, i, float(got[i, pos]), showOriginal=i % 2 == 0)


def grid(law, value, kind):
    if law[0] == 'U':
        w = law[2] - law[1]
        return law[1] - 0.0495 * w, law[2] + 0.0495 * w, 1100
    m, s = law[1:]
    c = value if kind == 'mean' else m
    sd = s if kind == 'mean' else max(s, np.sqrt(value))
    return min(c, m) - 7 * sd, max(c, m) + 7 * sd, 1101


def one(ctx, o, kind, law, pos, idelta, v, showOriginal=False):
    """Density of one perturbation, as drawn."""
    lo, hi, n = grid(law, v, kind)
    ctx.step('density', kind, law, idelta, v)
    label = None if idelta % 3 else 'P'
    fig, ax = o.drawMarginal1DPDF(pos, idelta, showOriginal, label, lo, hi, n)
    lines = [ln for ln in ax.get_lines() if len(ln.get_xdata()) == n]
    if not ctx.check(len(lines) == (2 if showOriginal else 1), '%d curves' % len(lines)):
        close_figs()
        return None
    x, y = np.asarray(lines[0].get_xdata(), float).ravel(), np.asarray(lines[0].get_ydata(), float).ravel()
    ctx.close(x, np.linspace(lo, hi, n), 'abscissas of the density', rtol=1e-9, atol=1e-12 * (abs(lo) + abs(hi)))
    ctx.check('delta = %.2e' % v in lines[0].get_label() and (label or 'X%d' % pos) in lines[0].get_label(), 'label %r' % lines[0].get_label())
    if showOriginal:
        y0 = np.asarray(lines[1].get_ydata(), float).ravel()
        ctx.close(y0, pli.original(law)(x), 'original density drawn', rtol=1e-6, atol=1e-9 * y0.max())
    close_figs()
    want = pli.density(kind, law, v)(x)
    coarse = kind == 'variance' and law[0] == 'U'
    tol = (2e-3 if coarse else 1e-6) * (want + (want.max() if coarse else 1e-3 * want.max()))
    bad = ~(np.abs(y - want) <= tol)
    k = int(np.argmax(np.abs(y - want) - tol)) if not np.isnan(y).any() else int(np.argmax(np.isnan(y)))
    ctx.check(not bad.any(), lambda: '%s of %s moved to %.9g: density %.6g at %.6g, expected %.6g' % (kind, law, v, y[k], x[k], want[k]))
    # the requested moment and the mass, from the drawn density alone (cells never cross the ends of the support)
    h = x[1] - x[0]
    mass = y.sum() * h
    ctx.check(abs(mass - want.sum() * h) <= (1e-4 if coarse else 1e-6), lambda: 'total mass of the drawn density %.7f, of the expected one %.7f' % (mass, want.sum() * h))
    mean = (y * x).sum() * h / mass
    var = (y * (x - mean) ** 2).sum() * h / mass
    sd0 = pli.moments(law)[1]
    t = 6e-3
    ctx.check(abs(mass - 1) <= t, 'total mass %.5f' % mass)
    ctx.check(abs(mean - (v if kind == 'mean' else pli.moments(law)[0])) <= t * sd0, 'mean %.6g for %s %.6g of %s' % (mean, kind, v, law))
    if kind == 'variance':
        ctx.check(abs(var / v - 1) <= 2 * t, 'variance %.6g, requested %.6g' % (var, v))
    ctx.state(kind, law, round(v, 9), round(float(y.max()), 6))
    return y


def order(case, ctx, laws):
    """The density of a perturbation does not depend on what was evaluated before."""
    kind = case['kind']
    fr = [f for f in (MEAN[1::4] if kind == 'mean' else VAR[1::4])]
    deltas = [[delta_of(kind, l, f, False) for l in laws] for f in fr]
    for a, b in itertools.product(range(len(fr) * 2), repeat=2):
        o = build(kind, laws, deltas, False) if a != b or a == 0 else o
        for c in (a, b, a):
            pos, i = c % 2, c // 2
            lo, hi, n = grid(laws[pos], deltas[i][pos], kind)
            fig, ax = o.drawMarginal1DPDF(pos, i, False, None, lo, hi, 41)
            y = np.asarray(ax.get_lines()[0].get_ydata(), float).ravel()
            close_figs()
            want = pli.density(kind, laws[pos], deltas[i][pos])(np.linspace(lo, hi, 41))
            ctx.step('density', c)
            ctx.close(y, want, '%s density of parameter %d, delta %d after %s' % (kind, pos, i, (a, b, a)), rtol=5e-3, atol=5e-3 * want.max())


def refuse(ctx):
    for law in (('U', 0., 1.), ('U', -3., -1.), ('U', 100., 101.)):
        a, b = law[1:]
        for v in (a, b, b + 0.01, a - 5.):
            o = build('mean', [law], [v], False)
            ctx.raises('mean %g of %s' % (v, law), ValueError, o.drawMarginal1DPDF, 0, 0)
        h = 0.5 * (b - a)
        for v in (h * h, 1.1 * h * h, 5.):
            o = build('variance', [law], [v], False)
            ctx.raises('variance %g of %s' % (v, law), ValueError, o.drawMarginal1DPDF, 0, 0)
        close_figs()
        for v in (0., -0.1, [0.1, -1.]):
            ctx.raises('variance %s' % (v,), AttributeError, build, 'variance', [law], np.atleast_1d(v), False)
    for d in (ot.Exponential(1.), ot.LogNormal(0., 1., 0.), ot.Beta(2., 2., 0., 1.)):
        for cls in (PLIMeanBase, PLIVarianceBase):
            tech.seed(3)
            r = simulation(ot.JointDistribution([d]), 0.5)
            o = cls(r, ot.JointDistribution([d]), [0.7], False)
            ctx.raises('%s law' % d.getName(), NotImplementedError, o.drawMarginal1DPDF, 0, 0)
            close_figs()
