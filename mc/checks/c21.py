"""C21: PLI report the perturbed detection probability, its index and its confidence interval, per defect size."""
import itertools
import os
import numpy as np
import openturns as ot
import otpod
from matplotlib.collections import QuadMesh
from scipy.interpolate import RegularGridInterpolator
from otpod._pli import PLIMeanBase, PLIVarianceBase
from mc import pli, tech
from mc.core import close_figs
from mc.checks.c20 import pod, explicit, DET
from mc.checks.c22 import dist, simulation

META = {'bounds': 'base indices: {mean, variance} x 5 collections of laws (dimension 1 to 3) x 4 operators x 3 output types (ties at the '
        'threshold) x 5 delta lists x {scaled, direct} x 2 simulation sizes x block sizes 1 and 3; on PODs: {chaos noisy, chaos Box-Cox, '
        'kriging, adaptive kriging} x dimension 3, 4 x {mean, variance} x 5 delta lists x 3 laws x 3 defect size lists; every word up to '
        'depth 3 (thorough 4) of settings, runs, drawings and other analyses; detection probability around 0.001 and 0.999',
        'assumptions': ['Monte Carlo draws follow the law of the parameters (Kolmogorov distance under 1.95 / sqrt(n))']}

LAWS = {'u1': [('U', 0., 1.)], 'un': [('U', 2., 4.), ('N', -1., 0.7)], 'nn': [('N', 5., 0.5), ('N', 0.4, 2.)],
        'uu': [('U', -1., 1.), ('U', 99., 101.)], 'unu': [('U', 0.5, 1.5), ('N', 2., 0.3), ('U', 1., 1.5)]}
OPS = ['Greater', 'GreaterOrEqual', 'Less', 'LessOrEqual']
FUN = {'linear': lambda z: [float(np.sum(z))], 'steps': lambda z: [float(np.round(2 * np.sum(z)))], 'curved': lambda z: [float(z[0] + 0.5 * z[-1] ** 2)]}
# perturbation sizes in standard deviations (mean) or in relative standard deviation change (variance)
SH = {'one': [0.4], 'zero': [-0.5, 0.0, 0.5], 'wide': [-1.2, -0.2, 0.1, 0.9], 'int': [-1, 0, 1], 'two': 'TWO', 'desc': [0.9, 0.1, -0.3, -1.2], 'tiny': [-3e-4, 2e-5, 1e-3]}
BCL = [0.95, 0.5, 0.99, 0.8]


def deltas_of(kind, key, laws, scaled):
    """Delta list given to the PLI for a list of perturbation sizes."""
    sizes = [-0.6, 0.3, 1.1] if key == 'two' else SH[key]

    def one(j, t):
        m, s = pli.moments(laws[j])
        if kind == 'mean':
            return t if scaled else m + t * s
        r = 1 + 0.4 * t                     # new standard deviation / old
        return (r - 1) * s / m if scaled else (r * s) ** 2
    if key == 'two':
        return [[one(j, t * (1 if (i + j) % 2 else -0.8)) for j in range(len(laws))] for i, t in enumerate(sizes)]
    return [one(0, t) for t in sizes] if not (kind == 'mean' and scaled) else list(sizes)


def possible(kind, laws, deltas, scaled):
    """Every requested moment exists (and stays well inside)."""
    for j, law in enumerate(laws):
        for row in deltas:
            d = row[j] if isinstance(row, list) else row
            m, s = pli.moments(law)
            v = pli.applied(kind, law, d, scaled)
            if kind == 'mean':
                if abs(v - m) > (1.55 if law[0] == 'U' else 2.5) * s:
                    return False
            elif not 0.15 < v / s ** 2 < (2.7 if law[0] == 'U' else 3.):
                return False
    return True


def cases(tier):
    out = []
    for kind, scaled, lk, sh in itertools.product(('mean', 'variance'), (True, False), LAWS, SH):
        laws = LAWS[lk]
        if scaled and kind == 'variance' and any(abs(pli.moments(l)[0]) < 1e-9 for l in laws):
            continue
        if sh == 'int' and not (kind == 'mean' and scaled):
            continue
        if not possible(kind, laws, deltas_of(kind, sh, laws, scaled), scaled):
            continue
        for op, fk in itertools.product(OPS, FUN):
            for N, block in ((60, 1), (300, 1), (25, 3)):
                odd = (op != 'Greater') + (fk != 'steps') + (N != 60)
                if sh == 'tiny' and (fk != 'linear' or op != 'Greater'):
                    continue
                if tier == 'quick' and odd > 1 and not (fk == 'steps' and N == 60):
                    continue
                out.append({'kind': 'base', 'pert': kind, 'scaled': scaled, 'laws': lk, 'sh': sh, 'op': op, 'f': fk, 'N': N, 'block': block})
    for model in ('noisy', 'boxcox', 'kriging', 'adaptive'):
        for dim, kind, sh, lw, sz in itertools.product((3, 4), ('mean', 'variance'), ('one', 'zero', 'int', 'two', 'desc'),
                                                       ('default', 'normal', 'mixed'), ('default', 'one', 'unsorted')):
            if sh == 'int' and kind == 'variance':
                continue
            odd = (dim != 3) + (sh not in ('zero', 'desc')) + (lw != 'mixed') + (sz != 'unsorted')
            if tier == 'quick' and odd > (2 if model == 'noisy' else 1):
                continue
            out.append({'kind': 'pod', 'model': model, 'dim': dim, 'pert': kind, 'sh': sh, 'law': lw, 'sizes': sz, '_w': 4})
    for model, kind in (('noisy', 'mean'), ('noisy', 'variance'), ('kriging', 'mean')):
        for a in WOPS:
            for b in WOPS:
                out.append({'kind': 'word', 'model': model, 'pert': kind, 'pre': [a, b],
                            'depth': {'quick': 3 if model == 'noisy' and kind == 'mean' else 2, 'thorough': 4 if kind == 'mean' and model == 'noisy' else 3}[tier], '_w': 4})
    for n in range(6):
        out.append({'kind': 'edge', 'n': n})
    out.append({'kind': 'refuse'})
    return out


WOPS = ['run', 'S', 'N', 'L', 'D', 'Q', 'R']


def run(case, ctx):
    return {'base': base, 'pod': on_pod, 'word': words, 'edge': edge, 'refuse': refuse}[case['kind']](case, ctx)


# ---------------------------------------------------------------- base indices
def base(case, ctx):
    laws, kind, scaled = LAWS[case['laws']], case['pert'], case['scaled']
    d = dist(laws)
    dl = deltas_of(kind, case['sh'], laws, scaled)
    f = FUN[case['f']]
    mid = float(f([pli.moments(l)[0] for l in laws])[0])
    op = getattr(ot, case['op'])()
    tech.seed(11)
    r = simulation(d, mid, op, case['N'], f, case['block'])
    cls = PLIMeanBase if kind == 'mean' else PLIVarianceBase
    o = cls(r, d, np.array(dl) if case['N'] == 60 else dl, scaled)
    ctx.step('run', case['laws'], kind, dl, case['op'])
    o.run()
    values = np.array([[pli.applied(kind, laws[j], row[j] if isinstance(row, list) else row, scaled) for j in range(len(laws))] for row in dl])
    x, y = np.array(o.function.getInputHistory()), np.array(o.function.getOutputHistory()).ravel()
    size = case['N'] * case['block']
    if not ctx.check(len(x) == size, 'history of %d points for %d simulations' % (len(x), size)):
        return
    fail = {'Greater': y > mid, 'GreaterOrEqual': y >= mid, 'Less': y < mid, 'LessOrEqual': y <= mid}[case['op']]
    if case['f'] == 'steps':
        ctx.state('ties', bool((y == mid).any()))
    report(ctx, o, kind, laws, x, fail, size, values)
    figures(ctx, o, kind, laws, values, dl)


def report(ctx, o, kind, laws, x, fail, size, values):
    """Everything a PLI object reports after its run, against the reference."""
    pf, pfd, idx, sig, scale = pli.indices(kind, laws, x, fail, size, values)
    got = np.array(o.getPerturbedProbabilityEstimate())
    gi = np.array(o.getIndices())
    if not ctx.check(got.shape == values.shape and gi.shape == values.shape, 'indices of shape %s, expected %s' % (gi.shape, values.shape)):
        return None
    ctx.close(o.getDeltaSample(), values, 'moments applied', rtol=1e-9, atol=1e-12)
    coarse = np.array([[kind == 'variance' and l[0] == 'U' for l in laws]] * len(values))
    for (i, j), c in np.ndenumerate(coarse):
        ctx.close(got[i, j], pfd[i, j], 'perturbed probability, delta %d, parameter %d' % (i, j), rtol=2e-3 if c else 1e-6)
        # the index from the reported perturbed probability
        p = got[i, j]
        w = 1 - pf / p if p < pf else p / pf - 1
        ctx.close(gi[i, j], w, 'index, delta %d, parameter %d' % (i, j), rtol=1e-9, atol=1e-10)
        ctx.close(gi[i, j], idx[i, j], 'index, delta %d, parameter %d (reference)' % (i, j), rtol=3e-3 if c else 1e-6, atol=5e-3 if c else 1e-7)
    for q, lev in enumerate(BCL):
        ci = o.computeConfidenceInterval(lev) if q else o.computeConfidenceInterval()
        if not ctx.check(len(ci) == len(laws) and all(np.shape(c) == (len(values), 2) for c in ci), 'shape of the confidence interval'):
            return None
        z = ot.DistFunc.qNormal(0.5 + lev / 2)
        for (i, j), c in np.ndenumerate(coarse):
            lo, up = ci[j][i]
            ctx.close(0.5 * (lo + up), gi[i, j], 'middle of the confidence interval', rtol=1e-9, atol=1e-10)
            s = (up - lo) / (2 * z)
            ctx.check(abs(s ** 2 - sig[i, j] ** 2) <= (8e-3 if c else 1e-10) * scale[i, j] + 1e-16,
                      lambda: 'standard deviation of index (%d, %d) at level %g: %.8g, expected %.8g' % (i, j, lev, s, sig[i, j]))
    for j, l in enumerate(laws):
        m, s = pli.moments(l)
        ctx.close(o.getOriginalDelta(j), m if kind == 'mean' else s ** 2, 'original moment of parameter %d' % j, rtol=1e-9)
    ctx.state(kind, laws, round(pf, 6), values)
    return pf


def figures(ctx, o, kind, laws, values, dl, call=None, title=None):
    """drawIndices of a PLI object (or of a defect size) against what it reports."""
    gi = np.array(o.getIndices())
    k = len(laws)
    heavy = kind == 'variance' and any(l[0] == 'U' for l in laws)
    for hel, lev, label, name in ((False, 0.95, None, None), (False, None, ['p%d' % i for i in range(k)], 'pli.png'), (True, 0.8, None, None)):
        if hel and heavy and len(values) * k > 9:
            continue
        fig, ax = (call or o.drawIndices)(confidenceLevel=lev, label=label, hellinger=hel, name=name)
        ctx.step('drawIndices', hel, lev)
        if name:
            ctx.check(os.path.exists(name), 'the figure is not saved')
            if os.path.exists(name):
                os.remove(name)
        lines = ax.get_lines()
        if not ctx.check(len(lines) == k, '%d curves, %d parameters' % (len(lines), k)):
            continue
        bands = ax.collections
        ctx.check(len(bands) == (k if lev else 0), '%d confidence bands' % len(bands))
        ci = o.computeConfidenceInterval(lev) if lev else None
        for j in range(k):
            if hel:
                orig = pli.moments(laws[j])[0] if kind == 'mean' else pli.moments(laws[j])[1] ** 2
                want = [pli.hellinger(kind, laws[j], v) * (-1 if v < orig else 1) for v in values[:, j]]
            else:
                want = [row[j] if isinstance(row, list) else row for row in dl]
            ctx.close(lines[j].get_xdata(), want, 'abscissas of parameter %d (%s)' % (j, 'Hellinger' if hel else 'delta'),
                      rtol=2e-2 if hel and kind == 'variance' and laws[j][0] == 'U' else 1e-4 if hel else 1e-9, atol=5e-5 if hel else 1e-12)
            ctx.close(lines[j].get_ydata(), gi[:, j], 'indices drawn for parameter %d' % j, rtol=1e-12)
            want = (label[j] if label else 'X%d' % j) + (' + %d%% CI' % round(lev * 100) if lev else '')
            ctx.check(lines[j].get_label() == want, 'label %r, expected %r' % (lines[j].get_label(), want))
            if lev and len(bands) == k:
                v = bands[j].get_paths()[0].vertices
                fin = ci[j][np.isfinite(ci[j]).all(axis=1)]
                ctx.close([v[:, 1].min(), v[:, 1].max()], [fin.min(), fin.max()], 'confidence band of parameter %d' % j, rtol=1e-9)
        ctx.check(ax.get_xlabel() == ('Hellinger distance' if hel else 'Delta'), 'abscissa label %r' % ax.get_xlabel())
        ctx.check(('Mean' if kind == 'mean' else 'Variance') in ax.get_title() and (title is None or title in ax.get_title()), 'title %r' % ax.get_title())
        close_figs()
    ctx.raises('labels of another dimension', Exception, lambda: (call or o.drawIndices)(label=['a'] * (k + 1)))
    close_figs()


# ---------------------------------------------------------------- on a POD
def laws_of(name, p, k):
    """Laws of the parameters: reference tuples."""
    if name == 'default':
        D = p.getDistribution()
        out = []
        for i in range(k):
            a, b = D.getMarginal(i + 1).getParameter()
            out.append(('U', float(a), float(b)))
        return out
    if name == 'normal':
        return [('N', 0.2 + 0.1 * i, 0.5 + 0.1 * i) for i in range(k)]
    return [('U', -0.6, 1.1), ('N', -0.15, 0.6), ('U', -0.9, -0.2)][:k]


PSIZES = {'default': None, 'one': [0.6], 'unsorted': [0.66, 0.3, 0.58]}


class Record(object):
    """Records the Monte Carlo results of the run (probability estimates of every defect size)."""

    def __enter__(self):
        self.pf, self.old = [], ot.ProbabilitySimulationAlgorithm
        rec = self

        class P(self.old):
            def getResult(s):
                r = super(P, s).getResult()
                rec.pf.append((r.getProbabilityEstimate(), r.getOuterSampling() * r.getBlockSize()))
                return r
        ot.ProbabilitySimulationAlgorithm = P
        return self

    def __exit__(self, *a):
        ot.ProbabilitySimulationAlgorithm = self.old


def setup(case, key=None):
    p, X, y = pod(case['model'], case['dim'])
    k = case['dim'] - 1
    laws = laws_of(case['law'], p, k)
    kind = case['pert']
    scaled = not (kind == 'variance' and any(abs(pli.moments(l)[0]) < 0.05 for l in laws))
    sh = key or case['sh']
    dl = deltas_of(kind, sh, laws, scaled)
    if not possible(kind, laws, dl, scaled):
        scaled = False
        if sh != 'two':
            # the same direct moments cannot suit laws that are far apart: one list per parameter
            dl = [[deltas_of(kind, sh, [l], kind == 'mean')[i] for l in laws] for i in range(len(SH[sh]))]
            dl = [[pli.applied('mean', laws[j], row[j], True) if kind == 'mean' else row[j] for j in range(k)] for row in dl]
        else:
            dl = deltas_of(kind, sh, laws, False)
    return p, X, y, k, laws, kind, scaled, dl


def on_pod(case, ctx):
    p, X, y, k, laws, kind, scaled, dl = setup(case)
    cls = otpod.PLIMean if kind == 'mean' else otpod.PLIVariance
    s = cls(p, dl, scaled)
    if case['law'] != 'default':
        s.setDistribution(dist(laws))
    full = p.getDefectSizes()
    if PSIZES[case['sizes']] is not None:
        full = np.array(sorted(PSIZES[case['sizes']]))
        s.setDefectSizes(PSIZES[case['sizes']])
    s.setSamplingSize(250)
    ctx.close(s.getDefectSizes(), full, 'defect sizes', rtol=1e-12)
    ctx.check(s.getSamplingSize() == 250, 'sampling size')
    tech.seed(5)
    ctx.step('run', case['model'], kind, dl, full)
    with Record() as rec:
        s.run()
    audit(ctx, s, rec, case['model'], case['dim'], kind, laws, scaled, dl, [float(v) for v in full], 250, True)


def metamodel(model, dim, Z):
    p, X, y = pod(model, dim)
    if model in ('kriging', 'adaptive'):
        g, mean, sd = explicit(model, dim)
        return g.predict((Z - mean) / sd)[0]
    return np.array(p.getPolynomialChaosResult().getMetaModel()(ot.Sample(Z))).ravel()


def audit(ctx, s, rec, model, dim, kind, laws, scaled, dl, full, N, draw=False):
    k = dim - 1
    det = (DET ** 0.3 - 1) / 0.3 if model == 'boxcox' else DET
    values = np.array([[pli.applied(kind, laws[j], row[j] if isinstance(row, list) else row, scaled) for j in range(k)] for row in dl])
    A = np.array(s.getIndices())
    if not ctx.check(A.shape == (len(values), k, len(full)), 'indices of shape %s' % (A.shape,)):
        return None
    kept = []
    if rec.pf:
        ctx.check(len(rec.pf) >= len(full) and all(n == N for _, n in rec.pf), 'Monte Carlo simulations %s, expected %d of size %d' % (rec.pf, len(full), N))
    for d, a in enumerate(full):
        try:
            o = s.getPLIObject(d)
        except Exception:
            ctx.check(np.isnan(A[:, :, d]).all(), 'indices of the refused defect size %g are not NaN' % a)
            if len(rec.pf) == len(full):
                ctx.check(not 1e-3 < rec.pf[d][0] < 0.999, 'defect size %g is refused with a probability %g' % (a, rec.pf[d][0]))
            Z = np.column_stack([np.full(4000, a), np.array(dist(laws).getSample(4000))])
            q = np.mean(metamodel(model, dim, Z) > det)
            ctx.check(q < 0.05 or q > 0.95, 'defect size %g is refused with a probability about %.3f' % (a, q))
            ctx.raises('drawIndices(%d)' % d, Exception, s.drawIndices, d)
            continue
        kept.append(d)
        x, out = np.array(o.function.getInputHistory()), np.array(o.function.getOutputHistory()).ravel()
        if not ctx.check(x.shape == (N, k), 'history of shape %s for %d simulations' % (x.shape, N)):
            continue
        Z = np.column_stack([np.full(N, a), x])
        ctx.close(out, metamodel(model, dim, Z), 'outputs simulated at defect %g' % a, rtol=1e-5, atol=1e-5)
        m = N
        for i in range(k):
            u = np.sort([dist(laws).getMarginal(i).computeCDF([v]) for v in x[:, i]])
            ks = max(np.max(np.arange(1, m + 1) / m - u), np.max(u - np.arange(m) / m))
            ctx.check(ks <= 1.95 / np.sqrt(m), 'parameter %d does not follow its law (Kolmogorov distance %.3f)' % (i, ks))
        fail = out > det
        pf = report(ctx, o, kind, laws, x, fail, N, values)
        ctx.check(pf is None or 1e-3 < pf < 0.999, 'indices computed with a probability %s' % pf)
        if pf is not None and len(rec.pf) == len(full):
            ctx.close(rec.pf[d][0], pf, 'detection probability at defect %g' % a, rtol=1e-9)
        ctx.close(A[:, :, d], o.getIndices(), 'indices of defect %g' % a, rtol=1e-12)
    for bad in (-1, len(full)):
        ctx.raises('getPLIObject(%d)' % bad, Exception, s.getPLIObject, bad)
    slices(ctx, s, A)
    if draw and kept:
        d = kept[len(kept) // 2]
        figures(ctx, s.getPLIObject(d), kind, laws, values, dl, lambda **kw: s.drawIndices(d, **kw), '%.3f' % full[d])
        contour(ctx, s, A, kept, full, dl, k, kind)
    ctx.state(model, dim, kind, laws, full, kept, np.nan_to_num(A))
    return A


def slices(ctx, s, A):
    """Every combination of getIndices arguments."""
    for i, j, d in itertools.product([None] + list(range(A.shape[0])), [None] + list(range(A.shape[1])), [None] + list(range(A.shape[2]))):
        w = A[slice(None) if i is None else i, slice(None) if j is None else j, slice(None) if d is None else d]
        g = np.array(s.getIndices(i, j, d))
        if ctx.check(g.shape == np.shape(w), 'getIndices(%s, %s, %s) has shape %s' % (i, j, d, g.shape)):
            ctx.close(g, w, 'getIndices(%s, %s, %s)' % (i, j, d), rtol=0, atol=0)


def painted(fig, ax):
    """The value painted at a point of the axes, and its color scale, whatever artist paints it."""
    fig.canvas.draw()
    for im in ax.get_images():
        a, (l, r, b, t) = np.asarray(im.get_array(), float), im.get_extent()
        up = im.origin == 'lower'

        def f(x, y):
            v = (y - b) / (t - b)
            i = int((v if up else 1 - v) * a.shape[0])
            return a[min(max(i, 0), a.shape[0] - 1), min(max(int((x - l) / (r - l) * a.shape[1]), 0), a.shape[1] - 1)]
        return f, im.get_clim()
    for q in ax.collections:
        if isinstance(q, QuadMesh):
            c = np.asarray(q.get_coordinates())
            a = np.asarray(q.get_array(), float).reshape(c.shape[0] - 1, c.shape[1] - 1)
            ex, ey = c[0, :, 0], c[:, 0, 1]

            def g(x, y):
                i = [k for k in range(len(ey) - 1) if min(ey[k:k + 2]) <= y <= max(ey[k:k + 2])]
                j = [k for k in range(len(ex) - 1) if min(ex[k:k + 2]) <= x <= max(ex[k:k + 2])]
                return a[i[0], j[0]] if i and j else np.nan
            return g, q.get_clim()
    return None, None


def contour(ctx, s, A, kept, full, dl, k, kind):
    for j in range(k):
        if len(kept) < 2 or len(A) < 2:
            continue
        label = 'par' if j else None
        fig, ax = s.drawContourIndices(j, label)
        ctx.step('drawContourIndices', j)
        ds = [row[j] if isinstance(row, list) else row for row in dl]
        xs, Z = [full[d] for d in kept], A[:, j, kept]
        shown, clim = painted(fig, ax)
        if ctx.check(shown is not None, 'no image of the indices'):
            ctx.close([[shown(x, d) for x in xs] for d in ds], Z, 'contour of parameter %d: indices shown at deltas %s and sizes %s' % (j, ds, xs), rtol=1e-12)
            top = np.nanmax(np.abs(Z))
            ctx.close(clim, [-top, top], 'color scale', rtol=1e-9)
        lines = [c for c in ax.collections if hasattr(c, 'allsegs')]
        if ctx.check(len(lines) == 1, '%d sets of contour lines' % len(lines)):
            o = np.argsort(ds)
            at = RegularGridInterpolator((np.array(ds)[o], np.array(xs)), Z[o])
            for level, segs in zip(lines[0].levels, lines[0].allsegs):
                for g in segs:
                    # the labels cut the lines anywhere: keep the points on the grid
                    g = np.reshape([q for q in np.reshape(g, (-1, 2)) if min(np.min(np.abs(q[0] - xs)) / np.ptp(xs), np.min(np.abs(q[1] - ds)) / np.ptp(ds)) < 1e-9], (-1, 2))
                    if len(g):
                        ctx.close(at(np.clip(g[:, ::-1], [min(ds), min(xs)], [max(ds), max(xs)])), [level] * len(g), 'index on the contour line %g of parameter %d' % (level, j), rtol=1e-6, atol=1e-6 * top)
        ctx.check((label or 'X%d' % j) in ax.get_title() and ('Mean' if kind == 'mean' else 'Variance') in ax.get_title(), 'title %r' % ax.get_title())
        close_figs()
    ctx.raises('drawContourIndices(%d)' % k, AttributeError, s.drawContourIndices, k)
    close_figs()


# ---------------------------------------------------------------- histories
def words(case, ctx):
    model, kind = case['model'], case['pert']
    cs = dict(case, dim=3, law='mixed', sh='zero')
    for rest in range(0, case['depth'] - 2 + 1):
        for tail in itertools.product(WOPS, repeat=rest):
            word = case['pre'] + list(tail) + ['run']
            p, X, y, k, laws, kind, scaled, dl = setup(cs)
            s = (otpod.PLIMean if kind == 'mean' else otpod.PLIVariance)(p, dl, scaled)
            s.setDistribution(dist(laws))
            full, N, snap = [0.5, 0.6], 80, None
            s.setSamplingSize(N)
            s.setDefectSizes(full)
            n0 = len(ctx.problems)
            for i, o in enumerate(word):
                ctx.step(o)
                if o == 'run':
                    tech.seed(6 + i)
                    with Record() as rec:
                        s.run()
                    audit(ctx, s, rec, model, 3, kind, laws, scaled, dl, full, N)
                    snap = snapshot(s, full)
                elif o == 'S':
                    full = [0.45, 0.55, 0.62] if len(full) == 2 else [0.5, 0.6]
                    s.setDefectSizes(full[::-1])
                    snap = None
                elif o == 'N':
                    N = 120 if N == 80 else 80
                    s.setSamplingSize(N)
                elif o == 'L':
                    # the perturbations were chosen for these laws: exchange the supports slightly
                    laws = [(l[0], l[1] - 0.05, l[2] + 0.05) if l[0] == 'U' else (l[0], l[1], l[2] + 0.05) for l in laws]
                    s.setDistribution(dist(laws))
                elif o == 'R':
                    # other analyses of the same POD
                    t = (otpod.PLIVariance if kind == 'mean' else otpod.PLIMean)(p, [0.02], True)
                    t.setDefectSizes([0.58])
                    t.setSamplingSize(60)
                    t.setDistribution(dist(LAWS['nn']))
                    t.run()
                elif o == 'Q':
                    ctx.raises('setDefectSizes beyond the range', ValueError, s.setDefectSizes, [0.5, 99.0])
                    ctx.raises('setDistribution of another dimension', AttributeError, s.setDistribution, dist(LAWS['u1']))
                    ctx.raises('setDistribution(Normal)', ValueError, s.setDistribution, ot.Normal(2))
                elif o == 'D' and snap is not None:
                    for d in range(len(full)):
                        if snap['kept'][d]:
                            s.drawIndices(d, hellinger=False)
                    close_figs()
                now = snapshot(s, full)
                if snap is None:
                    ctx.check(not any(now['kept']) and all(v == 'nan' for v in now['ind']), 'indices available before a run: %s after %s' % (now, word[:i + 1]))
                    ctx.raises('drawIndices before a run', Exception, s.drawIndices, 0)
                    ctx.raises('drawContourIndices before a run', Exception, s.drawContourIndices, 0)
                    close_figs()
                else:
                    ctx.check(now == snap, 'results change after %s: %s, before %s' % (word[:i + 1], now, snap))
                ctx.close(s.getDefectSizes(), full, 'defect sizes after %s' % word[:i + 1], rtol=1e-12)
                ctx.check(s.getSamplingSize() == N, 'sampling size after %s' % word[:i + 1])
            if len(ctx.problems) > n0:
                return


def snapshot(s, full):
    kept = []
    for d in range(len(full)):
        try:
            s.getPLIObject(d)
            kept.append(True)
        except Exception:
            kept.append(False)
    return {'kept': kept, 'ind': ['nan' if np.isnan(v) else float(v) for v in np.array(s.getIndices()).ravel()]}


# ---------------------------------------------------------------- bounds of the probability
def edge(case, ctx):
    """The detection probability is exactly 1/1000 or 999/1000, or next to it."""
    p, X, y = pod('noisy', 3)
    n = case['n']
    low = n % 2 == 0
    laws = laws_of('mixed', p, 2)
    d = dist(laws)
    # outputs of a large sample at each defect size, to aim at the wanted probability
    tech.seed(40 + n)
    P = np.array(d.getSample(20000))
    best = min(np.linspace(X[:, 0].min(), X[:, 0].max(), 60),
               key=lambda a: abs(np.mean(metamodel('noisy', 3, np.column_stack([np.full(len(P), a), P])) > DET) - (1.2e-3 if low else 0.9988)))
    seen = set()
    for seed in range(12):
        s = otpod.PLIMean(p, [0.1], True)
        s.setDistribution(d)
        s.setDefectSizes([best])
        size = 1000 if n < 4 else 2000
        s.setSamplingSize(size)
        tech.seed(100 * n + seed)
        with Record() as rec:
            s.run()
        if not rec.pf:
            return
        pf = rec.pf[-1][0]
        seen.add(pf)
        want = 1e-3 < pf < 0.999
        try:
            s.getPLIObject(0)
            got = True
        except Exception:
            got = False
        ctx.step('run', pf)
        ctx.check(got == want, 'indices %s with a detection probability %r' % ('computed' if got else 'refused', pf))
        ctx.check(np.isnan(np.array(s.getIndices())).all() != want, 'values of the indices with a detection probability %r' % pf)
    ctx.state(n, sorted(seen))


def refuse(case, ctx):
    for t in ('binomial', 'qr', 'hitmiss'):
        X, y = tech.data(t)
        p = tech.make(t, X, y, 11.0)
        tech.seed(1)
        p.run()
        for cls in (otpod.PLIMean, otpod.PLIVariance):
            ctx.raises('%s(%s)' % (cls.__name__, t), Exception, cls, p, [0.1])
    X, y = tech.data('chaos2')
    p = tech.make('chaos2', X, y, 11.0)
    tech.seed(1)
    p.run()
    for cls in (otpod.PLIMean, otpod.PLIVariance):
        ctx.raises('%s with one parameter' % cls.__name__, Exception, cls, p, [0.1])
    laws = LAWS['un']
    d = dist(laws)
    r = simulation(d, 1.0)
    for cls in (PLIMeanBase, PLIVarianceBase):
        for bad in ([[1., 2., 3.]], [[1., 2., 3.], [1., 2., 3.]]):
            ctx.raises('deltas of dimension 3 for 2 parameters', AttributeError, cls, r, d, bad)
        R = ot.CorrelationMatrix(2)
        R[0, 1] = 0.5
        dep = ot.JointDistribution([ot.Uniform(2, 4), ot.Normal(-1, 0.7)], ot.NormalCopula(R))
        ctx.raises('dependent parameters', Exception, cls, r, dep, [1.0])
        g = ot.PythonFunction(2, 1, lambda x: [sum(x)])
        a = ot.ProbabilitySimulationAlgorithm(ot.ThresholdEvent(ot.CompositeRandomVector(g, ot.RandomVector(d)), ot.Greater(), 1.0))
        a.setMaximumOuterSampling(10)
        a.run()
        ctx.raises('simulation without history', Exception, cls, a.getResult(), d, [1.0])
    ctx.raises('negative variance', AttributeError, PLIVarianceBase, r, d, [0.1, -0.1])
    ctx.raises('null variance', AttributeError, PLIVarianceBase, r, d, [0.0])
