"""C16: a detection size is where the curve crosses the level, or is refused."""
import numpy as np
import openturns as ot
from mc import ref, tech

META = {'bounds': '9 techniques x 2 (5) designs x 3 detection thresholds x settings (plain, Box Cox, censoring, restricted '
        'defect sizes) x every probability level 0.01 ... 0.99 (linear techniques: all 99, others: 15-33) plus levels '
        'exactly on the ends of the curve x 3 confidence levels and none; every label of a whole percentage',
        'assumptions': ['for the quantile regression the curve is the regression itself, equal to the POD model at the quantiles']}

SET = [{}, {'bc': 0.5}, {'noise': 1, 'sat': 1}, {'sub': 1}]
CONF = [None, 0.6, 0.95, 0.29]


def cases(tier):
    for t in tech.ALL:
        for k in range(1, 3 if tier == 'quick' else 6):
            for det in (0.3, 0.5, 0.75):
                for s in range(len(SET)):
                    if (SET[s].get('bc') and t == 'hitmiss') or (SET[s].get('sub') and t in ('binomial', 'gauss', 'kernel', 'qr')):
                        continue
                    yield {'t': t, 'k': k, 'det': det, 'set': s, 'tier': tier,
                           '_w': {'kernel': 6, 'gauss': 5, 'adaptive': 5, 'qr': 5, 'kriging': 3}.get(t, 1)}


def percents(t, tier):
    if t in ('binomial', 'chaos1', 'chaos2', 'kriging', 'adaptive', 'hitmiss'):
        return list(range(1, 100))
    step = {'gauss': 3, 'kernel': 9, 'qr': 7}[t] if tier == 'quick' else {'gauss': 1, 'kernel': 4, 'qr': 3}[t]
    return sorted(set(list(range(2, 100, step)) + [29, 57, 58, 90]))


def crosses(f, a, p, lo, hi, tol=5e-5):
    """p lies between the values taken around a (curves with steps included)."""
    h = tol * (1.0 + hi - lo)
    left, right = f([max(lo, a - h)])[0], f([min(hi, a + h)])[0]
    if abs(f([min(hi, max(lo, a))])[0] - p) < 1e-6:
        return True
    return min(left, right) - 1e-6 <= p <= max(left, right) + 1e-6


def run(case, ctx):
    t, s = case['t'], SET[case['set']]
    X, y = tech.data(t, None if case['set'] != 2 else (18 if tech.dim_of(t) == 1 else 20), case['k'])
    ys = np.sort(y)
    kw = {}
    if 'noise' in s:
        kw = {'noise': 0.5 * (ys[0] + ys[1]), 'sat': 0.5 * (ys[-1] + ys[-2])}
    det = float(ys[0] + case['det'] * (ys[-1] - ys[0])) + 0.0123
    sim = {'gauss': 60, 'kernel': 15, 'qr': 12, 'chaos1': 40, 'chaos2': 40, 'kriging': 30, 'adaptive': 10}.get(t)
    ctx.step('build', t, case['k'], det, kw)
    p = tech.make(t, X, y, det, kw.get('noise'), kw.get('sat'), s.get('bc', False), sim=sim,
                  **({'start': 0} if t in ('kriging', 'adaptive') else {}))
    if t == 'hitmiss':
        p.setCandidateSize(30)
    keep = np.ones(len(y), bool) if not kw else (y > kw['noise']) & (y < kw['sat'])
    xk = X[keep, 0]
    lo, hi = (X[:, 0].min(), X[:, 0].max()) if t in ('binomial', 'gauss', 'kernel') else (xk.min(), xk.max())
    if t not in ('binomial', 'gauss', 'kernel', 'qr'):
        d = np.linspace(lo, hi, 7)
        if 'sub' in s:
            d = np.linspace(lo + 0.2 * (hi - lo), hi - 0.25 * (hi - lo), 6)
        lo, hi = d.min(), d.max()
        p.setDefectSizes(d[::-1] if case['k'] % 2 else d)
    tech.seed(5)
    try:
        p.run()
    except Exception:
        if t == 'qr' or (t == 'hitmiss' and len(set(y[keep] > det)) == 1):
            ctx.state(t, 'refused')
            return
        raise
    ctx.step('run')
    pod = p.getPODModel()
    cls = {c: p.getPODCLModel(c) for c in CONF if c is not None}
    pct = percents(t, case['tier'])
    lev = [(k / 100.0, k) for k in pct]
    if t != 'qr':
        for v in (pod([lo])[0], pod([hi])[0]):
            if 0 < v < 1:
                lev.append((v, None))
    for pl, k in lev:
        base = None
        for c in CONF:
            ctx.step('computeDetectionSize', pl, c)
            try:
                r = p.computeDetectionSize(pl, c) if c is not None else p.computeDetectionSize(pl)
            except Exception as e:
                ctx.check('POD model' in str(e), 'computeDetectionSize(%r, %r) failed: %r' % (pl, c, e))
                r = None
            if c is None:
                base = r
            # must it exist?
            if t == 'qr':
                inside = None
            else:
                a, b = pod([lo])[0], pod([hi])[0]
                inside = a <= pl <= b
                margin = min(abs(pl - a), abs(pl - b))
                if c is not None:
                    a, b = cls[c]([lo])[0], cls[c]([hi])[0]
                    inside = inside and a <= pl <= b
                    margin = min(margin, abs(pl - a), abs(pl - b))
                if margin < 1e-9 and k is not None:
                    inside = None
            if inside is not None:
                ctx.check((r is not None) == inside, lambda: 'level %r, confidence %r: %s although the curve goes from %r to %r'
                          % (pl, c, 'refused' if r is None else 'answered', a, b))
            ctx.state(t, case['k'], case['det'], case['set'], k, c, r is None)
            if r is None:
                continue
            ctx.check(len(r) == (1 if c is None else 2), 'computeDetectionSize(%r, %r) gives %d values' % (pl, c, len(r)))
            if base is not None:
                ctx.check(r[0] == base[0], 'a%r is %r without and %r with confidence %r' % (pl, base[0], r[0], c))
            for j, f in enumerate([pod] + ([cls[c]] if c is not None else [])):
                ok = lo - 1e-9 <= r[j] <= hi + 1e-9
                ctx.check(ok, 'detection size %r outside the defect interval [%r, %r]' % (r[j], lo, hi))
                if not ok or (t == 'qr' and j == 0):
                    continue
                ctx.check(crosses(f, r[j], pl, lo, hi), lambda: '%s at the detection size %r is %r, not %r' %
                          ('POD' if j == 0 else 'POD at confidence level %r' % c, r[j], f([r[j]])[0], pl))
            if k is not None:
                want = ['a%d' % k] + ([] if c is None else ['a%d/%d' % (k, round(100 * c))])
                ctx.check(list(r.getDescription()) == want, lambda: 'labels %r for level %r and confidence %r' %
                          (list(r.getDescription()), pl, c))
        if len(ctx.problems) > 6:
            return
    if t == 'qr':
        prev = -np.inf
        for q in (0.2, 0.5, 0.8, 0.95):
            try:
                a = p.computeDetectionSize(q)[0]
            except Exception:
                continue
            if a < prev + 1e-9:
                break              # crossing regression lines: the curve is not ordered
            prev = a
            ctx.step('quantile node', q, a)
            nodes = [p.computeDetectionSize(u)[0] for u in (0.2, 0.5, 0.8, 0.95) if _has(p, u)]
            if nodes == sorted(nodes):
                ctx.close(pod([a])[0], q, 'POD model at the detection size of quantile %r' % q, atol=1e-4)


def _has(p, u):
    try:
        p.computeDetectionSize(u)
        return True
    except Exception:
        return False
