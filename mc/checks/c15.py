"""C15: every curve is a probability, and the confidence level is honoured."""
import numpy as np
import openturns as ot
from mc import ref, tech

META = {'bounds': '9 techniques x 2 (5) designs x 5 detection thresholds (nothing detected ... everything detected) x '
        'thresholds / Box Cox settings; POD and confidence curves on 9 defect sizes and 61 (121) confidence levels from 0.01 '
        'to 0.9995, not rounded to any number of decimals; confidence curves compared pairwise over the whole chain of levels',
        'assumptions': ['the quantile regression POD refuses to run when a resample never reaches the threshold']}

DET = {'below': -0.1, 'low': 0.15, 'mid': 0.5, 'high': 0.85, 'above': 1.1}
SET = [{}, {'bc': 0.5}, {'noise': 1, 'sat': 1}]


def levels(tier):
    n = 60 if tier == 'quick' else 120
    base = [0.01 + 0.98 * i / n + 0.0007 * ((i * 7) % 5) / 5 for i in range(n)]
    return sorted(base + [0.5, 0.9, 0.95, 0.99, 0.9915, 0.9951, 0.999, 0.9995])


def cases(tier):
    for t in tech.ALL:
        for k in range(1, 3 if tier == 'quick' else 6):
            for det in DET:
                for s in range(len(SET)):
                    if SET[s].get('bc') and t == 'hitmiss':
                        continue
                    yield {'t': t, 'k': k, 'det': det, 'set': s, 'tier': tier, '_w': {'kernel': 6, 'adaptive': 5, 'gauss': 3,
                                                                                    'kriging': 3}.get(t, 1)}


def run(case, ctx):
    t, s = case['t'], SET[case['set']]
    X, y = tech.data(t, None if case['set'] != 2 else (18 if tech.dim_of(t) == 1 else 20), case['k'])
    ys = np.sort(y)
    kw = {}
    if 'noise' in s:
        kw['noise'] = 0.5 * (ys[0] + ys[1])
    if 'sat' in s:
        kw['sat'] = 0.5 * (ys[-1] + ys[-2])
    if 'bc' in s:
        kw['bc'] = s['bc']
    f = DET[case['det']]
    det = float(ys[0] + f * (ys[-1] - ys[0])) if 0 <= f <= 1 else float(ys[0] - 1.0 if f < 0 else ys[-1] + 1.0)
    if t in ('binomial',):
        det += 0.0123
    sim = {'gauss': 120, 'kernel': 40, 'qr': 40, 'chaos1': 120, 'chaos2': 120, 'kriging': 60, 'adaptive': 12}.get(t)
    ctx.step('build', t, case['k'], det, kw)
    p = tech.make(t, X, y, det, kw.get('noise'), kw.get('sat'), kw.get('bc', False), sim=sim,
                  **({'start': 0} if t in ('kriging', 'adaptive') else {}))
    if t == 'qr':
        p.setQuantile([0.3, 0.9])
    if t == 'hitmiss':
        p.setCandidateSize(30)
    tech.seed(5)
    try:
        p.run()
    except Exception as e:
        kept = y if case['set'] != 2 else y[(y > kw['noise']) & (y < kw['sat'])]
        if t == 'qr' or (t == 'hitmiss' and len(set(kept > det)) == 1):
            ctx.check(True, '')
            ctx.state(t, case['det'], 'refused')
            return
        raise
    ctx.step('run')
    keep = np.ones(len(y), bool)
    if case['set'] == 2:
        keep = (y > kw['noise']) & (y < kw['sat'])
    xs = tech.grid(t, p, X[keep])
    xs = sorted(set(xs + [0.5 * (a + b) for a, b in zip(xs[1:4], xs[2:5])]))
    if t == 'kernel':
        xs = xs[::2]
    pod = np.array([p.getPODModel()([x])[0] for x in xs])
    ctx.step('POD', xs)
    ctx.check(bool(np.all(np.isfinite(pod)) and pod.min() >= 0.0 and pod.max() <= 1.0),
              'POD outside [0, 1]: %r at %r' % (pod.tolist(), xs))
    lv = levels(case['tier'])
    if t in ('gauss', 'kernel'):
        lv = lv[::2] + [0.9995]
    V = []
    for c in lv:
        g = p.getPODCLModel(c)
        V.append([g([x])[0] for x in xs])
        ctx.step('POD CL', c)
    V = np.array(V)
    ctx.check(bool(np.all(np.isfinite(V)) and V.min() >= 0.0 and V.max() <= 1.0),
              lambda: 'POD at confidence level outside [0, 1]: from %r to %r' % (V.min(), V.max()))
    mono = np.ones(len(lv), bool)
    if t == 'qr':
        # two regression lines that cross give no ordered curve to compare: then the curve still climbs at the largest defect
        xm = xs[-1] - 1e-6 * (xs[-1] - xs[0])
        mono = np.array([p.getPODCLModel(c)([xm])[0] >= 0.9 - 1e-12 for c in lv])
    for j, x in enumerate(xs):
        # the quantile of a sample is non-increasing along the whole chain of levels
        for i in range(len(lv) - 1):
            if V[i + 1, j] > V[i, j] + 1e-12 and mono[i] and mono[i + 1]:
                sig = None
                N = len(y) - (2 if case['set'] == 2 else 0)
                if t == 'binomial' and pod[j] == 1.0 and abs(V[i, j] - lv[i] ** (1.0 / N)) < 1e-9:
                    sig = 'full-detection:N=%d' % N
                ctx.check(False, 'POD(%r) at confidence %r is %r, at confidence %r it is %r: it grows with the confidence'
                          % (x, lv[i], V[i, j], lv[i + 1], V[i + 1, j]), sig)
                break
        ctx.monitors += len(lv)
        ctx.state(t, case['k'], case['det'], case['set'], j)
    # no two levels of the chain share a curve, unless the whole law is degenerate
    if t in ('binomial', 'gauss', 'kernel', 'kriging', 'adaptive', 'qr'):
        inner = [j for j in range(len(xs)) if 0.05 < np.median(V[:, j]) < 0.95]
        for j in inner:
            ok = (V[:, j] > 1e-9) & (V[:, j] < (0.9 if t == 'qr' else 1.0) - 1e-9)
            if ok.sum() < 20:
                continue
            u = len(set(np.round(V[ok, j], 12)))
            n = len(set(np.array(lv)[ok]))
            need = n if t == 'binomial' else int(0.6 * n)
            if t == 'qr':
                need = int(0.4 * n)
            ctx.check(u >= need, lambda: 'at defect %r only %d distinct values of the POD at confidence level for %d distinct '
                      'levels: the level is not honoured' % (xs[j], u, n))
            ctx.state('distinct', t, case['k'], case['det'], case['set'], j)
    # ... down to close levels: zoom where the curve changes, it must change inside the zoom too and not at its ends only
    for j in [j for j in range(len(xs)) if 0.02 < np.median(V[:, j]) < 0.98][:2]:
        d = np.where(mono[1:] & mono[:-1], V[:-1, j] - V[1:, j], 0)
        i = int(np.argmax(d))
        if d[i] < 1e-6:
            continue
        a, b = lv[i], lv[i + 1]
        f = lambda c: p.getPODCLModel(c)([xs[j]])[0]
        while b - a > 1.2e-4:
            m = 0.5 * (a + b)
            a, b = (a, m) if f(a) - f(m) >= f(m) - f(b) else (m, b)
        z = [f(a + (b - a) * k / 8) for k in range(9)]
        ctx.step('zoom', a, b)
        ctx.check(len(set(z)) >= 5, lambda: 'at defect %r confidence levels from %.6f to %.6f give %s: the level is rounded' % (xs[j], a, b, z))
