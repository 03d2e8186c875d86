"""C02: metamodel PODs with thresholds = the same POD on the filtered data."""
import numpy as np
import openturns as ot
import otpod
from mc import ref, tech

META = {'bounds': 'quantile regression, chaos (1-2 inputs), kriging, adaptive kriging, adaptive hit-miss x 4 (8) data '
        'sets x 8 threshold placements (absent, outside the data, between signals, exactly on a signal, zero, low/high/both) x 2 '
        'detection thresholds x Box Cox off/given; same random seed on both sides'}

TECHS = ['qr', 'chaos1', 'chaos2', 'kriging', 'adaptive', 'hitmiss']
THR = ['lowmid', 'lowon', 'highmid', 'highon', 'both', 'bothon', 'outside', 'zero']


def cases(tier):
    for t in TECHS:
        for k in range(1, 5 if tier == 'quick' else 9):
            for th in THR:
                yield {'t': t, 'k': k, 'thr': th}


def thresholds(th, ys):
    return {'lowmid': (0.5 * (ys[1] + ys[2]), None), 'lowon': (ys[1], None),
            'highmid': (None, 0.5 * (ys[-2] + ys[-3])), 'highon': (None, ys[-2]),
            'both': (0.5 * (ys[1] + ys[2]), 0.5 * (ys[-2] + ys[-3])), 'bothon': (ys[0], ys[-1]),
            'outside': (ys[0] - 1.0, ys[-1] + 1.0), 'zero': (0.0, None)}[th]


def run(case, ctx):
    t = case['t']
    for dq in (0.35, 0.6):
        for bc, neg in ((False, False), (0.6, False), (0.6, True)):
            if t == 'hitmiss' and bc is not False or neg and (case['thr'] == 'zero' or dq < 0.5):
                continue
            off = 0.0
            X, y = tech.data(t, 18, case['k'], 0.0, noise=0.6 if t != 'qr' else 0.4)
            if case['thr'] == 'zero':
                off = -float(np.sort(y)[2]) - 0.01
                y = y + off
            if neg:           # the uncensored signals are partly negative as well
                off = -float(np.sort(y)[4]) - 0.01
                y = y + off
            if bc is not False and case['thr'] == 'zero' and t == 'adaptive':
                continue
            ys = np.sort(y)
            noise, sat = thresholds(case['thr'], ys)
            noise = None if noise is None else float(noise)
            sat = None if sat is None else float(sat)
            Xu, yu, _, _ = ref.split(X, y, noise, sat)
            det = float(np.quantile(yu, dq if t != 'qr' else dq - 0.2)) + 0.01
            ctx.step('build with thresholds', t, noise, sat, bc)
            p = tech.make(t, X, y, det, noise, sat, bc, offset=off, start=0, more=3)
            tech.seed(5)
            p.run()
            ctx.step('build on filtered data')
            q = tech.make(t, Xu, yu, det, None, None, bc, offset=off, start=0, more=3)
            if t != 'qr':
                ctx.close(p.getDefectSizes(), q.getDefectSizes() if t not in ('chaos1', 'chaos2') else p.getDefectSizes(),
                          'defect sizes')
                q.setDefectSizes(p.getDefectSizes())
                ctx.check(np.min(p.getDefectSizes()) >= Xu[:, 0].min() - 1e-12 and
                          np.max(p.getDefectSizes()) <= Xu[:, 0].max() + 1e-12,
                          'default defect sizes leave the range of the filtered data')
            tech.seed(5)
            q.run()
            xs = tech.grid(t, p, Xu)
            cl = t != 'qr' or len(yu) == len(y)
            a, b = tech.observe(t, p, xs, cl), tech.observe(t, q, xs, cl)
            ctx.step('observe')
            tech.compare(ctx, a, b, '%s with thresholds (%r, %r)' % (t, noise, sat))
            L, M = p.getBoxCoxParameter(), q.getBoxCoxParameter()
            ctx.check(L == M, 'Box Cox parameter %r and %r' % (L, M))
            ctx.state(t, case['k'], case['thr'], dq, bc, len(yu))
