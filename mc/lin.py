"""Shared enumeration of linear-analysis data sets (C03, C04)."""
import itertools
import numpy as np
import openturns as ot
from mc import ref

MAG = [0.9, 0.35, 1.1, 0.6, 0.2, 0.75, 0.5, 1.3, 0.45, 0.8, 1.0, 0.3]

# configuration -> (n, keyword builder from sorted signals)
CFG = {
    'plain': (8, lambda y: {}),
    'logistic': (8, lambda y: {'fact': 'Logistic'}),
    'bc0.5': (8, lambda y: {'boxCox': 0.5}),
    'bc0': (8, lambda y: {'boxCox': 0.0}),
    'bc-0.4': (8, lambda y: {'boxCox': -0.4}),
    'noise': (10, lambda y: {'noiseThres': 0.5 * (y[0] + y[1])}),
    'noise_on': (10, lambda y: {'noiseThres': y[1]}),
    'sat': (10, lambda y: {'saturationThres': 0.5 * (y[-1] + y[-2])}),
    'sat_on': (10, lambda y: {'saturationThres': y[-2]}),
    'both': (10, lambda y: {'noiseThres': 0.5 * (y[0] + y[1]), 'saturationThres': 0.5 * (y[-1] + y[-2])}),
    'both_bc': (10, lambda y: {'noiseThres': 0.5 * (y[0] + y[1]), 'saturationThres': 0.5 * (y[-1] + y[-2]),
                               'boxCox': 0.3}),
    'noise_log': (10, lambda y: {'noiseThres': 0.5 * (y[0] + y[1]), 'boxCox': 0.0, 'fact': 'Logistic'}),
    # odd numbers of observations, the bits choose the large errors
    'odd9': (9, lambda y: {}),
    'odd11': (11, lambda y: {}),
    'odd_noise': (12, lambda y: {'noiseThres': 0.5 * (y[0] + y[1])}),
    # defects far from zero, many censored observations
    'far_both': (24, lambda y: {'noiseThres': 0.5 * (y[7] + y[8]), 'saturationThres': 0.5 * (y[-7] + y[-8])}),
    'far_sat': (24, lambda y: {'saturationThres': 0.5 * (y[-9] + y[-10])}),
    # no slope (R2 close to 0), large samples
    'flat': (9, lambda y: {}),
    'flat_log': (9, lambda y: {'fact': 'Logistic', 'boxCox': 1.5}),
    'big': (61, lambda y: {}),
    'big_both': (64, lambda y: {'noiseThres': 0.5 * (y[1] + y[2]), 'saturationThres': 0.5 * (y[-3] + y[-4])}),
    'none_cens': (8, lambda y: {'noiseThres': y[0] - 1.0}),
}


def factory(name):
    return None if name is None else getattr(ot, name + 'Factory')()


def cases(tier):
    blk = 16
    for cfg, (n, _) in sorted(CFG.items()):
        bits = 8 if not (n == 10) else (5 if tier == 'quick' else 8)
        xps = ['far'] if cfg.startswith('far') else ['unsorted', 'sorted', 'dup', 'shifted']
        if n > 8 and n != 10 and tier == 'quick':
            bits = 6
        if cfg.startswith('big'):
            bits = 4 if tier == 'quick' else 7
        if cfg.startswith('flat') or cfg.startswith('big'):
            xps = ['unsorted']
        for k, xp in enumerate(xps):
            if tier == 'quick' and n == 8 and xp not in ('unsorted', 'shifted'):
                b = 5
            else:
                b = bits
            for neg in (False, True):
                # negative signals: only where they change the path (Box Cox shift)
                if neg and not (cfg.startswith('bc') or cfg == 'both_bc'):
                    continue
                if neg and xp not in ('unsorted',):
                    continue
                bb = 5 if neg and tier == 'quick' else b
                for start in range(0, 2 ** bb, blk):
                    yield {'cfg': cfg, 'xp': xp, 'neg': neg, 'start': start, 'stop': start + blk}


def datasets(case):
    n, mk = CFG[case['cfg']]
    x = ref.XPAT[case['xp']](n)
    mag = np.resize(MAG, n)
    odd = case['cfg'].startswith('odd')
    sc = 1.0 if case['xp'] != 'shifted' else 0.2
    slope = 1.7 if case['xp'] != 'shifted' else 9.0
    if case['cfg'].startswith('flat'):
        slope = 0.0
    for k in range(case['start'], case['stop']):
        signs = np.array([1.0 if (k >> (i % 8)) & 1 else -1.0 for i in range(n)])
        if odd:
            signs = np.where(np.arange(n) % 2, 1.0, -1.0) * np.where(signs > 0, 1.0, 0.15)
        elif n > 8:
            signs[8:] *= -1
        y = 4.0 + slope * x + sc * signs * mag
        if case['neg']:
            y = y - 9.0
        ysort = np.sort(y)
        yield {'x': x, 'y': y, 'signs': k, 'kw': mk(ysort)}


def same_dist(ctx, got, want, what):
    m, s = want.getMean()[0], want.getStandardDeviation()[0]
    pts = [m + k * s for k in (-2.0, -0.7, 0.0, 0.4, 1.5)]
    ctx.close([got.computeCDF(p) for p in pts], [want.computeCDF(p) for p in pts], what, rtol=1e-5, atol=1e-6)
