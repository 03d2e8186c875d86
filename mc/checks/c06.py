"""C06: non-parametric (binomial) POD and its confidence bound."""
import numpy as np
import openturns as ot
import otpod
from scipy import stats
from mc import ref

META = {'bounds': 'every error pattern over {-1,0,1} for 4-6 observations (each observed once, twice or three times, or the first ones only three times; and 7..60 observations with fixed errors), '
        'unsorted and duplicated defects, every detected count 0..N reached, 6 confidence levels, censoring, Box Cox '
        'given as 0.4 / 0.0',
        'assumptions': ['defect sizes where a residual ties with the threshold are skipped (floating point)']}

CL = [0.5, 0.8, 0.9, 0.95, 0.99, 0.999]
SETTINGS = [{}, {'boxCox': 0.4}, {'boxCox': 0.0}, {'noise': 1}, {'sat': 1, 'boxCox': 0.5}, {'noise': 1, 'sat': 1}]


def cases(tier):
    for n in (4, 5) if tier == 'quick' else (4, 5, 6):
        for xp in ('sorted', 'unsorted', 'dup'):
            tot = 3 ** n
            for start in range(0, tot, 27):
                yield {'kind': 'small', 'n': n, 'xp': xp, 'start': start, 'stop': start + 27}
    for n in (3, 4) if tier == 'quick' else (3, 4, 5):
        for times in (2, 3):
            for start in range(0, 3 ** n, 27):
                yield {'kind': 'tied', 'n': n, 'xp': 'unsorted', 'start': start, 'stop': start + 27, 'times': times}
    for n in (4,) if tier == 'quick' else (4, 5):
        for part in (1, 2):
            for start in range(0, 3 ** n, 27):
                yield {'kind': 'tied', 'n': n, 'xp': 'unsorted', 'start': start, 'stop': start + 27, 'times': 1,
                       'part': part}
    for n in (7, 8, 10, 13, 17, 23, 29, 30, 40, 60) if tier == 'quick' else list(range(7, 101)):
        for k, st in enumerate(SETTINGS):
            if tier == 'quick' and n > 30 and k > 1:
                continue
            yield {'kind': 'big', 'n': n, 'set': k, 'xp': 'unsorted' if n % 2 else 'sorted', '_w': n}


def datasets(case):
    n = case['n']
    x = ref.XPAT[case['xp']](n)
    if case['kind'] in ('small', 'tied'):
        w = 0.13 * ref.weyl(n, 3)
        t = case.get('times', 1)        # repeated observations: equal residuals
        for k in range(case['start'], case['stop']):
            e = np.array([(k // 3 ** i) % 3 - 1.0 for i in range(n)]) + w
            y = 5.0 + 1.5 * x + e
            p = case.get('part', 0)     # only the first observations are repeated (three times)
            yield k, np.append(np.tile(x, t), np.repeat(x[:p], 2)), np.append(np.tile(y, t), np.repeat(y[:p], 2)), {}
    else:
        st = SETTINGS[case['set']]
        y = 5.0 + 1.5 * x + 2.0 * ref.weyl(n, 1)
        ys = np.sort(y)
        kw = {}
        if 'noise' in st:
            kw['noise'] = 0.5 * (ys[0] + ys[1])
        if 'sat' in st:
            kw['sat'] = 0.5 * (ys[-1] + ys[-2])
        if 'boxCox' in st:
            kw['lam'] = st['boxCox']
        yield case['set'], x, y, kw


def run(case, ctx):
    for k, x, y, kw in datasets(case):
        det = float(np.median(y)) + 0.217
        m = ref.LinPOD(x, y, det, **kw)
        ctx.step('build', x, y, det, kw)
        p = otpod.UnivariateLinearModelPOD(ot.Sample(ref.col(x)), ot.Sample(ref.col(y)), det, kw.get('noise'),
                                           kw.get('sat'), None, kw.get('lam', False))
        p.run()
        ctx.step('run')
        pod = p.getPODModel()
        # one defect size inside every constant piece of the curve
        brk = np.sort((m.zd - m.b0 - m.res) / m.b1)
        xs = [brk[0] - 1.0] + [0.5 * (a + b) for a, b in zip(brk[:-1], brk[1:])] + [brk[-1] + 1.0]
        lim = 1e-9 if not m.cens else 2e-2
        cls = {c: p.getPODCLModel(c) for c in CL}
        for xq in xs:
            if m.margin(xq) <= lim:
                continue
            n = m.count(xq)
            got = pod([xq])[0]
            ctx.step('POD', xq)
            ctx.state(m.N, n, kw)
            ctx.check(abs(got - n / float(m.N)) < 1e-9, lambda: 'POD(%r) = %r, %d of %d residuals exceed the '
                      'threshold' % (xq, got, n, m.N))
            for c in CL:
                g = cls[c]([xq])[0]
                ctx.step('POD CL', c, xq)
                w = ref.binom_cl(m.N, n, c)
                if abs(g - w) <= 1e-8:
                    ctx.monitors += 1
                    continue
                sig = None
                if n == m.N and abs(g - c ** (1.0 / m.N)) < 1e-10:
                    sig = 'full-detection:N=%d' % m.N
                elif n >= 1 and abs(g - ref.binom_cl(m.N, n - 1, c)) < 1e-9:
                    sig = 'count-truncated:N=%d,n=%d' % (m.N, n)
                    if case['kind'] == 'tied':
                        sig = 'count-truncated:repeated observations,N=%d' % m.N
                ctx.check(False, 'POD at confidence level %r for %d of %d detected is %r, expected %r'
                          % (c, n, m.N, g, w), sig)
        if len(ctx.problems) > 4 and any(q['signature'] is None for q in ctx.problems):
            return
