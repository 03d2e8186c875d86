"""C24: verbosity, progress bars and graphs of the adaptive techniques never change the results, and tell the truth."""
import contextlib
import io
import os
import re
import shutil
import numpy as np
import openturns as ot
import otpod
from otpod._progress_bar import updateProgress
from mc import ref, tech
from mc.core import close_figs

META = {'bounds': 'progress bar: every iteration of every loop of 1 to 150 (thorough 600) iterations x 7 refresh counts x 4 bar lengths; verbose '
        'against quiet: 9 techniques x {no transformation, Box Cox} x {uncensored, noise} x 2 simulation sizes x default or chosen defect '
        'sizes, and the summary; 48 adaptive runs whose covariance is estimated again; progress of the hit-miss loop for 28 numbers of points; graphs of the adaptive techniques: 0 to 3 '
        'points x levels x directory (none, new, nested, existing)',
        'assumptions': ['graphs are asked for probability levels that every intermediate curve reaches (otherwise run refuses)']}

FRAME = re.compile(r'\r(.*?): \[([=-]*)\] ([0-9.]+)% (Done\r\n)?')


def cases(tier):
    top = 150 if tier == 'quick' else 600
    for lo in range(1, top, 50):
        yield {'kind': 'bar', 'lo': lo, 'hi': min(lo + 50, top + 1)}
    for t in tech.ALL:
        for bc in ((False, 0.3) if t != 'hitmiss' else (False,)):
            for cens in ('none', 'noise'):
                for sim in (12, 55):
                    for sizes in ('few', 'default') if t in ('chaos1', 'chaos2', 'kriging', 'hitmiss') else ('few',):
                        yield {'kind': 'verbose', 't': t, 'bc': bc, 'cens': cens, 'sim': sim, 'sizes': sizes, '_w': 4}
    for more in HITS if tier == 'quick' else range(1, 131):
        yield {'kind': 'hits', 'more': more, '_w': 2}
    for t in ('adaptive', 'hitmiss'):
        for more in (0, 1, 2, 3) if t == 'adaptive' else (1, 5, 6, 12):
            for pr, cf in ((None, None), (0.5, None), (0.5, 0.7), (None, 0.9)):
                for d in (None, 'new', 'a/b', 'old'):
                    if tier == 'quick' and d in ('new', 'a/b') and pr is None:
                        continue
                    if t == 'hitmiss' and pr is not None and cf is not None:
                        continue
                    yield {'kind': 'graph', 't': t, 'more': more, 'pr': pr, 'cf': cf, 'dir': d, '_w': 5}
    for more in (0, 1, 2, 3):
        for start in (2, 5):
            for wave in (0.5, 1.0, 2.0):
                for bc in (False, 0.3):
                    yield {'kind': 'reopt', 'more': more, 'start': start, 'wave': wave, 'bc': bc, '_w': 4}
    for v in (False, True):
        yield {'kind': 'summary', 'v': v, '_w': 20}


HITS = [1, 2, 4, 5, 6, 7, 9, 10, 11, 14, 23, 25, 26, 49, 50, 51, 52, 74, 75, 76, 77, 78, 83, 88, 99, 101, 123, 126]


def run(case, ctx):
    {'bar': bar, 'verbose': verbose, 'hits': hits, 'graph': graph, 'reopt': reopt, 'summary': summary}[case['kind']](case, ctx)


def capture(f, *a, **k):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = f(*a, **k)
    return r, out.getvalue()


def bars(ctx, text, what, length=50):
    """Frames of the progress bars of an output; each bar grows to 100% and ends once."""
    groups, cur = [], []
    for m in FRAME.finditer(text):
        cur.append((m.group(1), m.group(2), float(m.group(3)), bool(m.group(4))))
        if m.group(4):
            groups.append(cur)
            cur = []
    ctx.check(not cur, lambda: '%s: the progress bar %r stops at %.2f%%' % (what, cur[-1][0], cur[-1][2]))
    for g in groups + ([cur] if cur else []):
        p = [f[2] for f in g]
        ctx.check(len(set(f[0] for f in g)) == 1, lambda: '%s: mixed progress bars %s' % (what, sorted(set(f[0] for f in g))))
        ctx.check(all(b > a for a, b in zip(p, p[1:])) and p[0] > 0, lambda: '%s: progress %s' % (what, p))
        ctx.check(not g[-1][3] or p[-1] == 100.0, lambda: '%s: ends at %s%%' % (what, p[-1]))
        for f in g:
            ctx.check(len(f[1]) == length and f[1] == '=' * f[1].count('=') + '-' * f[1].count('-'), lambda: '%s: bar %r' % (what, f[1]))
            ctx.check(abs(f[1].count('=') - length * f[2] / 100) <= 0.51, lambda: '%s: bar %r for %.2f%%' % (what, f[1], f[2]))
    return groups


def bar(case, ctx):
    for n in range(case['lo'], case['hi']):
        for nf in (None, 1, 2, 3, 7, 50, 400):
            for length in ((50,) if nf is None else (50, 1, 10, 33) if n % 10 < 2 else (50,)):
                want, out = [], ''
                for i in range(n):
                    if nf is None:
                        _, s = capture(updateProgress, i, n, 'msg')
                    else:
                        _, s = capture(updateProgress, i, n, 'msg', nf, length)
                    out += s
                    if s:
                        want.append(100.0 * (i + 1) / n)
                ctx.step('bar', n, nf, length)
                g = bars(ctx, out, 'loop of %d, refresh %s' % (n, nf), length)
                if ctx.check(len(g) == 1, 'loop of %d iterations, refresh %s: %d completed bars' % (n, nf, len(g))):
                    ctx.close([f[2] for f in g[0]], want, 'percentages', rtol=0, atol=0.00501)
                    ctx.check(len(want) <= 2 * (nf or 50) + 1, 'loop of %d iterations: %d refreshes for %s' % (n, len(want), nf))
                ctx.check(FRAME.sub('', out) == '', 'unexpected output %r' % FRAME.sub('', out)[:80])
    ctx.state(case['lo'])


HAS_BAR = {'kernel': 1, 'qr': 1, 'chaos1': 1, 'chaos2': 1, 'kriging': 1, 'adaptive': 2, 'hitmiss': 1, 'gauss': 0, 'binomial': 0}


def verbose(case, ctx):
    t = case['t']
    X, y = tech.data(t, 20 if tech.dim_of(t) == 2 else 18)
    noise = float(np.sort(y)[1] + 1e-3) if case['cens'] == 'noise' else None
    res = []
    sim = case['sim'] if t not in ('kriging', 'adaptive') else 8
    for v in (False, True, None):
        kw = {} if t == 'hitmiss' else {'bc': case['bc']}
        p, out0 = capture(tech.make, t, X, y, 11.0, noise, sim=sim, **kw)
        if v is not None:
            p.setVerbose(v)
        else:
            # changed on the way: the last one counts
            p.setVerbose(True)
            p.setVerbose(False)
        if case['sizes'] == 'default':
            q = {'chaos1': otpod.PolynomialChaosPOD, 'chaos2': otpod.PolynomialChaosPOD, 'kriging': otpod.KrigingPOD}.get(t)
            if q is not None:
                d = q(ot.Sample(X), ot.Sample(ref.col(y)), 11.0, noise).getDefectSizes()
                p.setDefectSizes(d)
        tech.seed(5)
        ctx.step('run', t, v)
        _, out = capture(p.run)
        xs = tech.grid(t, p, X)
        res.append(tech.observe(t, p, xs))
        if not v:
            ctx.check(out == '' and out0 == '', 'quiet run writes %r' % (out0 + out)[:120])
        else:
            ctx.check(len(out) > 0 or not HAS_BAR[t], 'verbose run writes nothing')
            g = bars(ctx, out, t)
            ctx.check(len(g) == HAS_BAR[t], '%d completed progress bars, expected %d' % (len(g), HAS_BAR[t]))
            for name, fn in (('R2', getattr(p, 'getR2', None)), ('Q2', getattr(p, 'getQ2', None))):
                vals = [float(w) for w in re.findall(name + r'[^:\n]*: *(-?[0-9.]+)', out)]
                if vals and t != 'qr':
                    ctx.check(abs(vals[-1] - fn()) <= 0.51e-4, 'printed %s %.4f, getter %.6f' % (name, vals[-1], fn()))
    for r, what in ((res[1], 'verbose'), (res[2], 'verbose then quiet')):
        tech.compare(ctx, r, res[0], '%s %s against quiet' % (t, what), rtol=1e-12, atol=1e-12)
    ctx.state(t, case['bc'], case['cens'], case['sim'], res[0]['POD'])


def hits(case, ctx):
    X, y = tech.data('hitmiss', 20)
    out = []
    for v in (False, True):
        p = tech.make('hitmiss', X, y, 11.0, more=case['more'])
        p.setCandidateSize(80)
        p.setSamplingSize(60)
        p.setVerbose(v)
        tech.seed(5)
        _, s = capture(p.run)
        ctx.step('run', case['more'], v)
        out.append([np.array(p.getInputDOE()), np.array(p.getOutputDOE()), [float(p.getPODModel()([a])[0]) for a in tech.grid('hitmiss', p, X)]])
        if v:
            g = bars(ctx, s, 'loop for %d points' % case['more'])
            ctx.check(len(g) == 1, '%d completed progress bars for %d points' % (len(g), case['more']))
        else:
            ctx.check(s == '', 'quiet run writes %r' % s[:100])
    for a, b in zip(*out):
        ctx.close(b, a, 'results of the verbose run', rtol=0, atol=0)
    ctx.check(len(out[0][0]) == 20 + case['more'], '%d points after adding %d to 20' % (len(out[0][0]), case['more']))
    ctx.state(case['more'], out[0][2])


def graph(case, ctx):
    t, d = case['t'], case['dir']
    X, y = tech.data(t, 20)
    root = os.path.abspath('graphs')
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    where = None if d is None else os.path.join(root, d)
    if d == 'old':
        os.makedirs(where)
        with open(os.path.join(where, 'keep.txt'), 'w') as f:
            f.write('kept')
    res = []
    for on in (False, True):
        p = tech.make(t, X, y, 11.0, more=case['more'], **({'start': 0} if t == 'adaptive' else {}))
        if t == 'hitmiss':
            p.setSamplingSize(300)
        if on:
            p.setGraphActive(True, case['pr'], case['cf'], where)
        elif where is not None:
            p.setGraphActive(False, case['pr'], case['cf'], where)
        tech.seed(8)
        before = set(os.listdir('.'))
        _, out = capture(p.run)
        close_figs()
        ctx.step('run', t, on)
        ctx.check(out == '', 'quiet run writes %r' % out[:100])
        ctx.check(set(os.listdir('.')) == before, 'files written out of the directory')
        found = sorted(f for f in os.listdir(where) if f != 'keep.txt') if where and os.path.isdir(where) else []
        if not on:
            ctx.check(not found, 'files %s written without graph' % found)
        elif where is not None:
            n = case['more'] if t == 'adaptive' else -(-case['more'] // 5)
            ctx.check(len(found) == n, '%d figures for %d iterations: %s' % (len(found), n, found))
            ctx.check(sorted(int(re.findall(r'_(\d+)\.', f)[-1]) for f in found if re.findall(r'_(\d+)\.', f)) == list(range(1, n + 1)), 'figures %s' % found)
        o = tech.observe(t, p, tech.grid(t, p, X))
        res.append(o)
    if d == 'old':
        ctx.check(os.path.exists(os.path.join(where, 'keep.txt')), 'a file of the directory is lost')
    if t == 'adaptive':
        tech.compare(ctx, res[1], res[0], 'results with graphs', rtol=1e-12, atol=1e-12)
    else:
        for k in ('inDOE', 'outDOE'):
            ctx.close(res[1][k], res[0][k], '%s with graphs' % k, rtol=0, atol=0)
        # drawing samples again: the POD only up to its Monte Carlo error
        ctx.close(res[1]['POD'], res[0]['POD'], 'POD with graphs', rtol=0, atol=7 * np.sqrt(0.5 / 300))
    shutil.rmtree(root, ignore_errors=True)
    ctx.state(t, case['more'], case['pr'], case['cf'], d)


def reopt(case, ctx):
    """Rough signals: the covariance of the adaptive kriging is estimated again after each point."""
    X, y = tech.data('adaptive', 18)
    y = y + case['wave'] * np.sin(9.0 * np.arange(18) ** 2)
    res, text = [], []
    for v in (True, False):
        p = tech.make('adaptive', X, y, 11.0, more=case['more'], start=case['start'], bc=case['bc'])
        p.setVerbose(v)
        tech.seed(5)
        _, out = capture(p.run)
        ctx.step('run', v)
        res.append(tech.observe('adaptive', p, tech.grid('adaptive', p, X)))
        text.append(out)
        vals = [float(w) for w in re.findall(r'Q2[^:\n]*: *(-?[0-9.]+)', out)]
        if v and ctx.check(len(vals) == case['more'] + 1, 'Q2 printed %d times for %d points' % (len(vals), case['more'])):
            ctx.check(abs(vals[-1] - p.getQ2()) <= 0.51e-4, 'printed Q2 %.4f, getter %.6f' % (vals[-1], p.getQ2()))
    ctx.check(text[1] == '', 'quiet run writes %r' % text[1][:100])
    tech.compare(ctx, res[1], res[0], 'adaptive run, quiet against verbose', rtol=1e-6, atol=1e-6)
    ctx.state(case['more'], case['start'], case['wave'], case['bc'], 'Optimization' in text[0].split('Iteration')[-1], res[0]['Q2'])


def summary(case, ctx):
    X, _ = tech.data('chaos2', 22)
    y = 6 + 9 * X[:, 0] + 0.4 * np.sin(2 * X[:, 1]) + 0.3 * ref.scatter(22)
    out = []
    for v in (False, True):
        s = otpod.PODSummary(ot.Sample(X), ot.Sample(ref.col(y)), 11.0, None, None, case['v'] and 0.3)
        s.setVerbose(v)
        s.setSimulationSize(15)
        s.setSamplingSize(40)
        s.setMethodActive('Kriging', False)
        tech.seed(9)
        _, text = capture(s.run)
        ctx.step('run', v)
        if v:
            ctx.check(len(text) > 0, 'verbose summary writes nothing')
            g = bars(ctx, text, 'summary')
            ctx.check(len(g) == 3, '%d progress bars, expected kernel smoothing, quantile regression and chaos' % len(g))
        else:
            ctx.check(text == '', 'quiet summary writes %r' % text[:100])
        s.saveResults('summary.csv', 0.5, 0.6)
        with open('summary.csv') as f:
            out.append(f.read())
        os.remove('summary.csv')
    ctx.check(out[0] == out[1], 'the results of the verbose summary differ')
    ctx.state(case['v'], out[0][:200])
