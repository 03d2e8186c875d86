"""C01: censoring splits the observations into noise / usable / saturated."""
import itertools
import numpy as np
import openturns as ot
import otpod

META = {'bounds': 'all signal vectors over the threshold-relevant alphabet (values at, one ulp '
        'around, below, between and above the thresholds) up to length 4 (5 thorough), 8 threshold '
        'pairs including absent, zero and negative ones, input dimensions 1..3, 3 containers; plus the '
        'same vectors through the linear analysis (residual count and values)'}

PAIRS = [(None, None), (1.0, None), (None, 2.0), (1.0, 2.0), (0.0, 3.0),
         (-2.0, 0.0), (None, 0.0), (0.0, None)]


def alphabet(noise, sat):
    vals = set()
    for t in (noise, sat):
        if t is not None:
            vals |= {t, float(np.nextafter(t, -np.inf)), float(np.nextafter(t, np.inf))}
    lo = noise if noise is not None else (sat - 2.0 if sat is not None else 0.0)
    hi = sat if sat is not None else lo + 2.0
    vals |= {lo - 1.5, 0.5 * (lo + hi), hi + 1.5}
    return sorted(vals)


def cases(tier):
    nmax = 4 if tier == 'quick' else 5
    for p in range(len(PAIRS)):
        for dim in (1, 2, 3):
            for cont in ('sample', 'array', 'list'):
                for n in range(1, nmax + 1):
                    if n == nmax and (dim != 1 + p % 3) and tier == 'quick':
                        continue
                    yield {'pair': p, 'dim': dim, 'cont': cont, 'n': n}


def wrap(cont, a):
    if cont == 'sample':
        return ot.Sample(a)
    if cont == 'array':
        return np.array(a)
    return [list(map(float, r)) for r in a]


def run(case, ctx):
    noise, sat = PAIRS[case['pair']]
    n, dim, cont = case['n'], case['dim'], case['cont']
    alpha = alphabet(noise, sat)
    x = np.array([[10.0 * (i + 1) + j for j in range(dim)] for i in range(n)])
    for combo in itertools.product(alpha, repeat=n):
        y = np.array(combo).reshape(-1, 1)
        X, Y = wrap(cont, x), wrap(cont, y)
        ctx.step('filterCensoredData', combo, noise, sat)
        unc, no, sa, sig = otpod.DataHandling.filterCensoredData(X, Y, noise, sat)
        lo = -np.inf if noise is None else noise
        hi = np.inf if sat is None else sat
        cls = ['n' if v <= lo else ('s' if v >= hi else 'u') for v in combo]
        ctx.state(case['pair'], dim, cls)
        exp = {k: [list(x[i]) for i in range(n) if cls[i] == k] for k in 'nsu'}
        got = {'u': unc, 'n': no, 's': sa}
        for k in 'nsu':
            g = [list(map(float, r)) for r in np.array(got[k])]
            ctx.check(g == exp[k], lambda: 'group %s of %r with thresholds (%r, %r): defects %r, expected %r'
                      % (k, combo, noise, sat, g, exp[k]))
            ctx.check(isinstance(got[k], ot.Sample), 'group %s is not a sample' % k)
        gs = [float(v) for v in np.array(sig).ravel()]
        es = [combo[i] for i in range(n) if cls[i] == 'u']
        ctx.check(gs == es, lambda: 'usable signals of %r with (%r, %r): %r, expected %r'
                  % (combo, noise, sat, gs, es))
        ctx.check(isinstance(sig, ot.Sample), 'usable signals are not a sample')
        ctx.check(np.array_equal(np.array(X), x) and np.array_equal(np.array(Y), y),
                  'the observations given by the caller were changed')
        if len(ctx.problems) > 5:
            return
