"""C03: the linear analysis reports the least squares / Tobit estimates."""
import re
import numpy as np
import openturns as ot
import otpod
from mc import ref, lin

META = {'bounds': 'every sign pattern of the error vector for 8-10 observations, 4 defect layouts '
        '(sorted, unsorted, duplicated, small scale), censoring none/noise/saturation/both with thresholds '
        'between and exactly on a signal, Box Cox off / given as 0.5, 0.0, -0.4, residual law factory; '
        'thorough: 12 observations and more magnitudes'}


def cases(tier):
    return lin.cases(tier)


def parse(text, sep=None):
    """label -> list of value strings, in order of appearance."""
    out = []
    for line in text.split('\n'):
        if sep is None:
            m = re.match(r'^(.{47}) (.*)$', line)
            if not m:
                continue
            lab = m.group(1).strip()
            vals = [v for v in re.split(r'\s{2,}|(?<=\]) ', m.group(2).strip()) if v != '']
        else:
            f = line.split(sep)
            if len(f) < 2:
                continue
            lab, vals = f[0].strip(), [v for v in f[1:] if v != '']
        if lab and vals:
            out.append((lab, vals))
    return out


def r2s(v):
    return str(round(float(v), 2))


def near(txt, v):
    """A printed 2 digit rounding of v (either side when v is at a tie)."""
    try:
        return abs(float(txt) - v) <= 0.005 + 1e-6
    except ValueError:
        return False


def run(case, ctx):
    for d in lin.datasets(case):
        ctx.step('analysis', d['x'], d['y'], d['kw'])
        ot.RandomGenerator.SetSeed(1)
        np.random.seed(1)
        kw = dict(d['kw'])
        fact = lin.factory(kw.pop('fact', None))
        xs, ys = ot.Sample(ref.col(d['x'])), ot.Sample(ref.col(d['y']))
        a = otpod.UnivariateLinearModelAnalysis(xs, ys, resDistFact=fact, **kw)
        noise, sat, bc = kw.get('noiseThres'), kw.get('saturationThres'), kw.get('boxCox', False)
        cens = noise is not None or sat is not None
        xu, yu, xn, xsat = ref.split(d['x'], d['y'], noise, sat)
        zn, zs = noise, sat
        if bc is not False:
            sh = ref.bc_shift(yu)
            yu = ref.boxcox(yu + sh, bc)
            zn = None if noise is None else float(ref.boxcox(noise + sh, bc))
            zs = None if sat is None else float(ref.boxcox(sat + sh, bc))
        b0, b1, s, res = ref.ols(xu, yu)
        scale = np.abs(yu).max()
        tol = dict(rtol=1e-7, atol=1e-8 * (1 + scale))
        ncol = 2 if cens else 1
        I, S, E, R2 = a.getIntercept(), a.getSlope(), a.getStandardError(), a.getR2()
        for nm, v in (('intercept', I), ('slope', S), ('standard error', E), ('R2', R2)):
            if not ctx.check(v.getDimension() == ncol, '%s has %d values, expected %d' % (nm, v.getDimension(), ncol)):
                return
        ctx.close(I[0], b0, 'least squares intercept', **tol)
        ctx.close(S[0], b1, 'least squares slope', **tol)
        ctx.close(E[0], s, 'standard error of the estimate', **tol)
        ctx.close(R2[0], ref.r2(yu, res), 'R2 (uncensored)', **tol)
        G = np.array(a.getResiduals())
        ctx.check(G.shape == (len(xu), ncol), 'residuals have shape %r, expected %r' % (G.shape, (len(xu), ncol)))
        ctx.close(G[:, 0], res, 'residuals', **tol)
        dist = a.getResidualsDistribution()
        ctx.check(len(dist) == ncol, '%d residual distributions' % len(dist))
        want = (fact or ot.NormalFactory()).build(ot.Sample(ref.col(G[:, 0])))
        lin.same_dist(ctx, dist[0], want, 'fitted residual law')
        cvals = {}
        if cens:
            best, fbest = ref.tobit_fit(xu, yu, xn, xsat, zn, zs)
            got = (I[1], S[1], E[1])
            f = ref.tobit_nll(got, xu, yu, xn, xsat, zn, zs)
            # defects around 1000: the simplex search stops up to 0.02 above the optimum (intercept and slope nearly aligned)
            ctx.check(f <= fbest + (5e-2 if case['cfg'].startswith('far') else 2e-3), lambda: 'censored estimates %r have neg. log-likelihood %.6f, '
                      'the optimum is %.6f at %r' % (got, f, fbest, best))
            cres = yu - I[1] - S[1] * xu
            ctx.close(G[:, 1], cres, 'residuals of the censored model', **tol)
            ctx.close(R2[1], ref.r2(yu, cres), 'R2 (censored)', **tol)
            lin.same_dist(ctx, dist[1], (fact or ot.NormalFactory()).build(ot.Sample(ref.col(cres))),
                          'fitted residual law (censored)')
        # data and settings are given back unchanged
        ctx.close(a.getInputSample(), d['x'], 'input sample given back', rtol=0, atol=0)
        ctx.close(a.getOutputSample(), d['y'], 'output sample given back', rtol=0, atol=0)
        ctx.check(a.getNoiseThreshold() == noise and a.getSaturationThreshold() == sat, 'thresholds given back')
        # printed and saved reports carry these values
        a.saveResults('res.txt')
        ctx.step('saveResults')
        with open('res.txt') as fd:
            saved = fd.read()
        ctx.step('getResults')
        ci0, ci1 = ref.ols_ci(xu, yu)
        rows = [('Box Cox parameter :', ['Not enabled' if bc is False else float(bc)]),
                ('Intercept coefficient :', [b0] + ([I[1]] if cens else [])),
                ('Slope coefficient :', [b1] + ([S[1]] if cens else [])),
                ('Standard error of the estimate :', [s] + ([E[1]] if cens else [])),
                ('Intercept coefficient :', [ci0]), ('Slope coefficient :', [ci1]),
                ('Level :', [0.95]),
                ('R2 (> 0.8):', [ref.r2(yu, res)] + ([R2[1]] if cens else []))]
        pv = [('Kolmogorov p-value (> 0.05):', a.getKolmogorovPValue()),
              ('Anderson Darling p-value (> 0.05):', a.getAndersonDarlingPValue()),
              ('Cramer Von Mises p-value (> 0.05):', a.getCramerVonMisesPValue()),
              ('p-value (> 0.05):', a.getZeroMeanPValue()),
              ('Breush Pagan p-value (> 0.05):', a.getBreuschPaganPValue()),
              ('Harrison McCabe p-value (> 0.05):', a.getHarrisonMcCabePValue()),
              ('Durbin Watson p-value (> 0.05):', a.getDurbinWatsonPValue())]
        rows += [(k, list(v)) for k, v in pv]
        for nm, text, sep in (('getResults', a.getResults(), None), ('saveResults', saved, '\t')):
            got = parse(text, sep)
            pos = 0
            for lab, vals in rows:
                while pos < len(got) and got[pos][0] != lab:
                    pos += 1
                if not ctx.check(pos < len(got), '%s: line %r missing' % (nm, lab)):
                    break
                line = got[pos][1]
                pos += 1
                flat = []
                for t in line:
                    flat += re.findall(r'-?\d+(?:\.\d+)?(?:e[-+]?\d+)?|nan|inf|Not enabled', t)
                exp = []
                for v in vals:
                    exp += list(v) if isinstance(v, tuple) else [v]
                ok = len(flat) == len(exp) and all(
                    (t == v) if isinstance(v, str) else near(t, v) for t, v in zip(flat, exp))
                ctx.check(ok, lambda: '%s: line %r shows %r, expected %r' % (nm, lab, line, vals))
            low = any(float(q) < 0.05 for _, v in pv for q in v)
            lawnote = dist[0].getImplementation().getClassName() != 'Normal'
            bcadv = 'consider to use the Box Cox' in text
            qradv = 'quantile regression or kriging' in text
            ctx.check(bcadv == (low and bc is False), '%s: Box Cox advice %s although failed tests=%s, Box Cox=%s'
                      % (nm, bcadv, low, bc))
            ctx.check(qradv == (low and bc is not False), '%s: advice on other methods %s although failed '
                      'tests=%s, Box Cox=%s' % (nm, qradv, low, bc))
            ctx.check(('assuming the residuals follow a Normal' in text) == lawnote,
                      '%s: note on the Normal assumption present=%s' % (nm, not lawnote))
        ctx.state(case['cfg'], case['xp'], d['signs'], [b0, b1, s])
        if len(ctx.problems) > 4:
            return
