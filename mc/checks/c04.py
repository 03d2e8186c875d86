"""C04: the residual hypothesis tests report the documented p-values."""
import logging
import numpy as np
import openturns as ot
import otpod
from mc import ref, lin

META = {'bounds': 'the data sets of C03 (every sign pattern of the errors, 4 defect layouts, censoring, Box Cox, '
        'residual law); simulated Harrison McCabe p-value within 7 sigma of the exact null law'}


W_BOXCOX = 'you may consider to use the Box Cox transformation'
W_OTHER = 'you may consider to use quantile regression or kriging'
W_NORMAL = 'given assuming the residuals follow a Normal distribution'


class Logged(logging.Handler):
    """The warnings logged while the block runs."""
    def emit(self, record):
        self.text += record.getMessage() + '\n'

    def __enter__(self):
        self.text = ''
        logging.disable(logging.NOTSET)
        root = logging.getLogger()
        self.old, root.handlers = root.handlers, [self]
        return self

    def __exit__(self, *exc):
        logging.getLogger().handlers = self.old
        logging.disable(logging.CRITICAL)


def cases(tier):
    return lin.cases(tier)


def kw_fact(kw):
    return kw.get('fact') not in (None, 'Normal')


def run(case, ctx):
    for d in lin.datasets(case):
        ctx.step('analysis', d['x'], d['y'], d['kw'])
        ot.RandomGenerator.SetSeed(1)
        np.random.seed(1)
        kw = dict(d['kw'])
        fact = lin.factory(kw.pop('fact', None)) or ot.NormalFactory()
        with Logged() as log:
            a = otpod.UnivariateLinearModelAnalysis(ref.col(d['x']), ref.col(d['y']), resDistFact=fact, **kw)
        noise, sat, bc = kw.get('noiseThres'), kw.get('saturationThres'), kw.get('boxCox', False)
        cens = noise is not None or sat is not None
        xu, yu, _, _ = ref.split(d['x'], d['y'], noise, sat)
        if bc is not False:
            yu = ref.boxcox(yu + ref.bc_shift(yu), bc)
        models = [(a.getIntercept()[k], a.getSlope()[k]) for k in range(2 if cens else 1)]
        names = [('zero mean', a.getZeroMeanPValue()), ('Breusch Pagan', a.getBreuschPaganPValue()),
                 ('Durbin Watson', a.getDurbinWatsonPValue()), ('Kolmogorov', a.getKolmogorovPValue()),
                 ('Anderson Darling', a.getAndersonDarlingPValue()),
                 ('Cramer Von Mises', a.getCramerVonMisesPValue()),
                 ('Harrison McCabe', a.getHarrisonMcCabePValue())]
        for nm, v in names:
            ctx.step('get p-value', nm)
            if not ctx.check(v.getDimension() == len(models), '%s: %d p-values' % (nm, v.getDimension())):
                return
        got = dict(names)
        failed = any(v[k] < 0.05 for _, v in names for k in range(len(models)))
        a.saveResults('res.txt')
        for where, text in (('logged', log.text), ('getResults', a.getResults()), ('saveResults', open('res.txt').read())):
            ctx.step('warnings', where)
            want = [failed and bc is False, failed and bc is not False, kw_fact(d['kw'])]
            found = [m in text for m in (W_BOXCOX, W_OTHER, W_NORMAL)]
            ctx.check(found == want, lambda: 'warnings %s: %r, expected %r (Box Cox advice, other technique, normality); '
                      'p-values %r' % (where, found, want, [(m, list(v)) for m, v in names]))
        for k, (b0, b1) in enumerate(models):
            if k == 0:
                b0, b1, _, res = ref.ols(xu, yu)
            else:
                res = yu - b0 - b1 * xu
            w = 'censored' if k else 'uncensored'
            sres = ot.Sample(ref.col(res))
            if k == 1:      # for least squares the mean is pure rounding noise
                ctx.close(got['zero mean'][k], ref.p_zero_mean(res), 'zero mean p-value (%s)' % w, atol=1e-6)
            else:
                ctx.check(got['zero mean'][k] >= 0.999, 'zero mean p-value of least squares residuals is %r'
                          % got['zero mean'][k])
            ctx.close(got['Breusch Pagan'][k], ref.p_breusch_pagan(xu, res), 'Breusch Pagan p-value (%s)' % w, atol=1e-7)
            ctx.close(got['Durbin Watson'][k], ref.p_durbin_watson(xu, res), 'Durbin Watson p-value (%s)' % w, atol=1e-6)
            law = fact.build(sres)
            ctx.close(got['Kolmogorov'][k], ref.p_kolmogorov(res, law.computeCDF), 'Kolmogorov p-value (%s)' % w,
                      rtol=1e-4, atol=1e-4)
            ctx.close(got['Anderson Darling'][k], ot.NormalityTest.AndersonDarlingNormal(sres).getPValue(),
                      'Anderson Darling p-value (%s)' % w, atol=1e-6)
            ctx.close(got['Cramer Von Mises'][k], ot.NormalityTest.CramerVonMisesNormal(sres).getPValue(),
                      'Cramer Von Mises p-value (%s)' % w, atol=1e-6)
            p = ref.p_harrison_mccabe(res)
            ctx.check(abs(got['Harrison McCabe'][k] - p) <= ref.mc_tol(p, 1000, extra=0.01),
                      lambda: 'Harrison McCabe p-value (%s) is %r, the null law gives %r' % (w, got['Harrison McCabe'][k], p))
            ctx.state(case['cfg'], case['xp'], case['neg'], d['signs'], k, p, [got[n_][k] for n_, _ in names[:3]])
        if len(ctx.problems) > 4:
            return
