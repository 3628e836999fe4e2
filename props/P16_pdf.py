"""PDF"""
import contextlib

from props.common import *

TITLE = 'PDFs, percentiles and PDF distances describe exactly the kept values'
META = dict(
    title=TITLE,
    statement='For every image, threshold, weights and normalisation, the distribution is made of exactly the finite '
              'values above the threshold (times their finite weights), normalised as asked; the PDF is their density '
              'histogram on the given or default (rounded root of their number) bins and integrates to one over them, the '
              'ECDF is the fraction at or below each bin centre, and percentiles convert both ways. Fits maximise the '
              'likelihood of exactly those values with the fixed parameters held at the given values and report parameters '
              'and errors in order, and the Hellinger, KS and lognormal distances compare both data sets on common bins '
              'by their textbook formulas for any way of spelling the statistic; the inputs are never modified.',
    quantifier=dict(over=['inputs'], text='all values, NaN patterns, thresholds and weights within bounds, all fit results'),
    why_tests_cant='Tests pin a few distances of one pair of images; a value at the threshold, a NaN weight or an equal '
                   'but not identical statistic name is not sampled.',
    anchors=dict(files=['turbustat/statistics/pdf/compare_pdf.py', 'turbustat/statistics/stats_utils.py'],
                 mechanism=[dict(name='PDF', where='turbustat/statistics/pdf/compare_pdf.py:15'),
                            dict(name='PDF.fit_pdf', where='turbustat/statistics/pdf/compare_pdf.py:178'),
                            dict(name='PDF_Distance', where='turbustat/statistics/pdf/compare_pdf.py:543')]))
MODULES = ['turbustat.statistics']
OUTSIDE = 'images of more than 8 pixels, convergence of the maximum-likelihood search, MCMC fits, plots'
ASSUMPTIONS = ['statsmodels GenericLikelihoodModel and the scipy distribution are replaced by recorders in the fit obligations',
               'ECDF and ks_2samp are modelled by their definitions']


def wname(**k):
    return '-'.join('%s' % v for v in k.values())


def norm_ref(I, vals, kind):
    if kind is None:
        return vals, None
    n = float(len(vals))
    mu = total(vals) / n
    if kind == 'center':
        return [v - mu for v in vals], None
    if kind == 'normalize_by_mean':
        I.assume(abs(mu) > 0.1)
        return [v / mu for v in vals], None
    lo = hi = vals[0]
    for v in vals[1:]:
        if bool(v < lo):
            lo = v
        if bool(v > hi):
            hi = v
    if kind == 'normalize':
        I.assume(hi - lo > 0.1)
        return [(v - lo) / (hi - lo) for v in vals], None
    var = mean([(v - mu) * (v - mu) for v in vals])
    I.assume(var > 0.05)
    return [v - mu for v in vals], var


def values_ob(shape, min_val=None, weights=False, kind=None, nan=True, infs=(), dim=2):
    def body(I):
        from turbustat.statistics import PDF
        x = I.split(I.arr('x', shape, lo=-3, hi=3, nan='sym' if nan else False))
        for k in infs:
            x[k] = np.inf
        s = I.snapshot(x)
        mv = None
        if min_val is not None:
            mv = I.real('m', lo=-2, hi=2) if min_val == 'sym' else min_val
        w = None
        if weights:
            w = I.split(I.arr('w', shape, lo=0.25, hi=2, nansym=[list(np.ndindex(*shape))[1]]))
            sw = I.snapshot(w)
        X = asobj(x)
        vals, kept = [], 0
        for k in np.ndindex(*shape):
            if bool(isnan(X[k])) or k in infs:
                continue
            if mv is not None and not bool(X[k] > mv):
                continue
            kept += 1
            if w is not None:
                if bool(isnan(asobj(w)[k])):
                    continue
                vals.append(X[k] * asobj(w)[k])
            else:
                vals.append(X[k])
        I.assume(len(vals) > 1 and kept > 1)      # a single value is squeezed to a scalar
        ref, var = norm_ref(I, vals, kind)
        kw = {} if mv is None else dict(min_val=mv)
        with I.code():
            p = PDF(x, weights=w, normalization_type=kind, **kw)
            d = asobj(p.data)
        I.unchanged('image', x, s)
        if w is not None:
            I.unchanged('weights', w, sw)
        I.true('number of values', d.shape == (len(vals),))
        if d.shape != (len(vals),):
            return
        I.true('type', p.normalization_type == (kind or 'None'))
        for k, r in enumerate(ref):
            if var is None:
                I.eq('value %d' % k, d[k], r)
            else:
                I.eq('z-score %d' % k, d[k] * d[k] * var, r * r, tol=1e-5)
                I.le('sign %d' % k, 0.0, d[k] * r)
    return Ob('values%s-%s-%s%s%s%s' % (shape, min_val, kind, '-w' if weights else '', '-nan' if nan else '', '-inf' if infs else ''), body,
              'every %s image in [-3,3]%s' % (shape, ', any pixel NaN' if nan else ''), max_paths=900)


def pdf_ob(n, bins, nvals=None, mode='run'):
    """bins: None, int or edges"""
    def body(I):
        from turbustat.statistics import PDF
        x = asobj(np.arange(n) * 0.7 % 2.0 - 1.0)
        f = n if nvals is None else nvals
        for k in range(f):
            x[k] = I.real('x%d' % k, lo=-1 if f < n else -3, hi=1 if f < n else 3)
        V = list(x)
        x = pack(I, x)
        given = bins if isinstance(bins, list) else None
        if given is None:
            nb = bins if bins is not None else int(round(math.sqrt(n)))
            lo = hi = V[0]
            for e in V[1:]:
                if bool(e < lo):
                    lo = e
                if bool(e > hi):
                    hi = e
            I.assume(hi - lo > 0.1)
            ed = [lo + (hi - lo) * (i / float(nb)) for i in range(nb)] + [hi]
            for e in V:
                for b in range(1, nb):
                    I.assume(abs(e - ed[b]) > 1e-5)
        else:
            ed, nb = given, len(given) - 1
        for i in range(nb):
            for e in V:
                I.assume(abs(e - (ed[i] + ed[i + 1]) / 2.0) > 1e-5)
        cnt = [0] * nb
        for e in V:
            for b in range(nb):
                if bool(e >= ed[b]) and (bool(e < ed[b + 1]) or (b == nb - 1 and bool(e <= ed[nb]))):
                    cnt[b] += 1
                    break
        I.assume(sum(cnt) > 0)
        A.OPTS['hist_decide'] = True
        with I.code():
            arg = np.array(bins) if given is not None else bins
            if mode == 'init':
                p = PDF(x, bins=arg)
                p.make_ecdf()
            else:
                p = PDF(x)
                p.run(bins=arg, do_fit=False)
            d, c, e = asobj(p.pdf), asobj(p.bins), asobj(p.ecdf)
        I.true('bins', d.shape == (nb,) and c.shape == (nb,) and e.shape == (nb,))
        if d.shape != (nb,) or c.shape != (nb,) or e.shape != (nb,):
            return
        for b in range(nb):
            mid = (ed[b] + ed[b + 1]) / 2.0
            I.eq('centre %d' % b, c[b], mid)
            I.eq('density %d' % b, d[b] * (ed[b + 1] - ed[b]), cnt[b] / float(sum(cnt)))
            I.eq('ecdf %d' % b, e[b], sum(bool(v <= mid) for v in V) / float(n))
    return Ob('pdf-%d-%s-%s-%s' % (n, bins, nvals, mode), body, '%d values, %s of them free' % (n, 'all' if nvals is None else nvals),
              max_paths=900)


def percent_ob(n):
    def body(I):
        from turbustat.statistics import PDF
        x = I.arr('x', n, lo=-3, hi=3)
        V = list(asobj(x))
        q = I.real('q', lo=-3, hi=3)
        for i in range(n):
            I.assume(abs(V[i] - q) > 1e-6)
            for j in range(i):
                I.assume(abs(V[i] - V[j]) > 1e-3)
        srt = []
        for v in V:
            k = sum(bool(u < v) for u in srt)
            srt.insert(k, v)
        with I.code():
            p = PDF(x, bins=np.array([-3.0, 0.0, 3.0]))
            a = p.find_percentile(q)
            b = p.find_at_percentile(np.array([0.0, 50.0, 80.0, 100.0]))
        I.eq('percentile of', a, 100.0 * sum(bool(v < q) for v in V) / n)
        for k, pc in enumerate([0.0, 50.0, 80.0, 100.0]):
            t = pc / 100.0 * (n - 1)
            i = min(int(math.floor(t + 1e-12)), n - 2)
            I.eq('at %g' % pc, asobj(b)[k], srt[i] + (srt[i + 1] - srt[i]) * (t - i))
        for bad in (101.0, -1.0):
            I.raises('refused %g' % bad, ValueError, p.find_at_percentile, np.array([50.0, bad]))
        I.raises('refused scalar', ValueError, p.find_at_percentile, 100.5)
    return Ob('percentiles-%d' % n, body, '%d distinct values and any query in [-3,3]' % n)


class FakeDist(object):
    """one shape parameter"""
    shapes = 's'

    def __init__(self, I, log):
        self.I, self.log = I, log
        self.par = list(asobj(I.arr('init', 3, lo=0.5, hi=2)))

    def fit(self, data, **k):
        self.log['fit'] = (data, k)
        loc = k.get('floc', self.par[1])
        sc = k.get('fscale', self.par[2])
        return (self.par[0], loc, sc)

    def logpdf(self, x, *sh, loc=0.0, scale=1.0):
        self.log['logpdf'] = (x, sh, loc, scale)
        o = asobj(x)
        r = objarr(o.shape)
        for i in range(len(o)):
            r[i] = o[i] * sh[0] + loc * 3.0 + scale * 5.0
        return pack(self.I, r)


def fit_ob(floc, fscale, fail=False):
    def body(I):
        from turbustat.statistics import PDF
        x = I.arr('x', 5, lo=0.1, hi=3)
        loc, sc = I.real('loc', lo=-1, hi=1), I.real('scale', lo=0.5, hi=2)
        npar = 1 + (not floc) + (not fscale)
        par, err = I.arr('p', npar, lo=0.5, hi=2), I.arr('e', npar, lo=0.5, hi=2)
        q = I.arr('q', npar, lo=0.5, hi=2)
        log = {}

        class Res(object):
            params = par

            @property
            def bse(self):
                if fail:
                    raise ValueError('singular')
                return err

        class Fake(object):
            def __init__(self, endog, *a, **k):
                self.endog = endog

            def fit(self, start_params=None, method=None, **k):
                log['start'] = start_params
                log['ll'] = self.loglike(q)
                return Res()
        dist = FakeDist(I, log)
        with I.stub('statsmodels.base.model.GenericLikelihoodModel', Fake), I.code():
            p = PDF(x)
            p.fit_pdf(model=dist, floc=floc, loc=loc, fscale=fscale, scale=sc)
            P_, E = p.model_params, p.model_stderrs
        if 'start' not in log:
            return
        rest = list(asobj(q))[1:]
        L = loc if floc else rest.pop(0)
        S = sc if fscale else rest.pop(0)
        I.eq('likelihood', log['ll'], total([v * q[0] for v in asobj(x)]) + 5.0 * (L * 3.0 + S * 5.0))
        I.eq('likelihood values', log['logpdf'][0], x)
        I.eq('initial fit of the data', log['fit'][0], x)
        k = log['fit'][1]
        I.true('held parameters', set(k) == ({'floc'} if floc else set()) | ({'fscale'} if fscale else set()))
        if floc and 'floc' in k:
            I.eq('held loc', k['floc'], loc)
        if fscale and 'fscale' in k:
            I.eq('held scale', k['fscale'], sc)
        st = [dist.par[0]] + ([] if floc else [dist.par[1]]) + ([] if fscale else [dist.par[2]])
        I.eq('start', log['start'], np.array(st, dtype=object))
        I.eq('parameters', P_, par)
        if fail:
            I.true('errors unknown', all(bool(isnan(e)) for e in asobj(E)))
        else:
            I.eq('errors', E, err)
    return Ob('fit-%s-%s%s' % ('loc' if floc else 'free', 'scale' if fscale else 'free', '-fail' if fail else ''), body,
              'all 5 values in [0.1,3], all fixed values and fit results')


def dist_ob(n1, n2, nb, stat, kind=None, free=(1, 1), lim=False, same=False):
    def body(I):
        from turbustat.statistics import PDF_Distance
        a, b = asobj(np.array([-1.0, 0.3, 1.0, 0.1, -0.4, 0.7])[:n1]), asobj(np.array([0.2, -1.0, 1.0, -0.6, 0.5, 0.45])[:n2])
        for k in range(free[0]):
            a[1 + 2 * k] = I.real('a%d' % k, lo=-0.99, hi=0.99)
        for k in range(free[1]):
            b[0 if k == 0 else 2 + k] = I.real('b%d' % k, lo=-0.99, hi=0.99)
        if same:
            b = a.copy()
        lo, hi = (-0.7, 0.9) if lim else (-1.0, 1.0)
        ed = [lo + (hi - lo) * i / (nb - 1.0) for i in range(nb)]
        va, vb = list(a), list(b)
        for v in va + vb:
            for e in ed[1:-1]:
                if is_sym(v):
                    I.assume(abs(v - e) > 1e-5)
            if lim and is_sym(v):
                I.assume(abs(v - lo) > 1e-5)
                I.assume(abs(v - hi) > 1e-5)

        def h(vs):
            c = [0] * (nb - 1)
            for v in vs:
                for i in range(nb - 1):
                    if bool(v >= ed[i]) and (bool(v < ed[i + 1]) or (i == nb - 2 and bool(v <= ed[-1]))):
                        c[i] += 1
                        break
            return [k / float(sum(c)) for k in c]
        H1, H2 = h(va), h(vb)
        A.OPTS['hist_decide'] = True
        kw = dict(bin_min=lo, bin_max=hi) if lim else {}
        x1, x2 = pack(I, a), pack(I, b)
        with I.code():
            d = PDF_Distance(x1, x2, do_fit=False, nbins=nb, **kw)
            d.distance_metric(statistic=''.join(list(stat)))
            e = PDF_Distance(x2, x1, do_fit=False, nbins=nb, **kw)
            e.distance_metric(statistic=''.join(list(stat)))
        if stat in ('all', 'hellinger'):
            I.eq('Hellinger', d.hellinger_distance, math.sqrt(0.5 * sum((math.sqrt(p) - math.sqrt(q))**2 for p, q in zip(H1, H2))))
            I.eq('Hellinger symmetric', d.hellinger_distance, e.hellinger_distance)
            I.eq('bins', d.bins, np.array(ed))
            if same:
                I.eq('Hellinger zero', d.hellinger_distance, 0.0)
        if stat in ('all', 'ks'):
            best = 0.0
            for v in va + vb:
                g = abs(sum(bool(w <= v) for w in va) / float(n1) - sum(bool(w <= v) for w in vb) / float(n2))
                best = max(best, g)
            I.eq('KS', d.ks_distance, best)
            I.eq('KS symmetric', e.ks_distance, best)
    return Ob('distance-%d-%d-%d-%s%s%s' % (n1, n2, nb, stat, '-lim' if lim else '', '-same' if same else ''), body,
              '%d and %d values of which %s free in [-0.99,0.99]' % (n1, n2, free), max_paths=900)


def lognormal_ob():
    def body(I):
        from turbustat.statistics import PDF_Distance
        par, err = I.arr('p', (2, 2), lo=0.5, hi=2), I.arr('e', (2, 2), lo=0.5, hi=2)
        x = I.arr('x', 4, lo=0.1, hi=3)
        got = []

        class Res(object):
            def __init__(self, i):
                self.params, self.bse = par[i], err[i]

        class Fake(object):
            def __init__(self, endog, *a, **k):
                self.endog = endog

            def fit(self, start_params=None, method=None, **k):
                got.append(self.endog)
                return Res(len(got) - 1)

        class LN(object):
            shapes = 's'

            def fit(self, data, **k):
                return (1.0, 0.0, 1.0)
        y = np.array([0.5, 1.0, 2.0])
        import scipy.stats as ss
        with I.stub('statsmodels.base.model.GenericLikelihoodModel', Fake), I.code():
            real = ss.lognorm.__class__.fit
            try:
                ss.lognorm.__class__.fit = lambda self, data, **k: (1.0, 0.0, 1.0)
                d = PDF_Distance(x, y, nbins=4)
                d.distance_metric(statistic='lognormal')
            finally:
                ss.lognorm.__class__.fit = real
        if len(got) != 2:
            return
        I.eq('fitted values 1', got[0], x)
        I.eq('fitted values 2', got[1], y)
        D = d.lognormal_distance
        I.le('sign', 0.0, D)
        I.eq('lognormal', D * D * (err[0, 0] * err[0, 0] + err[1, 0] * err[1, 0]), (par[0, 0] - par[1, 0]) * (par[0, 0] - par[1, 0]), tol=1e-5)
        with I.code():
            n = PDF_Distance(np.array([1.0, 2.0, 1.5, 3.0]), y, nbins=3, do_fit=False)
        I.raises('no fit', Exception, n.distance_metric, statistic='lognormal')
        I.raises('unknown statistic', TypeError, n.distance_metric, statistic='chi')
        for k in ('standardize', 'center'):
            I.raises('lognormal fit of ' + k, Exception, PDF_Distance, y, y, normalization_type=k)
    return Ob('distance-lognormal', body, 'all fit results, 4 values in [0.1,3]', max_paths=900)


def obligations(tier):
    obs = [values_ob((2, 2), 'sym'), values_ob((2, 2), None), values_ob((2, 2), 'sym', weights=True, nan=False), values_ob((1, 3), 0.0, weights=True),
           values_ob((2, 2), None, kind='center'), values_ob((2, 2), None, kind='normalize_by_mean', nan=False), values_ob((1, 3), 'sym', kind='normalize'),
           values_ob((3,), None, kind='standardize', nan=False), values_ob((2, 2, 2), 0.5, nan=False), values_ob((2, 3), 'sym', nan=False, infs=[(0, 1)]),
           values_ob((3, 1), -1.0, weights=True, kind='center'),
           pdf_ob(3, 2), pdf_ob(5, None, 1), pdf_ob(3, [-3.0, -1.0, 0.5, 3.0], mode='init'), pdf_ob(7, None, 1), pdf_ob(5, 3, 1, mode='init'),
           pdf_ob(3, [-1.5, 0.0, 2.0]),
           percent_ob(3),
           fit_ob(True, False), fit_ob(False, True), fit_ob(False, False), fit_ob(True, True), fit_ob(True, False, fail=True),
           dist_ob(4, 5, 4, 'hellinger', free=(1, 1)), dist_ob(5, 4, 3, 'all'), dist_ob(6, 5, 4, 'hellinger', lim=True, free=(1, 1)),
           dist_ob(4, 4, 4, 'all', same=True), dist_ob(3, 4, 3, 'ks', free=(1, 1)), lognormal_ob()]
    if tier == 'thorough':
        obs += [values_ob((2, 3), 'sym'), pdf_ob(4, 2), pdf_ob(5, 3, 2, mode='init'), pdf_ob(4, [-1.5, 2.0]), percent_ob(4), dist_ob(6, 6, 5, 'all', free=(2, 2))]
    return obs
