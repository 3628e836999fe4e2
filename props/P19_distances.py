"""Distance metrics of the spectrum-like statistics"""
import inspect
import types

from props.common import *

TITLE = 'Distances compare what was fitted to each data set with its own options'
META = dict(
    title=TITLE,
    statement='The distances of power spectra, VCA, VCS, MVC, wavelets and delta-variance are the absolute slope difference over the '
              'quadrature sum of the slope errors (VCS: summed over both scales, with the same for the break), so they are symmetric and '
              'vanish for equal slopes; the delta-variance curve distance is the norm of the difference of the logarithms of both curves '
              'normalised over their common valid lags, defined only for equal fit ranges, and the SCF distance the root mean square surface '
              'difference weighted by inverse lag. Each data set is run with its own weights, limits, breaks and options at lags matched in '
              'angular scale, objects already computed at those lags are used as they are, and the given option sets stay unmodified.',
    quantifier=dict(over=['inputs', 'histories'], text='all fitted slopes, errors, curves and surfaces; raw data, fitted and unfitted objects on either side'),
    why_tests_cant='Tests pin a distance for one pair of data sets; separate options for the second data set, objects on only one side and '
                   'different pixel scales are not compared with anything.',
    anchors=dict(files=['turbustat/statistics/pspec_bispec/pspec.py', 'turbustat/statistics/vca_vcs/vca.py', 'turbustat/statistics/vca_vcs/vcs.py',
                        'turbustat/statistics/mvc/mvc.py', 'turbustat/statistics/wavelets/wavelet_transform.py',
                        'turbustat/statistics/delta_variance/delta_variance.py', 'turbustat/statistics/scf/scf.py'],
                 mechanism=[dict(name='PSpec_Distance', where='turbustat/statistics/pspec_bispec/pspec.py:231'),
                            dict(name='DeltaVariance_Distance', where='turbustat/statistics/delta_variance/delta_variance.py:700'),
                            dict(name='SCF_Distance', where='turbustat/statistics/scf/scf.py:560')]))
MODULES = ['turbustat.statistics']
OUTSIDE = 'the fits themselves (P03, P05, P09, P10), more than 4 lags, surfaces larger than 5x5, plotting'
ASSUMPTIONS = ['the run of each statistic is replaced by one that records its options and sets an arbitrary slope and error']

KINDS = ('PowerSpectrum', 'VCA', 'MVC', 'Wavelet', 'VCS', 'DeltaVariance')


def dist_class(kind):
    import turbustat.statistics as S
    return getattr(S, {'PowerSpectrum': 'PSpec_Distance'}.get(kind, kind + '_Distance'))


def stat_class(kind):
    import turbustat.statistics as S
    return getattr(S, kind)


BIG = np.arange(20.0 * 24).reshape(20, 24) % 7 + 1.0
IMG = np.arange(30.0).reshape(5, 6) % 7 + 1.0
CUBE = (np.arange(120.0).reshape(4, 5, 6) * 7) % 11 + 1.0


def raw(kind, pix=0.01):
    """what the distance accepts for a raw data set"""
    if kind in ('VCA', 'VCS'):
        return (CUBE, hdr3(pix))
    if kind == 'MVC':
        h = hdr2(pix)
        return dict(centroid=(IMG, h), moment0=(IMG + 1.0, h), linewidth=(IMG + 2.0, h),
                    centroid_error=(IMG * 0 + 2.0, h), moment0_error=(IMG * 0 + 4.0, h), linewidth_error=(IMG * 0 + 0.5, h))
    return (BIG if kind == 'DeltaVariance' else IMG, hdr2(pix))


def obj(kind, pix=0.01, lags=None):
    c = stat_class(kind)
    if kind in ('VCA', 'VCS'):
        return c(CUBE, header=hdr3(pix))
    if kind == 'MVC':
        return c(IMG, IMG + 1.0, IMG + 2.0, header=hdr2(pix))
    if kind == 'DeltaVariance' and lags is not None:
        return c(BIG, header=hdr2(pix), lags=lags)
    return c(IMG, header=hdr2(pix))


def set_slope(I, o, kind, s, e, brk=None):
    I.plant(o, '_slope', s)
    if kind == 'VCS':
        I.plant(o, '_slope_errs', e)
        o.fit = types.SimpleNamespace(brk=brk[0], brk_err=brk[1]) if brk is not None else types.SimpleNamespace()
    else:
        I.plant(o, '_slope_err', e)


def slope_ob(kind):
    def body(I):
        s, e = I.arr('s', 2), I.arr('e', 2, lo=0.1, hi=2)
        D = dist_class(kind)
        k = {}
        with I.code():
            a, b = (obj(kind), obj(kind)) if kind != 'DeltaVariance' else (obj(kind, lags=lg(3, 4)), obj(kind, lags=lg(3, 4)))
            for o, i in ((a, 0), (b, 1)):
                set_slope(I, o, kind, s[i], e[i])
            if kind == 'DeltaVariance':
                k = dict(use_common_lags=False)
            d, r, z = D(a, b, **k).distance_metric(), D(b, a, **k).distance_metric(), D(a, a, **k).distance_metric()
        att = 'slope_distance' if kind == 'DeltaVariance' else 'distance'
        v = getattr(d, att)
        I.le('sign', 0.0, v)
        I.eq('distance', v * v * (e[0] * e[0] + e[1] * e[1]), (s[0] - s[1]) * (s[0] - s[1]), tol=1e-5)
        I.eq('symmetric', v, getattr(r, att))
        I.eq('itself', getattr(z, att), 0.0)
        if kind == 'DeltaVariance':
            I.true('no curve distance', bool(isnan(d.curve_distance)))
    return Ob('slope-%s' % kind, body, 'any slopes in [-4,4] and errors in [0.1,2]')


def lg(*v):
    import astropy.units as u
    return np.array(v, dtype=float) * u.pix


def vcs_ob(one):
    """one: which of the two has a single slope (None: both have two)"""
    def body(I):
        D = dist_class('VCS')
        s, e = I.arr('s', (2, 2)), I.arr('e', (2, 2), lo=0.1, hi=2)
        b, be = I.arr('b', 2, lo=0.1, hi=1), I.arr('be', 2, lo=0.1, hi=1)
        with I.code():
            o = [obj('VCS'), obj('VCS')]
            for i in range(2):
                n = 1 if one is not None and i in one else 2
                set_slope(I, o[i], 'VCS', s[i][:n], e[i][:n], (b[i], be[i]) if n == 2 else None)
            d = D(o[0], o[1]).distance_metric()
            r = D(o[1], o[0]).distance_metric()
        L = d.large_scale_distance

        def chk(nm, v, p, q):
            I.le('sign ' + nm, 0.0, v)
            I.eq(nm, v * v * (q[0] * q[0] + q[1] * q[1]), (p[0] - p[1]) * (p[0] - p[1]), tol=1e-5)
        chk('large scales', L, s[:, 0], e[:, 0])
        if one is None:
            chk('small scales', d.small_scale_distance, s[:, 1], e[:, 1])
            chk('break', d.break_distance, b, be)
            I.eq('sum', d.distance, L + d.small_scale_distance)
        else:
            I.true('undefined', bool(isnan(d.small_scale_distance)) and bool(isnan(d.break_distance)))
            I.eq('sum', d.distance, L)
        I.eq('symmetric', d.distance, r.distance)
    return Ob('vcs-%s' % ('two' if one is None else 'single%s' % list(one)), body, 'any slopes, breaks and errors')


def curve_ob(nan1, nan2, ranges=((2.5, 7.0), (2.5, 7.0)), free=(1, 2), neg=False):
    """lags 2,3,5,8 (cut by the fit range); curves with fixed and free values"""
    def body(I):
        import astropy.units as u
        D = dist_class('DeltaVariance')
        lags = lg(2, 3, 5, 6, 8)
        c1, c2 = asobj(np.array([1.0, 2.0, 3.0, 4.0, 7.0])), asobj(np.array([4.0, 1.0, 2.0, 0.5, 9.0]))
        c1[free[0]] = I.real('p', lo=-1 if neg else 0.1, hi=4)
        c2[free[1]] = I.real('q', lo=0.1, hi=4)
        c1[0] = I.real('r', lo=0.1, hi=4)
        for i in nan1:
            c1[i] = float('nan')
        for i in nan2:
            c2[i] = float('nan')
        if neg:
            I.assume(abs(c1[free[0]]) > 0.05)
        with I.code():
            o = [obj('DeltaVariance', lags=lags), obj('DeltaVariance', lags=lags)]
            for t, c, rg in zip(o, (c1, c2), ranges):
                set_slope(I, t, 'DeltaVariance', 1.0, 1.0)
                I.plant(t, '_delta_var', pack(I, c))
                I.plant(t, '_fit_range', [rg[0] * u.pix, rg[1] * u.pix])
            d = D(o[0], o[1], lags=lags).distance_metric()
            r = D(o[1], o[0], lags=lags).distance_metric()
        I.true('as given', d.delvar1 is o[0] and d.delvar2 is o[1])
        if ranges[0] != ranges[1]:
            I.true('undefined', bool(isnan(d.curve_distance)))
            return
        ok = [i for i, l in enumerate((2, 3, 5, 6, 8)) if ranges[0][0] <= l <= ranges[0][1] and i not in nan1 and i not in nan2
              and bool(c1[i] > 0) and bool(c2[i] > 0)]
        t1, t2 = total([c1[i] for i in ok]), total([c2[i] for i in ok])
        df = [log10(c1[i] / t1) - log10(c2[i] / t2) for i in ok]
        v = d.curve_distance
        I.le('sign', 0.0, v)
        I.eq('distance', v * v, total([x * x for x in df]), tol=1e-5)
        I.eq('symmetric', v, r.curve_distance, tol=1e-5)
    return Ob('curve-%s-%s-%s%s' % (list(nan1), list(nan2), list(map(list, ranges)), '-neg' if neg else ''), body,
              'three free values of two 5-point curves', atoms=True)


OPTS = {
    'PowerSpectrum': (dict(pspec_kwargs=dict(beam_correct=True, fit_2D=True, low_cut=9, radial_pspec_kwargs={'theta_0': 1}, fit_kwargs={'verbose': 7}),
                           pspec2_kwargs=dict(alpha=0.7, high_cut=3, fit_kwargs={'bootstrap': 5})),
                      (dict(beam_correct=True, radial_pspec_kwargs={'theta_0': 1}), {'verbose': 7}), (dict(alpha=0.7), {'bootstrap': 5})),
    'VCA': (dict(radial_pspec_kwargs={'theta_0': 1}, radial_pspec_kwargs2={'theta_0': 2}),
            (dict(radial_pspec_kwargs={'theta_0': 1}), {}), (dict(radial_pspec_kwargs={'theta_0': 2}), {})),
    'MVC': (dict(pspec_kwargs={'theta_0': 1}, pspec2_kwargs={'theta_0': 2}),
            (dict(radial_pspec_kwargs={'theta_0': 1}), {}), (dict(radial_pspec_kwargs={'theta_0': 2}), {})),
}
SINGLE = {'PowerSpectrum': ('pspec_kwargs', 'pspec2_kwargs'), 'VCA': ('radial_pspec_kwargs', 'radial_pspec_kwargs2'), 'MVC': ('pspec_kwargs', 'pspec2_kwargs'),
          'Wavelet': ('fit_kwargs', 'fit_kwargs2'), 'VCS': ('fit_kwargs', 'fit_kwargs2'), 'DeltaVariance': ('delvar_kwargs', 'delvar2_kwargs')}


class Record(object):
    """replaces the run of a statistic"""

    def __init__(self, I, kind, s, e):
        self.I, self.kind, self.calls = I, kind, []
        self.cls = stat_class(kind)
        self.real = self.cls.run
        self.sig = inspect.signature(self.real)
        self.s, self.e = list(s), list(e)

    def __enter__(self):
        rec = self

        def run(self, *a, **k):
            b = rec.sig.bind(self, *a, **k)
            g = dict(b.arguments)
            g.pop('self', None)
            for p in rec.sig.parameters.values():
                if p.kind == p.VAR_KEYWORD:
                    g.update(g.pop(p.name, {}))
            i = len(rec.calls)
            rec.calls.append((self, g, getattr(self, 'lags', None)))
            set_slope(rec.I, self, rec.kind, np.array([rec.s[i]], dtype=object) if rec.kind == 'VCS' else rec.s[i],
                      np.array([rec.e[i]], dtype=object) if rec.kind == 'VCS' else rec.e[i])
            return self
        own = 'run' in self.cls.__dict__
        self.own = own
        self.cls.run = run
        return self

    def __exit__(self, *a):
        if self.own:
            self.cls.run = self.real
        else:
            del self.cls.run


def same(a, b):
    import astropy.units as u
    if isinstance(a, u.Quantity) or isinstance(b, u.Quantity):
        return isinstance(a, u.Quantity) and isinstance(b, u.Quantity) and bool(np.all(a == b))
    if a is None or b is None:
        return a is b
    return a == b


def run_ob(kind, forms, opts2=True):
    """forms: 'raw', 'fitted' or 'unfitted' for each side"""
    def body(I):
        import copy
        import astropy.units as u
        D = dist_class(kind)
        s, e = I.arr('s', 2), I.arr('e', 2, lo=0.1, hi=2)
        lims = kind in ('PowerSpectrum', 'VCA', 'MVC')
        fit = {}
        if lims:
            lo = [0.1, 0.2] / u.pix
            hi = [0.4, 0.3] / u.pix
            kw = copy.deepcopy(OPTS[kind][0])
            kw.update(low_cut=lo, high_cut=hi, breaks=[0.15, 0.25] / u.pix)
            exp = [dict(low_cut=lo[i], high_cut=hi[i], fit_2D=False, **OPTS[kind][1 + i][0]) for i in range(2)]
            fit = [dict(OPTS[kind][1 + i][1], brk=kw['breaks'][i]) for i in range(2)]
        elif kind == 'Wavelet':
            kw = dict(xlow=[1, 2] * u.pix, xhigh=[5, 4] * u.pix, fit_kwargs=dict(scale_normalization=False), fit_kwargs2=dict(brk=3 * u.pix))
            exp = [dict(xlow=1 * u.pix, xhigh=5 * u.pix, scale_normalization=False), dict(xlow=2 * u.pix, xhigh=4 * u.pix, brk=3 * u.pix)]
        elif kind == 'VCS':
            kw = dict(breaks=[0.1, 0.2] / u.pix, fit_kwargs=dict(threads=3), fit_kwargs2=dict(high_cut=0.3 / u.pix))
            exp = [dict(breaks=0.1 / u.pix, threads=3), dict(breaks=0.2 / u.pix, high_cut=0.3 / u.pix)]
        else:
            kw = dict(use_common_lags=False, lags=lg(2, 2.5), lags2=lg(2, 3), delvar_kwargs=dict(boundary='fill'), delvar2_kwargs=dict(xlow=2 * u.pix))
            exp = [dict(boundary='fill'), dict(xlow=2 * u.pix)]
        if not opts2:
            del kw[SINGLE[kind][1]]
            first = exp[0]
            own = ('low_cut', 'high_cut', 'xlow', 'xhigh', 'breaks') if kind != 'DeltaVariance' else ()
            exp = [first, dict({k: v for k, v in first.items() if k not in own}, **{k: v for k, v in exp[1].items() if k in own})]
            if kind == 'VCS':
                exp[1].pop('high_cut', None)
            if kind == 'Wavelet':
                exp[1].pop('brk', None)
            if fit:
                fit = [fit[0], dict(fit[0], brk=kw['breaks'][1])]
        given = copy.deepcopy(kw)
        with Record(I, kind, s, e) as R, I.code():
            data = []
            for i, f in enumerate(forms):
                if f == 'raw':
                    data.append(raw(kind))
                else:
                    o = obj(kind, lags=kw['lags' if i == 0 else 'lags2']) if kind == 'DeltaVariance' else obj(kind)
                    if f == 'fitted':
                        set_slope(I, o, kind, *((np.array([q], dtype=object) for q in (s[i], e[i])) if kind == 'VCS' else (s[i], e[i])))
                    data.append(o)
            if forms[0] == 'fitted':
                R.s.pop(0)
                R.e.pop(0)
            try:
                d = D(data[0], data[1], **kw)
                d.distance_metric()
            except AttributeError as ex:
                if getattr(ex, 'name', None) not in ('_slope', '_slope_err', '_slope_errs'):
                    raise
                # the names the stand-in for the run sets are known to be in use
                I.true('every data set without a fit is run', False)
                return
        runs = [i for i, f in enumerate(forms) if f != 'fitted']
        objs = [getattr(d, {'PowerSpectrum': 'pspec', 'VCA': 'vca', 'MVC': 'mvc', 'Wavelet': 'wt', 'VCS': 'vcs', 'DeltaVariance': 'delvar'}[kind] + str(i + 1)) for i in range(2)]
        for i, f in enumerate(forms):
            if f != 'raw':
                I.true('object %d' % i, objs[i] is data[i])
        I.true('options as given', all(same(kw[k], given[k]) for k in given))
        I.true('runs', len(R.calls) == len(runs))
        if len(R.calls) != len(runs):
            return
        for i, (o, g, lags) in zip(runs, R.calls):
            I.true('order %d' % i, o is objs[i])
            for k, v in exp[i].items():
                I.true('option %s of %d' % (k, i), k in g and same(g[k], v))
            other = exp[1 - i]
            for k in other:
                if k not in exp[i]:
                    I.true('no option %s of %d' % (k, i), k not in g)
            if fit:
                fk = g.get('fit_kwargs', {})
                I.true('fit options %d' % i, sorted(fk) == sorted(fit[i]) and all(same(fk[k], fit[i][k]) for k in fit[i]))
            if kind == 'DeltaVariance':
                I.eq('lags %d' % i, lags.value, np.array([2, 2.5] if i == 0 else [2, 3]))
        v = d.slope_distance if kind == 'DeltaVariance' else d.distance
        I.eq('distance', v * v * (e[0] * e[0] + e[1] * e[1]), (s[0] - s[1]) * (s[0] - s[1]), tol=1e-5)
    return Ob('run-%s-%s-%s%s' % (kind, forms[0], forms[1], '' if opts2 else '-shared'), body, 'any slopes and errors')


def construct_ob(kind, kw):
    """options of the construction reach both data sets"""
    def body(I):
        D, C = dist_class(kind), stat_class(kind)
        s, e = I.arr('s', 2), I.arr('e', 2, lo=0.1, hi=2)
        with Record(I, kind, s, e) as R, I.code():
            x = raw(kind)
            k = dict(kw)
            if kind == 'VCA':
                import astropy.units as u
                k['channel_width'] = k['channel_width'] * u.m / u.s
            o = C(x, **k)
            if kind == 'DeltaVariance':
                k['use_common_lags'] = False
            d = D(raw(kind), raw(kind), **k)
        for i, (t, g, l) in enumerate(R.calls):
            for nm in ('data', 'scales', 'diam_ratio', 'lags'):
                if hasattr(o, nm):
                    a, b = val(getattr(t, nm)), val(getattr(o, nm))
                    I.true('shape of %s %d' % (nm, i), np.shape(a) == np.shape(b))
                    if np.shape(a) == np.shape(b):
                        I.eq('%s %d' % (nm, i), a, b)
    return Ob('construct-%s-%s' % (kind, '-'.join(kw)), body, 'raw data on both sides')


def mvc_weights_ob():
    def body(I):
        D = dist_class('MVC')
        x = I.arr('x', (3, 4), lo=0.5, hi=4)
        h = hdr2()

        def dat(k):
            return dict(centroid=(x, h), moment0=(IMG[:3, :4], h), linewidth=(IMG[:3, :4] + 1.0, h),
                        centroid_error=(IMG[:3, :4] + k, h), moment0_error=(IMG[:3, :4] + 2.0 * k, h), linewidth_error=(IMG[:3, :4] + 3.0, h))
        with Record(I, 'MVC', [1.0] * 4, [1.0] * 4) as R, I.code():
            w, p = D(dat(1.0), dat(2.0), weight_by_error=True), D(dat(1.0), dat(2.0))
        I.true('runs', len(R.calls) == 4)
        g = IMG[:3, :4]
        for m, k in ((w.mvc1, 1.0), (w.mvc2, 2.0)):
            for nm, a, b in (('centroid', asobj(x), g + k), ('moment0', g, g + 2.0 * k), ('linewidth', g + 1.0, g + 3.0)):
                I.eq('weighted %s' % nm, getattr(m, nm), a / b**2)
        for m in (p.mvc1, p.mvc2):
            for nm, a in (('centroid', x), ('moment0', g), ('linewidth', g + 1.0)):
                I.eq('unweighted %s' % nm, getattr(m, nm), a)
    return Ob('mvc-weights', body, 'any 3x4 centroid map')


def weights_ob(kind):
    """the weights go with their own data set"""
    def body(I):
        D = dist_class(kind)
        sh = raw(kind)[0].shape
        w, v = I.arr('w', sh, lo=0.1, hi=1), I.arr('v', sh, lo=0.1, hi=1)
        kw = dict(use_common_lags=False, lags=lg(2, 2.5)) if kind == 'DeltaVariance' else {}
        with Record(I, kind, [1.0] * 2, [1.0] * 2), I.code():
            d = D(raw(kind), raw(kind), weights1=w, weights2=v, **kw)
        o = (d.pspec1, d.pspec2) if kind == 'PowerSpectrum' else (d.delvar1, d.delvar2)
        for t, q, nm in ((o[0], w, 'first'), (o[1], v, 'second')):
            if kind == 'DeltaVariance':
                I.eq('weights %s' % nm, t.weights, q)
            else:
                I.eq('weighted %s' % nm, t.weighted_data if hasattr(t, 'weighted_data') else t.data, IMG * asobj(q))
    return Ob('weights-%s' % kind, body, 'any pair of weight maps')


def common_ob(pix1, pix2):
    """lags matched in angular scale"""
    def body(I):
        import astropy.units as u
        D = dist_class('DeltaVariance')
        l = I.arr('l', 2, lo=2.1, hi=2.4)
        sc = pix2 / pix1
        L = u.Quantity(l, u.pix)
        e1 = [x * sc for x in asobj(l)] if sc > 1 else list(asobj(l))
        e2 = [x / sc for x in asobj(l)] if sc < 1 else list(asobj(l))
        with Record(I, 'DeltaVariance', [1.0] * 2, [1.0] * 2) as R, I.code():
            d = D(raw('DeltaVariance', pix1), raw('DeltaVariance', pix2), lags=L)
        I.true('runs', len(R.calls) == 2)
        if len(R.calls) == 2:
            for i, e in ((0, e1), (1, e2)):
                I.eq('lags %d' % i, val(R.calls[i][2]), np.array(e, dtype=object))
    return Ob('common-lags-%s-%s' % (pix1, pix2), body, 'any lags in [2.1,2.4]')


def default_lags_ob(sh1, sh2, pix2=0.01):
    """default lags: 25 from 3 pixels to half the shortest side of both maps, in log steps"""
    def body(I):
        D = dist_class('DeltaVariance')
        v = I.real('v', lo=0.5, hi=2)
        with Record(I, 'DeltaVariance', [1.0] * 2, [1.0] * 2) as R, I.code():
            D((np.ones(sh1), hdr2()), (np.ones(sh2), hdr2(pix2)))
        I.true('runs', len(R.calls) == 2)
        top = min(sh1 + sh2) / 2.0
        exp = 3.0 * (top / 3.0)**(np.arange(25.0) / 24.0)
        for (o, g, l), f in zip(R.calls, (pix2 / 0.01, 1.0)):
            I.true('number', np.shape(l.value) == (25,))
            if np.shape(l.value) == (25,):
                I.eq('lags', np.asarray(l.value, dtype=float) * v, exp * v * f)
    return Ob('default-lags-%s-%s-%s' % (sh1, sh2, pix2), body, 'fixed shapes')


def given_lags_ob(kind):
    """objects at other lags are re-run, those at the same lags are not"""
    def body(I):
        D = dist_class('DeltaVariance')
        at = {'same': lg(2, 2.5), 'other': lg(2, 2.2), 'number': lg(2, 2.2, 2.5)}[kind]
        s, e = I.arr('s', 2), I.arr('e', 2, lo=0.1, hi=2)
        with Record(I, 'DeltaVariance', s, e) as R, I.code():
            a, b = obj('DeltaVariance', lags=at), obj('DeltaVariance', lags=at)
            for o, i in ((a, 0), (b, 1)):
                set_slope(I, o, 'DeltaVariance', s[i] if kind == 'same' else 9.0, e[i])
            d = D(a, b, lags=lg(2, 2.5), delvar_kwargs=dict(boundary='fill'), delvar2_kwargs=dict(boundary='wrap'))
        I.true('runs', len(R.calls) == (0 if kind == 'same' else 2))
        if kind != 'same' and len(R.calls) == 2:
            for i, (o, g, lags) in enumerate(R.calls):
                I.true('object %d' % i, o is (a, b)[i])
                I.eq('lags %d' % i, lags.value, np.array([2, 2.5]))
                I.true('options %d' % i, g.get('boundary') == ('fill', 'wrap')[i])
        I.eq('slope', d.delvar1.slope - d.delvar2.slope, s[0] - s[1])
    return Ob('given-lags-%s' % kind, body, 'any slopes')


def surf_ob(n, weighted):
    def body(I):
        from turbustat.statistics import SCF, SCF_Distance
        a, b = asobj(np.cos(np.arange(n * n, dtype=float).reshape(n, n))), asobj(np.sin(np.arange(n * n, dtype=float).reshape(n, n)) * 0.5)
        f = I.arr('f', (n, n), lo=-1, hi=1)
        g = I.arr('g', 2, lo=-1, hi=1)
        if n == 3:
            a = asobj(f)
        else:
            a[1, 2], a[0, 0], a[2, 2] = f[1, 2], f[0, 0], f[2, 2]
        b[0, 1], b[n - 1, n // 2] = g[0], g[1]
        with I.code():
            o = [SCF(CUBE, header=hdr3(), size=n) for _ in range(2)]
            for t, q in zip(o, (a, b)):
                I.plant(t, '_scf_surface', pack(I, q))
                I.plant(t, '_scf_spectrum', np.ones(3))
            d = SCF_Distance(o[0], o[1], size=n).distance_metric(weighted=weighted)
            r = SCF_Distance(o[1], o[0], size=n).distance_metric(weighted=weighted)
            z = SCF_Distance(o[0], o[0], size=n).distance_metric(weighted=weighted)
        I.true('as given', d.scf1 is o[0] and d.scf2 is o[1])
        c = n // 2
        w = {(i, j): 1.0 if not weighted or (i, j) == (c, c) else 1.0 / math.hypot(i - c, j - c) for i in range(n) for j in range(n)}
        num = total([w[i, j] * (a[i, j] - b[i, j]) * (a[i, j] - b[i, j]) for i in range(n) for j in range(n)])
        I.le('sign', 0.0, d.distance)
        I.eq('distance', d.distance * d.distance * sum(w.values()), num, tol=1e-5)
        I.eq('symmetric', r.distance * r.distance * sum(w.values()), num, tol=1e-5)
        I.eq('itself', z.distance, 0.0)
    return Ob('surface-%d%s' % (n, '-weighted' if weighted else ''), body, 'any %dx%d surface against one with two free values' % (n, n))


def scf_run_ob(pix1, pix2, forms, size=3):
    def body(I):
        import astropy.units as u
        from turbustat.statistics import SCF, SCF_Distance
        v = I.real('v', lo=-1, hi=1)
        calls = []

        def surf(self, **k):
            calls.append((self, np.array(self.roll_lags.to(u.pix).value, dtype=float), dict(k)))
            n = len(calls[-1][1])
            I.plant(self, '_scf_surface', pack(I, asobj(np.ones((n, n)) * 0.5) * (v if len(calls) == 1 else 1.0)))

        def spec(self, **k):
            I.plant(self, '_scf_spectrum', np.ones(3))
        saved = SCF.compute_surface, SCF.compute_spectrum
        SCF.compute_surface, SCF.compute_spectrum = surf, spec
        n = size - 1 if size % 2 == 0 else size
        try:
            with I.code():
                data = []
                for f, p in zip(forms, (pix1, pix2)):
                    if f == 'raw':
                        data.append((CUBE, hdr3(p)))
                    else:
                        o = SCF(CUBE, header=hdr3(p), size=n)
                        if f == 'done':
                            I.plant(o, '_scf_surface', np.ones((n, n)) * 0.5)
                            I.plant(o, '_scf_spectrum', np.ones(3))
                        data.append(o)
                d = SCF_Distance(data[0], data[1], size=size, boundary=['cut', 'continuous'], show_progress=False)
                d.distance_metric(weighted=False)
        finally:
            SCF.compute_surface, SCF.compute_spectrum = saved
        sc = pix2 / pix1
        base = np.arange(n) - n // 2
        exp = [base * sc if sc > 1.0001 else base, base / sc if sc < 0.9999 else base]
        runs = [i for i in range(2) if forms[i] != 'done' or not np.allclose(exp[i], base)]
        I.true('runs', len(calls) == len(runs))
        if len(calls) != len(runs):
            return
        for i, (o, l, k) in zip(runs, calls):
            I.true('order %d' % i, o is (d.scf1, d.scf2)[i])
            I.eq('lags %d' % i, l, exp[i])
            I.true('boundary %d' % i, k.get('boundary') == ('cut', 'continuous')[i])
        if runs:
            df = 0.5 * v - 0.5
            I.eq('distance', d.distance * d.distance, df * df)
    return Ob('scf-run-%s-%s-%s-%s-%d' % (pix1, pix2, forms[0], forms[1], size), body, 'any value of the first surface')


def obligations(tier):
    obs = [slope_ob(k) for k in KINDS if k != 'VCS'] + [vcs_ob(None), vcs_ob((0,)), vcs_ob((1,)), vcs_ob((0, 1))]
    obs += [curve_ob((), ()), curve_ob((3,), ()), curve_ob((), (1,)), curve_ob((), (), ranges=((2.5, 7.0), (2.5, 6.0))),
            curve_ob((), (), ranges=((2.5, 7.0), (2.0, 7.0))), curve_ob((), (), ranges=((3.0, 6.0), (3.0, 6.0)), free=(2, 3)), curve_ob((), (), neg=True)]
    for k in KINDS:
        obs += [run_ob(k, f) for f in (('raw', 'raw'), ('fitted', 'raw'), ('raw', 'fitted'), ('unfitted', 'unfitted'), ('fitted', 'fitted'), ('fitted', 'unfitted'), ('unfitted', 'fitted'))]
        obs += [run_ob(k, ('raw', 'raw'), opts2=False)]
    obs += [construct_ob('Wavelet', dict(num=7)), construct_ob('Wavelet', dict(scales=lg(1, 2))), construct_ob('VCA', dict(channel_width=200.0)),
            construct_ob('DeltaVariance', dict(diam_ratio=2.0))]
    obs += [mvc_weights_ob(), weights_ob('PowerSpectrum'), weights_ob('DeltaVariance'),
            common_ob(0.01, 0.01), common_ob(0.01, 0.011), common_ob(0.011, 0.01),
            default_lags_ob((20, 40), (40, 24)), default_lags_ob((40, 24), (20, 40)), default_lags_ob((40, 16), (24, 30)), default_lags_ob((40, 44), (24, 60), 0.015),
            given_lags_ob('same'), given_lags_ob('other'), given_lags_ob('number'),
            surf_ob(3, True), surf_ob(3, False), surf_ob(5, True),
            scf_run_ob(0.01, 0.01, ('raw', 'raw')), scf_run_ob(0.01, 0.02, ('raw', 'raw')), scf_run_ob(0.02, 0.01, ('raw', 'raw')),
            scf_run_ob(0.01, 0.01, ('done', 'done')), scf_run_ob(0.01, 0.01, ('done', 'raw')), scf_run_ob(0.01, 0.01, ('raw', 'done')),
            scf_run_ob(0.01, 0.01, ('new', 'done')), scf_run_ob(0.01, 0.02, ('done', 'done')), scf_run_ob(0.02, 0.01, ('done', 'raw')),
            scf_run_ob(0.01, 0.01, ('raw', 'raw'), size=4)]
    return obs
