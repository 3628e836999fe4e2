"""Segmented fits, fit limits and bootstrapped errors"""
import contextlib
import types

from props.common import *

TITLE = 'Broken-line fits are least-squares fits at a break inside the data'
META = dict(
    title=TITLE,
    statement='From any starting break within the data, a segmented fit moves the break by the fitted step, halving steps that leave the data, and '
              'reports the slopes, their errors and the break with the error that follow from the least-squares fit of two lines meeting at the reported '
              'break, or the single line when that fits as well; blank samples are dropped with their weights, and the model is that continuous broken '
              'line at any position. Power spectra, wavelets, delta-variance and VCS report such breaks in their own units with the slopes of both '
              'sides, bootstrapped errors are the scatter of refits with resampled residuals, and limits may be given once or per data set.',
    quantifier=dict(over=['inputs', 'histories'], text='all samples, and all results of the inner fits, within bounds'),
    why_tests_cant='The tests fit two simulated broken lines; steps leaving the data, failed breaks, blank samples with weights and evaluation away '
                   'from the data are not exercised.',
    anchors=dict(files=['turbustat/statistics/lm_seg.py', 'turbustat/statistics/fitting_utils.py', 'turbustat/statistics/base_pspec2.py',
                        'turbustat/statistics/vca_vcs/vcs.py'],
                 mechanism=[dict(name='Lm_Seg', where='turbustat/statistics/lm_seg.py:37'),
                            dict(name='residual_bootstrap', where='turbustat/statistics/fitting_utils.py:316'),
                            dict(name='check_fit_limits', where='turbustat/statistics/fitting_utils.py:274')]))
MODULES = ['turbustat.statistics', 'turbustat.statistics.lm_seg', 'turbustat.statistics.fitting_utils']
OUTSIDE = 'more than 3 steps of the break, more than 6 samples, bootstrapped errors of broken lines, MCMC fits'
ASSUMPTIONS = ['in the obligations on steps, the inner least-squares fits return arbitrary coefficients, errors and residuals']


class Fits(object):
    """stands for statsmodels' OLS/WLS: records designs, returns arbitrary results"""

    def __init__(self, I, beta=None, glim=1.0, rlim=(0.1, 2.0)):
        self.I, self.calls, self.beta, self.glim, self.rlim = I, [], beta, glim, rlim

    def cls(self):
        rec = self
        I = self.I

        class LS(object):
            def __init__(self, y, X, weights=None, missing=None, **k):
                self.y, self.X, self.w = y, X, weights

            def fit(self, **k):
                i = len(rec.calls)
                X = asobj(self.X)
                n = 1 if X.ndim == 1 else X.shape[1]
                p = [I.real('p%d_%d' % (i, j)) for j in range(n)]
                if n == 4:
                    p[2] = rec.beta if rec.beta is not None else I.real('b%d' % i, lo=0.5, hi=2)
                    p[3] = I.real('g%d' % i, lo=-rec.glim, hi=rec.glim)
                e = [I.real('e%d_%d' % (i, j), lo=0.1, hi=1) for j in range(n)]
                r = I.real('r%d' % i, lo=rec.rlim[0], hi=rec.rlim[1])
                c = np.zeros((n, n), dtype=object)
                if n == 4:
                    c[3, 3], c[2, 2] = I.real('c33_%d' % i, lo=0.5, hi=1), I.real('c22_%d' % i, lo=0.5, hi=1)
                    c[3, 2] = c[2, 3] = I.real('c32_%d' % i, lo=-0.3, hi=0.3)
                res = types.SimpleNamespace(params=pack(I, np.array(p, dtype=object)), bse=pack(I, np.array(e, dtype=object)), resid=pack(I, np.array([r], dtype=object)),
                                            cov_params=lambda: pack(I, c), summary=lambda: '', model=self)
                rec.calls.append(dict(X=X, y=self.y, w=self.w, p=p, e=e, r=r, c=c, obj=res))
                return res
        return LS


def steps_ob(name, b0, glim, iter_max, weights=False, rlim=(0.1, 2.0), xs=(0.0, 1.0, 2.0, 3.0, 4.0), h=2.0):
    def body(I):
        from turbustat.statistics import Lm_Seg
        x = np.array(xs)
        y = I.arr('y', len(x))
        w = I.arr('w', len(x), lo=0.5, hi=2) if weights else None
        F = Fits(I, beta=1.0, glim=glim, rlim=rlim)
        C = F.cls()
        tol = 1e-3
        with I.stub('statsmodels.api.OLS', C), I.stub('statsmodels.api.WLS', C), I.code():
            m = Lm_Seg(x, y, b0, weights=w)
            m.fit_model(verbose=False, tol=tol, iter_max=iter_max, h_step=h)
        K = F.calls
        if not K:
            return
        xs_ = list(x)

        def design(nm, c, brk):
            X = c['X']
            ok = X.shape == (len(xs_), 4 if brk is not None else 2)
            I.true('%s size' % nm, ok)
            if not ok:
                return
            for i, v in enumerate(xs_):
                I.eq('%s row %d' % (nm, i), X[i, 0], 1.0)
                I.eq('%s x %d' % (nm, i), X[i, 1], v)
                if brk is not None:
                    above = bool(v > brk)
                    I.eq('%s above %d' % (nm, i), X[i, 2], v - brk if above else 0.0)
                    I.eq('%s jump %d' % (nm, i), X[i, 3], -1.0 if above or bool(v == brk) else 0.0)
            I.eq('%s y' % nm, c['y'], y)
            if weights:
                I.eq('%s weights' % nm, c['w'], w)
        design('straight', K[0], None)
        brk, k, it, fail, hh = b0, 1, 0, False, h
        dev = K[0]['r'] * K[0]['r']
        while True:
            if k >= len(K):
                I.true('fits', False)
                return
            c = K[k]
            design('step %d' % k, c, brk)
            step = c['p'][3] / c['p'][2]
            good = False
            for j in range(6):
                new = brk + hh * step
                if bool(new < max(xs_)) and bool(new > min(xs_)):
                    good = True
                    break
                hh = hh / 2.0
            if good:
                brk = new
            else:
                fail = True
            d1 = c['r'] * c['r']
            ep = (d1 - dev) / (dev + 1e-3)
            dev = d1
            it += 1
            k += 1
            if fail or it > iter_max or not bool(abs(ep) > tol):
                break
        I.true('fits', len(K) == k + 1)
        if len(K) != k + 1:
            return
        single = fail or bool(K[0]['r'] * K[0]['r'] <= dev)
        L = K[-1]
        I.true('reported fit', m.fit is L['obj'])
        p, e = L['p'], L['e']
        if single:
            design('final', L, None)
            I.eq('break', m.brk, max(xs_))
            I.eq('slope', m.slopes, np.array([p[1]], dtype=object))
            I.eq('slope error', m.slope_errs, np.array([e[1]], dtype=object))
            I.eq('break error', m.brk_err, 0.0)
            I.true('parameters', np.size(m.params) == 3)
        else:
            design('final', L, brk)
            I.eq('break', m.brk, brk)
            I.true('two slopes', np.size(m.slopes) == 2 and np.size(m.slope_errs) == 2)
            I.eq('first slope', asobj(m.slopes)[0], p[1])
            I.eq('second slope', asobj(m.slopes)[1], p[1] + p[2])
            I.eq('first error', asobj(m.slope_errs)[0], e[1])
            se = asobj(m.slope_errs)[1]
            I.eq('second error', se * se, e[1] * e[1] + e[2] * e[2], tol=1e-5)
            g = p[3] / p[2]
            c = L['c']
            I.eq('break error', m.brk_err * m.brk_err * p[2] * p[2], c[3, 3] + c[2, 2] * g * g - 2.0 * c[3, 2] * g, tol=1e-5)
            I.eq('parameters', m.params, np.array(list(p) + [brk], dtype=object))
    return Ob('steps-%s' % name, body, 'all results of the inner fits: step in [-%g,%g]' % (glim, glim), max_paths=900, time_limit=120)


def drop_ob():
    def body(I):
        from turbustat.statistics import Lm_Seg
        x = np.arange(6.0)
        y, w = I.split(I.arr('y', 6, nansym=[(1,), (4,)])), I.arr('w', 6, lo=0.5, hi=2)
        yo, wo = asobj(y), asobj(w)
        F = Fits(I, beta=1.0, glim=0.2)
        C = F.cls()
        good = [i for i in range(6) if not bool(isnan(yo[i]))]
        with I.stub('statsmodels.api.OLS', C), I.stub('statsmodels.api.WLS', C), I.code():
            m = Lm_Seg(x, y, 2.5, weights=w)
            m.fit_model(verbose=False, iter_max=0, constant=True)
        for c in F.calls:
            I.true('samples', c['X'].shape[0] == len(good) and np.size(c['y']) == len(good) and np.size(c['w']) == len(good))
            if c['X'].shape[0] == len(good) and np.size(c['w']) == len(good):
                I.eq('x', c['X'][:, 1], np.array(good, dtype=float))
                I.eq('y', c['y'], np.array([yo[i] for i in good], dtype=object))
                I.eq('weights', c['w'], np.array([wo[i] for i in good], dtype=object))
    return Ob('blank', body, 'any 6 samples, two of them possibly blank', max_paths=300)


def refuse_ob():
    def body(I):
        from turbustat.statistics import Lm_Seg
        x = np.arange(5.0)
        y = I.arr('y', 5)
        b = I.real('b', lo=4.1, hi=9)
        I.raises('above', ValueError, Lm_Seg, x, y, b)
        I.raises('below', ValueError, Lm_Seg, x, y, -b)
        I.raises('not finite', ValueError, Lm_Seg, x, y, float('nan'))
        I.raises('weights', ValueError, Lm_Seg, x, y, 2.0, weights=np.ones(4))
        I.raises('blank weights', ValueError, Lm_Seg, x, y, 2.0, weights=np.array([1.0, 2.0, np.nan, 1.0, 1.0]))
        I.raises('few', Warning, Lm_Seg, x[:3], y[:3], 1.0)
    return Ob('refused', body, 'any 5 samples')


def epsilon_ob():
    def body(I):
        from turbustat.statistics import Lm_Seg
        x = np.arange(6.0)
        y = I.arr('y', 6)
        e = I.real('e', lo=0, hi=0.5)
        F = Fits(I, beta=1.0, glim=0.2)
        C = F.cls()
        with I.stub('statsmodels.api.OLS', C), I.stub('statsmodels.api.WLS', C), I.code():
            m = Lm_Seg(x, y, 2.5)
            r = m.fit_model(verbose=False, epsil_0=e, tol=0.6)
        if not F.calls:
            return
        I.true('straight line only', len(F.calls) == 1 and F.calls[0]['X'].shape == (6, 2))
        I.true('returned', r is F.calls[0]['obj'])
    return Ob('small-epsilon', body, 'any 6 samples, epsilon below the tolerance')


def model_ob(fail):
    def body(I):
        from turbustat.statistics import Lm_Seg
        x = np.arange(6.0)
        F = Fits(I, beta=None, glim=0.3, rlim=(0.1, 2.0))
        C = F.cls()
        y = I.arr('y', 6)
        with I.stub('statsmodels.api.OLS', C), I.stub('statsmodels.api.WLS', C), I.code():
            m = Lm_Seg(x, y, 2.5)
            m.fit_model(verbose=False, iter_max=0)
        if not F.calls:
            return
        one = np.size(m.params) == 3
        I.assume(one == fail)
        p = asobj(m.params)
        t = np.array([-3.0, 0.5, 2.4, 3.1, 9.0])
        with I.code():
            v = m.model(t)
            f = m.model()
            g = f(t)
        for i, s in enumerate(t):
            e = p[0] + p[1] * s
            if not one:
                e = e + where(s >= m.brk, p[2] * (s - m.brk), 0.0)
            I.eq('value %d' % i, asobj(v)[i], e)
            I.eq('function %d' % i, asobj(g)[i], e)
    return Ob('model-%s' % ('single' if fail else 'broken'), body, 'all fitted coefficients', max_paths=300)


def limits_ob():
    def body(I):
        import astropy.units as u
        from turbustat.statistics.fitting_utils import check_fit_limits, clip_func
        v = I.arr('v', 2)
        a, b = u.Quantity(v[0], u.pix), u.Quantity(v, u.pix)
        with I.code():
            p, q = check_fit_limits(a, b)
            r, s = check_fit_limits(None, a)
            t, w = check_fit_limits(b, None)
        I.eq('one for both', val(p), np.array([v[0], v[0]], dtype=object))
        I.eq('one each', val(q), v)
        I.eq('one for both (high)', val(s), np.array([v[0], v[0]], dtype=object))
        I.eq('one each (low)', val(t), v)
        I.true('none', list(r) == [None, None] and list(w) == [None, None])
        three = np.arange(3.0) * u.pix
        I.raises('three low', ValueError, check_fit_limits, three, None)
        I.raises('three high', ValueError, check_fit_limits, None, three)
        x = I.arr('x', 3)
        with I.code():
            c = clip_func(x, v[0], v[1])
        for i in range(3):
            I.true('clip %d' % i, bool(asobj(c)[i]) == (bool(x[i] > v[0]) and bool(x[i] <= v[1])))
    return Ob('limits', body, 'any limits and samples', max_paths=300)


def boot_ob(weights, nboot=2):
    def body(I):
        import statsmodels.api as sm
        from turbustat.statistics.fitting_utils import residual_bootstrap
        x = np.array([0.0, 1.0, 2.0, 4.0])
        n = len(x)
        y = asobj(np.array([0.3, 1.0, 1.0, 2.0]))
        y[1], y[3] = I.real('y1'), I.real('y3')
        w = [1.0, 4.0, 0.25, 2.25] if weights else [1.0] * n
        idx = [[0, 3, 1, 1], [2, 2, 3, 0], [1, 0, 0, 3]][:nboot]
        seen = []

        def choice(a, size=None, replace=True, p=None):
            seen.append((a, size, replace, p))
            return np.array(idx[(len(seen) - 1) % nboot])
        with I.stub('numpy.random.choice', choice), I.code():
            X = sm.add_constant(x)
            m = sm.WLS(pack(I, y), X, weights=np.array(w)) if weights else sm.OLS(pack(I, y), X)
            f = m.fit()
            sd = asobj(residual_bootstrap(f, nboot=nboot))
            sam = asobj(residual_bootstrap(f, nboot=nboot, return_samps=True))
        if len(seen) != 2 * nboot:
            return
        for a, size, rep, p in seen:
            I.true('drawn from all', (int(a) if np.ndim(a) == 0 else len(a)) == n and int(np.prod(size)) == n and rep is True and p is None)
        sw = np.sqrt(np.array(w))
        Xw = np.vstack([sw, sw * x]).T
        pin = np.linalg.pinv(Xw)
        yw = [sw[i] * y[i] for i in range(n)]
        b = [total([pin[k, i] * yw[i] for i in range(n)]) for k in range(2)]
        rw = [yw[i] - total([Xw[i, k] * b[k] for k in range(2)]) for i in range(n)]
        P = []
        for t in range(nboot):
            P.append([b[k] + total([pin[k, i] * rw[idx[t][i]] for i in range(n)]) for k in range(2)])
        for k in range(2):
            mu = mean([P[t][k] for t in range(nboot)])
            I.eq('scatter %d' % k, sd[k] * sd[k], mean([(P[t][k] - mu) * (P[t][k] - mu) for t in range(nboot)]), tol=1e-5)
            for t in range(nboot):
                I.eq('difference of samples %d %d' % (k, t), sam[t, k] - sam[0, k], P[t][k] - P[0][k], tol=1e-5)
    return Ob('bootstrap%s-%d' % ('-weights' if weights else '', nboot), body, 'two free samples of 4, fixed draws')


def stat_fit(kind):
    """statistic, its fit method and arguments"""
    import astropy.units as u
    import turbustat.statistics as S
    x = np.ones((20, 24))
    if kind == 'pspec':
        o = S.PowerSpectrum(x, header=hdr2())
        return o, lambda **k: o.fit_pspec(brk=0.2 / u.pix, low_cut=0.05 / u.pix, high_cut=0.6 / u.pix, min_fits_pts=3, **k), u.pix**-1, math.log10(0.2)
    if kind == 'pspec-log':
        o = S.PowerSpectrum(x, header=hdr2())
        return o, lambda **k: o.fit_pspec(brk=-0.6, log_break=True, low_cut=0.05 / u.pix, high_cut=0.6 / u.pix, min_fits_pts=3, **k), u.pix**-1, -0.6
    if kind == 'delvar':
        o = S.DeltaVariance(x, header=hdr2(), lags=np.array([2, 3, 4, 5, 7, 9.0]) * u.pix)
        return o, lambda **k: o.fit_plaw(brk=4.5 * u.pix, **k), u.pix, math.log10(4.5)
    o = S.Wavelet(x, header=hdr2(), scales=np.array([2, 3, 4, 5, 7, 9.0]) * u.pix)
    return o, lambda **k: o.fit_transform(brk=4.5 * u.pix, **k), u.pix, math.log10(4.5)


def use_ob(kind, outcome):
    """the statistic with an arbitrary segmented fit. outcome: broken, failed, short"""
    def body(I):
        import astropy.units as u
        sl, er = I.arr('sl', 2), I.arr('er', 2, lo=0.1, hi=1)
        L = {'pspec': [-1.2, -1.0, -0.8, -0.6, -0.4, -0.3], 'pspec-log': [-1.2, -1.0, -0.8, -0.6, -0.4, -0.3]}.get(kind, [math.log10(v) for v in (2, 3, 4, 5, 7, 9)])
        bk = I.real('bk', lo=L[3] + 0.01, hi=L[4] - 0.01) if outcome != 'short' else I.real('bk', lo=L[0] + 0.01, hi=L[1] - 0.01)
        be = I.real('be', lo=0.01, hi=0.2)
        Y = asobj(np.array([3.0, 2.5, 2.0, 1.0, 0.7, 0.5]))
        Y[1] = I.real('Y1', lo=1, hi=4)
        seen = []

        class Seg(object):
            def __init__(self, x, y, brk, weights=None):
                seen.append(dict(x=x, y=y, brk=brk, w=weights))
                self.brk, self.brk_err, self.slopes, self.slope_errs = bk, be, sl, er
                self.fit = types.SimpleNamespace(params=np.zeros(4))
                self.params = np.zeros(3 if outcome == 'failed' else 5)

            def fit_model(self, **k):
                seen[-1]['k'] = k
        boot = outcome == 'bootstrap'
        bs = I.arr('bs', 4, lo=0.01, hi=0.5)
        resampled = []

        def rb(f, **k):
            resampled.append(k)
            return bs
        with I.stub('turbustat.statistics.lm_seg.Lm_Seg', Seg), I.stub('turbustat.statistics.fitting_utils.residual_bootstrap', rb), I.code():
            o, fit, unit, start = stat_fit(kind)
            if kind.startswith('pspec'):
                I.plant(o, '_ps2D', np.ones((20, 24)))
                I.plant(o, '_freqs', 10**np.array(L) / u.pix)
                I.plant(o, '_ps1D', pack(I, Y))
            elif kind == 'delvar':
                I.plant(o, '_delta_var', pack(I, Y))
                I.plant(o, '_delta_var_error', np.ones(6))
            else:
                I.plant(o, '_values', pack(I, Y))
                I.plant(o, '_stddev', np.ones(6))
            fit(**(dict(bootstrap=True, bootstrap_kwargs=dict(nboot=17)) if boot else {}))
        try:
            berr = o.brk_err
        except AttributeError:
            I.true('break error defined', False)
            return
        if len(seen) != 1:
            I.true('one segmented fit', not seen)
            return
        I.eq('start', val(seen[0]['brk']), start)
        I.eq('x', seen[0]['x'], np.array(L))
        I.eq('y', seen[0]['y'], np.array([log10(v) for v in Y], dtype=object), tol=1e-6)
        if boot:
            if not resampled:
                return
            I.true('options of the resampling', all(k == dict(nboot=17) for k in resampled))
            be, er = bs[3], bs[1:3]
        if outcome in ('broken', 'bootstrap'):
            b, e = o.brk, berr
            I.true('units', b.unit == unit and e.unit == unit)
            I.eq('break', log10(val(b)), bk, tol=1e-6)
            I.eq('break error', val(e), math.log(10.0) * be * val(b), tol=1e-6)
            I.eq('slopes', o.slope, sl)
            I.eq('slope errors', o.slope_err, er)
        else:
            I.true('no break', o.brk is None and berr is None)
            a, s = slope_ols(L, [log10(v) for v in Y])
            if kind in ('pspec', 'pspec-log'):
                I.eq('single slope', o.slope, s, tol=1e-6)
            else:
                I.true('single slope', np.size(o.slope) == 1)
    return Ob('use-%s-%s' % (kind, outcome), body, 'all results of the segmented fit, one free sample', atoms=True)


def vcs_ob(accept, log=True, knots=3, given=None):
    """VCS: breaks from the spline are tried from the largest on"""
    def body(I):
        from turbustat.statistics import VCS
        n = 24
        sl = I.real('sl')
        f = np.fft.fftfreq(n)
        seen = []
        lx = np.log10(f[1:n // 2])
        kn = list(np.linspace(lx[2] + 0.01, lx[-2] + 0.005, knots))

        class Sp(object):
            def __init__(self, x, y, **k):
                pass

            def get_knots(self):
                return np.array([lx[0]] + kn + [lx[-1]])

        class Seg(object):
            def __init__(self, x, y, brk, weights=None):
                self.b = brk
                seen.append(brk)
                self.brk, self.brk_err = brk, 0.1
                self.slopes = self.slope_errs = pack(I, np.array([sl, sl + 1.0], dtype=object))
                self.params = np.zeros(5 if accept is not None and np.ndim(brk) == 0 and abs(float(brk) - kn[accept]) < 1e-9 else 3)

            def fit_model(self, **k):
                pass
        with I.stub('turbustat.statistics.lm_seg.Lm_Seg', Seg), I.stub('scipy.interpolate.UnivariateSpline', Sp), I.code():
            v = VCS(np.ones((n, 2, 2)), header=hdr3())
            I.plant(v, '_ps1D', np.linspace(9.0, 1.0, n))
            v.fit_pspec(log_break=log, **({} if given is None else dict(breaks=given)))
        I.true('scalar breaks', all(np.ndim(b) == 0 for b in seen))
        if not seen or not all(np.ndim(b) == 0 for b in seen):
            return
        last = float(seen[-1])
        if given is not None:
            I.eq('given break', last, given if log else math.log10(given))
        else:
            tried = [float(b) for b in seen[:-1]]
            order = kn[::-1]
            if accept is not None:
                order = order[:knots - accept]
                I.eq('final break', last, kn[accept])
            I.true('largest first', len(tried) == len(order) and all(abs(a - b) < 1e-9 for a, b in zip(tried, order)))
        I.eq('slopes', v.slope, np.array([sl, sl + 1.0], dtype=object))
    return Ob('vcs-%s-%s-%s-%s' % (accept, 'log' if log else 'linear', knots, given), body, 'any slopes')


def tls_ob():
    def body(I):
        from turbustat.statistics.fitting_utils import leastsq_linear
        x, y = I.arr('x', 3), I.arr('y', 3)
        xe, ye = I.arr('xe', 3, lo=0.2, hi=2), I.arr('ye', 3, lo=0.2, hi=2)
        b, sd = I.arr('b', 2), I.arr('sd', 2, lo=0, hi=1)
        seen = {}

        class Data(object):
            def __init__(self, X, Y=None, we=None, wd=None, **k):
                seen.update(x=X, y=Y, we=we, wd=wd)

        class Model(object):
            def __init__(self, f, **k):
                seen['f'] = f

        class ODR(object):
            def __init__(self, data, model, beta0=None, **k):
                pass

            def run(self):
                return types.SimpleNamespace(beta=b, sd_beta=sd, pprint=lambda: None)

        def lr(X, Y=None, **k):
            return (0.0, 0.0, 0.0, 0.0, 0.0)
        with contextlib.ExitStack() as st:
            for nm, o in (('Data', Data), ('Model', Model), ('ODR', ODR)):
                st.enter_context(I.stub('scipy.odr.' + nm, o))
            st.enter_context(I.stub('scipy.stats.linregress', lr))
            st.enter_context(I.code())
            p, e = leastsq_linear(x, y, xe, ye)
            fv = seen['f'](b, x) if 'f' in seen else None
        if 'wd' not in seen or fv is None:
            return
        I.eq('x', seen['x'], x)
        I.eq('y', seen['y'], y)
        for i in range(3):
            I.eq('x weight %d' % i, asobj(seen['wd'])[i] * xe[i] * xe[i], 1.0)
            I.eq('y weight %d' % i, asobj(seen['we'])[i] * ye[i] * ye[i], 1.0)
            I.eq('line %d' % i, asobj(fv)[i], b[0] * x[i] + b[1])
        I.eq('parameters', p, b)
        I.eq('errors', e, sd)
    return Ob('total-least-squares', body, 'any samples, errors and results')


def obligations(tier):
    obs = [steps_ob('small', 1.5, 0.2, 0), steps_ob('leaving', 2.5, 4.0, 0), steps_ob('two', 1.5, 0.4, 1), steps_ob('weights', 2.2, 0.3, 0, weights=True),
           steps_ob('far', 2.0, 60.0, 0, xs=(0.0, 1.0, 2.0, 3.0)), steps_ob('on-sample', 2.0, 0.2, 0, h=1.0), steps_ob('first-sample', 0.0, 1.0, 0),
           drop_ob(), refuse_ob(), epsilon_ob(), model_ob(False), model_ob(True), limits_ob(), boot_ob(False), boot_ob(True), boot_ob(False, 3),
           vcs_ob(2), vcs_ob(1), vcs_ob(0), vcs_ob(None), vcs_ob(None, knots=1), vcs_ob(1, log=False), vcs_ob(None, given=-0.7), vcs_ob(None, log=False, given=0.2), tls_ob()]
    obs += [use_ob(k, o) for k in ('pspec', 'delvar', 'wavelet') for o in ('broken', 'failed', 'short', 'bootstrap')] + [use_ob('pspec-log', 'broken')]
    if tier == 'thorough':
        obs += [steps_ob('three', 1.5, 0.4, 2), steps_ob('two-leaving', 2.5, 3.0, 1)]
    return obs
