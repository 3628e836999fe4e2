"""Tsallis"""
import contextlib

from props.common import *

TITLE = 'Tsallis distributions describe the standardised lag differences of the map'
META = dict(
    title=TITLE,
    statement='For every map and lag (floored to pixels, given in pixel, angular or physical units, '
              'between one pixel and half the shorter side), the lag map is the mean of the four '
              'neighbours at that lag along the axes minus the pixel, periodic or with zeros outside, '
              'standardised to zero mean and unit variance over the finite pixels; its distribution is '
              'the log10 fraction of finite values in equal bins between its extremes (by default '
              'as many as the rounded-up root of the number of finite pixels). The fit of the '
              'q-Gaussian uses exactly the finite bins within the sigma clip, and the reported table '
              'pairs each lag with its parameters and standard errors; the map is never modified.',
    quantifier=dict(over=['inputs'], text='all values of the free pixels (NaN where listed), all distributions '
                    'and fit results of the listed sizes'),
    why_tests_cant='The pinned fits of one map cannot tell a shifted neighbour, wrong padding or bin '
                   'pairing from noise in the fit.',
    anchors=dict(files=['turbustat/statistics/tsallis/tsallis.py'],
                 mechanism=[dict(name='Tsallis.make_tsallis', where='turbustat/statistics/tsallis/tsallis.py:85'),
                            dict(name='Tsallis.fit_tsallis', where='turbustat/statistics/tsallis/tsallis.py:161'),
                            dict(name='tsallis_function', where='turbustat/statistics/tsallis/tsallis.py:445')]))
MODULES = ['turbustat.statistics']
OUTSIDE = 'maps larger than 6x6, more free pixels than listed, convergence of the non-linear fit'
ASSUMPTIONS = ['scipy.optimize.curve_fit is replaced by an arbitrary result']


def image(I, shape, free, nans=()):
    y, x = np.mgrid[:shape[0], :shape[1]]
    a = asobj(((3 * y * y + 5 * x + 2 * y * x) % 7) / 2.0 - 1.0)
    for k in free:
        a[k] = I.real('x%s' % (k,), lo=-3, hi=3)
    for k in nans:
        a[k] = float('nan')
    return pack(I, a)


def diff(X, lag, periodic):
    ny, nx = X.shape
    out = objarr(X.shape)
    for a, b in np.ndindex(ny, nx):
        t = []
        bad = bool(isnan(X[a, b]))
        for dy, dx in ((lag, 0), (-lag, 0), (0, lag), (0, -lag)):
            p, q = a + dy, b + dx
            if periodic:
                e = X[p % ny, q % nx]
            else:
                e = X[p, q] if 0 <= p < ny and 0 <= q < nx else 0.0
            bad = bad or bool(isnan(e))
            t.append(e)
        out[a, b] = float('nan') if bad else total(t) / 4.0 - X[a, b]
    return out


def map_ob(shape, free, lags, periodic, unit='pix', nans=(), dist=100.0, std=False):
    """differences handed to the standardisation (std: and the result)"""
    def body(I):
        import astropy.units as u
        from turbustat.statistics import Tsallis
        x = image(I, shape, free, nans)
        s = I.snapshot(x)
        f = {'pix': 1.0, 'deg': 0.01, 'pc': 0.01 * math.pi / 180 * 100.0, 'arcmin': 0.6}[unit]
        X = asobj(x)
        refs = []
        for l in lags:
            D = diff(X, int(math.floor(l)), periodic)
            fin = [D[k] for k in np.ndindex(*shape) if not bool(isnan(D[k]))]
            mu = mean(fin)
            var = mean([(e - mu) * (e - mu) for e in fin]) if std else None
            if std:
                I.assume(var > 0.05)
            refs.append((D, mu, var))
        seen = []
        A.OPTS['hist_decide'] = not std

        def keep(a, **k):
            seen.append(a)
            return np.asarray(np.arange(a.size).reshape(a.shape), dtype=float)
        with contextlib.ExitStack() as st:
            if not std:
                st.enter_context(I.stub('turbustat.statistics.stats_utils.standardize', keep))
            st.enter_context(I.code())
            t = Tsallis(x, header=hdr2(), lags=np.array(lags) * f * (1 + 1e-12) * u.Unit(unit), distance=dist * u.pc)
            t.make_tsallis(periodic=periodic, num_bins=2)
            L = t.lag_arrays
        I.unchanged('map', x, s)
        if not std and len(seen) != len(lags):
            return
        for i, (D, mu, var) in enumerate(refs):
            if not std:
                I.eq('difference %d' % i, seen[i], D)
                continue
            for k in np.ndindex(*shape):
                e = asobj(L)[(i,) + k]
                if bool(isnan(D[k])):
                    I.true('blank %d%s' % (i, k), isnan(e))
                    continue
                I.eq('lag map %d%s' % (i, k), e * e * var, (D[k] - mu) * (D[k] - mu), tol=1e-5)
                I.le('sign %d%s' % (i, k), 0.0, e * (D[k] - mu))
    return Ob('map%s-%s-%s%s%s%s' % (shape, lags, 'periodic' if periodic else 'padded', '-' + unit, '-nan' if nans else '', '-standardised' if std else ''), body,
              'map %s, free pixels %s in [-3,3], blanks %s' % (shape, 'all' if len(free) > 9 else list(free), list(nans)))


def hist_ob(shape, free, lag, nb, periodic=True, nans=(), default=False):
    """distribution of the standardised differences (standardisation left out: any affine map keeps the bins)"""
    def body(I):
        import astropy.units as u
        from turbustat.statistics import Tsallis
        x = image(I, shape, free, nans)
        D = diff(asobj(x), lag, periodic)
        fin = [D[k] for k in np.ndindex(*shape) if not bool(isnan(D[k]))]
        lo = hi = fin[0]
        for e in fin[1:]:
            if bool(e < lo):
                lo = e
            if bool(e > hi):
                hi = e
        cnt = [0] * nb
        for e in fin:
            for b in range(1, nb):
                I.assume(abs((e - lo) * float(nb) - (hi - lo) * float(b)) > 1e-5)
            c = sum(bool((e - lo) * float(nb) > (hi - lo) * float(b)) for b in range(1, nb))
            cnt[c] += 1
        seen = []
        A.OPTS['hist_decide'] = True

        def keep(a, **k):
            seen.append(a)
            return a
        with I.stub('turbustat.statistics.stats_utils.standardize', keep), I.code():
            t = Tsallis(x, header=hdr2(), lags=[lag] * u.pix)
            t.make_tsallis(periodic=periodic, num_bins=None if default else nb)
            H = asobj(t.lag_distribs)
        if not seen:
            return
        I.true('number of bins', H.shape == (1, 2, nb))
        if H.shape != (1, 2, nb):
            return
        for b in range(nb):
            I.eq('centre %d' % b, H[0, 0, b], lo + (hi - lo) * ((b + 0.5) / nb))
            if cnt[b]:
                I.eq('fraction %d' % b, H[0, 1, b], math.log10(cnt[b] / float(len(fin))))
            else:
                I.true('empty bin %d' % b, H[0, 1, b] == -np.inf)
    return Ob('distribution%s-%d-%d%s%s%s' % (shape, lag, nb, '' if periodic else '-padded', '-nan' if nans else '', '-default' if default else ''), body,
              'map %s, free pixels %s in [-3,3] (values 1e-5 off the bin edges)' % (shape, list(free)), max_paths=600)


def fit_ob(n, clip, mode, nlag=1, infs=()):
    """finite bins within the clip"""
    def body(I):
        import astropy.units as u
        from turbustat.statistics import Tsallis
        x, y = I.arr('x', (nlag, n), lo=-4, hi=4), I.arr('y', (nlag, n), lo=-4, hi=0)
        for k in infs:
            y[k] = -np.inf
        par = I.arr('p', (nlag, 3), lo=0.5, hi=3)
        er = I.arr('e', (nlag, 3), lo=0.1, hi=2)
        for i in range(nlag):
            I.assume(abs(par[i, 2] - 1.0) > 0.1)
        X, Y = asobj(x), asobj(y)
        use = []
        for i in range(nlag):
            r = []
            for k in range(n):
                if (i, k) in infs:
                    continue
                if clip is not None:
                    I.assume(abs(abs(X[i, k]) - clip) > 1e-6)
                    I.assume(abs(abs(Y[i, k]) - clip) > 1e-6)
                    inx = bool(abs(X[i, k]) < clip)
                    if mode == 'both':
                        I.assume((abs(Y[i, k]) < clip) == inx)
                    if not inx:
                        continue
                r.append(k)
            I.assume(len(r) > 0)
            use.append(r)
        seen = []

        def cf(f, a, b, **kw):
            i = len(seen)
            seen.append((f, a, b, kw))
            c = objarr((3, 3))
            c[...] = 0.25
            for k in range(3):
                c[k, k] = asobj(er)[i, k] * asobj(er)[i, k]
            return par[i], pack(I, c)
        d = objarr((nlag, 2, n))
        d[:, 0], d[:, 1] = X, Y
        with I.stub('scipy.optimize.curve_fit', cf), I.code():
            t = Tsallis(np.ones((8, 8)), header=hdr2(), lags=np.arange(1, nlag + 1) * u.pix)
            I.plant(t, '_lag_distribs', pack(I, d))
            t.fit_tsallis(sigma_clip=clip)
            P_, E, C = t.tsallis_params, t.tsallis_stderrs, t.tsallis_chisq
        if len(seen) != nlag:
            return
        for i in range(nlag):
            I.eq('fitted values %d' % i, seen[i][1], np.array([X[i, k] for k in use[i]], dtype=object))
            I.eq('fitted fractions %d' % i, seen[i][2], np.array([Y[i, k] for k in use[i]], dtype=object))
            for k in range(3):
                I.eq('parameter %d %d' % (i, k), asobj(P_)[i, k], par[i, k])
                I.eq('error %d %d' % (i, k), asobj(E)[i, k], er[i, k])
    return Ob('fit-%d-%s-%s%s' % (n, clip, mode, '-inf' if infs else ''), body,
              'every distribution of %d bins%s' % (n, ', each inside or outside the clip in both value and log fraction' if mode == 'both' else ''),
              max_paths=600)


def func_ob():
    def body(I):
        from turbustat.statistics.tsallis.tsallis import tsallis_function
        x = I.arr('x', 3, lo=-4, hi=4)
        a, w, q = I.real('a', lo=-2, hi=2), I.real('w', lo=0.2, hi=3), I.real('q', lo=1.1, hi=3)
        with I.code():
            r = tsallis_function(x, a, w, q)
        for k in range(3):
            I.eq('value %d' % k, asobj(r)[k] * (q - 1.0), -(log10((q - 1.0) * (x[k] * x[k] / w) + 1.0) + a), tol=1e-5)
    return Ob('model', body, 'every x in [-4,4], parameters in range')


def table_ob():
    def body(I):
        import astropy.units as u
        from turbustat.statistics import Tsallis
        p, e, c = I.arr('p', (2, 3), lo=0.5, hi=3), I.arr('e', (2, 3), lo=0.5, hi=3), I.arr('c', (2, 1), lo=0.5, hi=3)
        got = {}

        def tab(data, names=None, **k):
            got.update(zip(names, data))
            return got
        with I.stub('astropy.table.Table', tab), I.code():
            t = Tsallis(np.ones((8, 8)), header=hdr2(), lags=[1, 3] * u.pix)
            I.plant(t, '_tsallis_params', p)
            I.plant(t, '_tsallis_stderrs', e)
            I.plant(t, '_tsallis_chisq', c)
            t.tsallis_table
        if not got:
            return
        for k, nm in enumerate(['logA', 'w2', 'q']):
            I.eq(nm, np.asarray(got[nm], dtype=object).reshape(-1), asobj(p)[:, k])
            I.eq(nm + ' error', np.asarray(got[nm + '_stderr'], dtype=object).reshape(-1), asobj(e)[:, k])
        I.eq('chi-squared', np.asarray(got['redchisq'], dtype=object).reshape(-1), asobj(c)[:, 0])
        I.eq('lags', np.asarray(val(got['lags'])), np.array([1.0, 3.0]))
    return Ob('table', body, 'every 2x3 parameters and errors')


def lags_ob(shape):
    def body(I):
        import astropy.units as u
        from turbustat.statistics import Tsallis
        x = image(I, shape, [(0, 0)])
        small, big = I.real('s', lo=0.1, hi=0.999), I.real('b', lo=min(shape) // 2 + 1, hi=20)
        ok = I.real('o', lo=1, hi=min(shape) / 2.0)
        one = lambda v, un: u.Quantity(pack(I, np.array([1.0, v], dtype=object)), un)
        I.raises('below a pixel', ValueError, Tsallis, x, header=hdr2(), lags=one(small, u.pix))
        I.raises('above half', ValueError, Tsallis, x, header=hdr2(), lags=one(big, u.pix))
        I.raises('without unit', TypeError, Tsallis, x, header=hdr2(), lags=np.array([1.0]))
        I.raises('not a length', u.UnitConversionError, Tsallis, x, header=hdr2(), lags=one(ok, u.K))
        with I.code():
            t = Tsallis(x, header=hdr2(), lags=one(ok, u.pix))
            d = Tsallis(x, header=hdr2())
        I.eq('accepted', asobj(val(t.lags))[1], ok)
        want = [float(2**i) for i in range(10) if 2**i <= min(shape) / 2.0]
        I.true('default lags', [float(e) for e in asobj(val(d.lags)).ravel()] == want)
    return Ob('lags%s' % (shape,), body, 'lags in [0.1,0.999], [1,half], above half')


def obligations(tier):
    every = lambda *sh: list(np.ndindex(*sh))
    obs = [map_ob((4, 5), every(4, 5), [1, 2], True), map_ob((5, 4), every(5, 4), [1, 2], False),
           map_ob((6, 6), every(6, 6), [1.7, 3], True, unit='deg'), map_ob((6, 7), every(6, 7), [2.2], False, unit='pc'),
           map_ob((5, 5), every(5, 5), [1], True, nans=[(1, 1)]), map_ob((5, 5), every(5, 5), [2], False, nans=[(0, 1)], unit='arcmin'),
           map_ob((5, 5), [(2, 2), (0, 4)], [1], True, nans=[(1, 1)], std=True), map_ob((5, 4), [(0, 0), (2, 3)], [1, 2], False, std=True),
           hist_ob((4, 4), [(1, 2)], 1, 3), hist_ob((4, 5), [(0, 0)], 2, 4, periodic=False), hist_ob((4, 4), [(3, 2)], 1, 3, nans=[(1, 0)]),
           hist_ob((4, 4), [(1, 1)], 2, 4, default=True), hist_ob((4, 4), [(1, 1)], 1, 4, nans=[(3, 3)], default=True), hist_ob((3, 6), [(1, 1)], 1, 4, nans=[(0, 3), (0, 4)], default=True),
           fit_ob(3, None, 'all', infs=[(0, 1)]), fit_ob(3, 2.0, 'both'), fit_ob(3, 3.0, 'both', infs=[(0, 0)]), fit_ob(2, 3.0, 'both', nlag=2),
           fit_ob(2, 2.0, 'value'), func_ob(), table_ob(), lags_ob((6, 7)), lags_ob((8, 5))]
    if tier == 'thorough':
        obs += [map_ob((6, 5), [(1, 2), (3, 4), (0, 0)], [1, 2], False), hist_ob((5, 5), [(1, 2), (3, 3)], 1, 3), fit_ob(5, 2.0, 'both')]
    return obs
