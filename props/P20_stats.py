"""Shared statistical helpers"""
from props.common import *

TITLE = 'Normalisations, bins, divergences, shifts and padding meet their definition'
META = dict(
    title=TITLE,
    statement='Blank values stay blank and are ignored by every data normalisation (zero mean and unit variance, zero mean, range 0 to 1, unit mean), '
              'the Hellinger distance and the Kullback-Leibler divergence, which pair the two data sets bin by bin. Common bins are evenly spaced '
              '(optionally in the logarithm) over the joint range of both data sets within the given limits; the common scale of two images is the '
              'ratio of their pixel sizes. Pixel shifts roll an array, Fourier shifts agree with that for whole pixels, interpolate otherwise and '
              'carry blank pixels along, padding only touches the padded margin, and the fitted ellipse is that of its conic equation.',
    quantifier=dict(over=['inputs'], text='all arrays within bounds, blank values anywhere'),
    why_tests_cant='Tests evaluate single arrays without blank values; pairing after blanks, zero-width margins and eigenvectors of either sign are not sampled.',
    anchors=dict(files=['turbustat/statistics/stats_utils.py'],
                 mechanism=[dict(name='hellinger', where='turbustat/statistics/stats_utils.py:10'),
                            dict(name='data_normalization', where='turbustat/statistics/stats_utils.py:60'),
                            dict(name='EllipseModel.estimate', where='turbustat/statistics/stats_utils.py:228'),
                            dict(name='fourier_shift', where='turbustat/statistics/stats_utils.py:536')]))
MODULES = ['turbustat.statistics', 'turbustat.statistics.stats_utils']
OUTSIDE = 'arrays of more than 8 values, the eigenvectors of the conic fit (left free), bootstrapped ellipse errors'
ASSUMPTIONS = ['the eigenvector of the conic fit is an arbitrary vector satisfying the ellipse condition']


def SU():
    import importlib
    return importlib.import_module('turbustat.statistics.stats_utils')


def norm_ob(kind, shape, nan):
    def body(I):
        x = I.split(I.arr('x', shape, nan='sym' if nan else False))
        xo = asobj(x)
        good = [k for k in np.ndindex(*shape) if not bool(isnan(xo[k]))]
        I.assume(len(good) > 1)
        s = I.snapshot(x)
        v = [xo[k] for k in good]
        m = mean(v)
        var = mean([(e - m) * (e - m) for e in v])
        if kind == 'standardize':
            I.assume(var > 0.05)
        elif kind == 'normalize_by_mean':
            I.assume(m > 0.05)
        elif kind == 'normalize':
            I.assume(abs(v[0] - v[1]) > 0.05)
        with I.code():
            y = asobj(SU().data_normalization(x, norm_type=kind))
            z = asobj(getattr(SU(), kind)(x))
        I.unchanged('data', x, s)
        I.true('shape', y.shape == shape)
        for k in np.ndindex(*shape):
            I.true('blank %s' % (k,), bool(isnan(y[k])) == (k not in good))
        if kind == 'normalize':
            lo, hi = v[0], v[0]
            for e in v[1:]:
                if bool(e < lo):
                    lo = e
                if bool(e > hi):
                    hi = e
        for k in good:
            I.eq('same %s' % (k,), y[k], z[k])
            if kind == 'standardize':
                I.eq('square %s' % (k,), y[k] * y[k] * var, (xo[k] - m) * (xo[k] - m), tol=1e-5)
                I.le('sign %s' % (k,), 0.0, y[k] * (xo[k] - m), tol=1e-7)
            elif kind == 'center':
                I.eq('value %s' % (k,), y[k], xo[k] - m)
            elif kind == 'normalize_by_mean':
                I.eq('value %s' % (k,), y[k] * m, xo[k])
            else:
                I.eq('value %s' % (k,), y[k] * (hi - lo), xo[k] - lo)
    return Ob('norm-%s-%s%s' % (kind, shape, '-nan' if nan else ''), body, 'any map of shape %s' % (shape,), max_paths=600)


def norm_name_ob():
    def body(I):
        x = I.arr('x', 3)
        I.raises('unknown', ValueError, SU().data_normalization, x, norm_type='other')
    return Ob('norm-unknown', body, 'any values')


def hell_ob(n, nan, width):
    def body(I):
        p, q = I.arr('p', n, lo=0, hi=1, nan='sym' if nan else False), I.arr('q', n, lo=0, hi=1)
        p = I.split(p)
        po, qo = asobj(p), asobj(q)
        w = I.real('w', lo=0.1, hi=2) if width else 1.0
        kw = dict(bin_width=w) if width else {}
        with I.code():
            d = SU().hellinger(p, q, **kw)
            r = SU().hellinger(q, p, **kw)
            z = SU().hellinger(q, q, **kw)
        t = [(sqrt(po[i]), sqrt(qo[i])) for i in range(n) if not bool(isnan(po[i]))]
        I.le('sign', 0.0, d)
        I.eq('distance', 2.0 * d * d, w * w * total([(a - b) * (a - b) for a, b in t]), tol=1e-5)
        I.eq('symmetric', d * d, r * r, tol=1e-6)
        I.eq('itself', z, 0.0, tol=1e-6)
    return Ob('hellinger-%d%s%s' % (n, '-nan' if nan else '', '-width' if width else ''), body, 'any pair of %d-bin histograms in [0,1]' % n, atoms=True)


def hell_max_ob():
    def body(I):
        p, q = I.arr('p', 2, lo=0, hi=1), I.arr('q', 2, lo=0, hi=1)
        I.assume(p[0] + p[1] == 1)
        I.assume(q[0] + q[1] == 1)
        with I.code():
            d = SU().hellinger(p, q)
        I.le('at most 1', d, 1.0, tol=1e-6)
    return Ob('hellinger-max', body, 'two distributions of 2 bins')


def kl_ob(n, nan, zero):
    def body(I):
        lo = 0.0 if zero else 0.05
        p = I.split(I.arr('p', n, lo=lo, hi=1, nan='sym' if nan else False))
        q = I.split(I.arr('q', n, lo=lo, hi=1, nan='sym' if nan else False))
        po, qo = asobj(p), asobj(q)
        terms = []
        for i in range(n):
            if bool(isnan(po[i])) or bool(isnan(qo[i])):
                continue
            if zero:
                pz, qz = bool(po[i] == 0), bool(qo[i] == 0)
                if not pz:
                    I.assume(po[i] > 0.05)
                if not qz:
                    I.assume(qo[i] > 0.05)
                if pz or qz:
                    continue
            terms.append(po[i] * (ln(po[i] / qo[i])))
        s, t = I.snapshot(p), I.snapshot(q)
        with I.code():
            d = SU().kl_divergence(p, q)
        I.unchanged('p', p, s)
        I.unchanged('q', q, t)
        I.eq('divergence', d, total(terms), tol=1e-6)
    return Ob('kl-%d%s%s' % (n, '-nan' if nan else '', '-zero' if zero else ''), body, 'any pair of %d-bin distributions' % n, atoms=True, max_paths=900)


def bins_ob(n1, n2, kw, nan=False, log=False):
    def body(I):
        a, b = I.arr('a', n1, lo=0.5, hi=4), I.arr('b', n2, lo=0.5, hi=4)
        a, b = asobj(a), asobj(b)
        # a few free values among fixed ones
        big = n1 > 5 or log
        for i in range(1 if big else 2, n1):
            a[i] = 1.0 + 0.1 * i
        for i in range(1 if big else 2, n2):
            b[i] = 1.5 + 0.1 * i
        if log:
            b[0] = 5.0
        if nan:
            a[2] = float('nan')
        va = [e for e in a if not bool(isnan(e))] + list(b)
        lo = hi = va[0]
        for e in va[1:]:
            if bool(e < lo):
                lo = e
            if bool(e > hi):
                hi = e
        lim = dict(kw)
        if 'min_val' in lim:
            lim['min_val'] = I.real('mn', lo=0.5, hi=1)
            if bool(lim['min_val'] > lo):
                lo = lim['min_val']
        if 'max_val' in lim:
            lim['max_val'] = I.real('mx', lo=2, hi=4)
            if bool(lim['max_val'] < hi):
                hi = lim['max_val']
        I.assume(hi - lo > 0.1)
        nb = kw.get('nbins') or int(math.floor(math.sqrt((n1 + n2) / 2.0)))
        with I.code():
            e, c = SU().common_histogram_bins(pack(I, a), pack(I, b), logscale=log, return_centered=True, **lim)
            e1 = SU().common_histogram_bins(pack(I, a), pack(I, b), logscale=log, **lim)
        I.true('number', len(e) == nb and len(c) == nb - 1)
        if len(e) != nb:
            return
        for k in range(nb):
            f = k / float(nb - 1)
            if log:
                I.eq('edge %d' % k, log10(asobj(e)[k]), (1 - f) * log10(lo) + f * log10(hi), tol=1e-5)
            else:
                I.eq('edge %d' % k, asobj(e)[k], (1 - f) * lo + f * hi)
            I.eq('same %d' % k, asobj(e1)[k], asobj(e)[k])
            if k:
                I.eq('centre %d' % k, asobj(c)[k - 1], (asobj(e)[k] + asobj(e)[k - 1]) / 2.0)
    return Ob('bins-%d-%d-%s%s%s' % (n1, n2, '-'.join(sorted(kw)), '-nan' if nan else '', '-log' if log else ''), body,
              'two free values in each data set in [0.5,4]', max_paths=900, atoms=log)


def bins_dim_ob():
    def body(I):
        a, b = I.arr('a', (2, 2)), I.arr('b', 4)
        I.raises('first', ValueError, SU().common_histogram_bins, a, b)
        I.raises('second', ValueError, SU().common_histogram_bins, b, a)
    return Ob('bins-2d', body, 'any values')


def scale_ob():
    def body(I):
        from astropy.wcs import WCS
        p, q = I.real('p', lo=0.001, hi=1), I.real('q', lo=0.001, hi=1)
        n = []

        def f(w):
            n.append(1)
            k = p if abs(abs(w.wcs.cdelt[0]) - 0.01) < 1e-6 else q
            return pack(I, np.array([k, k], dtype=object))
        with I.stub('astropy.wcs.utils.proj_plane_pixel_scales', f), I.code():
            s = SU().common_scale(WCS(hdr2(0.01)), WCS(hdr2(0.02)))
            r = SU().common_scale(WCS(hdr3(0.02)), WCS(hdr2(0.01)))
        if not n:
            return
        I.eq('ratio', s * p, q)
        I.eq('inverse', r * q, p)
    return Ob('scale', body, 'any pixel sizes')


def square_ob():
    def body(I):
        from astropy.wcs import WCS, WcsError
        v = I.real('v')
        h = hdr2(0.01)
        h['CDELT2'] = 0.02
        for nm, args in (('first', (WCS(h), WCS(hdr2()))), ('second', (WCS(hdr2()), WCS(h)))):
            I.raises('not square %s' % nm, (ValueError, WcsError), SU().common_scale, *args)
        with I.code():
            s = SU().common_scale(WCS(hdr2(0.01)), WCS(hdr2(0.02)))
        I.eq('ratio', s * v, 2.0 * v)
    return Ob('scale-square', body, 'fixed grids')


def roll_ob(shape, axis, shift):
    def body(I):
        x = I.split(I.arr('x', shape, nan='sym'))
        xo = asobj(x)
        s = I.snapshot(x)
        with I.code():
            y = SU().pixel_shift(x, shift, axis=axis)
        I.unchanged('data', x, s)
        for k in np.ndindex(*shape):
            j = list(k)
            j[axis] = (k[axis] - int(shift)) % shape[axis]
            e, g = xo[tuple(j)], asobj(y)[k]
            I.true('blank %s' % (k,), bool(isnan(e)) == bool(isnan(g)))
            if not bool(isnan(e)):
                I.eq('value %s' % (k,), g, e)
    return Ob('roll-%s-%d-%s' % (shape, axis, shift), body, 'any map of shape %s' % (shape,), max_paths=600)


def fshift_ob(shape, axis, shift, nan=()):
    def body(I):
        x = I.arr('x', shape)
        for k in nan:
            x[k] = float('nan')
        xo = asobj(x)
        s = I.snapshot(x)
        n = shape[axis]
        with I.code():
            y = asobj(SU().fourier_shift(x, shift, axis=axis))
        I.unchanged('data', x, s)
        I.true('shape', y.shape == shape)

        def kern(d):
            return sum(math.cos(2 * math.pi * ((m + n // 2) % n - n // 2) * d / n) for m in range(n)) / n
        for k in np.ndindex(*shape):
            acc, msk = [], 0.0
            for r in range(n):
                j = list(k)
                j[axis] = r
                w = kern(k[axis] - shift - r)
                if tuple(j) in nan:
                    msk += w
                else:
                    acc.append(xo[tuple(j)] * w)
            if abs(msk - 0.5) < 1e-6:
                continue
            I.true('blank %s' % (k,), bool(isnan(y[k])) == (msk > 0.5))
            if msk <= 0.5:
                I.eq('value %s' % (k,), y[k], total(acc))
    return Ob('fourier-%s-%d-%s%s' % (shape, axis, shift, '-nan' if nan else ''), body, 'any map of shape %s, blank at %s' % (shape, list(nan)))


def pad_ob(name, w):
    def body(I):
        x = I.arr('x', (2, 3))
        f = getattr(SU(), name)
        with I.code():
            y = asobj(np.pad(x, w, f))
            v = I.arr('v', 6)
            s = list(asobj(v))
            g = f(v, w[0], 0, {})
        n = len(s)
        go = asobj(g)
        for i in range(n):
            if i < w[0][0] or i >= n - w[0][1]:
                if name == 'padwithzeros':
                    I.eq('margin %d' % i, go[i], 0.0)
                else:
                    I.true('margin %d' % i, bool(isnan(go[i])))
            else:
                I.eq('inside %d' % i, go[i], s[i])
        I.true('shape', y.shape == (2 + sum(w[0]), 3 + sum(w[1])))
        for k in np.ndindex(2, 3):
            I.eq('pixel %s' % (k,), y[k[0] + w[0][0], k[1] + w[1][0]], asobj(x)[k])
    return Ob('%s-%s' % (name, w), body, 'any vector of 6 values')


PTS = np.array([[2.0, 0.0], [0.0, 1.0], [-2.0, 0.0], [0.0, -1.0], [1.0, 1.0], [2.0, 2.0], [-1.0, 3.0]])


def ellipse_ob(sign, fix):
    def body(I):
        a, c, b = I.real('a', lo=0.5, hi=3), I.real('c', lo=0.5, hi=3), I.real('b', lo=-1.5, hi=1.5)
        if fix == 'b':
            b = 0.7
        elif fix == 'c':
            c = 1.5
        else:
            a = 0.8
        I.assume(4 * a * c - b * b > 0.3)
        if sign < 0:
            a, b, c = -a, -b, -c
        n = []

        def eig(M):
            n.append(M)
            v = np.zeros((3, 3), dtype=object)
            v[:, 0] = [1.0, 3.0, 1.0]
            v[:, 1] = [a, b, c]
            v[:, 2] = [0.5, 0.1, -1.0]
            return np.ones(3), pack(I, v)
        # linear part of the conic from the points
        D1 = np.vstack([PTS[:, 0]**2, PTS[:, 0] * PTS[:, 1], PTS[:, 1]**2]).T
        D2 = np.vstack([PTS[:, 0], PTS[:, 1], np.ones(len(PTS))]).T
        T = -np.linalg.inv(D2.T.dot(D2)).dot(D2.T.dot(D1))
        d, f, g = (total([T[i, 0] * a, T[i, 1] * b, T[i, 2] * c]) for i in range(3))
        B, d, f = b / 2.0, d / 2.0, f / 2.0
        # F at the centre times (ac - b^2): -det of the conic
        det = a * (c * g - f * f) - B * (B * g - f * d) + d * (B * f - c * d)
        disc = a * c - B * B
        I.assume(-det * (1 if sign > 0 else -1) > 0.1)
        with I.stub('numpy.linalg.eig', eig), I.code():
            e = SU().EllipseModel()
            ok = e.estimate(PTS)
        if not n:
            return
        I.true('fitted', bool(ok))
        if not bool(ok):
            return
        x0, y0, w, h, phi = list(asobj(e.params))
        I.eq('centre x', a * x0 + B * y0 + d, 0.0, tol=1e-5)
        I.eq('centre y', B * x0 + c * y0 + f, 0.0, tol=1e-5)
        F = det / disc
        I.le('width', 0.0, w)
        I.le('height', 0.0, h)
        # product and sum of the squared semi-axes
        I.eq('product', w * w * h * h * disc, F * F, tol=1e-4)
        I.eq('sum', (w * w + h * h) * disc, -F * (a + c), tol=1e-4)
    return Ob('ellipse-%s-%s' % ('plus' if sign > 0 else 'minus', fix), body, 'any ellipse coefficients a,c in [0.5,3], b in [-1.5,1.5]', atoms=True)


def conic_ob(th):
    """points on a known ellipse give it back (the code's own eigenvectors)"""
    def body(I):
        t = np.linspace(0, 2 * np.pi, 9)[:-1]
        A0, B0, X, Y = 2.5, 1.25, 0.3, -0.7
        k = I.real('k', lo=0.5, hi=1)
        x = X + A0 * math.cos(th) * np.cos(t) - B0 * math.sin(th) * np.sin(t)
        y = Y + A0 * math.sin(th) * np.cos(t) + B0 * math.cos(th) * np.sin(t)
        with I.code():
            e = SU().EllipseModel()
            ok = e.estimate(np.vstack([x, y]).T)
        I.true('fitted', bool(ok))
        if not bool(ok):
            return
        p = [float(v) for v in e.params]
        I.eq('centre', np.array(p[:2]) * 1.0, np.array([X, Y]), tol=1e-5)
        I.eq('axes', np.array(sorted(p[2:4])), np.array([B0, A0]), tol=1e-5)
        # direction of the longer axis
        ang = p[4] if p[2] > p[3] else p[4] + np.pi / 2
        I.eq('angle', math.sin(ang - th) * k, 0.0, tol=1e-5)
        # predicted points lie on it
        with I.code():
            q = e.predict_xy(np.array([0.1, 0.9, 4.0]))
        for r in np.asarray(q):
            dx, dy = r[0] - X, r[1] - Y
            m, o = dx * math.cos(th) + dy * math.sin(th), -dx * math.sin(th) + dy * math.cos(th)
            I.eq('on the ellipse', ((m / A0)**2 + (o / B0)**2) * k, 1.0 * k, tol=1e-5)
    return Ob('ellipse-points-%g' % th, body, 'one ellipse')


def predict_ob():
    def body(I):
        X, Y, a, b = I.real('X'), I.real('Y'), I.real('a', lo=0.5, hi=3), I.real('b', lo=0.5, hi=3)
        th, t = 0.4, np.array([0.0, 0.7, 2.0, 4.5])
        with I.code():
            q = asobj(SU().EllipseModel().predict_xy(t, params=[X, Y, a, b, th]))
        I.true('shape', q.shape == (4, 2))
        for i, s in enumerate(t):
            dx, dy = q[i, 0] - X, q[i, 1] - Y
            I.eq('along %d' % i, dx * math.cos(th) + dy * math.sin(th), a * math.cos(s))
            I.eq('across %d' % i, dy * math.cos(th) - dx * math.sin(th), b * math.sin(s))
    return Ob('ellipse-predict', body, 'any centre and axes')


def obligations(tier):
    obs = []
    for k in ('standardize', 'center', 'normalize', 'normalize_by_mean'):
        obs += [norm_ob(k, (2, 2), True), norm_ob(k, (3,), False)]
    obs += [norm_name_ob(), hell_ob(3, False, False), hell_ob(3, True, False), hell_ob(2, False, True), hell_max_ob(),
            kl_ob(3, True, False), kl_ob(2, False, True),
            bins_ob(4, 5, {}), bins_ob(9, 9, {}), bins_ob(4, 4, dict(nbins=4)), bins_ob(4, 4, dict(nbins=3, min_val=1)), bins_ob(4, 4, dict(nbins=3, max_val=1)),
            bins_ob(4, 4, dict(nbins=3), nan=True), bins_ob(3, 3, dict(nbins=3), log=True), bins_dim_ob(), scale_ob(), square_ob(),
            roll_ob((3, 2), 0, 1), roll_ob((2, 3), 1, -2), roll_ob((4,), 0, 2.0),
            fshift_ob((4, 2), 0, 1), fshift_ob((2, 5), 1, -2), fshift_ob((3, 5), 1, 0.5), fshift_ob((4, 2), 0, 1.25), fshift_ob((5, 2), 0, 2, nan=((1, 0),)),
            fshift_ob((5, 2), 0, 0.3, nan=((1, 0), (2, 0), (3, 1))), fshift_ob((2, 2, 3), 2, -1, nan=((1, 0, 0),)),
            ellipse_ob(1, 'b'), ellipse_ob(-1, 'b'), ellipse_ob(1, 'c'), ellipse_ob(-1, 'c'), conic_ob(0.0), conic_ob(0.5), conic_ob(1.5), predict_ob()]
    for n in ('padwithzeros', 'padwithnans'):
        obs += [pad_ob(n, w) for w in (((1, 2), (0, 1)), ((2, 0), (1, 0)), ((0, 3), (0, 0)))]
    if tier == 'thorough':
        obs += [norm_ob('standardize', (2, 3), True), norm_ob('normalize', (2, 3), True), hell_ob(5, True, False), kl_ob(4, True, False),
                fshift_ob((7, 2), 0, 1.7), fshift_ob((8, 2), 0, 3), roll_ob((3, 3), 0, 5), bins_ob(16, 20, {})]
    return obs
