"""Genus"""
from props.common import *

TITLE = 'Genus counts regions above minus regions below each threshold'
META = dict(
    title=TITLE,
    statement='For every image and threshold, the genus is the number of connected regions of pixels '
              'strictly above the threshold minus those strictly below it (blanks in neither), with the '
              'chosen connectivity, leaving out regions smaller than the minimum size when small '
              'removal is on; the minimum size may be given as an area in pixel, angular or physical '
              'units, or be the area of the Gaussian beam. The image is first smoothed with a '
              'normalised Gaussian of each given radius (radii below one pixel or above half the map '
              'are refused), whose mean and standard deviation are reported; thresholds are equally '
              'spaced between the given or data-derived limits. The genus distance is the norm of '
              'the difference of the area-normalised spline curves of the standardised images over '
              'the common threshold range; the image is never modified.',
    quantifier=dict(over=['inputs'], text='all values of the free pixels (NaN where listed) and thresholds '
                    'of the listed maps; all genus curves for the distance'),
    why_tests_cant='A pinned curve of one image does not separate connectivity, the strictness of the '
                   'threshold, blanks and the size limit.',
    anchors=dict(files=['turbustat/statistics/genus/genus.py'],
                 mechanism=[dict(name='Genus.make_genus_curve', where='turbustat/statistics/genus/genus.py:233'),
                            dict(name='remove_small_objects', where='turbustat/statistics/genus/genus.py:661'),
                            dict(name='Genus_Distance', where='turbustat/statistics/genus/genus.py:482')]))
MODULES = ['turbustat.statistics']
OUTSIDE = 'maps larger than 5x5, more free pixels than listed, pinned spline of scipy (its matrix is measured)'
ASSUMPTIONS = ['scipy.ndimage.label on decided truth values; convolve_fft and InterpolatedUnivariateSpline are '
               'linear in the values, their matrix is measured on the installed function']


def regions(mask, conn):
    """sizes of the connected regions, by flood fill"""
    seen, out = set(), []
    on = {k for k in np.ndindex(*mask.shape) if mask[k]}
    for k in sorted(on):
        if k in seen:
            continue
        todo, size = [k], 0
        seen.add(k)
        while todo:
            a, b = todo.pop()
            size += 1
            for d in itertools.product((-1, 0, 1), repeat=2):
                if d == (0, 0) or (conn == 1 and d[0] and d[1]):
                    continue
                q = (a + d[0], b + d[1])
                if q in on and q not in seen:
                    seen.add(q)
                    todo.append(q)
        out.append(size)
    return out


def image(I, shape, free, nans=(), pat=0):
    y, x = np.mgrid[:shape[0], :shape[1]]
    a = np.where((y * 2 + x * (3 + pat) + pat) % 3 == 0, 1.0, -1.0) * (1 + 0.1 * y)
    a = asobj(a)
    for k in free:
        a[k] = I.real('x%s' % (k,), lo=-2, hi=2)
    for k in nans:
        a[k] = float('nan')
    return pack(I, a)


def area_pix(v, unit):
    f = {'pix2': 1.0, 'deg2': 1e4, 'arcmin2': 1e4 / 3600, 'pc2': 1.0 / (0.01 * math.pi / 180 * 100.0)**2}
    return v * f[unit]


def curve_ob(shape, free, conn=2, min_size=None, unit=None, beam=None, nans=(), thr=(0.0,), pat=0, removal=True, units=False):
    def body(I):
        import astropy.units as u
        from turbustat.statistics import Genus
        x = image(I, shape, free, nans, pat)
        T = list(thr)
        for k in free:
            for t in T:
                I.assume(abs(x[k] - t) > 1e-6)
        h = hdr2(extra=dict(BMAJ=beam[0] * 0.01, BMIN=beam[1] * 0.01, BPA=0.0) if beam else None)
        s = I.snapshot(x)
        kw = dict(connectivity=conn, enable_small_removal=removal)
        lim = 4
        if beam:
            kw['use_beam'] = True
            lim = int(math.floor(2 * math.pi * beam[0] * beam[1] / (8 * math.log(2))))
        elif min_size is not None:
            if unit:
                U = {'pix2': u.pix**2, 'deg2': u.deg**2, 'arcmin2': u.arcmin**2, 'pc2': u.pc**2}[unit]
                kw['min_size'] = min_size / area_pix(1.0, unit) * U
                lim = int(math.floor(min_size))
            else:
                kw['min_size'] = lim = min_size
        with I.code():
            if units:
                d = u.Quantity(x, u.K)
                g = Genus((d, h), thresholds=np.array(T) * 1000 * u.mK, enable_smoothing=False)
            else:
                g = Genus((x, h), thresholds=np.array(T), enable_smoothing=False, distance=100 * u.pc)
            g.make_genus_curve(**kw)
            st, mu, sd = g.genus_stats, g.smoothed_means, g.smoothed_stds
        I.unchanged('image', x, s)
        X = asobj(x)
        fin = [X[k] for k in np.ndindex(*shape) if k not in nans]
        for i, t in enumerate(T):
            hi, lo = np.zeros(shape, bool), np.zeros(shape, bool)
            for k in np.ndindex(*shape):
                if k not in nans:
                    hi[k] = bool(X[k] > t)
                    lo[k] = bool(X[k] < t)
            keep = lambda r: len([q for q in r if not removal or q >= lim])
            want = keep(regions(hi, conn)) - keep(regions(lo, conn))
            I.eq('genus at %s' % t, asobj(st)[0, i], float(want))
        m = mean(fin)
        I.eq('mean', asobj(val(mu))[0], m)
        I.eq('std', asobj(val(sd))[0] * asobj(val(sd))[0], mean([(e - m) * (e - m) for e in fin]))
    return Ob('curve%s-%d-c%d-%s%s%s%s%s%s%s' % (shape, len(free), conn, min_size, unit or '', '-beam' if beam else '', '-nan' if nans else '',
                                             '' if removal else '-keep', '-K' if units else '', pat or ''), body,
              'map %s with free pixels %s in [-2,2] (off the thresholds %s by 1e-6), blanks %s' % (shape, list(free), list(thr), list(nans)),
              max_paths=1200)


def smooth_ob(shape, radii, nans=(), unit=None, match=False):
    def body(I):
        import astropy.units as u
        from astropy.convolution import Gaussian2DKernel
        from turbustat.statistics import Genus
        from props.P09_delvar import conv
        a = asobj(np.zeros(shape))
        for k in np.ndindex(*shape):
            a[k] = I.real('x%s' % (k,), lo=1, hi=2) if k not in nans else float('nan')
        x = pack(I, a)
        s = I.snapshot(x)
        rr = np.array(radii)
        with I.code():
            if unit:
                g = Genus((x, hdr2()), thresholds=np.array([5.0]), smoothing_radii=rr * 0.01 * u.deg)
            else:
                g = Genus((x, hdr2()), thresholds=np.array([5.0]), smoothing_radii=rr)
            g.make_genus_curve(keep_smoothed_images=True, **(dict(match_kernel=True) if match else {}))
            im, mu, sd = g.smoothed_images, g.smoothed_means, g.smoothed_stds
        I.unchanged('image', x, s)
        for j, r in enumerate(radii):
            h = (int(math.ceil(8 * r)) | 1) // 2
            y, xx = np.mgrid[-h:h + 1, -h:h + 1]
            if match:
                y, xx = np.mgrid[-(shape[0] // 2):shape[0] // 2 + 1, -(shape[1] // 2):shape[1] // 2 + 1]
            ker = np.exp(-(y**2 + xx**2) / (2.0 * r * r))
            ker = ker / ker.sum()
            X = asobj(x)
            f, w = X.copy(), np.zeros(shape)
            for k in nans:
                f[k] = 0.0
                w[k] = 1.0
            want = conv(f, ker, False)
            lost = conv(asobj(w), ker, False)
            for k in np.ndindex(*shape):
                want[k] = want[k] / (1.0 - float(lost[k]))
            if len(im) == len(radii):
                I.eq('smoothed image %d' % j, im[j], want)
            m = mean(list(want.ravel()))
            I.eq('mean %d' % j, asobj(mu)[j], m)
            I.eq('std %d' % j, asobj(sd)[j] * asobj(sd)[j], mean([(e - m) * (e - m) for e in want.ravel()]), tol=1e-5)
    return Ob('smoothed%s-%s%s%s%s' % (shape, radii, '-nan' if nans else '', unit or '', '-match' if match else ''), body,
              'every map %s in [1,2]' % (shape,))


def table_ob(units):
    """one table per smoothed image"""
    def body(I):
        import astropy.units as u
        from turbustat.statistics import Genus
        g_, mu, sd = I.arr('g', (2, 3), lo=-5, hi=5), I.arr('m', 2, lo=-2, hi=2), I.arr('s', 2, lo=0.1, hi=2)
        t = np.array([-1.0, 0.5, 2.0])

        class Col(object):
            def __init__(self, data=None, name=None, **k):
                self.data, self.name = data, name

        class Tab(dict):
            def __init__(self, data=None, names=None, **k):
                dict.__init__(self)
                for n, d in zip(names or [getattr(c, 'name', None) for c in data or []], data or []):
                    self[n] = getattr(d, 'data', d) if isinstance(d, Col) else d

            def add_column(self, c, name=None, **k):
                self[name or c.name] = c.data if isinstance(c, Col) else c
        with I.stub('astropy.table.Table', Tab), I.stub('astropy.table.Column', Col), I.code():
            g = Genus((u.Quantity(np.ones((8, 9)), u.K) if units else np.ones((8, 9)), hdr2()), thresholds=t * u.K if units else t, smoothing_radii=np.array([1.0, 2.5]))
            I.plant(g, '_genus_stats', g_)
            I.plant(g, '_smoothed_means', u.Quantity(mu, u.K) if units else mu)
            I.plant(g, '_smoothed_stds', u.Quantity(sd, u.K) if units else sd)
            tabs = g.make_genus_stats_table()
        I.true('a table per radius', len(tabs) == 2)
        for j, tab in enumerate(tabs):
            I.true('names %d' % j, list(tab) == ['thresholds', 'genus_value', 'data_mean', 'data_std', 'smooth_radius'])
            for nm, w in [('thresholds', t), ('genus_value', g_[j]), ('data_mean', [mu[j]] * 3), ('data_std', [sd[j]] * 3), ('smooth_radius', [[1.0, 2.5][j]] * 3)]:
                I.eq('%s %d' % (nm, j), val(tab[nm]), np.array(w, dtype=object))
    return Ob('table%s' % ('-K' if units else ''), body, 'any results')


def thr_ob(shape, lo=None, hi=None, n=4, low=0, high=100, nans=(), units=False):
    def body(I):
        import astropy.units as u
        from turbustat.statistics import Genus
        free = [k for k in np.ndindex(*shape) if k not in nans]
        x = image(I, shape, free[:3], nans)
        X = [asobj(x)[k] for k in free]
        with I.code():
            kw = dict(numpts=n, lowdens_percent=low, highdens_percent=high, enable_smoothing=False)
            if units:
                if lo is not None:
                    kw['min_value'] = lo * 1000 * u.mK
                if hi is not None:
                    kw['max_value'] = hi * 1000 * u.mK
                g = Genus((u.Quantity(x, u.K), hdr2()), **kw)
            else:
                g = Genus((x, hdr2()), min_value=lo, max_value=hi, **kw)
            t = g.thresholds
        if units:
            I.true('unit', t.unit == u.K)
        srt = sorted(range(len(X)), key=lambda k: sum(bool(X[j] < X[k]) or (j < k and not bool(X[k] < X[j])) for j in range(len(X)) if j != k))
        S = [X[k] for k in srt]

        def pct(p):
            q = p / 100.0 * (len(S) - 1)
            f = int(math.floor(q))
            return S[f] if q == f else S[f] + (S[f + 1] - S[f]) * (q - f)
        a = lo if lo is not None else pct(low)
        b = hi if hi is not None else pct(high)
        for i in range(n):
            I.eq('threshold %d' % i, asobj(val(t))[i], (b - a) * (i / (n - 1.0)) + a)
    return Ob('thresholds%s-%s-%s-%s-%s%s%s' % (shape, lo, hi, low, high, '-K' if units else '', '-nan' if nans else ''), body,
              'map %s with three free pixels in [-2,2]' % (shape,), max_paths=800)


def refuse_ob():
    def body(I):
        import astropy.units as u
        from turbustat.statistics import Genus
        x = I.arr('x', (4, 5), lo=-2, hi=2)
        bad = I.real('r', lo=0.1, hi=0.99)
        big = I.real('b', lo=2.01, hi=9)
        d = u.Quantity(x, u.K)
        arr = lambda v: pack(I, np.array([1.0, v], dtype=object))
        I.raises('radius below a pixel', ValueError, Genus, (x, hdr2()), thresholds=np.array([0.0]), smoothing_radii=arr(bad))
        I.raises('radius above half', ValueError, Genus, (x, hdr2()), thresholds=np.array([0.0]), smoothing_radii=arr(big))
        I.raises('thresholds without unit', TypeError, Genus, (d, hdr2()), thresholds=np.array([0.0]))
        I.raises('thresholds in another unit', u.UnitsError, Genus, (d, hdr2()), thresholds=np.array([0.0]) * u.m)
        I.raises('minimum without unit', TypeError, Genus, (d, hdr2()), min_value=0.0)
        I.raises('maximum without unit', TypeError, Genus, (d, hdr2()), max_value=1.0)
        I.raises('maximum in another unit', u.UnitsError, Genus, (d, hdr2()), max_value=1.0 * u.m)
        I.raises('images not kept', ValueError, lambda: Genus((x, hdr2()), thresholds=np.array([0.0])).smoothed_images)
    return Ob('refused settings', body, 'every map 4x5, radii in [0.1,0.99] and [2.01,9]')


def dist_ob(n, r1, r2, pix=(0.01, 0.01), shapes=((4, 4), (4, 4))):
    """distance from free genus curves on given thresholds"""
    def body(I):
        from turbustat.statistics import Genus_Distance
        from scipy.interpolate import InterpolatedUnivariateSpline as Spl
        a, b = I.arr('a', n, lo=-4, hi=4), I.arr('b', n, lo=-4, hi=4)
        im = [np.random.RandomState(k).rand(*s) for k, s in enumerate(shapes)]
        with I.code():
            d = Genus_Distance((im[0], hdr2(pix[0])), (im[1], hdr2(pix[1])), numpts=n,
                               min_value=[r1[0], r2[0]], max_value=[r1[1], r2[1]])
            I.plant(d.genus1, '_genus_stats', a.reshape((1, n)))
            I.plant(d.genus2, '_genus_stats', b.reshape((1, n)))
            v = d.distance_metric().distance
        t1, t2 = np.linspace(r1[0], r1[1], n), np.linspace(r2[0], r2[1], n)
        I.eq('thresholds 1', d.genus1.thresholds, t1)
        I.eq('thresholds 2', d.genus2.thresholds, t2)
        pts = np.linspace(max(r1[0], r2[0]), min(r1[1], r2[1]), 2 * n)
        E = np.eye(n)
        M1 = np.array([Spl(t1, e, k=3)(pts) for e in E]).T
        M2 = np.array([Spl(t2, e, k=3)(pts) for e in E]).T
        sc = pix[1] / pix[0]
        s1, s2 = np.prod(shapes[0]) / sc, float(np.prod(shapes[1]))
        q = []
        for i in range(2 * n):
            e = total([a[k] * float(M1[i, k] / s1) for k in range(n)]) - total([b[k] * float(M2[i, k] / s2) for k in range(n)])
            q.append(e * e)
        I.eq('distance', v * v, total(q))
        I.le('not negative', 0.0, v)
    return Ob('distance-%d-%s-%s%s%s' % (n, r1, r2, '-pix' if pix[0] != pix[1] else '', '-shape' if shapes[0] != shapes[1] else ''), body,
              'every pair of curves of %d values in [-4,4]' % n)


def std_ob():
    """the distance works on standardised images"""
    def body(I):
        from turbustat.statistics import Genus_Distance
        x = I.arr('x', (3, 2), lo=-2, hi=2)
        mu = mean(list(asobj(x).ravel()))
        var = mean([(e - mu) * (e - mu) for e in asobj(x).ravel()])
        I.assume(var > 0.1)
        got = []

        class G(object):
            def __init__(self, img, **k):
                got.append((img, k))

            def run(self, **k):
                got[-1] += (k,)
                return self
        s = I.snapshot(x)
        kw = dict(min_size=2)
        with I.stub('turbustat.statistics.genus.genus.Genus', G), I.code():
            Genus_Distance((x, hdr2()), (x * 2.0 + 1.0, hdr2()), smoothing_radii=np.array([1.0]), numpts=7, min_value=[-1.0, -2.0],
                           max_value=[1.0, 2.0], genus_kwargs=kw, genus2_kwargs=dict(min_size=3))
        if len(got) != 2:
            return
        I.unchanged('image', x, s)
        for j in range(2):
            for k in np.ndindex(3, 2):
                e = asobj(got[j][0])[k]
                I.eq('standardised %d %s' % (j, k), e * e * var, (x[k] - mu) * (x[k] - mu), tol=1e-5)
                I.le('sign %d %s' % (j, k), 0.0, e * (x[k] - mu))
            I.true('limits %d' % j, got[j][1].get('min_value') == [-1.0, -2.0][j] and got[j][1].get('max_value') == [1.0, 2.0][j])
            I.true('options %d' % j, got[j][2].get('min_size') == 2 + j)
            I.true('points %d' % j, got[j][1].get('numpts') == 7)
    return Ob('standardised', body, 'every map 3x2 in [-2,2] with variance above 0.1')


A6 = [(0, 0), (0, 1), (1, 1), (1, 2), (2, 0), (2, 2)]
B6 = [(0, 2), (1, 0), (1, 1), (2, 1), (2, 2), (3, 2)]


def obligations(tier):
    obs = [curve_ob((3, 3), A6, min_size=1), curve_ob((3, 3), A6, conn=1, min_size=2), curve_ob((3, 4), A6, conn=2, min_size=3, pat=1),
           curve_ob((4, 4), B6, pat=2), curve_ob((4, 3), B6, removal=False), curve_ob((4, 3), B6, conn=1, removal=False),
           curve_ob((3, 3), A6[:4], min_size=2, nans=[(2, 0), (1, 0)]), curve_ob((3, 3), A6[:3], min_size=2, thr=(-0.5, 0.75)),
           curve_ob((3, 3), A6[:4], min_size=3.4, unit='pix2'), curve_ob((3, 3), A6[:4], min_size=2.3, unit='deg2'),
           curve_ob((3, 3), A6[:4], min_size=3.3, unit='pc2'), curve_ob((3, 3), A6[:4], min_size=2.2, unit='arcmin2'),
           curve_ob((3, 3), A6[:4], beam=(1.6, 1.2)), curve_ob((3, 4), A6[:4], beam=(2.0, 1.4)), curve_ob((3, 3), A6[:4], min_size=2, units=True),
           smooth_ob((4, 5), [1.0]), smooth_ob((4, 4), [1.0, 2.0]), smooth_ob((5, 4), [1.5], nans=[(1, 1)]), smooth_ob((4, 5), [2.0], unit='deg'), smooth_ob((3, 5), [1.5], match=True), smooth_ob((5, 3), [1.0], match=True), table_ob(False), table_ob(True),
           thr_ob((2, 3), -1.0, 2.0), thr_ob((2, 3)), thr_ob((2, 3), low=20, high=90), thr_ob((2, 3), None, 1.5, nans=[(1, 1)]),
           thr_ob((2, 3), -1.0, None, units=True), thr_ob((2, 3), -1.0, 1.5, units=True, n=5), refuse_ob(),
           dist_ob(5, (-1.0, 2.0), (-2.0, 1.0)), dist_ob(4, (-1.0, 1.0), (-1.0, 1.0), shapes=((4, 4), (5, 4))),
           dist_ob(4, (-1.0, 1.0), (-0.5, 1.5), pix=(0.01, 0.025)), std_ob()]
    if tier == 'thorough':
        obs += [curve_ob((4, 4), B6 + [(0, 0), (3, 0)], pat=2), curve_ob((5, 5), B6 + [(4, 4), (3, 3)], pat=1, min_size=3),
                curve_ob((3, 3), list(np.ndindex(3, 3)), min_size=2), thr_ob((3, 3), low=10, high=75)]
    return obs
