"""Statistical moments"""
from props.common import *
from props.P09_delvar import base, fill

TITLE = 'Moment maps hold the weighted moments of each circular neighbourhood'
META = dict(
    title=TITLE,
    statement='For every image, weight map and radius R (in pixel, angular or physical units, rounded up '
              'to whole pixels), each map pixel holds the weighted mean, variance, skewness and '
              'kurtosis-3 of the finite pixels closer than R, wrapping around when periodic and with '
              'nothing outside otherwise, and is NaN exactly when the finite share of its (2R+1)^2 box '
              'is below the requested minimum; the same moments of the whole image are reported as '
              'totals. The histograms are normalised counts of the non-NaN map values over the chosen '
              'number of bins or edges, and the distances are Hellinger distances of the skewness and '
              'kurtosis histograms on common edges with radii covering the same angle. Radii below two '
              'pixels or above half the map are refused and the inputs are never modified.',
    quantifier=dict(over=['inputs'], text='all values of the free image and weight pixels (NaN allowed) '
                    'on the listed grids; all map values for the histograms'),
    why_tests_cant='The pinned histograms use one fully sampled image with uniform weights: blanks, '
                   'weights, radii and the boundary rule cannot be told apart.',
    anchors=dict(files=['turbustat/statistics/stat_moments/highstatmoments.py',
                        'turbustat/statistics/stats_utils.py'],
                 mechanism=[dict(name='StatMoments.compute_spatial_distrib',
                                 where='turbustat/statistics/stat_moments/highstatmoments.py:103'),
                            dict(name='compute_moments',
                                 where='turbustat/statistics/stat_moments/highstatmoments.py:770'),
                            dict(name='StatMoments.make_spatial_histograms',
                                 where='turbustat/statistics/stat_moments/highstatmoments.py:244'),
                            dict(name='StatMoments_Distance',
                                 where='turbustat/statistics/stat_moments/highstatmoments.py:481')]))
MODULES = ['turbustat.statistics']
OUTSIDE = 'maps larger than 7x6, more free pixels than listed, histograms of more than 5 values'
ASSUMPTIONS = []
PIX = 0.015625


def moments(xs, ws):
    sw = total(ws)
    m = total([x * w for x, w in zip(xs, ws)]) / sw
    d = [x - m for x in xs]
    v = total([w * q * q for w, q in zip(ws, d)]) / sw
    m3 = total([w * q * q * q for w, q in zip(ws, d)]) / sw
    m4 = total([w * q * q * q * q for w, q in zip(ws, d)]) / sw
    return m, v, m3, m4


def compare(I, lab, got, want, high=True):
    m, v, s, k = got
    M_, V, M3, M4 = want
    I.eq(lab + ' mean', m, M_)
    I.eq(lab + ' variance', v, V)
    if high:
        if is_sym(V):
            I.assume(V > 1e-3)
        elif float(V) < 1e-9:
            return
        r = sqrt(V)
        I.eq(lab + ' skewness', s * V * r, M3, tol=1e-5)
        I.eq(lab + ' kurtosis', (k + 3.0) * V * V, M4, tol=1e-5)


def local_ob(shape, rad, free, periodic=True, frac=0.8, nansym=(), nans=(), wfree=(), wconst=None,
             unit='pix', override=False, wnan=(), run=False):
    def body(I):
        from turbustat.statistics import StatMoments
        import astropy.units as u
        b = base(shape)
        for k in nans:
            b[k] = np.nan
        x = fill(I, b, 'x', free, -3, 3, nansym)
        kw = {}
        w = None
        if wfree or wconst is not None or wnan:
            w = np.ones(shape) if wconst is None else np.array(wconst, dtype=float)
            for k in wnan:
                w[k] = np.nan
            w = fill(I, w, 'w', wfree, 0.25, 2)
            kw['weights'] = w
        r = {'pix': rad * u.pix, 'deg': rad * PIX * u.deg, 'arcsec': rad * PIX * 3600 * u.arcsec,
             'pc': rad * math.radians(PIX) * 100 * u.pc}[unit]
        s = I.snapshot(x)
        sw = I.snapshot(w) if w is not None else None
        with I.code():
            o = StatMoments(x, header=hdr2(pix=PIX), radius=2 * u.pix if override else r,
                            distance=100 * u.pc, **kw)
            if run:
                o.make_spatial_histograms = lambda **k: None
                o.run(periodic=periodic, min_frac=frac, show_progress=False, radius=r)
            else:
                o.compute_spatial_distrib(periodic=periodic, min_frac=frac, show_progress=False,
                                          radius=r if override else None)
            maps = [asobj(q) for q in (o.mean_array, o.variance_array, o.skewness_array, o.kurtosis_array)]
        I.unchanged('image', x, s)
        if w is not None:
            I.unchanged('weights', w, sw)
        R = math.ceil(rad - 1e-9)
        ny, nx = shape
        xo = asobj(x)
        wo = asobj(w) if w is not None else np.ones(shape).astype(object)
        for p in np.ndindex(*shape):
            xs, ws = [], []
            nfin = nwfin = 0
            for dy in range(-R, R + 1):
                for dx in range(-R, R + 1):
                    q = (p[0] + dy, p[1] + dx)
                    if periodic:
                        q = (q[0] % ny, q[1] % nx)
                    elif not (0 <= q[0] < ny and 0 <= q[1] < nx):
                        continue
                    fx = not bool(isnan(xo[q]))
                    fw = not bool(isnan(wo[q]))
                    nfin += fx
                    nwfin += fw
                    if fx and fw and dy * dy + dx * dx < R * R:
                        xs.append(xo[q])
                        ws.append(wo[q])
            box = float((2 * R + 1)**2)
            if nfin / box < frac or nwfin / box < frac:
                for q, nm in zip(maps, ('mean', 'variance', 'skewness', 'kurtosis')):
                    I.true('%s blanked%s' % (nm, p), isnan(q[p]))
                continue
            if not xs:
                continue
            compare(I, str(p), [q[p] for q in maps], moments(xs, ws))
    nm = 'local%s-R%g-%s-%g%s%s%s%s%s' % (shape, rad, 'wrap' if periodic else 'open', frac,
                                          '-nan' if nansym or nans else '',
                                          '-w' if wfree or wconst is not None or wnan else '',
                                          '-' + unit if unit != 'pix' else '',
                                          '-override' if override else '', '-run' if run else '')
    return Ob(nm, body, 'map %s, free pixels %s in [-3,3], NaN possible at %s and set at %s, free weights %s '
              'in [0.25,2]' % (shape, list(free), list(nansym), list(nans), list(wfree)), time_limit=250)


def whole_ob(shape, nansym=(), wsym=True, wnan=(), high=True):
    def body(I):
        from turbustat.statistics import StatMoments
        import astropy.units as u
        big = np.full((4, 4), np.nan)
        ny, nx = shape
        if I.sym:
            big = asobj(big).view(SymArr)
        W = np.full((4, 4), 1.0)
        if I.sym:
            W = asobj(W).view(SymArr)
        ks = list(np.ndindex(*shape))
        for k in ks:
            big[k] = I.real('x%s' % (k,), lo=-3, hi=3, nan='sym' if k in nansym else False)
            if wsym is True:
                W[k] = I.real('w%s' % (k,), lo=0.25, hi=2)
            elif wsym:
                W[k] = wsym[k[0] * nx + k[1]]
        for k in wnan:
            W[k] = float('nan')
        big = I.split(big)
        s, sw = I.snapshot(big), I.snapshot(W)
        with I.code():
            o = StatMoments(big, header=hdr2(), weights=W, radius=2 * u.pix)
            o.array_moments()
            got = (o.mean, o.variance, o.skewness, o.kurtosis)
        I.unchanged('image', big, s)
        I.unchanged('weights', W, sw)
        B, WW = asobj(big), asobj(W)
        idx = [k for k in ks if not bool(isnan(B[k])) and k not in wnan]
        compare(I, 'total', got, moments([B[k] for k in idx], [WW[k] for k in idx]), high)
    return Ob('whole%s%s%s%s' % (shape, '-nan' if nansym else '', '-w' if wsym is True else '-wc' if wsym else '',
                                 '-wnan' if wnan else ''),
              body, '4x4 map blank outside %s, every value in [-3,3], weights %s' % (
                  shape, 'in [0.25,2]' if wsym is True else wsym), time_limit=250)


def ref_hist(I, vals, edges):
    """normalised counts; last bin closed"""
    n = len(edges) - 1
    c = [0] * n
    for v in vals:
        for b in range(n):
            if bool(v >= edges[b]) and (bool(v < edges[b + 1]) or (b == n - 1 and bool(v <= edges[n]))):
                c[b] += 1
                break
    tot = float(sum(c))
    return [ck / tot / (edges[b + 1] - edges[b]) if tot else float('nan') for b, ck in enumerate(c)]


def hist_ob(n, bins, nansym=(), which='skewness'):
    """which map is symbolic; bins an int or a list of edges"""
    def body(I):
        from turbustat.statistics import StatMoments
        import astropy.units as u
        names = ['mean', 'variance', 'skewness', 'kurtosis']
        v = I.split(I.arr('v', n, lo=-2, hi=2, nansym=[(k,) for k in nansym]))
        V = asobj(v)
        with I.code():
            o = StatMoments(np.ones((4, 4)), header=hdr2(), radius=2 * u.pix,
                            nbins=bins if isinstance(bins, int) else 3)
            for nm in names:
                setattr(o, '_%s_array' % nm, v if nm == which else np.linspace(0, 1, n))
            kw = {} if isinstance(bins, int) else {which + '_bins': np.array(bins)}
            if isinstance(bins, int):
                fin = [e for e in V if not bool(isnan(e))]
                for i in range(len(fin)):
                    for j in range(i):
                        I.assume(abs(fin[i] - fin[j]) > 1e-3)
            o.make_spatial_histograms(**kw)
            c, h = getattr(o, which + '_hist')
            ext = getattr(o, which + '_extrema')
        fin = [e for e in V if not bool(isnan(e))]
        lo, hi = fin[0], fin[0]
        for e in fin[1:]:
            lo = e if bool(e < lo) else lo
            hi = e if bool(e > hi) else hi
        I.eq('smallest value', ext[0], lo)
        I.eq('largest value', ext[1], hi)
        if isinstance(bins, int):
            edges = [lo + (hi - lo) * (k / float(bins)) for k in range(bins + 1)]
        else:
            edges = list(bins)
        for e in fin:
            for q in edges[1:-1]:
                I.assume(abs(e - q) > 1e-6)
            if not isinstance(bins, int):
                I.assume(abs(e - edges[0]) > 1e-6)
                I.assume(abs(e - edges[-1]) > 1e-6)
        want = ref_hist(I, fin, edges)
        I.true('number of bins', len(asobj(h)) == len(want))
        if any(isinstance(q, float) and math.isnan(q) for q in want):
            return
        I.eq('bin centres', c, np.array([(edges[k] + edges[k + 1]) * 0.5 for k in range(len(want))], dtype=object))
        I.eq('density', h, np.array(want, dtype=object))
    return Ob('hist-%s-%d-%s%s' % (which, n, bins, '-nan' if nansym else ''), body,
              'every map of %d values in [-2,2]' % n, max_paths=2000)


def dist_ob(n, nb, free, span):
    """Hellinger distance on common edges"""
    def body(I):
        from turbustat.statistics import StatMoments, StatMoments_Distance
        import astropy.units as u
        a = np.array([-1.5, 0.25, 1.25, 0.5][:n])
        if I.sym:
            a = asobj(a).view(SymArr)
        for k in free:
            a[k] = I.real('a%d' % k, lo=-span, hi=span)
        c = np.array([-1.25, 0.5, 1.75, 0.75][:n])
        kk = np.array([-0.7, 0.2, 1.1, 2.3][:n])
        k2 = np.array([-0.3, 0.4, 1.6, 2.9][:n])
        with I.code():
            o = [StatMoments(np.ones((6, 6)), header=hdr2(), radius=2 * u.pix, nbins=nb) for _ in range(2)]
            for q, s, k in ((o[0], a, kk), (o[1], c, k2)):
                I.plant(q, '_mean_array', np.linspace(0, 1, n)), I.plant(q, '_variance_array', np.linspace(0, 1, n))
                I.plant(q, '_skewness_array', s), I.plant(q, '_kurtosis_array', k)
            d = StatMoments_Distance(o[0], o[1], radius=2 * u.pix, nbins=nb)
            d.distance_metric()
            sd, kd = d.skewness_distance, d.kurtosis_distance
            e = StatMoments_Distance(o[1], o[0], radius=2 * u.pix, nbins=nb)
            e.distance_metric()
            sd2 = e.skewness_distance
            f = StatMoments_Distance(o[0], o[0], radius=2 * u.pix, nbins=nb)
            f.distance_metric()
            sd3 = f.skewness_distance
        al = list(asobj(a)) + list(c)
        lo, hi = al[0], al[0]
        for q in al[1:]:
            lo = q if bool(q < lo) else lo
            hi = q if bool(q > hi) else hi
        edges = [lo + (hi - lo) * (k / float(nb - 1)) for k in range(nb)]
        for q in al:
            for e_ in edges[1:-1]:
                I.assume(abs(q - e_) > 1e-6)
        h1, h2 = ref_hist(I, list(asobj(a)), edges), ref_hist(I, list(c), edges)
        w = edges[1] - edges[0]
        I.le('not negative', 0.0, sd)
        t = total([(sqrt(p) - sqrt(q)) * (sqrt(p) - sqrt(q)) for p, q in zip(h1, h2)])
        I.eq('skewness distance', sd * sd * 2.0, w * w * t, tol=1e-5)
        I.eq('symmetric', sd2, sd)
        I.eq('zero on itself', sd3, 0.0)
        ek = np.linspace(min(kk.min(), k2.min()), max(kk.max(), k2.max()), nb)
        g1, g2 = np.histogram(kk, ek, density=True)[0], np.histogram(k2, ek, density=True)[0]
        I.eq('kurtosis distance', kd, (ek[1] - ek[0]) / math.sqrt(2) * math.sqrt(((np.sqrt(g1) - np.sqrt(g2))**2).sum()))
    return Ob('distance-%d-%d-%s-%g' % (n, nb, free, span), body, 'skewness maps of %d values, %s free in +-%g, against a fixed one' % (n, free, span),
              max_paths=2000)


def radius_ob(shape):
    def body(I):
        from turbustat.statistics import StatMoments
        import astropy.units as u
        l = I.real('radius', lo=0.5, hi=float(max(shape)))
        ang = bool(I.bool('angular'))
        lim = min(shape) / 2.
        I.assume(abs(l - 2.0) > 1e-6)
        I.assume(abs(l - lim) > 1e-6)
        try:
            with I.code():
                d = StatMoments(np.ones(shape), header=hdr2(pix=PIX), radius=2 * u.pix)
                d.radius = u.Quantity(l * PIX if ang else l, u.deg if ang else u.pix)
            ok = True
        except ValueError:
            ok = False
        I.true('accepted exactly from two pixels to half the map', ok == (bool(l >= 2.0) and bool(l <= lim)))
    return Ob('radius limits%s' % (shape,), body, 'every radius in [0.5,%d] pixels' % max(shape))


def override_ob(shape):
    """a radius given with the computation has the same limits"""
    def body(I):
        from turbustat.statistics import StatMoments
        import astropy.units as u
        l = I.real('radius', lo=0.5, hi=float(max(shape)) - 1)
        lim = min(shape) / 2.
        I.assume((l < 1.99) | (l > lim + 0.01))
        ang = bool(I.bool('angular'))
        with I.code():
            d = StatMoments(np.ones(shape), header=hdr2(pix=PIX), radius=2 * u.pix)
        I.raises('refused', ValueError, d.compute_spatial_distrib, radius=u.Quantity(l * PIX if ang else l, u.deg if ang else u.pix), show_progress=False)
        I.eq('the former radius stays', d.radius.value, 2.0)
    return Ob('radius override%s' % (shape,), body, 'every radius outside the limits, up to %d pixels' % (max(shape) - 1))


def common_ob(p1, p2):
    """the two radii cover the same angle; recomputation when an input used another one"""
    def body(I):
        from turbustat.statistics import StatMoments, StatMoments_Distance
        import astropy.units as u
        x = fill(I, base((8, 8)), 'x', [(2, 3)], -3, 3)
        y = base((9, 8))[::-1].copy()
        with I.code():
            d = StatMoments_Distance([x, hdr2(pix=p1)], [y, hdr2(pix=p2)], radius=2 * u.pix)
            a, b = d.moments1, d.moments2
            r1, r2 = a._to_pixel(a.radius).value, b._to_pixel(b.radius).value
            nb = d.nbins
            o = StatMoments(x, header=hdr2(pix=p1), radius=4 * u.pix)
            o.compute_spatial_distrib(show_progress=False)
            e = StatMoments_Distance(o, [y, hdr2(pix=p2)], radius=2 * u.pix)
            r3 = e.moments1._to_pixel(e.moments1.radius).value
            m3 = asobj(e.moments1.mean_array)
            nb3 = e.moments1.nbins
            m1 = asobj(a.mean_array)
        I.eq('first radius', r1, 2.0 * max(1.0, p2 / p1))
        I.eq('second radius', r2, 2.0 * max(1.0, p1 / p2))
        I.true('bins from the smaller map', nb == 8)
        if abs(2.0 * max(1.0, p2 / p1) - 4.0) >= 1.:
            I.eq('radius of a recomputed input', r3, r1)
            I.eq('recomputed map', m3, m1)
            I.true('recomputed bins', nb3 == nb)
    return Ob('common radius-%g-%g' % (p1, p2), body, '8x8 and 9x8 maps, pixel sizes %g and %g, one free pixel' % (p1, p2))


def obligations(tier):
    grad = np.linspace(0.5, 1.5, 25).reshape(5, 5)
    obs = [local_ob((5, 5), 2, [(1, 2)]), local_ob((4, 5), 2, [(0, 0)]), local_ob((5, 5), 2, [(2, 2)], False, 0.5),
           local_ob((6, 6), 2.5, [(2, 3)]), local_ob((6, 7), 3, [(2, 3)], False, 0.4),
           local_ob((5, 5), 2, [(1, 2), (0, 0)], nansym=[(1, 2)]),
           local_ob((5, 5), 2, [(1, 2)], frac=0.9, nans=[(0, 0), (4, 4)], nansym=[(1, 2)]),
           local_ob((5, 5), 2, [(1, 2)], frac=0.96, nans=[(0, 0)]), local_ob((5, 5), 2, [(1, 2)], frac=1.0, nans=[(0, 0)]),
           local_ob((6, 5), 2, [(1, 2)], frac=0.96, nans=[(0, 0), (0, 1)]),
           local_ob((5, 5), 2, [(1, 2)], wconst=grad), local_ob((5, 5), 2, [(1, 2)], wfree=[(1, 1)]),
           local_ob((5, 5), 2, [(1, 2)], wnan=[(2, 2)], frac=0.5), local_ob((5, 5), 2, [(1, 2)], False, 0.5, wnan=[(2, 2)], wconst=grad),
           local_ob((5, 5), 2.25, [(1, 2)], unit='deg'), local_ob((5, 5), 2.25, [(1, 2)], unit='pc'),
           local_ob((5, 5), 2.25, [(1, 2)], unit='arcsec'), local_ob((6, 6), 3, [(1, 2)], override=True),
           local_ob((6, 6), 3, [(1, 2)], nans=[(0, 0), (2, 2)], frac=0.99, run=True),
           whole_ob((1, 3), wsym=(0.5, 1.0, 1.5)), whole_ob((1, 3), nansym=[(0, 0), (0, 1)], wsym=(0.5, 1.0, 1.5)),
           whole_ob((1, 2)), whole_ob((1, 3), wsym=None), whole_ob((1, 3), high=False), whole_ob((2, 2), wnan=[(0, 1)], wsym=None),
           hist_ob(3, 2), hist_ob(3, [-1.0, 0.0, 0.5, 1.0], which='kurtosis'), hist_ob(3, 3, nansym=[1], which='mean'),
           hist_ob(3, [-1.0, 0.5, 2.5], which='variance', nansym=[0]), hist_ob(3, 2, which='kurtosis'),
           dist_ob(3, 3, [1, 2], 1.2), dist_ob(3, 4, [1], 1.4), radius_ob((6, 9)), radius_ob((9, 7)), override_ob((6, 7)),
           common_ob(0.015625, 0.015625), common_ob(0.015625, 0.0234375), common_ob(0.0234375, 0.015625)]
    if tier == 'thorough':
        obs += [whole_ob((2, 2), nansym=[(0, 0), (1, 1)], wsym=(0.5, 1.0, 1.5, 0.75)), local_ob((7, 6), 3, [(1, 2), (0, 0)]), whole_ob((2, 2), wsym=None), whole_ob((2, 2), nansym=[(0, 0)], high=False),
                hist_ob(4, 3), hist_ob(5, [-1.0, 0.0, 0.5, 1.0]), dist_ob(4, 4, [1, 2, 3], 1.2), hist_ob(4, [-1.0, 0.0, 0.5, 1.0], which='kurtosis')]
    return obs
