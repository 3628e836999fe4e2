"""Wavelet transform"""
from props.common import *
from props.P09_delvar import base, fill

TITLE = 'Wavelet transform averages the positive Ricker-filtered image at each scale'
META = dict(
    title=TITLE,
    statement='For every image and scale a (pixel, angular or physical units; at least one pixel '
              'and at most half the map, else refused), the filtered image is the convolution with '
              'the 2-D Ricker kernel (1-r^2/2a^2)exp(-r^2/2a^2)/(pi a^4) with zeros outside the map '
              'and in place of NaN, times a^2 (a^4 without scale normalization); the transform is '
              'the mean of its positive values and its error their standard deviation over the root '
              'of the number of whole kernel areas ceil(0.5 pi ln2 a^2) in the map. The slope is the '
              'least-squares slope of the log transform against the log scale in pixels over the '
              'scales within the inclusive limits, in any unit, optionally weighted by the squared '
              'inverse of 0.434 error/value. The image is never modified.',
    quantifier=dict(over=['inputs'], text='all values of the free pixels (NaN allowed) on the listed '
                    'grids and scales; all transform values and errors for the fit'),
    why_tests_cant='The pinned transforms use one pair of maps at the default scales, so '
                   'normalisation, unit handling, blanks and fit limits are only seen at one point.',
    anchors=dict(files=['turbustat/statistics/wavelets/wavelet_transform.py'],
                 mechanism=[dict(name='Wavelet.compute_transform',
                                 where='turbustat/statistics/wavelets/wavelet_transform.py:112'),
                            dict(name='Wavelet.fit_transform',
                                 where='turbustat/statistics/wavelets/wavelet_transform.py:226'),
                            dict(name='Wavelet.scales',
                                 where='turbustat/statistics/wavelets/wavelet_transform.py:82')]))
MODULES = ['turbustat.statistics']
OUTSIDE = 'maps larger than 8x9, more free pixels than listed, segmented fits (P23), bootstrap errors'
ASSUMPTIONS = ['astropy.convolution.convolve_fft is affine in the finite pixels; its matrix is '
               'measured on the installed function at every run']
PIX = 0.015625


def ricker(a):
    n = math.ceil(8 * a)
    n += n % 2 == 0
    h = n // 2
    y, x = np.mgrid[-h:h + 1, -h:h + 1]
    q = (x**2 + y**2) / (2.0 * a * a)
    return (1 - q) * np.exp(-q) / (math.pi * a**4)


def filtered(x, a, norm=True):
    """direct sum: every pixel of the map acts on every pixel the kernel reaches"""
    k = ricker(a) * a**(2 if norm else 4)
    h = k.shape[0] // 2
    xo = asobj(x)
    ny, nx = xo.shape
    out = objarr(xo.shape)
    for p in np.ndindex(ny, nx):
        out[p] = total([xo[q] * float(k[p[0] - q[0] + h, p[1] - q[1] + h])
                        for q in np.ndindex(ny, nx)
                        if abs(p[0] - q[0]) <= h and abs(p[1] - q[1]) <= h and not bool(isnan(xo[q]))])
    return out


def quant(u, xs, unit):
    xs = np.array(xs)
    return {'pix': xs * u.pix, 'deg': xs * PIX * u.deg, 'arcmin': xs * PIX * 60 * u.arcmin,
            'pc': xs * math.radians(PIX) * 100. * u.pc}[unit]


def ob(shape, scales, free, unit='pix', norm=True, nansym=(), pyfftw=False, span=3.0, dist='pc'):
    def body(I):
        from turbustat.statistics import Wavelet
        import astropy.units as u
        b = base(shape) - 1.5
        fr = free if free is not None else list(np.ndindex(*shape))
        if span < 1:
            x = b
            if I.sym:
                x = asobj(x).view(SymArr)
            for k in fr:
                x[k] = I.real('x%s' % (k,), lo=float(b[k]) - span, hi=float(b[k]) + span)
        else:
            x = fill(I, b, 'x', fr, -span, span, nansym)
        s = I.snapshot(x)
        with I.code():
            w = Wavelet(x, header=hdr2(pix=PIX), scales=quant(u, scales, unit),
                        distance=100 * u.pc if dist == 'pc' else 0.1 * u.kpc)
            w.compute_transform(show_progress=False, scale_normalization=norm,
                                keep_convolved_arrays=True, use_pyfftw=pyfftw)
            W, v, sd = w.Wf, w.values, w.stddev
        I.unchanged('image', x, s)
        for n, a in enumerate(scales):
            F = filtered(x, a, norm)
            I.eq('filtered map', asobj(W[n]), F)
            pos = []
            for e in F.ravel():
                if is_sym(e):
                    I.assume(abs(e) > 1e-9)
                if bool(e > 0):
                    pos.append(e)
            if not pos:
                continue
            m = mean(pos)
            I.eq('transform', v[n], m)
            area = math.ceil(0.5 * math.pi * math.log(2) * a * a)
            if F.size // area and free is not None:
                var = mean([(e - m) * (e - m) for e in pos])
                I.eq('error', sd[n] * sd[n] * float(F.size // area), var)
                I.le('error not negative', 0.0, sd[n])
    nm = 'map%s-%s-%s%s%s%s%s' % (shape, 'all' if free is None else len(free),
                                  ','.join('%g' % a for a in scales), '-' + unit if unit != 'pix' else '',
                                  '' if norm else '-unscaled', '-nan' if nansym else '',
                                  '-pyfftw' if pyfftw else '')
    return Ob(nm, body, 'map %s, %s free pixels within %g, NaN at %s, scales %s px in %s' %
              (shape, 'all' if free is None else list(free), span, list(nansym), list(scales), unit),
              time_limit=250)


def fit_ob(scales, low, high, unit='pix', lunit='pix', weighted=False, nan=()):
    def body(I):
        from turbustat.statistics import Wavelet
        import astropy.units as u
        n = len(scales)
        v = I.arr('v', n, lo=0.1, hi=4, nansym=[(k,) for k in nan])
        v = I.split(v)
        e = I.arr('e', n, lo=0.05, hi=0.5)
        with I.code():
            c = Wavelet(np.ones((40, 44)), header=hdr2(pix=PIX), scales=quant(u, scales, unit),
                        distance=100 * u.pc)
            I.plant(c, '_values', v)
            I.plant(c, '_stddev', e)
            c.fit_transform(xlow=None if low is None else quant(u, low, lunit),
                            xhigh=None if high is None else quant(u, high, lunit),
                            weighted_fit=weighted)
            sl = c.slope
            fm = c.fitted_model(np.array([0.5]))
        eps = 0 if unit == 'pix' and lunit == 'pix' else 1e-9
        idx = [k for k in range(n) if (low is None or scales[k] >= low - eps) and
               (high is None or scales[k] <= high + eps) and not bool(isnan(v[k]))]
        X = [math.log10(scales[k]) for k in idx]
        Y = [log10(v[k]) for k in idx]
        if weighted:
            W = [(v[k] / (e[k] * 0.434)) ** 2 for k in idx]
            sw = total(W)
            sx = total([w * a for w, a in zip(W, X)])
            sy = total([w * b for w, b in zip(W, Y)])
            sxx = total([w * (a * a) for w, a in zip(W, X)])
            sxy = total([w * a * b for w, a, b in zip(W, X, Y)])
            b = (sw * sxy - sx * sy) / (sw * sxx - sx * sx)
            I.eq('slope', sl, b, tol=1e-5)
            return
        a, b = slope_ols(X, Y)
        I.eq('slope', sl, b)
        I.eq('fitted line', asobj(fm).ravel()[0], a + b * 0.5)
    return Ob('fit-%d-%s-%s-%s-%s%s%s' % (len(scales), low, high, unit, lunit, '-weighted' if weighted else '',
                                          '-nan' if nan else ''), body,
              'every transform of %d scales in [0.1,4] with errors in [0.05,0.5]' % len(scales))


def scales_ob(shape):
    def body(I):
        from turbustat.statistics import Wavelet
        import astropy.units as u
        l = I.real('scale', lo=0.2, hi=float(max(shape)))
        ang = bool(I.bool('angular'))
        lim = math.floor(min(shape) / 2.) + 1.0
        I.assume(abs(l - 1.0) > 1e-6)
        I.assume(abs(l - lim) > 1e-6)
        try:
            with I.code():
                d = Wavelet(np.ones(shape), header=hdr2(pix=PIX), scales=np.array([1.0]) * u.pix)
                L = objarr(2)
                L[0] = l * PIX if ang else l
                L[1] = PIX * 1.5 if ang else 1.5
                d.scales = u.Quantity(pack(I, L), u.deg if ang else u.pix)
                got = d.scales
            ok = True
        except ValueError:
            ok = False
        I.true('accepted exactly when inside the map', ok == (bool(l >= 1.0) and bool(l < lim)))
        if ok:
            I.eq('kept', got.to(u.deg).value[0] if ang else got.value[0], l * PIX if ang else l)
    return Ob('scale limits%s' % (shape,), body, 'every scale in [0.2,%d] pixels, pixel or angular unit' % max(shape))


def default_ob(shape, num):
    def body(I):
        from turbustat.statistics import Wavelet
        import astropy.units as u
        x = fill(I, np.ones(shape), 'x', [(0, 0)], -1, 1)
        with I.code():
            w = Wavelet(x, header=hdr2(), num=num) if num else Wavelet(x, header=hdr2())
            s = w.scales.to(u.pix).value
        n = num or 50
        I.true('number of scales', len(s) == n)
        hi = min(shape) / 2.
        for k in range(n):
            I.eq('scale %d' % k, float(s[k]), 1.667 * (hi / 1.667) ** (k / (n - 1.)))
        I.raises('scales without unit', TypeError,
                 lambda: Wavelet(x, header=hdr2(), scales=np.array([2.0])))
    return Ob('default scales%s-%s' % (shape, num), body, 'map %s, one free pixel' % (shape,))


def obligations(tier):
    obs = [ob((5, 6), [1.0], None, span=0.02), ob((4, 7), [2.0], None, span=0.004),
           ob((7, 6), [1.7, 2.5], None, span=0.002), ob((6, 5), [1.5], None, span=0.002, norm=False),
           ob((4, 4), [1.0], [(0, 0), (2, 1)]), ob((5, 4), [1.5], [(1, 1)]),
           ob((4, 5), [1.2, 2.0], [(2, 3)]), ob((4, 4), [1.5], [(1, 2)], norm=False),
           ob((4, 4), [1.0], [(0, 0), (1, 2)], nansym=[(1, 2)]),
           ob((5, 5), [1.0, 1.5], [(1, 1)], unit='deg'), ob((5, 5), [1.0, 1.5], [(1, 1)], unit='arcmin'),
           ob((5, 5), [1.001, 1.5], [(3, 1)], unit='pc'), ob((5, 5), [1.001, 1.5], [(3, 1)], unit='pc', dist='kpc'),
           ob((4, 4), [1.0], [(1, 2)], pyfftw=True),
           scales_ob((5, 7)), scales_ob((8, 6)), default_ob((12, 9), 7), default_ob((8, 20), None),
           fit_ob([1.5, 2, 3, 4], None, None), fit_ob([1.5, 2, 3, 4, 6, 8], 2.0, 6.0),
           fit_ob([1.5, 2, 3, 4, 6, 8], 2.5, None, lunit='deg'), fit_ob([1.5, 2, 3, 4, 6], None, 5.0, lunit='pc'),
           fit_ob([1.5, 2, 3, 4, 6], 1.8, 5.0, unit='deg'), fit_ob([1.5, 2, 3, 4, 6], 1.8, 5.0, unit='pc', lunit='pix'),
           fit_ob([1.5, 2, 3, 4, 6], 1.0, 5.0, nan=[2]),
           fit_ob([1.5, 2, 4], None, None, weighted=True), fit_ob([1.5, 2, 3, 4, 6], 2.0, 5.0, weighted=True)]
    if tier == 'thorough':
        obs += [ob((8, 9), [2.0, 3.5], None, span=0.02), ob((5, 5), [1.0], [(0, 0), (2, 1)]),
                ob((6, 6), [2.5], [(0, 0), (2, 1)]), fit_ob([1.5, 2, 3, 4, 6, 8, 9, 11], 2.0, 9.0, nan=[2, 3])]
    return obs
