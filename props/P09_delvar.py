"""Delta-variance"""
import contextlib
import importlib

from props.common import *

TITLE = 'Delta-variance is the weighted variance of the image filtered at each lag'
META = dict(
    title=TITLE,
    statement='For every image, weight map and lag l (below half the map, given in pixel, angular '
              'or physical units), the delta-variance equals the weighted variance of C(iw)/C(w) - '
              'A(iw)/A(w), weighted by C(w)A(w), where C and A are convolution with the unit-sum '
              'Gaussian core exp(-4r^2/l^2) and the annulus exp(-4r^2/(vl)^2)-exp(-4r^2/l^2), '
              'periodic for boundary "wrap" (kernel not wider than the map) and with zero-weight '
              'padding for "fill"; pixels whose filtered weight does not exceed the minimum '
              'fraction of the largest weight, and NaN pixels (default weights), do not count. Its '
              'error is the root of the weighted fourth moment minus its square, over the root of '
              'the number of independent kernel areas, and the slope is the error-weighted least- '
              'squares slope of its logarithm within the inclusive lag limits. Image and weights '
              'are never modified, and lags below one pixel or above half the map are refused.',
    quantifier=dict(over=['inputs'], text='all values of the free image and weight pixels (NaN allowed) '
                    'on the listed grids, lags, boundaries and units'),
    why_tests_cant='The pinned curves use one pair of maps; kernel normalisation, weighting, NaN and '
                   'boundary treatment and lag units cannot be separated by them.',
    anchors=dict(files=['turbustat/statistics/delta_variance/delta_variance.py',
                        'turbustat/statistics/delta_variance/kernels.py',
                        'turbustat/statistics/convolve_wrapper.py'],
                 mechanism=[dict(name='DeltaVariance.compute_deltavar',
                                 where='turbustat/statistics/delta_variance/delta_variance.py:137'),
                            dict(name='_delvar',
                                 where='turbustat/statistics/delta_variance/delta_variance.py:958'),
                            dict(name='DeltaVariance.fit_plaw',
                                 where='turbustat/statistics/delta_variance/delta_variance.py:293'),
                            dict(name='AnnulusKernel',
                                 where='turbustat/statistics/delta_variance/kernels.py:56')]))
MODULES = ['turbustat.statistics']
OUTSIDE = 'maps larger than 7x8, more free pixels than listed, NaN interpolation of astropy, segmented fits (P23)'
ASSUMPTIONS = ['astropy.convolution.convolve_fft is affine in the finite pixels for a fixed NaN '
               'pattern; its matrix is measured on the installed function at every run']


def kernels(lag, ratio):
    """unit-sum core and annulus on the grid the code supports (8 core widths)"""
    sig = lag / (2 * math.sqrt(2))

    def size(v):
        i = math.ceil(v)
        return i + 1 if i % 2 == 0 else i
    h = size(8 * sig) // 2
    y, x = np.mgrid[-h:h + 1, -h:h + 1]
    r2 = x**2 + y**2
    core = np.exp(-4.0 * r2 / lag**2)
    ann = np.exp(-4.0 * r2 / (ratio * lag)**2) - np.exp(-4.0 * r2 / lag**2)
    return core / core.sum(), ann / ann.sum()


def conv(f, ker, wrap):
    """direct-space convolution of an object array"""
    ny, nx = f.shape
    h, g = ker.shape[0] // 2, ker.shape[1] // 2
    out = objarr(f.shape)
    for a in range(ny):
        for b in range(nx):
            acc = {}
            for u in range(-h, h + 1):
                for v in range(-g, g + 1):
                    p, q = a + u, b + v
                    if wrap:
                        p, q = p % ny, q % nx
                    elif not (0 <= p < ny and 0 <= q < nx):
                        continue
                    acc[p, q] = acc.get((p, q), 0.0) + ker[u + h, v + g]
            out[a, b] = total([f[k] * float(w) for k, w in acc.items()])
    return out


def pad(f, n):
    out = objarr((f.shape[0] + 2 * n, f.shape[1] + 2 * n))
    out[...] = 0.0
    out[n:-n, n:-n] = f
    return out


def base(shape):
    y, x = np.mgrid[:shape[0], :shape[1]]
    return ((3 * y + 5 * x + y * x) % 7) / 4.0 + 0.5


def fill(I, arr, name, free, lo, hi, nansym=()):
    if I.sym:
        arr = asobj(arr).view(SymArr)
    for k in free:
        arr[k] = I.real('%s%s' % (name, k), lo=lo, hi=hi, nan='sym' if k in nansym else False)
    return I.split(arr)


def reference(I, x, w, lag, ratio, wrap, frac):
    xo, wo = asobj(x), asobj(w)
    iw = objarr(xo.shape)
    for k in np.ndindex(*xo.shape):
        iw[k] = 0.0 if bool(isnan(xo[k])) else xo[k] * wo[k]
    wmax = wo.ravel()[0]
    for e in wo.ravel()[1:]:
        if bool(e > wmax):
            wmax = e
    if not wrap:
        iw, wo = pad(iw, int(lag)), pad(wo, int(lag))
    c, a = kernels(lag, ratio)
    ci, ai, cw, aw = conv(iw, c, wrap), conv(iw, a, wrap), conv(wo, c, wrap), conv(wo, a, wrap)
    D, W = [], []
    for k in np.ndindex(*ci.shape):
        for q in (cw[k], aw[k]):
            if is_sym(q) or is_sym(wmax):
                I.assume(abs(q - wmax * frac) > 1e-7)
        if bool(cw[k] <= wmax * frac) or bool(aw[k] <= wmax * frac):
            continue
        D.append(ci[k] / cw[k] - ai[k] / aw[k])
        W.append(cw[k] * aw[k])
    m = mean(D)
    sw = total(W)
    v = total([w_ * (d - m) * (d - m) for d, w_ in zip(D, W)]) / sw
    return D, W, m, sw, v


@contextlib.contextmanager
def light(I, on):
    """while the filtered maps are examined, leave the moments (moments-*) out"""
    m = importlib.import_module('turbustat.statistics.delta_variance.delta_variance')
    keep = getattr(m, '_delvar', None)
    if on and I.sym and keep is not None:
        m._delvar = lambda *a, **k: (1.0, 1.0)
    try:
        yield
    finally:
        if keep is not None:
            m._delvar = keep


def ob(shape, lag, free=None, wfree=(), ratio=1.5, boundary='wrap', nansym=(), frac=0.01, err=False,
       unit='pix', wconst=None, pyfftw=False, maps=False):
    def body(I):
        from turbustat.statistics import DeltaVariance
        import astropy.units as u
        fr = free if free is not None else list(np.ndindex(*shape))
        x = fill(I, base(shape), 'x', fr, -3, 3, nansym)
        kw = {}
        w = None
        if wfree or wconst is not None:
            w = np.ones(shape) if wconst is None else np.array(wconst, dtype=float)
            w = fill(I, w, 'w', wfree, 0.25, 2)
            kw['weights'] = w
        L = {'pix': lag * u.pix, 'deg': lag * 0.015625 * u.deg,
             'pc': lag * math.radians(0.015625) * 100. * u.pc}[unit]
        s = I.snapshot(x)
        sw_ = I.snapshot(w) if w is not None else None
        with I.code(), light(I, maps):
            d = DeltaVariance(x, header=hdr2(pix=0.015625), diam_ratio=ratio,
                              lags=u.Quantity([L]), distance=100 * u.pc, **kw)
            d.compute_deltavar(boundary=boundary, min_weight_frac=frac, show_progress=False,
                               use_pyfftw=pyfftw, keep_convolve_arrays=maps)
            g, e = d.delta_var[0], d.delta_var_error[0]
        I.unchanged('image', x, s)
        if w is not None:
            I.unchanged('weights', w, sw_)
        wo = w
        if w is None:
            wo = objarr(shape)
            for k in np.ndindex(*shape):
                wo[k] = 0.0 if bool(isnan(asobj(x)[k])) else 1.0
        D, W, m, sw, v = reference(I, x, wo, lag, ratio, boundary == 'wrap', frac)
        if maps:
            A1, W1 = asobj(d.convolve_arrays[0]), asobj(d.convolve_weights[0])
            n = 0
            pos = [k for k in np.ndindex(*A1.shape)]
            keep = [k for k in pos if not bool(isnan(A1[k]))]
            I.true('pixels kept', len(keep) == len(D))
            if len(keep) == len(D):
                for k, dd, ww in zip(keep, D, W):
                    I.eq('filtered map%s' % (k,), A1[k], dd)
                    I.eq('filtered weight%s' % (k,), W1[k], ww)
            for k in pos:
                if k not in keep:
                    I.true('weight blanked%s' % (k,), isnan(W1[k]))
            return
        area = math.ceil(0.5 * math.pi * math.log(2) * lag**2)
        if len(D) // area == 0:
            return
        I.assume(v > 1e-4)
        if err:
            f4 = total([w_ * (dd - m) * (dd - m) * (dd - m) * (dd - m) for dd, w_ in zip(D, W)]) / sw
            I.assume(f4 - v * v > 1e-4)
            I.eq('error', e * e, (f4 - v * v) / float(len(D) // area), tol=1e-5)
            I.le('error not negative', 0.0, e)
            I.eq('delta variance', g, v, tol=1e-5)
        else:
            # the value is only blanked when its error vanishes
            if not bool(isnan(g)):
                I.eq('delta variance', g, v, tol=1e-5)
    nm = ('map' if maps else 'var') + '%s-l%g-%s%s%s%s%s%s%s' % (shape, lag, boundary, '-nan' if nansym else '', '-w' if wfree or wconst is not None else '',
                                     '-err' if err else '', '-' + unit if unit != 'pix' else '',
                                     '-r%g' % ratio if ratio != 1.5 else '', '-pyfftw' if pyfftw else '')
    return Ob(nm, body, 'map %s, free pixels %s in [-3,3], free weights %s in [0.25,2], NaN at %s, '
              'lag %g px, cutoff %g' % (shape, 'all' if free is None else list(free), list(wfree),
                                        list(nansym), lag, frac), time_limit=250)


def moments_ob(n, wsym=False):
    """the weighted variance and its error for arbitrary filtered maps"""
    def body(I):
        from turbustat.statistics.delta_variance.delta_variance import _delvar
        a = I.split(I.arr('a', n, lo=-3, hi=3, nansym=[(0,), (n - 1,)]))
        if wsym:
            w = I.arr('w', n, lo=0.1, hi=2)
        else:
            w = np.array([0.5, 1.0, 2.0, 0.75, 1.5, 1.25][:n])
            w = asobj(w).view(SymArr) if I.sym else w
        ao, wo = asobj(a), asobj(w).copy()
        if I.sym:
            w = w.copy()
        for k in range(n):
            if bool(isnan(ao[k])):
                w[k] = float('nan')
        with I.code():
            v, e = _delvar(a, w, 1.0)
        idx = [k for k in range(n) if not bool(isnan(ao[k]))]
        m = mean([ao[k] for k in idx])
        sw = total([wo[k] for k in idx])
        d = [ao[k] - m for k in idx]
        V = total([wo[k] * q * q for k, q in zip(idx, d)]) / sw
        I.eq('variance', v, V)
        I.le('not negative', 0.0, v)
        if wsym:
            return
        f4 = total([wo[k] * q * q * q * q for k, q in zip(idx, d)]) / sw
        area = math.ceil(0.5 * math.pi * math.log(2))
        I.assume(f4 - V * V > 1e-6)
        I.eq('error', e * e * float(len(idx) // area), f4 - V * V, tol=1e-5)
    return Ob('moments-%d%s' % (n, '-w' if wsym else ''), body, 'every filtered map of %d pixels and weights' % n)


def fit_ob(npts, low, high, unit='pix', nan=()):
    def body(I):
        from turbustat.statistics import DeltaVariance
        import astropy.units as u
        dv = I.arr('dv', npts, lo=0.1, hi=4, nansym=[(k,) for k in nan])
        er = I.arr('er', npts, lo=0.1, hi=0.5)
        xs = np.arange(npts) + 1.0
        un = u.pix if unit == 'pix' else u.deg
        fac = 1.0 if unit == 'pix' else 0.015625
        with I.code():
            c = DeltaVariance(np.ones((20, 20)), header=hdr2(pix=0.015625), lags=xs * u.pix)
            I.plant(c, '_delta_var', dv)
            I.plant(c, '_delta_var_error', er)
            c.fit_plaw(xlow=None if low is None else low * fac * un,
                       xhigh=None if high is None else high * fac * un)
            sl = c.slope
        idx = [k for k in range(npts) if (low is None or xs[k] >= low) and
               (high is None or xs[k] <= high)]
        idx = [k for k in idx if not bool(isnan(dv[k]))]
        X = [math.log10(xs[k]) for k in idx]
        Y = [log10(dv[k]) for k in idx]
        W = [1.0 / (er[k] * er[k]) for k in idx]
        sw = total(W)
        sx = total([w * a for w, a in zip(W, X)])
        sy = total([w * b for w, b in zip(W, Y)])
        sxx = total([w * (a * a) for w, a in zip(W, X)])
        sxy = total([w * a * b for w, a, b in zip(W, X, Y)])
        I.eq('slope', sl, (sw * sxy - sx * sy) / (sw * sxx - sx * sx), tol=1e-5)
    return Ob('fit-%d-%s-%s-%s%s' % (npts, low, high, unit, '-nan' if nan else ''), body,
              'every curve of %d lags in [0.1,4] with errors in [0.1,0.5]' % npts)


def lags_ob(shape):
    """acceptance of lags: in pixels at least 1, integer part at most half the shorter side"""
    def body(I):
        from turbustat.statistics import DeltaVariance
        import astropy.units as u
        l = I.real('lag', lo=0.2, hi=float(max(shape)))
        unit = bool(I.bool('angular'))
        I.assume(abs(l - 1.0) > 1e-6)
        try:
            with I.code():
                a = np.ones(shape)
                d = DeltaVariance(a, header=hdr2(pix=0.015625), lags=np.array([1.0]) * u.pix)
                L = objarr(1)
                L[0] = l * 0.015625 if unit else l
                d.lags = u.Quantity(pack(I, L), u.deg if unit else u.pix)
                got = d.lags
            ok = True
        except ValueError:
            ok = False
        half = min(shape) / 2.
        lim = math.floor(half) + 1.0
        I.assume(abs(l - lim) > 1e-6)
        want = bool(l >= 1.0) and bool(l < lim)
        I.true('accepted exactly when inside the map', ok == want)
        if ok:
            I.true('kept in pixels', got.unit == u.pix)
            I.eq('kept in pixels', got.value[0], l)
    return Ob('lag limits%s' % (shape,), body, 'every lag in [0.2,%d] pixels, pixel or angular unit' % max(shape))


def misc_ob():
    def body(I):
        from turbustat.statistics import DeltaVariance
        import astropy.units as u
        x = fill(I, base((7, 7)), 'x', [(1, 1), (2, 3)], -3, 3)
        with I.code():
            d = DeltaVariance(x, header=hdr2(), lags=np.array([1.0, 2.0]) * u.pix)
            d.compute_deltavar(show_progress=False, keep_convolve_arrays=True)
            d.compute_deltavar(show_progress=False, keep_convolve_arrays=True)
            arrs, ws = d.convolve_arrays, d.convolve_weights
        I.true('one per lag', len(arrs) == 2 and len(ws) == 2)
        for n, lag in enumerate([1.0, 2.0]):
            if asobj(arrs[n]).size != 49:
                continue
            D, W, m, sw, v = reference(I, x, np.ones((7, 7)).astype(object), lag, 1.5, True, 0.01)
            I.eq('kept filtered map %d' % n, asobj(arrs[n]).ravel(), np.array(D, dtype=object))
            I.eq('kept filtered weight %d' % n, asobj(ws[n]).ravel(), np.array(W, dtype=object))
        I.raises('boundary', ValueError, d.compute_deltavar, boundary='mirror', show_progress=False)
        I.raises('weights of another shape', ValueError,
                 lambda: DeltaVariance(x, header=hdr2(), weights=np.ones((7, 4))))
    return Ob('kept arrays', body, '5x5 map with two free pixels')


def obligations(tier):
    f2 = [(0, 0), (2, 3)]
    half = np.where(np.mgrid[:6, :6][1] > 3, 0.0, 1.0)
    grad = np.linspace(0.5, 1.5, 30).reshape(5, 6)
    obs = [ob((4, 4), 1.0, maps=True), ob((5, 6), 1.5, maps=True), ob((7, 8), 2.0, maps=True),
           ob((7, 7), 2.0, ratio=2.0, maps=True, free=f2), ob((6, 4), 1.0, maps=True, boundary='fill'),
           ob((5, 6), 2.0, maps=True, boundary='fill'),
           ob((4, 4), 1.0, free=[(0, 0), (1, 2), (3, 1)], nansym=[(1, 2), (3, 1)], maps=True),
           ob((5, 5), 2.0, free=[(0, 0), (1, 2)], nansym=[(1, 2)], boundary='fill', maps=True),
           ob((4, 4), 1.0, free=f2, wfree=[(1, 1), (2, 3)], maps=True),
           ob((5, 5), 1.5, free=f2, wfree=[(0, 0)], maps=True, boundary='fill'),
           ob((5, 6), 1.5, wconst=grad, maps=True),
           ob((6, 6), 1.0, free=f2, wconst=half, maps=True),
           ob((6, 6), 1.0, free=f2, wconst=half, frac=0.5, boundary='fill', maps=True),
           ob((6, 6), 1.0, free=f2, wconst=3.0 * half, frac=0.2, maps=True),
           ob((4, 4), 1.0, free=f2, unit='deg', maps=True), ob((5, 5), 1.5, free=f2, unit='pc', maps=True),
           ob((4, 4), 1.0, free=f2, pyfftw=True, maps=True),
           ob((4, 4), 1.0, free=[(0, 0), (1, 2)]), ob((4, 5), 1.0, free=[(0, 0)], err=True),
           ob((4, 4), 1.0, free=[(0, 0)], boundary='fill', err=True),
           ob((4, 4), 1.0, free=[(2, 3)], wconst=grad[:4, :4], err=True),
           moments_ob(3), moments_ob(3, True), lags_ob((5, 7)), lags_ob((8, 6)), misc_ob(),
           fit_ob(4, None, None), fit_ob(5, 2.0, 4.0), fit_ob(4, 1.5, None, 'deg'),
           fit_ob(5, None, 4.0, 'deg'), fit_ob(4, 1.0, 4.0, nan=[2])]
    if tier == 'thorough':
        obs += [ob((4, 4), 1.0), moments_ob(4), ob((9, 10), 3.0, free=f2), ob((7, 8), 3.5, free=f2, boundary='fill'),
                ob((5, 5), 1.0, free=None), ob((4, 4), 1.0, free=f2, wfree=[(1, 1), (2, 3)]),
                moments_ob(6), fit_ob(7, 2.0, 6.0)]
    return obs
