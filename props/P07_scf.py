"""Spectral correlation function"""
from props.common import *

TITLE = 'SCF surface is the documented correlation of the cube with its shifted self'
META = dict(
    title=TITLE,
    statement='For every spectral cube and every set of lags, surface element [j, i] equals one '
              'minus the root of the mean, over positions with a defined ratio, of sum_v '
              '(T(r)-T(r+lag))^2 / (sum_v T(r)^2 + sum_v T(r+lag)^2), with lag i along the first '
              'and lag j along the second spatial axis, periodic for boundary "continuous" and '
              'restricted to pairs inside the map for "cut", NaN voxels dropping out of each sum. '
              'Hence (some spectrum being non-zero) the zero lag is 1, no value exceeds 1, opposite '
              'lags agree and multiplying the cube by a constant changes nothing. The SCF spectrum '
              'is the azimuthal average of that surface at radii in lag units, its slope is the '
              'weighted least-squares slope of its logarithm over lags inside the inclusive limits '
              'in any unit, and the cube is never modified.',
    quantifier=dict(over=['inputs'], text='all voxel values (NaN allowed) of the listed cube shapes, '
                    'integer, fractional and angular lags, even and odd surface sizes'),
    why_tests_cant='One pinned surface of one cube does not determine the axis assignment, the '
                   'normalisation per pixel, NaN handling or lag units for other cubes.',
    anchors=dict(files=['turbustat/statistics/scf/scf.py', 'turbustat/statistics/stats_utils.py'],
                 mechanism=[dict(name='SCF.compute_surface', where='turbustat/statistics/scf/scf.py:151'),
                            dict(name='SCF.compute_spectrum',
                                 where='turbustat/statistics/scf/scf.py:245'),
                            dict(name='SCF.fit_plaw', where='turbustat/statistics/scf/scf.py:286')]))
MODULES = ['turbustat.statistics']
OUTSIDE = 'cubes larger than 3x4x4, 2-D surface fit (see P24), bootstrap errors'


def shifted(x, sh, axis):
    """value at r - shift along axis, periodic (numpy roll convention)"""
    n = x.shape[axis]
    sh = int(sh)
    out = objarr(x.shape)
    for k in np.ndindex(*x.shape):
        q = list(k)
        q[axis] = (k[axis] - sh) % n
        out[k] = x[tuple(q)]
    return out


def pair_mean(I, x, y, isn):
    """mean over positions of the normalised squared difference -> (sum, count)"""
    nv, ny, nx = x.shape
    vals = []
    for a in range(ny):
        for b in range(nx):
            num, d1, d2 = [], [], []
            for v in range(nv):
                p, q = x[v, a, b], y[v, a, b]
                if not isn(p):
                    d1.append(p * p)
                if not isn(q):
                    d2.append(q * q)
                if not isn(p) and not isn(q):
                    num.append((p - q) * (p - q))
            den = total(d1) + total(d2)
            if bool(den == 0):
                continue
            vals.append(total(num) / den)
    return vals


def ob(shape, size=3, nan=(), lags=None, lo=0.25, unit=None, allow_zero=(), cut=False):
    def body(I):
        from turbustat.statistics import SCF
        import astropy.units as u
        x = I.arr('cube', shape, lo=lo, hi=4, nansym=nan)
        for k in allow_zero:
            if bool(I.bool('blank%s' % (k,))):
                x[(slice(None),) + k] = 0.0
        x = I.split(x)
        s = I.snapshot(x)
        kw = dict(size=size)
        if lags is not None:
            un = u.pix if unit is None else u.deg
            fac = 1.0 if unit is None else 0.015625
            kw = dict(roll_lags=np.array(lags) * fac * un)
        with I.code():
            c = SCF(x, header=hdr3(pix=0.015625), **kw)
            c.compute_surface(boundary='cut' if cut else 'continuous', show_progress=False)
            surf = c.scf_surface
        use = list(lags) if lags is not None else None
        if use is None:
            m = size if size % 2 else size - 1
            use = [k - m // 2 for k in range(m)]
        elif len(use) % 2 == 0:
            use = use[:-1]
        use = [int(k) for k in use]
        n = len(use)
        I.true('surface shape', surf.shape == (n, n))
        xo = asobj(x)
        isn = lambda e: bool(isnan(e))
        for i in range(n):
            for j in range(n):
                if use[i] == 0 and use[j] == 0:
                    I.eq('zero lag', surf[j, i], 1.0)
                    continue
                if cut:
                    a, b = abs(use[i]), abs(use[j])
                    ny, nx = shape[1:]
                    if a >= ny or b >= nx:
                        continue
                    sl = lambda L, n_: (slice(L, None), slice(None, n_ - L)) if L >= 0 else \
                        (slice(None, n_ + L), slice(-L, None))
                    s1, t1 = sl(use[i], ny)
                    s2, t2 = sl(use[j], nx)
                    vals = pair_mean(I, xo[:, s1, s2], xo[:, t1, t2], isn)
                else:
                    y = shifted(shifted(xo, use[i], 1), use[j], 2)
                    vals = pair_mean(I, xo, y, isn)
                g = surf[j, i]
                if not vals:
                    I.eq('undefined[%d,%d]' % (j, i), g, float('nan'))
                    continue
                m = total(vals) / float(len(vals))
                I.eq('surface[%d,%d]' % (j, i), (g - 1.0) * (g - 1.0), m)
                I.le('at most one[%d,%d]' % (j, i), g, 1.0)
        I.unchanged('cube', x, s)
    nm = 'surface%s-%s%s%s%s%s' % (shape, size if lags is None else 'lags', '-nan' if nan else '',
                                   '-zero' if allow_zero else '', '-deg' if unit else '',
                                   '-cut' if cut else '')
    return Ob(nm, body, 'every cube of shape %s in [%g,4], NaN allowed at %s, lags %s' %
              (shape, lo, list(nan), lags if lags is not None else 'size %d' % size), atoms=True)


def frac_ob(shape, lag):
    """fractional lags: the cube is shifted through its Fourier interpolation"""
    def body(I):
        from turbustat.statistics import SCF
        import astropy.units as u
        x = I.arr('cube', shape, lo=0.5, hi=4)
        with I.code():
            c = SCF(x, header=hdr3(), roll_lags=np.array([-lag, 0.0, lag]) * u.pix)
            c.compute_surface(show_progress=False)
            surf = c.scf_surface
        n = shape[1]
        xo = asobj(x)
        y = objarr(shape)
        # y(r) = sum_m X_m exp(2 pi i m (r - lag)/n)/n ; kernel of that sum
        for k in np.ndindex(*shape):
            acc = []
            for r in range(n):
                w = 0.0
                for m in range(n):
                    f = (m + n // 2) % n - n // 2
                    w += math.cos(2 * math.pi * f * (k[1] - lag - r) / n) / n
                acc.append(xo[k[0], r, k[2]] * w)
            y[k] = total(acc)
        vals = pair_mean(I, xo, y, lambda e: False)
        g = surf[1, 2]
        I.eq('fractional lag', (g - 1.0) * (g - 1.0), mean(vals), tol=1e-5)
    return Ob('fractional%s' % (shape,), body, 'every cube of shape %s, lag %g' % (shape, lag), atoms=True)


def scale_ob(shape):
    def body(I):
        from turbustat.statistics import SCF
        x = I.arr('cube', shape, lo=0.25, hi=4)
        c = I.real('scale', lo=0.5, hi=3)
        with I.code():
            a = SCF(x, header=hdr3(), size=3)
            a.compute_surface(show_progress=False)
            b = SCF(x * c, header=hdr3(), size=3)
            b.compute_surface(show_progress=False)
        for j in range(3):
            for i in range(3):
                p, q = a.scf_surface[j, i], b.scf_surface[j, i]
                I.eq('scaled[%d,%d]' % (j, i), (q - 1.0) * (q - 1.0), (p - 1.0) * (p - 1.0))
                r = a.scf_surface[2 - j, 2 - i]
                I.eq('opposite lag[%d,%d]' % (j, i), (p - 1.0) * (p - 1.0), (r - 1.0) * (r - 1.0))
    return Ob('scale%s' % (shape,), body, 'every cube of shape %s and scale in [0.5,3]' % (shape,), atoms=True)


def spectrum_ob(n, unit, step):
    def body(I):
        from turbustat.statistics import SCF
        import astropy.units as u
        surf = I.arr('surf', (n, n), lo=0.05, hi=1)
        un = {'pix': u.pix, 'deg': u.deg}[unit]
        with I.code():
            c = SCF(np.ones((2, 9, 9)), header=hdr3(),
                    roll_lags=(np.arange(n) - n // 2) * step * un)
            I.plant(c, '_scf_surface', surf)
            c.compute_spectrum(logspacing=True)
            lags, sp, sd = c.lags, c.scf_spectrum, c.scf_spectrum_stddev
        from props.P02_radial import edges_of, spec
        dist = np.array([[math.hypot(y - n // 2, x - n // 2) for x in range(n)] for y in range(n)])
        ed = edges_of((n, n), False, None, None, None, 1.0, False)
        I.eq('lags', lags.to(un).value, (ed[1:] + ed[:-1]) / 2 * step)
        for b, (m, var, k) in enumerate(spec(surf, dist, ed, np.ones((n, n), bool))):
            I.eq('spectrum[%d]' % b, sp[b], m if k > 1 else float('nan'))
    return Ob('spectrum-%d-%s' % (n, unit), body, 'every %dx%d surface in [0.05,1], lag step %g %s'
              % (n, n, step, unit))


def fit_ob(npts, low, high, unit='pix', nan=()):
    def body(I):
        from turbustat.statistics import SCF
        import astropy.units as u
        sp = I.arr('sp', npts, lo=0.1, hi=1, nansym=[(k,) for k in nan])
        sd = I.arr('sd', npts, lo=0.1, hi=0.5)
        xs = np.arange(npts) + 1.0
        un = u.pix if unit == 'pix' else u.deg
        fac = 1.0 if unit == 'pix' else 0.015625
        with I.code():
            c = SCF(np.ones((2, 9, 9)), header=hdr3(pix=0.015625), size=5)
            I.plant(c, '_lags', xs * u.pix)
            I.plant(c, '_scf_spectrum', sp)
            I.plant(c, '_scf_spectrum_stddev', sd)
            c.fit_plaw(xlow=None if low is None else low * fac * un,
                       xhigh=None if high is None else high * fac * un)
            sl = c.slope
            fm = c.fitted_model(2.0 * fac * un)
        eps = 0.0
        idx = [k for k in range(npts) if (low is None or xs[k] >= low) and
               (high is None or xs[k] <= high)]
        idx = [k for k in idx if not bool(isnan(sp[k]))]
        X = [math.log10(xs[k]) for k in idx]
        Y = [log10(sp[k]) for k in idx]
        W = [1.0 / (sd[k] * sd[k]) for k in idx]
        sw = total(W)
        sx = total([w * a for w, a in zip(W, X)])
        sy = total([w * b for w, b in zip(W, Y)])
        sxx = total([w * (a * a) for w, a in zip(W, X)])
        sxy = total([w * a * b for w, a, b in zip(W, X, Y)])
        I.eq('slope', sl, (sw * sxy - sx * sy) / (sw * sxx - sx * sx), tol=1e-5)
    return Ob('fit-%d-%s-%s-%s%s' % (npts, low, high, unit, '-nan' if nan else ''), body,
              'every spectrum of %d lags in [0.1,1] with scatter in [0.1,0.5]' % npts)


def misc_ob():
    def body(I):
        from turbustat.statistics import SCF
        import astropy.units as u
        x = I.arr('cube', (2, 3, 3), lo=0.5, hi=4)
        name = ''.join(['cont', 'inuous'])        # equal to, not identical with, the literal
        with I.code():
            a = SCF(x, header=hdr3(), size=3)
            a.compute_surface(boundary=name, show_progress=False)
            b = SCF(x, header=hdr3(), size=4)
            b.compute_surface(show_progress=False)
        I.eq('even size is reduced by one', b.scf_surface, a.scf_surface)
        I.raises('unknown boundary', ValueError, a.compute_surface, boundary='wrap')
        I.raises('lags without units', TypeError, lambda: SCF(x, header=hdr3(), roll_lags=Odd()))
    return Ob('arguments', body, 'every 2x3x3 cube in [0.5,4]', atoms=True)


class Odd(list):
    size = 3


def obligations(tier):
    obs = [ob((2, 2, 3)), ob((2, 3, 2)), ob((3, 3, 3)), ob((2, 4, 3), size=5), ob((2, 3, 4), size=4),
           ob((2, 2, 2), nan=[(0, 0, 1), (1, 1, 0)]), ob((2, 2, 2), nan=[(0, 0, 0), (1, 0, 0)]),
           ob((2, 2, 2), allow_zero=[(0, 0), (0, 1), (1, 0)]),
           ob((2, 4, 4), lags=[-2.0, 0.0, 2.0]), ob((2, 4, 3), lags=[0.0, 1.0, 2.0, 3.0]),
           ob((2, 3, 3), lags=[-1.0, 0.0, 1.0], unit='deg'),
           ob((2, 3, 2), size=3, cut=True),
           frac_ob((2, 3, 2), 0.5), frac_ob((1 + 1, 5, 2), 1.25),
           scale_ob((2, 2, 3)), misc_ob(),
           spectrum_ob(5, 'pix', 1.0), spectrum_ob(5, 'pix', 2.0), spectrum_ob(7, 'deg', 0.01),
           fit_ob(4, None, None), fit_ob(5, 2.0, 4.0), fit_ob(4, 1.5, None, 'deg'),
           fit_ob(5, None, 4.0, 'deg'), fit_ob(4, 1.0, 4.0, nan=[2])]
    if tier == 'thorough':
        obs += [ob((3, 4, 4)), ob((2, 5, 4), size=5), ob((2, 3, 3), nan=[(0, 0, 1), (1, 1, 0), (1, 2, 2)]),
                spectrum_ob(9, 'pix', 1.0), fit_ob(7, 2.0, 6.0)]
    return obs
