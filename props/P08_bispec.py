"""Bispectrum and bicoherence"""
from props.common import *

TITLE = 'Bispectrum sums Fourier triads; bicoherence is its normalised modulus'
META = dict(
    title=TITLE,
    statement='For every image and seed, the bispectrum at wavenumber moduli (k1, k2) equals the '
              'sum over the seeded random pairs of wave-vector directions of F(k1) F(k2) '
              'conj(F(k3)), with k3 the (integer part of the) vector sum and F the discrete Fourier '
              'transform of the image (NaN as zero, mean-subtracted only on request); the '
              'bicoherence is its modulus over the sum of the moduli of the same triads, hence in '
              '[0, 1] and unchanged by scaling the image, and the log amplitude is log10 of the '
              'modulus. The same seed gives the same result, and the random state and image of the '
              'caller are left alone. Azimuthal and radial slices average exactly the finite values '
              'inside the requested annulus or wedge per bin, with the scatter of the same values, '
              'and the distance of two surfaces is the Euclidean norm of the difference of '
              'bicoherences (NaN for different shapes) and the difference of their means.',
    quantifier=dict(over=['inputs', 'histories'], text='all pixel values (NaN allowed) of the listed '
                    'shapes, seeds and sample counts; all surface values for slices and distances'),
    why_tests_cant='The tests pin one image at one seed; the triad closure, NaN handling, scale '
                   'invariance and slice membership are only sampled at that point.',
    anchors=dict(files=['turbustat/statistics/pspec_bispec/bispec.py'],
                 mechanism=[dict(name='Bispectrum.compute_bispectrum',
                                 where='turbustat/statistics/pspec_bispec/bispec.py:64'),
                            dict(name='Bispectrum.azimuthal_slice',
                                 where='turbustat/statistics/pspec_bispec/bispec.py:195'),
                            dict(name='Bispectrum.radial_slice',
                                 where='turbustat/statistics/pspec_bispec/bispec.py:297'),
                            dict(name='Bispectrum_Distance.distance_metric',
                                 where='turbustat/statistics/pspec_bispec/bispec.py:583')]))
MODULES = ['turbustat.statistics']
OUTSIDE = 'images larger than 6x6 or with more than the listed free pixels, other seeds, more than 3 triads'


def background(shape):
    """fixed part of an image whose listed pixels are free"""
    y, x = np.mgrid[:shape[0], :shape[1]]
    return ((3 * y + 5 * x + y * x) % 7) / 4.0 + 0.5


def image(I, shape, free, nan=(), nansym=()):
    x = background(shape)
    if I.sym:
        x = asobj(x).view(SymArr)
    for n, k in enumerate(free):
        x[k] = I.real('px%s' % (k,), lo=-3, hi=3, nan='sym' if k in nansym else False)
    for k in nan:
        x[k] = float('nan')
    return I.split(x)


def triads(shape, nsamples, seed):
    """(k1, k2) -> list of (k1x,k1y),(k2x,k2y),(k3x,k3y), from the documented sampling"""
    rs = np.random.RandomState(seed)
    out = {}
    for k1 in range(int(shape[0] / 2.)):
        for k2 in range(int(shape[1] / 2.)):
            p1 = rs.uniform(0, 2 * np.pi, nsamples)
            p2 = rs.uniform(0, 2 * np.pi, nsamples)
            tr = []
            for a, b in zip(p1, p2):
                tr.append(((int(k1 * np.cos(a)), int(k1 * np.sin(a))),
                           (int(k2 * np.cos(b)), int(k2 * np.sin(b))),
                           (int(k1 * np.cos(a) + k2 * np.cos(b)),
                            int(k1 * np.sin(a) + k2 * np.sin(b)))))
            out[k1, k2] = tr
    return out


def ft(x, k):
    """complex DFT coefficient (re, im) of an object array at integer frequency k"""
    ny, nx = x.shape
    re, im = [], []
    for y in range(ny):
        for xx in range(nx):
            f = Fraction(k[0] * y, ny) + Fraction(k[1] * xx, nx)
            re.append(x[y, xx] * cosf(f))
            im.append(x[y, xx] * -cosf(f - Fraction(1, 4)))
    return total(re), total(im)


def cmul(a, b):
    return a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]


def mag(z, real=False):
    if real:
        return abs(z[0])
    p = z[0] * z[0] + z[1] * z[1]
    return s_sqrt(p, nonneg=True) if is_sym(p) else math.sqrt(p)


def ob(shape, free, nsamples=2, seed=1000, nan=(), nansym=(), mean_sub=False, pyfftw=False):
    def body(I):
        from turbustat.statistics import Bispectrum
        x = image(I, shape, free, nan, nansym)
        s = I.snapshot(x)
        np.random.seed(7)
        st = np.random.get_state()[1].copy()
        with I.code():
            b = Bispectrum(x)
            b.compute_bispectrum(show_progress=False, nsamples=nsamples, seed=seed,
                                 mean_subtract=mean_sub, use_pyfftw=pyfftw)
            bs, bc, la = b.bispectrum, b.bicoherence, b.bispectrum_logamp
        I.true('random state restored', bool(np.array_equal(st, np.random.get_state()[1])))
        I.unchanged('image', x, s)
        xo = asobj(x).copy()
        for k in np.ndindex(*shape):
            if bool(isnan(xo[k])):
                xo[k] = 0.0
        if mean_sub:
            m = mean(xo.ravel())
            for k in np.ndindex(*shape):
                xo[k] = xo[k] - m
        cache = {}

        def F(k):
            k = (k[0] % shape[0], k[1] % shape[1])
            if k not in cache:
                cache[k] = ft(xo, k)
            return cache[k]
        I.true('shape', bs.shape == (shape[0] // 2, shape[1] // 2))
        for (k1, k2), tr in triads(shape, nsamples, seed).items():
            zs = []
            for a, c, d in tr:
                f3 = F(d)
                zs.append(cmul(cmul(F(a), F(c)), (f3[0], -1.0 * f3[1])))
            re, im = total([z[0] for z in zs]), total([z[1] for z in zs])
            g = bs[k1, k2]
            gr, gi = (g.re, g.im) if isinstance(g, SymComplex) else (np.real(g), np.imag(g))
            I.eq('bispectrum[%d,%d].re' % (k1, k2), gr, re, tol=1e-5)
            I.eq('bispectrum[%d,%d].im' % (k1, k2), gi, im, tol=1e-5)
            isreal = [all((2 * q) % n == 0 for kk in t for q, n in zip(kk, shape)) for t in tr]
            ms = [mag(z, r) for z, r in zip(zs, isreal)]
            allreal = all(isreal)
            if mean_sub and any(kk[0] % shape[0] == 0 and kk[1] % shape[1] == 0 for t in tr for kk in t):
                continue        # the zero frequency vanishes: the ratio is rounding noise
            num, den = mag((re, im), allreal), total(ms)
            I.assume(den > 1e-3)
            I.assume(num > 1e-3)
            I.eq('bicoherence[%d,%d]' % (k1, k2), bc[k1, k2] * den, num, tol=1e-5)
            I.le('bicoherence not negative[%d,%d]' % (k1, k2), 0.0, bc[k1, k2])
            I.eq('log amplitude[%d,%d]' % (k1, k2), la[k1, k2], log10(num), tol=1e-5)
    nm = 'triads%s-n%d-s%d%s%s%s' % (shape, nsamples, seed, '-nan' if nan or nansym else '',
                                     '-mean' if mean_sub else '', '-pyfftw' if pyfftw else '')
    return Ob(nm, body, 'image %s with free pixels %s in [-3,3], NaN at %s, %d triads, seed %d'
              % (shape, list(free), list(nan) + list(nansym), nsamples, seed))


def scale_ob(shape, free):
    def body(I):
        from turbustat.statistics import Bispectrum
        x = image(I, shape, free)
        with I.code():
            a = Bispectrum(x)
            a.run(show_progress=False, nsamples=1)
            b = Bispectrum(x * 3.0)
            b.run(show_progress=False, nsamples=1)
            c = Bispectrum(x)
            c.run(show_progress=False, nsamples=1)
            c.run(show_progress=False, nsamples=1)
        for k in np.ndindex(*a.bicoherence.shape):
            p, q = a.bicoherence[k], b.bicoherence[k]
            I.eq('scale%s' % (k,), q, p)
            I.eq('repeat%s' % (k,), c.bicoherence[k], p)
    return Ob('scale%s' % (shape,), body, 'image %s with free pixels %s' % (shape, list(free)))


def two(I, shape, name, nan=()):
    from turbustat.statistics import Bispectrum
    b = Bispectrum(np.ones((2 * shape[0], 2 * shape[1])))
    v = I.split(I.arr(name, shape, lo=0, hi=1, nansym=nan))
    I.plant(b, '_bicoherence', v)
    I.plant(b, '_bispectrum', v)
    I.plant(b, '_bispectrum_amp', v)
    return b, v


def dist_ob(s1, s2):
    def body(I):
        from turbustat.statistics import Bispectrum_Distance
        a, v = two(I, s1, 'a')
        b, w = two(I, s2, 'b')
        with I.code():
            d = Bispectrum_Distance(a, b).distance_metric()
            e = Bispectrum_Distance(b, a).distance_metric()
            z = Bispectrum_Distance(a, a).distance_metric()
        vo, wo = asobj(v).ravel(), asobj(w).ravel()
        if s1 == s2:
            sq = total([(p - q) * (p - q) for p, q in zip(vo, wo)])
            g = d.surface_distance
            I.eq('surface distance', g * g, sq)
            I.le('not negative', 0.0, g)
            I.eq('symmetric', e.surface_distance, g)
            I.eq('zero on itself', z.surface_distance, 0.0)
        else:
            I.eq('surface distance', d.surface_distance, float('nan'))
        m = mean(vo) - mean(wo)
        I.eq('mean distance', d.mean_distance, abs(m))
        I.eq('mean symmetric', e.mean_distance, abs(m))
        I.eq('mean zero on itself', z.mean_distance, 0.0)
    return Ob('distance%s%s' % (s1, s2), body, 'every pair of bicoherence surfaces %s, %s' % (s1, s2))


def stat(vals):
    n = len(vals)
    if not n:
        return float('nan'), float('nan')
    m = mean(vals)
    return m, mean([(v - m) * (v - m) for v in vals])


def slice_ob(kind, shape, nan=(), which='bicoherence', scalar=False):
    def body(I):
        import astropy.units as u
        b, v = two(I, shape, 'v', nan)
        if which != 'bicoherence' or scalar:
            # the other surfaces differ and have their own blanks
            for k, nm in enumerate(('bicoherence', 'bispectrum', 'bispectrum_amp')):
                if nm != which.replace('log', ''):
                    o = np.full(shape, 5.0 + k)
                    o[1, 2 - k] = np.nan
                    o[2, 1 + k] = np.inf
                    I.plant(b, '_' + nm, o)
        yy, xx = np.mgrid[:shape[0], :shape[1]]
        dist = np.sqrt(yy**2. + xx**2)
        th = np.arctan2(yy, xx)
        vo = asobj(v)
        with I.code():
            if kind == 'azimuthal':
                pars = [(2.0, 2.0), (3.0, 1.5)]
                if scalar:
                    pars = pars[:1]
                sl, masks = b.azimuthal_slice(*(pars[0] if scalar else ([p for p, _ in pars], np.array([q for _, q in pars]))),
                                              bin_width=20 * u.deg, value=which,
                                              return_masks=True)
                nb = int(math.floor(math.pi / math.radians(20)))
                edges = np.linspace(0, math.pi, nb)
                coord, other = th, dist
            else:
                pars = [(math.radians(30), math.radians(40)), (math.radians(60), math.radians(25))]
                if scalar:
                    pars = pars[:1]
                sl, masks = b.radial_slice(*((30. * u.deg, 40. * u.deg) if scalar else (np.array([30., 60.]) * u.deg, np.array([40., 25.]) * u.deg)),
                                           bin_width=1.25, value=which, return_masks=True)
                nb = int(math.floor(dist.max() / 1.25))
                edges = np.linspace(0, dist.max(), nb)
                coord, other = dist, th
        keys = [2.0, 3.0] if kind == 'azimuthal' else [30., 60.]
        for n, (key, (c, w)) in enumerate(zip(keys, pars)):
            sel = (other >= c - w / 2.) & (other <= c + w / 2.)
            I.true('mask[%s]' % key, bool(np.array_equal(np.asarray(masks[n], dtype=bool), sel)))
            cents, vals, stds = sl[key][0], sl[key][1], sl[key][2]
            I.eq('bin centres[%s]' % key, cents, (edges[1:] + edges[:-1]) / 2.)
            for b_ in range(len(edges) - 1):
                hi = (coord <= edges[b_ + 1]) if b_ == len(edges) - 2 else (coord < edges[b_ + 1])
                idx = np.argwhere(sel & (coord >= edges[b_]) & hi)
                m, var = stat([vo[tuple(k)] for k in idx if not bool(isnan(vo[tuple(k)]))])
                I.eq('%s[%d]' % (key, b_), vals[b_], m)
                I.eq('%s scatter[%d]' % (key, b_), stds[b_] * stds[b_], var)
    return Ob('%s slice%s%s%s%s' % (kind, shape, '-nan' if nan else '', '' if which == 'bicoherence' else '-' + which, '-scalar' if scalar else ''), body,
              'every surface %s in [0,1], NaN allowed at %s' % (shape, list(nan)))


def obligations(tier):
    f3 = [(0, 0), (1, 2), (2, 1)]
    obs = [ob((4, 4), f3), ob((4, 5), f3, seed=11), ob((5, 4), [(0, 1), (3, 2)], nsamples=3),
           ob((4, 4), [(0, 0), (2, 3)], nan=[(1, 1)]), ob((4, 4), [(0, 0), (1, 2)], nansym=[(1, 2)]),
           ob((6, 6), [(0, 1), (3, 2)], mean_sub=True, nsamples=1),
           ob((4, 4), [(0, 1), (3, 2)], mean_sub=True, nan=[(2, 2)], seed=5),
           ob((4, 4), [(0, 1), (3, 2)], pyfftw=True),
           scale_ob((4, 4), [(0, 1), (3, 2)]),
           dist_ob((2, 2), (2, 2)), dist_ob((2, 3), (2, 3)), dist_ob((2, 2), (2, 3)),
           slice_ob('azimuthal', (4, 4)), slice_ob('radial', (4, 5)),
           slice_ob('azimuthal', (5, 4), nan=[(0, 2), (2, 1)]), slice_ob('radial', (4, 4), nan=[(2, 2), (1, 1)]),
           slice_ob('azimuthal', (4, 4), nan=[(2, 1)], which='bispectrum_logamp'), slice_ob('radial', (4, 4), nan=[(1, 1)], which='bispectrum_logamp'),
           slice_ob('azimuthal', (4, 4), which='bispectrum'), slice_ob('radial', (4, 4), which='bispectrum'),
           slice_ob('azimuthal', (4, 4), scalar=True), slice_ob('radial', (4, 4), scalar=True)]
    if tier == 'thorough':
        obs += [ob((6, 6), f3, nsamples=3), ob((6, 5), f3, seed=3), ob((4, 4), f3 + [(3, 3)], nsamples=4),
                ob((4, 4), [(k // 4, k % 4) for k in range(6)]),
                slice_ob('azimuthal', (7, 6), nan=[(0, 2), (2, 1)])]
    return obs
