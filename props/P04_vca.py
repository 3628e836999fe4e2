"""VCA: velocity-integrated power spectrum of a cube"""
from props.common import *

TITLE = 'VCA power is the spatial power summed over every velocity channel'
META = dict(
    title=TITLE,
    statement='For every spectral cube, the 2-D spectrum VCA computes equals the squared modulus of '
              'the 3-D Fourier transform summed over all velocity frequencies (the number of '
              'channels times the sum of the per-channel spatial powers), with NaN voxels counted as '
              'zero, the apodizing window and beam applied spatially, and the caller\'s cube '
              'never modified. The radial profile and fit use that spectrum unchanged, so the '
              'slope does not depend on the order of the velocity channels or on a uniform scaling '
              'of the intensities. Channel thickening averages whole groups of ceil(requested/original) '
              'channels with the requested averaging function, and spectral smoothing to a wider '
              'channel uses the quadrature difference of the two widths and keeps the axis order.',
    quantifier=dict(over=['inputs'], text='all voxel values (NaN allowed) for the listed cube '
                    'shapes; all requested channel widths up to several times the original'),
    why_tests_cant='The regression pins one cube; a slip in the axis summed, the NaN handling or '
                   'the rounding of the channel width only shows for other shapes and widths.',
    anchors=dict(files=['turbustat/statistics/vca_vcs/vca.py',
                        'turbustat/statistics/vca_vcs/slice_thickness.py',
                        'turbustat/statistics/rfft_to_fft.py'],
                 mechanism=[dict(name='VCA.compute_pspec',
                                 where='turbustat/statistics/vca_vcs/vca.py:74'),
                            dict(name='spectral_regrid_cube',
                                 where='turbustat/statistics/vca_vcs/slice_thickness.py:21')]))
MODULES = ['turbustat.statistics']
OUTSIDE = 'cubes larger than 4x4x4; spectral-cube\'s own smoothing and interpolation'


def vca_ref(eff):
    """nv * sum_v |DFT2(channel)|^2 on the ps2D grid (rows high to low)"""
    nv, ny, nx = eff.shape
    out = objarr((ny, nx))
    for i in range(ny):
        for j in range(nx):
            out[i, j] = total([dft_power(eff[v], i - ny // 2, j - nx // 2)
                               for v in range(nv)]) * float(nv)
    return out[::-1]


def kern_of(apod, shape, alpha=0.6, beta=0.2):
    if apod is None:
        return np.ones(shape)
    import turbustat.statistics.apodizing_kernels as ak
    return {'tukey': lambda: ak.TukeyWindow(alpha), 'hanning': ak.HanningWindow,
            'cosinebell': lambda: ak.CosineBellWindow(alpha),
            'splitcosinebell': lambda: ak.SplitCosineBellWindow(alpha, beta)}[apod]()(shape)


def ob(shape, nan=(), apod=None, beam=False, twice=False):
    def body(I):
        from turbustat.statistics import VCA
        import astropy.units as u
        from radio_beam import Beam
        x = I.split(I.arr('cube', shape, nansym=nan))
        s = I.snapshot(x)
        bm = Beam(0.012 * u.deg) if beam else None
        with I.code():
            v = VCA(x, header=hdr3(), beam=bm)
            v.compute_pspec(apodize_kernel=apod, alpha=0.6, beta=0.2, beam_correct=beam)
            if twice:
                v.compute_pspec(apodize_kernel=apod, alpha=0.6, beta=0.2, beam_correct=beam)
            out = v.ps2D
        k = kern_of(apod, shape[1:])
        eff = objarr(shape)
        for c in np.ndindex(*shape):
            eff[c] = where(isnan(x[c]), 0.0, x[c]) * float(k[c[1:]])
        ref = vca_ref(eff)
        if beam:
            bk = bm.as_kernel(0.01 * u.deg, y_size=shape[1], x_size=shape[2]).array
            bp = (np.abs(np.fft.fftshift(np.fft.fft2(bk))) ** 2)[::-1]
            for c in np.ndindex(*bp.shape):
                ref[c] = float('nan') if bp[c] == 0 else ref[c] / float(bp[c])
            sel = (bp > 1e-8) | (bp == 0)
            I.eq('power', pack(I, asobj(out)[sel]), pack(I, ref[sel]), tol=1e-5)
        else:
            I.eq('power', out, ref)
        I.unchanged('cube', x, s)
    nm = 'power%s%s%s%s%s' % (shape, '-nan' if nan else '', '-' + apod if apod else '',
                              '-beam' if beam else '', '-twice' if twice else '')
    return Ob(nm, body, 'every cube of shape %s, |x|<=4, NaN allowed at %s' % (shape, list(nan)))


def order_ob(shape, perm, scale):
    """channel order and intensity scale leave slope and profile shape alone"""
    def body(I):
        from turbustat.statistics import VCA
        x = I.arr('cube', shape)
        c = I.real('scale', lo=0.5, hi=3) if scale else 1.0
        y = (x * c)[perm]
        with I.code():
            a = VCA(x, header=hdr3())
            a.compute_pspec()
            a.compute_radial_pspec()
            b = VCA(y, header=hdr3())
            b.compute_pspec()
            b.compute_radial_pspec()
        I.eq('profile', b.ps1D, a.ps1D * (c * c))
        I.eq('frequencies', b.freqs.value, a.freqs.value)
    return Ob('order%s%s' % (shape, '-scaled' if scale else ''), body,
              'every cube of shape %s, channel permutation %s, scale in [0.5,3]' % (shape, perm))


def run_ob(shape):
    """run() wires power, profile and fit together"""
    def body(I):
        from turbustat.statistics import VCA
        import astropy.units as u
        pw = I.arr('power', shape, lo=0.5, hi=4)
        got = {}

        def fake(self, **k):
            got.update(k)
            I.plant(self, '_ps2D', pw)
        with I.code():
            a = VCA(np.ones((2,) + shape), header=hdr3())
            a.compute_pspec = lambda **k: fake(a, **k)
            a.run(fit_2D=False, beam_correct=False, apodize_kernel='tukey', alpha=0.4, beta=0.1,
                  low_cut=0.1 / u.pix, high_cut=0.45 / u.pix,
                  radial_pspec_kwargs=dict(logspacing=False, max_bin=0.5))
            b = VCA(np.ones((2,) + shape), header=hdr3())
            I.plant(b, '_ps2D', pw)
            b.compute_radial_pspec(logspacing=False, max_bin=0.5)
            b.fit_pspec(low_cut=0.1 / u.pix, high_cut=0.45 / u.pix)
        I.eq('profile', a.ps1D, b.ps1D)
        I.eq('fit limits', [a.low_cut.value, a.high_cut.value], [0.1, 0.45])
        I.eq('slope', a.slope, b.slope)
        I.true('options forwarded', got['apodize_kernel'] == 'tukey' and got['alpha'] == 0.4 and
               got['beta'] == 0.1 and got['beam_correct'] is False)
    return Ob('run%s' % (shape,), body, 'every 2-D power array of shape %s in [0.5,4]' % (shape,))


def fake_cube(naxis, spec, rec):
    from spectral_cube.spectral_cube import BaseSpectralCube
    import astropy.units as u

    class Fake(BaseSpectralCube):
        def __init__(self):
            pass
        shape = (naxis, 2, 2)
        spectral_axis = spec * u.m / u.s
        allow_huge_operations = property(lambda s: False, lambda s, v: None)

        def downsample_axis(self, factor, axis, estimator=np.nanmean, **kw):
            rec['factor'], rec['axis'], rec['est'] = factor, axis, estimator
            return 'down'

        def spectral_smooth(self, kernel, **kw):
            rec['kernel'] = kernel
            return self

        def spectral_interpolate(self, grid, **kw):
            rec['grid'] = grid
            return 'regrid'
    return Fake()


def down_ob(unit, dv, lo, hi):
    def body(I):
        import astropy.units as u
        from turbustat.statistics.vca_vcs.slice_thickness import spectral_regrid_cube
        w = I.real('width', lo=lo, hi=hi)
        rec = {}
        spec = np.arange(8) * dv
        un = {'pix': u.pix, 'm/s': u.m / u.s, 'km/s': u.km / u.s}[unit]
        per = {'pix': 1.0, 'm/s': 1.0 / abs(dv), 'km/s': 1000.0 / abs(dv)}[unit]
        with I.code():
            r = spectral_regrid_cube(fake_cube(8, spec, rec), w * un)
        f = rec['factor']
        I.true('integer factor', isinstance(f, (int, np.integer)))
        I.true('velocity axis thinned', rec['axis'] == 0)
        ratio = w * per
        I.true('not narrower than requested', ratio <= float(f) + 1e-9)
        I.true('less than one channel wider', ratio > float(f) - 1 - 1e-9)
    return Ob('downsample-%s-dv%g' % (unit, dv), body,
              'every requested width in [%g,%g] %s, original channels %g m/s' % (lo, hi, unit, dv))


def int_ob():
    def body(I):
        from turbustat.statistics.vca_vcs.slice_thickness import spectral_regrid_cube
        n = I.real('factor', lo=1, hi=6, integer=True)
        rec = {}
        f = lambda a, **k: a
        with I.code():
            spectral_regrid_cube(fake_cube(8, np.arange(8) * 100.0, rec), int(n),
                                 downsamp_function=f)
        I.true('factor kept', rec['factor'] == int(n))
        I.true('averaging function used', rec['est'] is f)
    return Ob('downsample-int', body, 'every integer factor 1..6')


def regrid_ob(unit, dv, n=12):
    def body(I):
        import astropy.units as u
        from turbustat.statistics.vca_vcs.slice_thickness import spectral_regrid_cube
        w = I.real('width', lo=1.05 if unit == 'pix' else 1.05 * abs(dv),
                   hi=4.0 if unit == 'pix' else 4.0 * abs(dv))
        rec = {}
        ratio = w if unit == 'pix' else w / abs(dv)
        un = u.pix if unit == 'pix' else u.m / u.s
        import turbustat.statistics.vca_vcs.slice_thickness as st
        orig = st.Gaussian1DKernel
        st.Gaussian1DKernel = lambda sd, *a, **k: rec.setdefault('sd', sd)
        try:
            with I.code():
                spectral_regrid_cube(fake_cube(n, np.arange(n) * dv, rec), w * un, method='regrid')
        finally:
            st.Gaussian1DKernel = orig
        sd = rec['sd']
        I.eq('smoothing width^2', sd * sd * (8 * math.log(2)), ratio * ratio - 1.0, tol=1e-5)
        g = rec['grid']
        I.true('channel count', (float(g.size) <= float(n) / ratio + 1e-9) if I.sym else
               g.size == int(n // ratio))
        I.true('channel count (upper)', ratio * float(g.size + 1) > float(n) - 1e-6)
        ax = np.arange(n) * dv
        I.eq('axis start', float(g.value[0]), ax[0])
        if g.size > 1:
            I.eq('axis end', float(g.value[-1]), ax[-1])
    return Ob('regrid-%s-dv%g' % (unit, dv), body, 'every target width of 1.05 to 4 channels')


def obligations(tier):
    obs = [ob((2, 3, 4)), ob((3, 4, 3)), ob((4, 3, 3)), ob((1 + 1, 4, 5)),
           ob((3, 3, 2), nan=[(0, 0, 1), (2, 2, 0), (1, 1, 1)]),
           ob((2, 2, 3), nan=[(0, 0, 0), (1, 0, 0)]),
           ob((2, 4, 3), apod='tukey'), ob((2, 3, 4), apod='hanning'),
           ob((2, 4, 3), apod='cosinebell'), ob((2, 3, 3), apod='splitcosinebell'),
           ob((2, 3, 4), beam=True), ob((3, 3, 3), twice=True),
           order_ob((3, 4, 4), [2, 0, 1], False), order_ob((2, 4, 5), [1, 0], True),
           run_ob((6, 6)), down_ob('pix', 100.0, 0.5, 6), down_ob('m/s', 100.0, 50, 650),
           down_ob('m/s', -250.0, 100, 1400), down_ob('km/s', 100.0, 0.05, 0.65),
           int_ob(), regrid_ob('pix', 100.0), regrid_ob('m/s', 100.0), regrid_ob('m/s', -200.0)]
    if tier == 'thorough':
        obs += [ob((4, 4, 4)), ob((3, 5, 4)), ob((2, 5, 5)), ob((5, 3, 4)),
                ob((3, 3, 3), nan=[(0, 0, 0), (1, 0, 0), (2, 0, 0), (1, 2, 2)]),
                order_ob((4, 4, 5), [2, 3, 1, 0], True)]
    return obs
