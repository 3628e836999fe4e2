"""2-D spatial power spectrum == squared modulus of the discrete Fourier transform"""
from props.common import *

TITLE = '2-D power spectrum is the squared Fourier modulus of the weighted image'
META = dict(
    title=TITLE,
    statement='For every real image of any shape (odd or even, non-square), with or without '
              'weights, the 2-D power spectrum equals the squared modulus of the discrete Fourier '
              'transform of image times weights (times the apodizing window), with NaN pixels and NaN '
              'weights counted as zero, zero frequency centred and rows running from high to low '
              'vertical frequency; with beam correction it is that power divided by the power of '
              'the beam. The magnitudes expanded from the half-plane transform equal those of the '
              'full transform in 2-D and 3-D. Computing the spectrum, once or repeatedly, never '
              'modifies the caller\'s image or weights.',
    quantifier=dict(over=['inputs', 'histories'], text='all pixel and weight values (NaN allowed) for '
                    'the listed shapes, apodizing kernels and call sequences'),
    why_tests_cant='Regression tests pin one image; a wrong mirror index shows only for particular '
                   'odd/even or non-square shapes, and a NaN or weight slip only for such inputs.',
    anchors=dict(files=['turbustat/statistics/rfft_to_fft.py',
                        'turbustat/statistics/pspec_bispec/pspec.py',
                        'turbustat/statistics/base_pspec2.py'],
                 mechanism=[dict(name='rfft_to_fft', where='turbustat/statistics/rfft_to_fft.py:21'),
                            dict(name='PowerSpectrum.compute_pspec',
                                 where='turbustat/statistics/pspec_bispec/pspec.py:68'),
                            dict(name='compute_beam_pspec',
                                 where='turbustat/statistics/base_pspec2.py:57')]))
MODULES = ['turbustat.statistics']
OUTSIDE = 'images larger than 5x5 (3-D arrays larger than 3x4x3); pyfftw planning options'


def shifted_power(x):
    """power on the zero-centred grid, rows from high to low vertical frequency"""
    ny, nx = x.shape
    out = objarr((ny, nx))
    for i in range(ny):
        for j in range(nx):
            out[i, j] = dft_power(x, i - ny // 2, j - nx // 2)
    return out[::-1]


def rfft_ob(shape, keep=False):
    def body(I):
        from turbustat.statistics.rfft_to_fft import rfft_to_fft
        x = I.arr('x', shape)
        s = I.snapshot(x)
        with I.code():
            out = rfft_to_fft(x, keep_rfft=True) if keep else rfft_to_fft(x)
        ref = np.fft.fftn(x)
        if keep:
            ref = ref[..., :shape[-1] // 2 + 1]
        I.eq('magnitude^2', out * out, ref.real * ref.real + ref.imag * ref.imag)
        I.le('magnitude is non-negative', 0.0, out)
        I.unchanged('input', x, s)
    return Ob('fft-magnitude%s%s' % (shape, '-half' if keep else ''), body,
              'every real array of shape %s with |x|<=4' % (shape,))


def pspec_ob(shape, nansym=(), weights=None, twice=False, apod=None):
    def body(I):
        from turbustat.statistics import PowerSpectrum
        x = I.arr('img', shape, nansym=nansym)
        w = None
        if weights is not None:
            w = I.arr('w', shape, lo=0, hi=2, nansym=weights)
            ws = I.snapshot(w)
        s = I.snapshot(x)
        with I.code():
            p = PowerSpectrum(x, header=hdr2(), weights=w)
            p.compute_pspec(apodize_kernel=apod, alpha=0.6, beta=0.2)
            if twice:
                p.compute_pspec(apodize_kernel=apod, alpha=0.6, beta=0.2)
            out = p.ps2D
        kern = np.ones(shape)
        if apod is not None:
            import turbustat.statistics.apodizing_kernels as ak
            cls = {'tukey': lambda: ak.TukeyWindow(0.6), 'hanning': ak.HanningWindow,
                   'cosinebell': lambda: ak.CosineBellWindow(0.6),
                   'splitcosinebell': lambda: ak.SplitCosineBellWindow(0.6, 0.2)}[apod]()
            kern = cls(shape)
        eff = objarr(shape)
        for k in np.ndindex(*shape):
            v = where(isnan(x[k]), 0.0, x[k])
            if w is not None:
                v = v * where(isnan(w[k]), 0.0, w[k])
            eff[k] = v * float(kern[k])
        I.eq('power', out, shifted_power(eff))
        I.unchanged('image', x, s)
        if w is not None:
            I.unchanged('weights', w, ws)
    nm = 'power%s%s%s%s%s' % (shape, '-nan' if nansym else '', '-weights' if weights is not None
                              else '', '-twice' if twice else '', '-' + apod if apod else '')
    return Ob(nm, body, 'every image of shape %s, |x|<=4, NaN allowed at %s, weights in [0,2]%s'
              % (shape, list(nansym), ', apodizing %s' % apod if apod else ''))


def beam_ob(shape):
    def body(I):
        import astropy.units as u
        from radio_beam import Beam
        from turbustat.statistics import PowerSpectrum
        x = I.arr('img', shape)
        beam = Beam(0.012 * u.deg)
        with I.code():
            p = PowerSpectrum(x, header=hdr2(), beam=beam)
            p.compute_pspec(beam_correct=True)
            out = p.ps2D
            p.compute_pspec(beam_correct=False)
            plain = p.ps2D
        kern = beam.as_kernel(0.01 * u.deg, y_size=shape[0], x_size=shape[1]).array
        bp = np.abs(np.fft.fftshift(np.fft.fft2(kern)))[::-1] ** 2
        ref = shifted_power(x)
        want = objarr(shape)
        for k in np.ndindex(*shape):
            want[k] = float('nan') if bp[k] == 0 else ref[k] / float(bp[k])
        sel = bp > 1e-8
        sel |= bp == 0
        I.eq('beam-corrected power', pack(I, asobj(out)[sel]), pack(I, want[sel]), tol=1e-5)
        I.eq('uncorrected power', plain, shifted_power(x))
    return Ob('beam%s' % (shape,), body, 'every image of shape %s, one circular beam' % (shape,))


def obligations(tier):
    full = [(3, 4), (4, 3), (4, 4), (3, 3), (2, 5), (5, 2), (2, 3, 4), (4, 2, 3), (3, 3, 2)]
    obs = [rfft_ob(s) for s in full] + [rfft_ob((3, 4), True), rfft_ob((2, 3, 3), True)]
    obs += [pspec_ob((3, 4)), pspec_ob((4, 3)), pspec_ob((3, 5)), pspec_ob((4, 4), twice=True),
            pspec_ob((3, 3), nansym=[(0, 1), (2, 2)]),
            pspec_ob((2, 4), nansym=[(1, 1)], weights=[(0, 0), (1, 1)]),
            pspec_ob((3, 3), weights=[(1, 2)]),
            pspec_ob((4, 3), apod='tukey'), pspec_ob((4, 3), apod='hanning'),
            pspec_ob((3, 4), apod='cosinebell'), pspec_ob((4, 3), apod='splitcosinebell'),
            beam_ob((3, 4)), beam_ob((5, 3))]
    if tier == 'thorough':
        obs += [rfft_ob(s) for s in [(4, 5), (5, 4), (5, 5), (6, 4), (3, 4, 3), (4, 3, 4)]]
        obs += [pspec_ob(s) for s in [(4, 5), (5, 4), (5, 5), (6, 4)]]
        obs += [pspec_ob((3, 4), nansym=[(0, 0), (1, 1), (2, 3)], weights=[(0, 0), (1, 2)])]
    return obs
