"""VCS: 1-D velocity power spectrum of a cube"""
from props.common import *

TITLE = 'VCS spectrum is the mean velocity power over all spatial positions'
META = dict(
    title=TITLE,
    statement='For every spectral cube, the VCS spectrum at each velocity frequency equals the '
              'squared modulus of the 3-D Fourier transform summed over all spatial frequencies '
              'and divided by the number of spatial pixels; NaN voxels count as zero, and if there '
              'are any, the divisor is the number of pixels whose spectrum still has a non-zero '
              'maximum. Its frequencies are the absolute FFT frequencies of the velocity axis, the '
              'fit uses the logarithms of exactly the positive frequencies below half the axis length that lie '
              'above the low cut and not above the high cut (default cuts keep all of them but the total power), with '
              'cuts in velocity units converted by the channel width whatever the sign of the axis. The '
              'result is unchanged by any re-ordering of the pixels and the cube is never modified.',
    quantifier=dict(over=['inputs'], text='all voxel values (NaN allowed) for the listed shapes, all '
                    'cut values in pixel or velocity units'),
    why_tests_cant='One pinned slope says nothing about the normalisation, NaN spectra, the parity of '
                   'the channel count or cuts given in physical units.',
    anchors=dict(files=['turbustat/statistics/vca_vcs/vcs.py', 'turbustat/statistics/base_statistic.py'],
                 mechanism=[dict(name='VCS.compute_pspec', where='turbustat/statistics/vca_vcs/vcs.py:51'),
                            dict(name='VCS.fit_pspec', where='turbustat/statistics/vca_vcs/vcs.py:91'),
                            dict(name='_spectral_freq_unit_conversion',
                                 where='turbustat/statistics/base_statistic.py:357')]))
MODULES = ['turbustat.statistics']
OUTSIDE = 'cubes larger than 5x3x3; the spline search for an initial break; the segmented fit (see P23)'


def dft1_power(s, k):
    n = len(s)
    re = total([s[i] * cosf(Fraction(k * i, n)) for i in range(n)])
    im = total([s[i] * cosf(Fraction(k * i, n) - Fraction(1, 4)) for i in range(n)])
    return re * re + im * im


def ob(shape, nan=(), allnan=None, lo=-4.0):
    def body(I):
        from turbustat.statistics import VCS
        x = I.arr('cube', shape, lo=lo, nansym=nan)
        if allnan is not None:
            for v in range(shape[0]):
                x[(v,) + allnan] = float('nan')
        x = I.split(x)
        s = I.snapshot(x)
        with I.code():
            v = VCS(x, header=hdr3())
            v.compute_pspec()
            out = v.ps1D
            fr = v.freqs
        n, ny, nx = shape
        z = objarr(shape)
        anynan = False
        for c in np.ndindex(*shape):
            isn = bool(isnan(x[c]))
            anynan = anynan or isn
            z[c] = 0.0 if isn else x[c]
        count = 0.0
        for y in range(ny):
            for xx in range(nx):
                if not anynan:
                    count = count + 1.0
                    continue
                m = z[0, y, xx]
                for q in range(1, n):
                    m = where(z[q, y, xx] > m, z[q, y, xx], m)
                count = count + where(m != 0, 1.0, 0.0)
        I.assume(count > 0.5)
        for k in range(n):
            tot = total([dft1_power([z[q, y, xx] for q in range(n)], k)
                         for y in range(ny) for xx in range(nx)]) * float(ny * nx)
            I.eq('power[%d] x count' % k, out[k] * count, tot)
        I.eq('frequencies', fr.value, [abs(((k + n // 2) % n - n // 2) / float(n)) for k in range(n)])
        I.true('frequency unit', str(fr.unit) == '1 / pix')
        I.unchanged('cube', x, s)
    return Ob('power%s%s%s' % (shape, '-nan' if nan else '', '-blank' if allnan else ''), body,
              'every cube of shape %s, |x|<=4, NaN allowed at %s' % (shape, list(nan)))


def fit_ob(n, unit=None, dv=100.0, sym=('low', 'high'), cut=True):
    def body(I):
        from turbustat.statistics import VCS
        import turbustat.statistics.vca_vcs.vcs as mod
        import astropy.units as u
        ps = I.arr('ps', (n,), lo=0.1, hi=9)
        rec = {}
        un = {None: 1 / u.pix, 'm/s': u.s / u.m, 'km/s': u.s / u.km}[unit]
        fac = {None: 1.0, 'm/s': 1.0 / abs(dv), 'km/s': 1000.0 / abs(dv)}[unit]
        lo = I.real('low', lo=0.02, hi=0.25)
        hi = I.real('high', lo=0.25, hi=0.6)
        if unit is not None:      # keep off the rounding of the unit conversion
            for k in range(1, n // 2):
                f = k / float(n)
                for c in (lo, hi):
                    I.assume(abs(c - f) > 1e-6)

        class Seg:
            def __init__(self, x, y, brk, weights=None):
                rec['x'], rec['y'], rec['brk'] = x, y, brk
                self.slopes = self.slope_errs = np.array([0.0])

            def fit_model(self, **k):
                pass
        orig = mod.Lm_Seg
        mod.Lm_Seg = Seg
        try:
            with I.code():
                v = VCS(np.ones((n, 2, 2)), header=hdr3(dv=dv))
                I.plant(v, '_ps1D', ps)
                kw = {}
                if cut:
                    kw = dict(low_cut=lo * fac * un, high_cut=hi * fac * un)
                v.fit_pspec(breaks=-0.7, **kw)
        finally:
            mod.Lm_Seg = orig
        pos = [(k / float(n), ps[k]) for k in range(1, n // 2)]
        want = []
        for f, p in pos:
            if not cut or bool(s_and(f > lo, f <= hi) if I.sym else (f > lo and f <= hi)):
                want.append((math.log10(f), log10(p)))
        I.eq('number of fitted points', float(np.size(rec['x'])), float(len(want)))
        if np.size(rec['x']) == len(want) and want:
            I.eq('fitted log frequency', rec['x'], [w[0] for w in want])
            I.eq('fitted log power', pack(I, np.array([w[1] for w in want], dtype=object))
                 if I.sym else rec['y'], rec['y'] if I.sym else [w[1] for w in want])
        I.true('break position', rec['brk'] == -0.7)
        if cut:
            I.eq('low cut in pixels', v.low_cut.value, lo)
            I.eq('high cut in pixels', v.high_cut.value, hi)
    return Ob('fit-%d%s%s%s' % (n, '-' + unit if unit else '', '-dv%g' % dv if dv != 100 else '',
                                '' if cut else '-default'), body,
              'every spectrum of %d channels in [0.1,9], every cut frequency' % n)


def obligations(tier):
    obs = [ob((3, 2, 2)), ob((4, 2, 3)), ob((5, 2, 2)), ob((2, 3, 3)), ob((6, 2, 2)),
           ob((3, 2, 2), nan=[(0, 0, 0), (1, 0, 0), (2, 0, 0)]),
           ob((4, 2, 2), nan=[(1, 0, 1), (3, 1, 1)], lo=0.1), ob((3, 2, 3), allnan=(0, 2), lo=0.1),
           fit_ob(8), fit_ob(9), fit_ob(12, cut=False), fit_ob(11, cut=False), fit_ob(8, 'm/s'),
           fit_ob(10, 'm/s', dv=-250.0), fit_ob(9, 'km/s', dv=500.0)]
    if tier == 'thorough':
        obs += [ob((5, 3, 3)), ob((4, 3, 4)), fit_ob(14), fit_ob(15, 'km/s')]
    return obs
