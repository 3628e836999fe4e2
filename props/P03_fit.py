"""power-law fits of power spectra"""
from props.common import *

TITLE = 'Fitted spectral slope is the least-squares slope over exactly the chosen range'
META = dict(
    title=TITLE,
    statement='For every 1-D (or unbinned 2-D) power spectrum, the fitted slope is the '
              'least-squares slope of log10 power against log10 frequency over exactly the finite '
              'samples with low limit < frequency <= high limit, where limits may be given in '
              'pixel, angular or physical frequency units and default to two over the longer side '
              'and the highest frequency present. Weighted fits weight each sample by the inverse '
              'square of 0.434 times its relative scatter, samples without scatter are ignored, and '
              'unweighted slope errors are heteroscedasticity-consistent (HC3) errors of that fit.',
    quantifier=dict(over=['inputs'], text='all positive power values (NaN allowed) on the listed '
                    'frequency grids and limits'),
    why_tests_cant='The tests fit two data sets with generous limits; wrong boundary handling, '
                   'unit conversion of limits or NaN treatment needs particular limits or data.',
    anchors=dict(files=['turbustat/statistics/base_pspec2.py',
                        'turbustat/statistics/fitting_utils.py',
                        'turbustat/statistics/base_statistic.py'],
                 mechanism=[dict(name='fit_pspec', where='turbustat/statistics/base_pspec2.py:110'),
                            dict(name='clip_func',
                                 where='turbustat/statistics/fitting_utils.py:289')]))
OUTSIDE = 'more than 8 samples, segmented (broken) fits, bootstrap errors'


def make(kind, shape):
    from turbustat.statistics import PowerSpectrum, VCA
    if kind == 'vca':
        return VCA(np.ones((2,) + shape), header=hdr3())
    return PowerSpectrum(np.ones(shape), header=hdr2())


def binned(name, freqs, low=None, high=None, nan=(), shape=(20, 24), unit='pix', kind='pspec',
           weighted=False, sdnan=(), sdzero=()):
    def body(I):
        import astropy.units as u
        P_ = I.arr('P', len(freqs), lo=0.1, hi=4, nansym=[(k,) for k in nan])
        sd = None
        if weighted:
            sd = I.arr('s', len(freqs), lo=0.25, hi=2, nan=[(k,) for k in sdnan])
            for k in sdzero:
                sd[k] = 0.0
        conv = {'pix': 1 / u.pix, 'deg': 1 / u.deg, 'pc': 1 / u.pc, 'kpc': 1 / u.pc}[unit]
        fac = {'pix': 1.0, 'deg': 0.01, 'pc': 0.01 * math.pi / 180 * 100.0, 'kpc': 0.01 * math.pi / 180 * 100.0}[unit]
        with I.code():
            p = make(kind, shape)
            p.distance = 100 * u.pc if unit != 'kpc' else 0.1 * u.kpc
            I.plant(p, '_ps2D', np.ones(shape))
            I.plant(p, '_freqs', np.array(freqs) / u.pix)
            I.plant(p, '_ps1D', P_)
            I.plant(p, '_ps1D_stddev', sd)
            kw = {}
            if low is not None:
                kw['low_cut'] = (low / fac) * conv
            if high is not None:
                kw['high_cut'] = (high / fac) * conv
            p.fit_pspec(weighted_fit=weighted, **kw)
            slope = p.slope
            err = None if weighted else p.slope_err
            lo_used, hi_used = p.low_cut, p.high_cut
        L = 2.0 / max(shape) if low is None else low
        H = max(freqs) if high is None else high
        I.eq('low limit in pixel units', lo_used.value, L)
        I.eq('high limit in pixel units', hi_used.value, H)
        eps = 1e-9
        idx = [i for i, f in enumerate(freqs) if f > L + eps * (unit != 'pix') and
               f <= H + eps * (unit != 'pix')]
        idx = [i for i in idx if not bool(isnan(P_[i])) and i not in sdnan and i not in sdzero]
        xs = [math.log10(freqs[i]) for i in idx]
        ys = [log10(P_[i]) for i in idx]
        if not weighted:
            a, b = slope_ols(xs, ys)
            I.eq('slope', slope, b)
            # HC3
            n = float(len(xs))
            xm = sum(xs) / n
            sxx = sum((x - xm) ** 2 for x in xs)
            var = []
            for x, y in zip(xs, ys):
                h = 1 / n + (x - xm) ** 2 / sxx
                r = y - (b * x + a)
                var.append(r * r * (((x - xm) / sxx / (1 - h)) ** 2))
            I.eq('slope variance', err * err, total(var), tol=1e-5)
        else:
            w = [(P_[i] / (sd[i] * 0.434)) ** 2 for i in idx]
            sw = total(w)
            sx = total([w_ * x for w_, x in zip(w, xs)])
            sy = total([w_ * y for w_, y in zip(w, ys)])
            sxx = total([w_ * (x * x) for w_, x in zip(w, xs)])
            sxy = total([w_ * x * y for w_, x, y in zip(w, xs, ys)])
            I.eq('slope', slope, (sw * sxy - sx * sy) / (sw * sxx - sx * sx), tol=1e-5)
    return Ob(name, body, '%d samples with power in [0.1,4] (NaN at %s), limits (%s, %s] 1/%s'
              % (len(freqs), list(nan), low, high, unit))


def unbinned(name, shape, low, high):
    def body(I):
        import astropy.units as u
        from props.P02_radial import freq_grid
        P_ = I.arr('P', shape, lo=0.1, hi=4)
        with I.code():
            p = make('pspec', shape)
            I.plant(p, '_ps2D', P_[::-1])
            kw = {}
            if low is not None:
                kw['low_cut'] = low / u.pix
            if high is not None:
                kw['high_cut'] = high / u.pix
            p.fit_pspec(fit_unbinned=True, **kw)
            slope = p.slope
        fr = freq_grid(shape)
        L = 2.0 / max(shape) if low is None else low
        H = fr.max() if high is None else high
        idx = [k for k in np.ndindex(*shape) if L < fr[k] <= H]
        a, b = slope_ols([math.log10(fr[k]) for k in idx], [log10(P_[k]) for k in idx])
        I.eq('slope', slope, b)
    return Ob(name, body, 'all power arrays %s in [0.1,4]' % (shape,))


def obligations(tier):
    f6 = [0.1, 0.15, 0.2, 0.25, 0.3, 0.4]
    f5 = [0.05, 0.125, 0.25, 0.375, 0.5]
    obs = [
        binned('default-limits', f6),
        binned('default-limits-tall', f5, shape=(16, 10)),
        binned('low-on-sample', f6, low=0.15),
        binned('high-on-sample', f6, high=0.3),
        binned('both-on-samples', f5, low=0.05, high=0.375),
        binned('between', f6, low=0.12, high=0.33),
        binned('nan', f6, low=0.05, nan=[1, 4]),
        binned('angular-limits', f6, low=0.12, high=0.33, unit='deg'),
        binned('physical-limits', f6, low=0.12, high=0.33, unit='pc'),
        binned('physical-limits-kpc', f6, low=0.12, high=0.33, unit='kpc'),
        binned('vca', f6, low=0.12, high=0.4, kind='vca'),
        binned('weighted', f6[:4], low=0.05, high=0.3, weighted=True),
        binned('weighted-range', f6, low=0.15, high=0.3, weighted=True),
        binned('weighted-nan-scatter', f6[:5], low=0.05, high=0.3, weighted=True, sdnan=[2]),
        binned('weighted-zero-scatter', f6[:5], low=0.05, high=0.3, weighted=True, sdzero=[1]),
        unbinned('unbinned-3x4', (3, 4), 0.2, 0.6),
        unbinned('unbinned-5x5-default', (5, 5), None, None),
        unbinned('unbinned-5x4', (5, 4), 0.2, 0.45),
    ]
    if tier == 'thorough':
        obs += [binned('eight', [0.05, 0.1, 0.15, 0.2, 0.25, 0.3, 0.4, 0.5], low=0.05, high=0.4,
                       nan=[0, 3, 6]),
                unbinned('unbinned-5x5', (5, 5), None, 0.5),
                binned('weighted-5', f6[:5], low=0.05, high=0.3, weighted=True)]
    return obs
