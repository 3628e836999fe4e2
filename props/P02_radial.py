"""radially averaged power spectrum"""
from props.common import *

TITLE = 'Radial profile averages exactly the power samples of each frequency bin'
META = dict(
    title=TITLE,
    statement='For every 2-D power spectrum, each point of the 1-D spectrum is the mean of all '
              'finite power samples whose spatial frequency lies in that bin (and, when an '
              'azimuthal wedge is requested, inside the wedge or its point reflection), and its '
              'scatter is the sample standard deviation of the same samples, enlarged by the '
              't-distribution factor only when that exceeds one. NaN power samples never '
              'contribute, bins with fewer than two samples are NaN, and reported bin centres and '
              'default bin limits follow from the image shape alone.',
    quantifier=dict(over=['inputs'], text='all power arrays (any values, NaN anywhere allowed) '
                    'of the listed even/odd, non-square shapes, binning options and wedge angles'),
    why_tests_cant='Tests pin two images; the wrong bin membership, off-by-one centring or NaN '
                   'leak only shows for particular shapes, bin edges or NaN positions.',
    anchors=dict(files=['turbustat/statistics/psds.py', 'turbustat/statistics/base_pspec2.py'],
                 mechanism=[dict(name='pspec', where='turbustat/statistics/psds.py:11'),
                            dict(name='make_radial_freq_arrays',
                                 where='turbustat/statistics/psds.py:208'),
                            dict(name='compute_radial_pspec',
                                 where='turbustat/statistics/base_pspec2.py:77')]))
OUTSIDE = 'power arrays larger than 6x6, bootstrap scatter, user supplied mean functions'


def fftfreq(n):
    """zero-centred frequencies of an n-point transform, ascending"""
    return [Fraction(i - n // 2, n) for i in range(n)]


def freq_grid(shape):
    """frequency of every sample of a ps2D array (rows high to low)"""
    fy, fx = fftfreq(shape[0])[::-1], fftfreq(shape[1])
    return np.array([[math.sqrt(float(a * a + b * b)) for b in fx] for a in fy])


def wedge(shape, th0, dth):
    ny, nx = shape
    cy, cx = ny // 2, nx // 2
    ang = np.array([[math.atan2(y - cy, x - cx) for x in range(nx)] for y in range(ny)])
    wrap = lambda a: (a + math.pi) % (2 * math.pi) - math.pi
    lo, hi = wrap(th0 - dth / 2), wrap(th0 + dth / 2)
    m = (ang >= lo) & (ang <= hi) if lo < hi else (ang >= lo) | (ang <= hi)
    m = m | m[::-1, ::-1]
    m[cy - 1:cy + 1, cx - 1:cx + 1] = True
    return m


def edges_of(shape, logspacing, min_bin, max_bin, nbins, binsize, freqs):
    ny, nx = shape
    far = math.sqrt((ny // 2) ** 2 + (nx // 2) ** 2)
    if nbins is None:
        nbins = int(np.round(far / binsize) + 1)
    if max_bin is None:
        max_bin = 0.5 if freqs else far
    if min_bin is None:
        min_bin = 1.0 / min(shape) if freqs else 0.5
    if logspacing:
        return np.logspace(np.log10(min_bin), np.log10(max_bin), nbins + 1)
    return np.linspace(min_bin, max_bin, nbins + 1)


def stats(vals):
    n = len(vals)
    if n == 0:
        return float('nan'), None
    m = mean(vals)
    if n == 1:
        return m, None
    var = total([(v - m) * (v - m) for v in vals]) / float(n - 1)
    return m, var


def spec(psd, dist, edges, mask):
    """[(mean, variance, count)] per bin; psd None entries are dropped samples"""
    out = []
    nb = len(edges) - 1
    for b in range(nb):
        vals = []
        for k in np.ndindex(*dist.shape):
            d = dist[k]
            inb = edges[b] <= d and (d < edges[b + 1] or (b == nb - 1 and d <= edges[b + 1]))
            if inb and mask[k]:
                vals.append(psd[k])
        m, var = stats(vals)
        out.append((m, var, len(vals)))
    return out


def ob(shape, name, nan=(), th=None, via=None, freqs=True, **kw):
    def body(I):
        from turbustat.statistics.psds import pspec
        from scipy.stats import t as t_dist
        import astropy.units as u
        x = I.arr('P', shape, lo=0, hi=4, nansym=nan)
        snap_ = I.snapshot(x)
        k2 = dict(kw)
        if th is not None:
            k2['theta_0'] = th[0] * u.deg
            k2['delta_theta'] = th[1] * u.deg
        if via == 'class':
            from turbustat.statistics import PowerSpectrum
            with I.code():
                p = PowerSpectrum(np.ones(shape), header=hdr2())
                I.plant(p, '_ps2D', x[::-1])
                p.compute_radial_pspec(**k2)
                fr, ps, sd = p.freqs, p.ps1D, p.ps1D_stddev
            I.true('frequency unit is 1/pix', str(fr.unit) == '1 / pix')
            fr = fr.value
        else:
            with I.code():
                out = pspec(x, return_stddev=True, return_freqs=freqs, **k2)
                only = pspec(x, return_stddev=False, return_freqs=freqs, **k2)
            fr, ps, sd = out[:3]
        mask = np.ones(shape, bool)
        if th is not None:
            mask = wedge(shape, math.radians(th[0]), math.radians(th[1]))
            if via != 'class':
                I.true('wedge mask', np.asarray(out[3]) == mask)
        # decide NaN flags (forks symbolically)
        for k in np.ndindex(*shape):
            if bool(isnan(x[k])):
                mask[k] = False
        if freqs:
            dist = freq_grid(shape)
            nz = dist[dist > 0].min() / 2
            dist = np.where(dist == 0, nz, dist)
        else:
            cy, cx = shape[0] // 2, shape[1] // 2
            dist = np.array([[math.hypot(y - cy, xx - cx) for xx in range(shape[1])]
                             for y in range(shape[0])])
        ls = kw.get('logspacing', via != 'class')
        ed = edges_of(shape, ls, kw.get('min_bin'), kw.get('max_bin'), kw.get('nbins'),
                      kw.get('binsize', 1.0), freqs)
        I.eq('bin centres', fr, (ed[1:] + ed[:-1]) / 2)
        S = spec(x, dist, ed, mask)
        for b, (m, var, n) in enumerate(S):
            if via != 'class':
                I.eq('mean without scatter[%d]' % b, only[1][b], m)
            I.eq('mean[%d]' % b, ps[b], m if n > 1 else float('nan'))
            if n > 1:
                f = float(t_dist.ppf(1 - 0.075, n - 1) / math.sqrt(n))
                f = max(f, 1.0)
                I.eq('variance[%d]' % b, sd[b] * sd[b], var * (f * f))
                I.le('scatter>=0[%d]' % b, 0.0, sd[b])
            else:
                I.eq('scatter[%d]' % b, sd[b], float('nan'))
        I.unchanged('power', x, snap_)
    return Ob(name, body, 'power %s in [0,4], NaN allowed at %s, %s' % (shape, list(nan), kw or
                                                                       'default binning'))


def obligations(tier):
    obs = [
        ob((4, 4), 'lin-4x4', logspacing=False),
        ob((5, 4), 'lin-5x4', logspacing=False),
        ob((4, 6), 'lin-4x6', logspacing=False),
        ob((5, 5), 'log-5x5'),
        ob((6, 5), 'log-6x5-nbins', nbins=3),
        ob((4, 4), 'lin-4x4-nan', logspacing=False, nan=[(0, 1), (2, 3), (1, 1)]),
        ob((5, 4), 'lin-5x4-nan', logspacing=False, nan=[(2, 2), (4, 0), (1, 2), (0, 0)]),
        ob((5, 6), 'lin-5x6-minmax', logspacing=False, min_bin=0.1, max_bin=0.45, nbins=3),
        ob((5, 5), 'log-5x5-minmax', logspacing=True, min_bin=0.15, max_bin=0.6, nbins=2),
        ob((4, 5), 'pix-4x5', freqs=False, logspacing=False),
        ob((5, 5), 'pix-5x5-log', freqs=False, logspacing=True, binsize=2.0),
        ob((5, 5), 'wedge-5x5', th=(30.0, 60.0), logspacing=False),
        ob((5, 5), 'wedge-wrap-5x5', th=(175.0, 40.0), logspacing=False),
        ob((4, 6), 'wedge-4x6', th=(90.0, 50.0), logspacing=False, nbins=3),
        ob((5, 5), 'wedge-nan', th=(0.0, 100.0), logspacing=False, nan=[(2, 2), (3, 4), (0, 2)]),
        ob((4, 5), 'class-4x5', via='class'),
        ob((5, 4), 'class-5x4-nan', via='class', nan=[(0, 2), (3, 1)]),
        ob((6, 4), 'class-6x4-log', via='class', logspacing=True, nbins=3),
        ob((5, 5), 'class-wedge', via='class', th=(120.0, 70.0), max_bin=0.4),
    ]
    if tier == 'thorough':
        obs += [ob((6, 6), 'lin-6x6', logspacing=False), ob((6, 5), 'lin-6x5', logspacing=False),
                ob((7, 4), 'lin-7x4', logspacing=False),
                ob((4, 4), 'lin-4x4-nan5', logspacing=False,
                   nan=[(0, 1), (2, 3), (1, 1), (2, 2), (3, 0)]),
                ob((6, 6), 'wedge-6x6', th=(45.0, 45.0), logspacing=False, nbins=4)]
    return obs
