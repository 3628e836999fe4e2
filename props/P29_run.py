"""run() of the statistics"""
import copy
import inspect
from .common import *

TITLE = 'Running a statistic equals its steps with the options handed on'
META = dict(
    title=TITLE,
    statement='For every data set and choice of options, running a statistic in one call gives the same results as calling its computing and fitting steps one after the other '
              'with those options: windows, beam correction, boundaries, lags, bins, thresholds, seeds, fit limits, breaks, weighting and the options of the two-dimensional fit each reach '
              'the step they belong to. Option sets given by the caller are never modified and options left out of a run take their documented defaults, also after another run with other options. '
              'Running again with the same options gives the same results.',
    quantifier=dict(over=['inputs', 'histories'], text='all values of the listed free pixels, for the listed option sets; one or two runs'),
    why_tests_cant='The tests run everything with nearly default options and compare one fitted number; an option that is not handed on, or handed to the wrong step, shows only when it is set.',
    anchors=dict(files=['turbustat/statistics/pspec_bispec/pspec.py', 'turbustat/statistics/vca_vcs/vca.py', 'turbustat/statistics/mvc/mvc.py', 'turbustat/statistics/vca_vcs/vcs.py',
                        'turbustat/statistics/scf/scf.py', 'turbustat/statistics/delta_variance/delta_variance.py', 'turbustat/statistics/wavelets/wavelet_transform.py',
                        'turbustat/statistics/pspec_bispec/bispec.py', 'turbustat/statistics/pca/pca.py', 'turbustat/statistics/genus/genus.py',
                        'turbustat/statistics/tsallis/tsallis.py', 'turbustat/statistics/pdf/compare_pdf.py', 'turbustat/statistics/stat_moments/highstatmoments.py',
                        'turbustat/statistics/dendrograms/dendro_stats.py'],
                 mechanism=[dict(name='PowerSpectrum.run', where='turbustat/statistics/pspec_bispec/pspec.py:108'),
                            dict(name='SCF.run', where='turbustat/statistics/scf/scf.py:700'),
                            dict(name='DeltaVariance.run', where='turbustat/statistics/delta_variance/delta_variance.py:590')]))
MODULES = ['turbustat.statistics']
OUTSIDE = 'plots and printed summaries, pyFFTW, option sets that are not listed; the two-dimensional fit and the dendrogram are replaced by recorders of their arguments'
ASSUMPTIONS = ['the steps themselves are the subject of the other properties; here only that a run equals them']


def bound(obj, name, a, k):
    """arguments with defaults filled in, without the ones that only concern output"""
    f = inspect.signature(getattr(type(obj), name)).bind(obj, *a, **k)
    f.apply_defaults()
    d = dict(f.arguments)
    d.update(d.pop('kwargs', {}) or {})
    for n in ('self', 'verbose', 'show_progress', 'use_pyfftw', 'threads', 'pyfftw_kwargs'):
        d.pop(n, None)
    return d


def equal(I, label, a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        I.true(label + ' names', sorted(a) == sorted(b))
        for k in a:
            if k in b:
                equal(I, label + ' ' + str(k), a[k], b[k])
        return
    I.true(label + ' given', (a is None) == (b is None))
    if a is None or b is None:
        return
    if isinstance(a, (str, bool)):
        I.true(label, a == b)
        return
    if callable(a):
        I.true(label, type(a) is type(b) and getattr(a, 'name', None) == getattr(b, 'name', None))
        return
    if hasattr(a, 'unit') or hasattr(b, 'unit'):
        ok = hasattr(a, 'unit') and hasattr(b, 'unit') and a.unit.is_equivalent(b.unit)
        I.true(label + ' unit', ok)
        if not ok:
            return
        a, b = a.to(b.unit).value, b.value
    if isinstance(a, (list, tuple)) and len(a) == 0:
        I.true(label, len(b) == 0)
        return
    if isinstance(a, (list, tuple)) and not all(np.ndim(e) == 0 for e in a):
        for i, (p, q) in enumerate(zip(a, b)):
            equal(I, '%s[%d]' % (label, i), p, q)
        return
    I.eq(label, a, b)


def results(obj, names):
    out = {}
    for n in names:
        r = getattr(obj, n)
        out[n] = r.copy() if isinstance(r, np.ndarray) else copy.copy(r)
    return out


def ob(name, new, opts, steps, names, record=(), before=None):
    """opts: options of run; steps: [(method, options)]; names: results; record: methods that are
    replaced by recorders; before: options of an earlier run"""
    def body(I):
        x, mk_ = new(I)
        rec = {'a': [], 'b': []}

        def prep(o, key):
            for m in record:
                setattr(o, m, lambda *a, _m=m, **k: rec[key].append((_m, bound(o, _m, a, k))))
        kw = copy.deepcopy(opts())
        if 'show_progress' in RUN_SHOW.get(name.split('-')[0], ()):
            kw['show_progress'] = False
        sets = {k: copy.deepcopy(v) for k, v in kw.items() if isinstance(v, dict)}
        snap = I.snapshot(x)
        with I.code():
            a = mk_()
            prep(a, 'a')
            if before is not None:
                k2 = dict(before())
                if 'show_progress' in kw:
                    k2['show_progress'] = False
                a.run(**k2)
                del rec['a'][:]
            a.run(**kw)
            ra = results(a, names)
            b = mk_()
            prep(b, 'b')
            for m, k in steps():
                k = dict(k)
                if 'show_progress' in inspect.signature(getattr(type(b), m)).parameters and 'show_progress' not in k:
                    k['show_progress'] = False
                getattr(b, m)(**k)
            rb = results(b, names)
        for k in sets:
            I.true('option set %s left as given' % k, same_set(kw[k], sets[k]))
        for n in names:
            equal(I, n, ra[n], rb[n])
        for m in record:
            p, q = [[d for mm, d in rec[s] if mm == m] for s in 'ab']
            if p or not q:
                I.true(m + ' called once', len(p) == len(q))
            else:
                # not called through the object: then run has to have made its results itself
                I.true(m + ' done', made(a, m))
            for d, e in zip(p, q):
                equal(I, m, d, e)
        I.unchanged('data', x, snap)
    return Ob(name, body, 'all values of the free pixels in [-2,3]; options %s' % (sorted(opts()),), time_limit=150)


MADE = dict(fit_tsallis=('tsallis_params',), fit_2Dpspec=('slope2D',), fit_pspec=('slope',), fit_plaw=('slope', 'index'), fit_2Dplaw=('slope2D',),
            compute_spectrum=('scf_spectrum',), compute_deltavar=('delta_var',), compute_transform=('values',), fit_transform=('slope',), find_spatial_widths=('spatial_width',),
            find_spectral_widths=('spectral_width',), fit_pdf=('model_params',), make_spatial_histograms=('mean_hist',), compute_dendro=('numfeatures',),
            fit_numfeat=('tail_slope',), make_hists=('hists',), compute_pca=('eigvals',))


def made(o, m):
    for n in MADE.get(m, ()):
        try:
            v = getattr(o, n)
            if callable(v):
                v = v()
            if v is not None:
                return True
        except Exception:
            pass
    return m not in MADE


RUN_SHOW = {k: ('show_progress',) for k in ('scf', 'delvar', 'wavelet', 'bispectrum', 'pca', 'moments', 'dendro')}


def same_set(a, b):
    if sorted(a) != sorted(b):
        return False
    for k in a:
        e = a[k] == b[k] if not isinstance(a[k], dict) else same_set(a[k], b[k])
        if not np.all(e):
            return False
    return True


def image(shape, free, seed=3, lo=0.5, hi=3.0):
    def f(I, name='x', add=0):
        rnd = np.random.RandomState(seed + add)
        x = asobj(np.round(rnd.uniform(0.5, 3, shape) * 8) / 8.)
        for k in free:
            x[k] = I.real('%s%s' % (name, list(k)), lo, hi)
        return pack(I, x)
    return f


def cls(name, img, header=None, **kw):
    def new(I):
        import turbustat.statistics as S
        x = img(I)
        if name == 'MVC':
            rest = [np.round(np.random.RandomState(7 + i).uniform(0.5, 3, x.shape) * 8) / 8 for i in range(2)]
            return x, lambda: S.MVC(x, *rest, header=header(), **kw)
        if name in ('PDF', 'Bispectrum'):
            return x, lambda: getattr(S, name)(x, **kw)
        if name in ('PCA', 'Genus'):
            return x, lambda: getattr(S, name)((x, header()), **kw)
        return x, lambda: getattr(S, name)(x, header=header(), **kw)
    return new


def pspec_obs(kind, tier):
    import astropy.units as u
    from radio_beam import Beam
    pix = u.pix
    beam = Beam(0.012 * u.deg)
    if kind == 'VCA':
        img, h, kw = image((2, 6, 7), [(0, 2, 3), (1, 4, 1)]), hdr3, dict(beam=beam)
    else:
        img, h, kw = image((6, 7), [(2, 3), (4, 1)]), hdr2, dict(beam=beam)
    if kind == 'MVC':
        img = image((6, 7), [(2, 3)])
    new = cls(kind, img, h, **kw)
    names = ('ps2D', 'ps1D', 'freqs', 'ps1D_stddev', 'slope', 'slope_err', 'low_cut', 'high_cut')
    win = dict(apodize_kernel='tukey', alpha=0.4, beta=0.1)
    cuts = dict(low_cut=0.1 / pix, high_cut=0.45 / pix)
    rad = dict(max_bin=0.5, theta_0=0.4 * u.rad, delta_theta=2.2 * u.rad)
    n = kind.lower()
    base = dict(fit_2D=False)
    F = ['fit_2Dpspec']
    out = [
        ob(n + '-window', new, lambda: dict(win, **base), lambda: [('compute_pspec', win), ('compute_radial_pspec', {}), ('fit_pspec', {})], names),
        ob(n + '-split', new, lambda: dict(base, apodize_kernel='splitcosinebell', alpha=0.5, beta=0.3),
           lambda: [('compute_pspec', dict(apodize_kernel='splitcosinebell', alpha=0.5, beta=0.3))], ('ps2D',)),
        ob(n + '-limits', new, lambda: dict(cuts, **base), lambda: [('compute_pspec', {}), ('compute_radial_pspec', {}), ('fit_pspec', cuts)], names),
        ob(n + '-bins', new, lambda: dict(base, radial_pspec_kwargs=rad), lambda: [('compute_pspec', {}), ('compute_radial_pspec', rad), ('fit_pspec', {})], names),
        ob(n + '-weighted', new, lambda: dict(base, fit_kwargs=dict(weighted_fit=True)),
           lambda: [('compute_pspec', {}), ('compute_radial_pspec', {}), ('fit_pspec', dict(weighted_fit=True))], ('ps2D', 'ps1D'), record=['fit_pspec']),
        ob(n + '-unbinned', new, lambda: dict(base, fit_unbinned=True, low_cut=0.25 / pix),
           lambda: [('compute_pspec', {}), ('compute_radial_pspec', {}), ('fit_pspec', dict(fit_unbinned=True, low_cut=0.25 / pix))], ('ps2D', 'ps1D', 'slope', 'low_cut', 'high_cut')),
        ob(n + '-beam', new, lambda: dict(base, beam_correct=True), lambda: [('compute_pspec', dict(beam_correct=True))], ('ps2D',)),
        ob(n + '-2d', new, lambda: dict(cuts, fit_2D_kwargs=dict(bootstrap=False, fix_ellip_params=True, niters=7)),
           lambda: [('compute_pspec', {}), ('compute_radial_pspec', {}), ('fit_pspec', cuts),
                    ('fit_2Dpspec', dict(cuts, bootstrap=False, fix_ellip_params=True, niters=7))], names, record=F),
        ob(n + '-2d-default', new, lambda: {}, lambda: [('compute_pspec', {}), ('compute_radial_pspec', {}), ('fit_pspec', {}), ('fit_2Dpspec', {})], names, record=F),
        ob(n + '-no-2d', new, lambda: dict(base), lambda: [('compute_pspec', {}), ('compute_radial_pspec', {}), ('fit_pspec', {})], names, record=F),
        ob(n + '-sets', new, lambda: dict(base, pyfftw_kwargs=dict(threads=2), fit_kwargs=dict(weighted_fit=True) if kind == 'MVC' else dict(fit_unbinned=True, weighted_fit=False)),
           lambda: [('compute_pspec', {}), ('compute_radial_pspec', {})], ('ps2D', 'ps1D')),
        ob(n + '-again', new, lambda: dict(base), lambda: [('compute_pspec', {}), ('compute_radial_pspec', {}), ('fit_pspec', {})], names,
           before=lambda: dict(win, radial_pspec_kwargs=dict(max_bin=0.4), **cuts, **base)),
        ob(n + '-twice', new, lambda: dict(win, **cuts, **base), lambda: [('compute_pspec', win), ('compute_radial_pspec', {}), ('fit_pspec', cuts)], names,
           before=lambda: dict(win, **cuts, **base)),
    ]
    return out


def vcs_obs(tier):
    import astropy.units as u
    new = cls('VCS', image((12, 2, 2), [(3, 0, 1), (7, 1, 1)]), hdr3)
    c = dict(low_cut=0.1 / u.pix, high_cut=0.4 / u.pix)
    names = ('ps1D', 'freqs')
    R = dict(record=['fit_pspec'])
    return [ob('vcs-limits', new, lambda: dict(c), lambda: [('compute_pspec', {}), ('fit_pspec', c)], names, **R),
            ob('vcs-default', new, lambda: {}, lambda: [('compute_pspec', {}), ('fit_pspec', {})], names, **R),
            ob('vcs-breaks', new, lambda: dict(c, breaks=0.25 / u.pix, log_break=False),
               lambda: [('compute_pspec', {}), ('fit_pspec', dict(c, breaks=0.25 / u.pix, log_break=False))], names, **R),
            ob('vcs-sets', new, lambda: dict(pyfftw_kwargs=dict(threads=2)), lambda: [('compute_pspec', {}), ('fit_pspec', {})], names, **R),
            ob('vcs-again', new, lambda: {}, lambda: [('compute_pspec', {}), ('fit_pspec', {})], names, before=lambda: dict(c), **R)]


def scf_obs(tier):
    import astropy.units as u
    new = cls('SCF', image((2, 3, 4), [(0, 2, 3)], lo=1), hdr3, size=3)
    x = dict(xlow=1.0 * u.pix, xhigh=2.0 * u.pix)
    rad = dict(theta_0=0.4 * u.rad, delta_theta=2.2 * u.rad)
    surf = ('scf_surface', 'roll_lags')
    names = surf + ('lags', 'scf_spectrum')
    F, T = ['fit_plaw', 'fit_2Dplaw'], ['compute_spectrum', 'fit_plaw', 'fit_2Dplaw']
    return [ob('scf-limits', new, lambda: dict(x, fit_2D=False), lambda: [('compute_surface', {}), ('compute_spectrum', {}), ('fit_plaw', x)], names, record=F),
            ob('scf-wedge', new, lambda: dict(radialavg_kwargs=rad, fit_2D=False), lambda: [('compute_surface', {}), ('compute_spectrum', rad), ('fit_plaw', {})],
               names, record=F),
            ob('scf-2d', new, lambda: dict(x, fit_2D_kwargs=dict(niters=5, bootstrap=False, use_azimmask=True)),
               lambda: [('compute_surface', {}), ('compute_spectrum', {}), ('fit_plaw', x), ('fit_2Dplaw', dict(x, niters=5, bootstrap=False, use_azimmask=True))], names, record=F),
            ob('scf-fit', new, lambda: dict(x, fit_kwargs=dict(bootstrap=True, niters=4)),
               lambda: [('compute_surface', {}), ('compute_spectrum', {}), ('fit_plaw', dict(x, bootstrap=True, niters=4)), ('fit_2Dplaw', x)], surf, record=T),
            ob('scf-again', new, lambda: dict(fit_2D=False), lambda: [('compute_surface', {}), ('compute_spectrum', {}), ('fit_plaw', {})], names,
               before=lambda: dict(x, fit_2D=False, radialavg_kwargs=rad), record=F)]


def delvar_obs(tier):
    import astropy.units as u
    new = cls('DeltaVariance', image((4, 4), [(2, 3)]), hdr2, lags=[1, 1.5] * u.pix)
    x = dict(xlow=1.0 * u.pix, xhigh=1.5 * u.pix)
    curve = ('delta_var', 'delta_var_error', 'lags')

    def nanimg(I):
        y = image((6, 6), [(2, 3)])(I)
        y[4, 4] = float('nan')
        return y
    newn = cls('DeltaVariance', nanimg, hdr2, lags=[1, 1.5] * u.pix)
    C = 'compute_deltavar'
    P = ['fit_plaw']
    return [ob('delvar-limits', new, lambda: dict(x), lambda: [(C, {}), ('fit_plaw', x)], curve, record=P),
            ob('delvar-fill', new, lambda: dict(boundary='fill'), lambda: [(C, dict(boundary='fill')), ('fit_plaw', {})], curve, record=P),
            ob('delvar-options', new, lambda: dict(x, brk=2 * u.pix, boundary='fill', nan_treatment='interpolate', preserve_nan=True, allow_huge=True, fit_kwargs=dict(bootstrap=True)),
               lambda: [(C, dict(boundary='fill', nan_treatment='interpolate', preserve_nan=True, allow_huge=True)), ('fit_plaw', dict(x, brk=2 * u.pix, bootstrap=True))],
               ('lags',), record=[C, 'fit_plaw']),
            ob('delvar-blank', newn, lambda: dict(preserve_nan=True), lambda: [(C, dict(preserve_nan=True)), ('fit_plaw', {})], curve, record=['fit_plaw']),
            ob('delvar-again', new, lambda: dict(x), lambda: [(C, {}), ('fit_plaw', x)], curve, record=P, before=lambda: dict(boundary='fill', xlow=1.4 * u.pix)),
            ob('delvar-twice', new, lambda: {}, lambda: [(C, {}), ('fit_plaw', {})], curve, record=P, before=lambda: dict(x))]


def wavelet_obs(tier):
    import astropy.units as u
    def dominated(I):
        # few sign changes: one free pixel close to its value
        y = image((6, 6), [])(I)
        y[2, 3] = I.real('x', 2.9, 3.0)
        return y
    new = cls('Wavelet', dominated, hdr2, scales=[1, 1.5, 2, 2.5] * u.pix)
    x = dict(xlow=1.2 * u.pix, xhigh=2.5 * u.pix)
    curve = ('values', 'stddev', 'scales')
    names = curve + ('slope', 'slope_err')
    C, F = 'compute_transform', 'fit_transform'
    return [ob('wavelet-limits', new, lambda: dict(x), lambda: [(C, {}), (F, x)], names),
            ob('wavelet-unscaled', new, lambda: dict(scale_normalization=False), lambda: [(C, dict(scale_normalization=False)), (F, {})], names),
            ob('wavelet-weighted', new, lambda: dict(fit_kwargs=dict(weighted_fit=True)), lambda: [(C, {}), (F, dict(weighted_fit=True))], curve, record=[F]),
            ob('wavelet-options', new, lambda: dict(x, brk=2 * u.pix, scale_normalization=False, convolve_kwargs=dict(allow_huge=True), fit_kwargs=dict(min_fits_pts=2, bootstrap=True)),
               lambda: [(C, dict(scale_normalization=False, convolve_kwargs=dict(allow_huge=True))), (F, dict(x, brk=2 * u.pix, min_fits_pts=2, bootstrap=True))],
               ('scales',), record=[C, F]),
            ob('wavelet-again', new, lambda: dict(), lambda: [(C, {}), (F, {})], names, before=lambda: dict(x, scale_normalization=False))]


def other_obs(tier):
    import astropy.units as u
    from scipy.stats import lognorm, gamma
    bis = cls('Bispectrum', image((4, 4), [(1, 2), (3, 0)]))
    names = ('bispectrum', 'bicoherence')
    o = [ob('bispectrum-%s' % n, bis, lambda k=k: dict(k), lambda k=k: [('compute_bispectrum', k)], names, before=b) for n, k, b in
         [('seed', dict(nsamples=2, seed=11), None), ('mean', dict(nsamples=2, mean_subtract=True), None),
          ('again', dict(nsamples=2), lambda: dict(nsamples=1, seed=5, mean_subtract=True))]]
    pca = cls('PCA', image((2, 2, 2), [(0, 0, 1), (1, 1, 1)]), hdr3)
    W = ['find_spatial_widths', 'find_spectral_widths', 'fit_plaw']
    C = 'compute_pca'
    for n, k in [('mean', dict(mean_sub=True, n_eigs=2)), ('eigs', dict(n_eigs=1)), ('all', dict(n_eigs=-1, mean_sub=True))]:
        o.append(ob('pca-' + n, pca, lambda k=k: dict(k, decomp_only=True), lambda k=k: [(C, k)], ('cov_matrix', 'n_eigs'), record=W))
    o.append(ob('pca-cut', pca, lambda: dict(n_eigs='auto', min_eigval=0.7, eigen_cut_method='proportion', decomp_only=True, mean_sub=True),
                lambda: [(C, dict(n_eigs='auto', min_eigval=0.7, eigen_cut_method='proportion', mean_sub=True))], (), record=W + [C]))
    x = dict(xlow=1 * u.pix, xhigh=3 * u.pix)
    o.append(ob('pca-widths', pca, lambda: dict(x, n_eigs=2, spatial_method='fit', spectral_method='interpolate', fit_method='bayes', beam_fwhm=2 * u.arcmin, brunt_beamcorrect=True),
                lambda: [(C, dict(n_eigs=2)), (W[0], dict(method='fit', beam_fwhm=2 * u.arcmin, brunt_beamcorrect=True)), (W[1], dict(method='interpolate')),
                         (W[2], dict(x, fit_method='bayes'))], ('cov_matrix',), record=W))
    o.append(ob('pca-nobeam', pca, lambda: dict(n_eigs=2, brunt_beamcorrect=False),
                lambda: [(C, dict(n_eigs=2)), (W[0], dict(method='contour', brunt_beamcorrect=False, beam_fwhm=None)), (W[1], dict(method='walk-down')),
                         (W[2], dict(fit_method='odr'))], ('cov_matrix',), record=W))
    o.append(ob('pca-again', pca, lambda: dict(n_eigs=2, brunt_beamcorrect=False),
                lambda: [(C, dict(n_eigs=2)), (W[0], dict(method='contour', brunt_beamcorrect=False, beam_fwhm=None)), (W[1], dict(method='walk-down')),
                         (W[2], dict(fit_method='odr'))], ('cov_matrix',), record=W, before=lambda: dict(n_eigs=1, mean_sub=True, spatial_method='fit', brunt_beamcorrect=False)))
    gen = cls('Genus', image((4, 4), [(1, 2), (2, 0)]), lambda: hdr2(extra=dict(BMAJ=0.012, BMIN=0.012, BPA=0.0)), smoothing_radii=[1] * u.pix, numpts=3, min_value=0.8, max_value=2.5)
    G = 'make_genus_curve'
    for n, k in [('connectivity', dict(connectivity=1, min_size=1)), ('keep', dict(enable_small_removal=False)), ('size', dict(min_size=2)), ('default', {})]:
        o.append(ob('genus-' + n, gen, lambda k=k: dict(k), lambda k=k: [(G, k)], ('genus_stats', 'thresholds'), before=(lambda: dict(min_size=1)) if n == 'default' else None))
    ts = cls('Tsallis', image((4, 4), [(1, 2)]), hdr2, lags=[1, 2] * u.pix)
    for n, k in [('padded', dict(periodic=False, num_bins=3)), ('bins', dict(num_bins=4))]:
        o.append(ob('tsallis-' + n, ts, lambda k=k: dict(k, sigma_clip=3), lambda k=k: [('make_tsallis', k), ('fit_tsallis', dict(sigma_clip=3))],
                    ('lag_arrays',), record=['fit_tsallis']))
    o.append(ob('tsallis-again', ts, lambda: dict(num_bins=3, sigma_clip=3), lambda: [('make_tsallis', dict(num_bins=3)), ('fit_tsallis', dict(sigma_clip=3))],
                ('lag_arrays',), record=['fit_tsallis'], before=lambda: dict(num_bins=2, periodic=False, sigma_clip=2)))
    pdf = cls('PDF', image((2, 2), [(0, 1), (1, 1)]))
    edges = np.array([0.4, 1.1, 1.9, 3.2])
    o.append(ob('pdf-nofit', pdf, lambda: dict(bins=edges, do_fit=False), lambda: [('make_pdf', dict(bins=edges)), ('make_ecdf', {})], ('pdf', 'ecdf', 'bins'), record=['fit_pdf']))
    o.append(ob('pdf-fit', pdf, lambda: dict(bins=edges, model=gamma, floc=False, fscale=True, scale=2.0),
                lambda: [('make_pdf', dict(bins=edges)), ('make_ecdf', {}), ('fit_pdf', dict(model=gamma, floc=False, fscale=True, scale=2.0))], ('pdf', 'ecdf', 'bins'), record=['fit_pdf']))
    o.append(ob('pdf-again', pdf, lambda: dict(bins=edges), lambda: [('make_pdf', dict(bins=edges)), ('make_ecdf', {}), ('fit_pdf', dict(model=lognorm))], ('pdf', 'ecdf', 'bins'),
                record=['fit_pdf'], before=lambda: dict(bins=np.array([0.4, 3.2]), do_fit=False)))
    PD = lambda: [('make_pdf', {}), ('make_ecdf', {})]
    o.append(ob('pdf-twice', pdf, lambda: dict(do_fit=False), PD, ('pdf', 'ecdf', 'bins'), record=['fit_pdf'], before=lambda: dict(do_fit=False)))
    o.append(ob('pdf-number', cls('PDF', image((2, 2), [(0, 1)]), bins=3), lambda: dict(do_fit=False), PD, ('pdf', 'ecdf', 'bins'), record=['fit_pdf'], before=lambda: dict(do_fit=False)))
    mom = cls('StatMoments', image((6, 6), [(1, 2)]), hdr2, radius=2 * u.pix)
    M, H = 'compute_spatial_distrib', 'make_spatial_histograms'
    hk = dict(mean_bins=np.array([0., 1., 2., 4.]), variance_bins=np.array([0., 1., 3.]), skewness_bins=np.array([-3., 0., 3.]), kurtosis_bins=np.array([-3., 0., 4.]))
    names = ('mean', 'variance', 'mean_array', 'variance_array')
    o.append(ob('moments-open', mom, lambda: dict(hk, periodic=False, min_frac=0.5), lambda: [('array_moments', {}), (M, dict(periodic=False, min_frac=0.5)), (H, hk)], names, record=[H]))
    o.append(ob('moments-radius', mom, lambda: dict(radius=3 * u.pix), lambda: [('array_moments', {}), (M, dict(radius=3 * u.pix)), (H, {})], names + ('radius',), record=[H]))
    o.append(ob('moments-again', mom, lambda: dict(min_frac=0.9), lambda: [('array_moments', {}), (M, dict(min_frac=0.9)), (H, {})], names, record=[H], before=lambda: dict(periodic=False)))
    den = cls('Dendrogram_Stats', image((4, 4), [(1, 2)]), hdr2, min_deltas=np.array([0.1, 0.5, 1.0]), dendro_params=dict(min_value=0.1))
    D = ['compute_dendro', 'fit_numfeat', 'make_hists', 'save_results']
    o.append(ob('dendro-options', den, lambda: dict(periodic_bounds=True, dendro_obj='given', fit_kwargs=dict(size=7), hist_kwargs=dict(min_number=4, bins=3), save_results=True, output_name='name.pkl'),
                lambda: [(D[0], dict(periodic_bounds=True, dendro_obj='given')), (D[1], dict(size=7)), (D[2], dict(min_number=4, bins=3)), (D[3], dict(output_name='name.pkl'))], (), record=D))
    o.append(ob('dendro-default', den, lambda: {}, lambda: [(D[0], {}), (D[1], {}), (D[2], {})], (), record=D))
    o.append(ob('dendro-nohists', den, lambda: dict(make_hists=False), lambda: [(D[0], {}), (D[1], {})], (), record=D))
    return o


def obligations(tier):
    o = []
    for k in ('PowerSpectrum', 'VCA', 'MVC'):
        o += pspec_obs(k, tier)
    return o + vcs_obs(tier) + scf_obs(tier) + delvar_obs(tier) + wavelet_obs(tier) + other_obs(tier)
