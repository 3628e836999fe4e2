"""PCA widths, fit and sonic length"""
from props.common import *

TITLE = 'PCA widths, size-line width fit and sonic length follow their definitions'
META = dict(
    title=TITLE,
    statement='For every autocorrelation, the spectral width by walking down is where the straight '
              'segment to the first sample below 1/e of the maximum crosses it (error 0.5, blank if '
              'never), and the spatial width is the quadrature sum of the two fitted widths, each less '
              'a quarter of the beam in pixels (divided by sqrt(16 ln 2)) when beam correction is on, '
              'with the error propagated. The fit uses log10 of exactly the widths that are finite with '
              'finite errors and within the limits given in any spatial unit, with relative errors '
              'times 0.434; index, intercept, corrected index and model follow from it, and the sonic '
              'length is (sound speed over intercept) to the power one over the index, in the '
              'requested unit.',
    quantifier=dict(over=['inputs'], text='all widths, errors, fit results and autocorrelations of the '
                    'listed sizes, the listed beams, limits and units'),
    why_tests_cant='One cube is pinned; a wrong error term, a limit in another unit or a blank width '
                   'needs other inputs.',
    anchors=dict(files=['turbustat/statistics/pca/pca.py', 'turbustat/statistics/pca/width_estimate.py'],
                 mechanism=[dict(name='WidthEstimate1D', where='turbustat/statistics/pca/width_estimate.py:275'),
                            dict(name='WidthEstimate2D', where='turbustat/statistics/pca/width_estimate.py:19'),
                            dict(name='PCA.fit_plaw', where='turbustat/statistics/pca/pca.py:466'),
                            dict(name='PCA.sonic_length', where='turbustat/statistics/pca/pca.py:647')]))
MODULES = ['turbustat.statistics']
OUTSIDE = 'the Gaussian, ellipse and orthogonal-distance fits themselves (results left free), ' \
          'contour finding, Bayesian fit, more than 6 samples'
ASSUMPTIONS = ['leastsq_linear, WidthEstimate1D/2D, fit_2D_gaussian and fit_2D_ellipse are replaced by '
               'arbitrary results where their callers are decided']
LEV = math.exp(-1)


def walk_ob(n, k):
    def body(I):
        from turbustat.statistics.pca import WidthEstimate1D
        x = I.arr('x', (n, k), lo=-1, hi=1)
        for j in range(k):
            I.assume(x[0, j] > 0.05)
            for i in range(1, n):
                I.assume(abs(x[i, j]) < x[0, j] * 0.999)
        X = asobj(x)
        R = [[X[i, j] / X[0, j] for i in range(n)] for j in range(k)]
        for j in range(k):
            for i in range(1, n):
                I.assume(abs(R[j][i] - LEV) > 1e-5)
        s = I.snapshot(x)
        with I.code():
            w, e = WidthEstimate1D(x, method='walk-down')
        I.unchanged('autocorrelations', x, s)
        f = np.fft.fftfreq(n) * n
        for j in range(k):
            hit = [i for i in range(1, n) if bool(R[j][i] < LEV)]
            if not hit:
                I.true('blank %d' % j, isnan(asobj(w)[j]))
                I.true('blank error %d' % j, isnan(asobj(e)[j]))
                continue
            i = hit[0]
            I.eq('width %d' % j, (asobj(w)[j] - f[i - 1]) * (R[j][i] - R[j][i - 1]), LEV - R[j][i - 1], tol=1e-5)
            I.eq('error %d' % j, asobj(e)[j], 0.5)
    return Ob('walk-down-%d-%d' % (n, k), body, 'every set of %d curves of %d samples with maximum at zero lag' % (k, n))


def refused_ob():
    def body(I):
        import astropy.units as u
        from turbustat.statistics.pca import WidthEstimate1D, WidthEstimate2D
        x = I.arr('x', (3, 1), lo=0.1, hi=1)
        z = I.arr('z', (1, 3, 3), lo=0.1, hi=1)
        I.raises('method 1D', ValueError, WidthEstimate1D, x, method='slide')
        I.raises('method 2D', ValueError, WidthEstimate2D, z, method='slide')

        class Out(object):
            class y_stddev_0(object):
                value = 1.0
            class x_stddev_0(object):
                value = 1.0
        with I.stub('turbustat.statistics.pca.width_estimate.fit_2D_gaussian',
                    lambda a, b, c: (Out(), np.eye(4))):
            I.raises('no beam', ValueError, WidthEstimate2D, z, method='fit', spatial_cdelt=1 * u.deg)
            I.raises('no pixel', ValueError, WidthEstimate2D, z, method='fit', beam_fwhm=1 * u.deg)
            I.raises('beam unit', u.UnitConversionError, WidthEstimate2D, z, method='fit', beam_fwhm=1 * u.pc,
                     spatial_cdelt=1 * u.deg)
    return Ob('refused settings', body, 'every input of the listed shapes')


def width2_ob(n, method, beam, noise):
    def body(I):
        import astropy.units as u
        from turbustat.statistics.pca import WidthEstimate2D
        wx, wy = I.arr('wx', n, lo=1, hi=4), I.arr('wy', n, lo=1, hi=4)
        ex, ey = I.arr('ex', n, lo=0.1, hi=1), I.arr('ey', n, lo=0.1, hi=1)
        z = I.arr('z', (n, 3, 4), lo=0.5, hi=2)
        nz = I.arr('nz', (3, 4), lo=-0.25, hi=0.25) if noise else 0
        s = I.snapshot(z)
        seen = []

        def gauss(xm, ym, zz):
            k = len(seen)
            seen.append((xm, ym, zz))

            class P(object):
                def __init__(s, v):
                    s.value = v

            class O(object):
                x_stddev_0 = P(asobj(wx)[k])
                y_stddev_0 = P(asobj(wy)[k])

            class C(object):
                def diagonal(s):
                    return pack(I, np.array([asobj(ex)[k] * asobj(ex)[k], asobj(ey)[k] * asobj(ey)[k], 1.0, 1.0], dtype=object))
            return O(), C()

        class PathS(object):
            def __init__(s, inside, v):
                s.inside, s.vertices = inside, v

            def contains_point(s, p):
                return s.inside

        def paths(xm, ym, zz, level, idx=0):
            seen.append((xm, ym, zz, level))
            k = len(seen) - 1
            if method == 'contour-none' and k == 0:
                return []
            if method == 'contour-out' and k == 0:
                return [PathS(False, 'no')]
            return [PathS(False, 'no'), PathS(True, k)]

        def ell(v, **kw):
            if v == 'no':
                return 77.0, 77.0, 77.0, 77.0, None
            return asobj(wy)[v], asobj(wx)[v], asobj(ey)[v], asobj(ex)[v], None
        m = method.split('-')[0]
        kw = dict(method=m, noise_ACF=nz)
        t = 0.0
        if beam is not None:
            kw.update(beam_fwhm=beam[0] * u.Unit(beam[1]), spatial_cdelt=beam[2] * u.Unit(beam[3]))
            t = 0.25 * abs((beam[0] * u.Unit(beam[1])).to_value('deg') / (beam[2] * u.Unit(beam[3])).to_value('deg')) \
                / math.sqrt(16 * math.log(2))
        else:
            kw.update(brunt_beamcorrect=False)
        base = 'turbustat.statistics.pca.width_estimate.'
        with I.stub(base + 'fit_2D_gaussian', gauss), I.stub(base + 'get_contour_path', paths), \
                I.stub(base + 'fit_2D_ellipse', ell), I.code():
            w, e = WidthEstimate2D(z, **kw)
        if len(seen) != n:
            return
        I.unchanged('autocorrelations', z, s)
        ys, xs = np.mgrid[-1:2, -2:2]
        Z = asobj(z)
        for k in range(n):
            I.true('row coordinate %d' % k, np.array_equal(np.asarray(seen[k][0], dtype=float), ys))
            I.true('column coordinate %d' % k, np.array_equal(np.asarray(seen[k][1], dtype=float), xs))
            if m == 'fit':
                want = objarr((3, 4))
                for q in np.ndindex(3, 4):
                    want[q] = Z[(k,) + q] - (asobj(nz)[q] if noise else 0.0)
                I.eq('map %d' % k, seen[k][2], want)
            else:
                I.eq('level %d' % k, seen[k][3], LEV)
            if method in ('contour-none', 'contour-out') and k == 0:
                I.true('blank', isnan(asobj(w)[0]))
                I.true('blank error', isnan(asobj(e)[0]))
                continue
            a, b = asobj(wx)[k] - t, asobj(wy)[k] - t
            I.eq('width %d' % k, asobj(w)[k] * asobj(w)[k], a * a + b * b)
            I.le('positive %d' % k, 0.0, asobj(w)[k])
            p, q = a * asobj(ex)[k], b * asobj(ey)[k]
            I.eq('error %d' % k, asobj(e)[k] * asobj(e)[k] * (a * a + b * b), p * p + q * q, tol=1e-5)
    return Ob('spatial width-%d-%s%s%s' % (n, method, '-beam' + str(beam) if beam else '', '-noise' if noise else ''), body,
              'every fitted widths in [1,4] and errors in [0.1,1] of %d maps; map 3x4' % n)


def fit_ob(name, n, xlow=None, xhigh=None, nans=(), use_gamma=True, unit='pix', T=10.0, mu=1.36, hot=False):
    """widths as free values -> fit arguments -> parameters"""
    def body(I):
        import astropy.units as u
        from turbustat.statistics import PCA
        sw, se = I.arr('sw', n, lo=1, hi=10, nan=[(k,) for k in nans if k < n]), I.arr('se', n, lo=0.1, hi=1)
        vw = I.arr('vw', n, lo=0.5, hi=6)
        ve = I.arr('ve', n, lo=0.1, hi=1, nan=[(k - n,) for k in nans if k >= n])
        par = I.arr('par', 2, lo=0.2, hi=1)
        err = I.arr('err', 2, lo=0.01, hi=0.1)
        seen, w2, w1 = [], [], []
        cube = np.random.RandomState(3).rand(n + 1, 4, 3)
        conv = {'pix': 1.0, 'deg': 0.01, 'pc': 0.01 * math.pi / 180 * 100.0}
        lim = {}
        for nm, v in (('xlow', xlow), ('xhigh', xhigh)):
            if v is not None:
                lim[nm] = v * conv[unit] * u.Unit(unit)
                for k in range(n):
                    if k not in nans:
                        I.assume(abs(sw[k] - v) > 1e-6)
        b_ = 'turbustat.statistics.pca.pca.'

        def f2(*a, **k):
            w2.append((a, k))
            return sw, se

        def f1(*a, **k):
            w1.append((a, k))
            return vw, ve
        ok = [k for k in range(n) if k not in nans and k + n not in nans
              and (xlow is None or bool(sw[k] >= xlow)) and (xhigh is None or bool(sw[k] <= xhigh))]
        if len(ok) < 2:
            return
        with I.stub(b_ + 'WidthEstimate2D', f2), I.stub(b_ + 'WidthEstimate1D', f1), \
                I.stub(b_ + 'leastsq_linear', lambda *a, **k: (seen.append((a, k)), (par, err))[1]), I.code():
            p = PCA((cube, hdr3()), distance=100 * u.pc)
            p.run(n_eigs=n, beam_fwhm=2.0 * u.deg, show_progress=False, spatial_method='fit',
                  spectral_method='fit', mean_sub=True, **lim)
            idx, rng = p.index, p.index_error_range
            ic, icr = p.intercept(), p.intercept_error_range()
            icv = p.intercept(unit=u.km / u.s)
            g, gr = p.gamma, p.gamma_error_range
            mod = p.model(I.real('mx', lo=0, hi=2))
            sl, slr = p.sonic_length(T_k=T * u.K if not hot else (T / 1000.) * u.kK, mu=mu, use_gamma=use_gamma, unit=u.Unit(unit))
            wd = p.spatial_width(unit=u.Unit(unit))
            we = p.spatial_width_error(unit=u.Unit(unit))
            vd, vde = p.spectral_width(unit=u.km / u.s), p.spectral_width_error(unit=u.m / u.s)
        for nm, w, dflt in (('spectral', w1, 'walk-down'), ('spatial', w2, 'contour')):
            for a_, k_ in w:
                m_ = k_.get('method', a_[1] if len(a_) > 1 and isinstance(a_[1], str) else dflt)
                I.true(nm + ' method handed on', m_ == 'fit')
        if not (seen and w1 and w2):
            return
        I.eq('beam', w2[0][1].get('beam_fwhm', 2.0 * u.deg).to_value('deg'), 2.0)
        I.eq('pixel', w2[0][1]['spatial_cdelt'].to_value('deg') if 'spatial_cdelt' in w2[0][1] else 0.01, 0.01)
        I.true('spatial method', w2[0][1].get('method', 'fit') == 'fit')
        I.true('spectral method', w1[0][1].get('method', 'fit') == 'fit')
        a, kw = seen[0]
        nm = dict(zip(['x', 'y', 'x_err', 'y_err'], a))
        nm.update(kw)
        S, V, SE, VE = [list(asobj(q)) for q in (sw, vw, se, ve)]
        I.eq('x', nm['x'], np.array([log10(S[k]) for k in ok], dtype=object))
        I.eq('y', nm['y'], np.array([log10(V[k]) for k in ok], dtype=object))
        I.eq('x error', nm['x_err'], np.array([SE[k] * 0.434 / S[k] for k in ok], dtype=object))
        I.eq('y error', nm['y_err'], np.array([VE[k] * 0.434 / V[k] for k in ok], dtype=object))
        P_, E = list(asobj(par)), list(asobj(err))
        I.eq('index', idx, P_[0])
        I.eq('index low', asobj(rng)[0], P_[0] - E[0])
        I.eq('index high', asobj(rng)[1], P_[0] + E[0])
        I.eq('intercept', log10(one(val(ic))), P_[1])
        I.true('intercept unit', ic.unit == u.pix)
        I.eq('intercept low', log10(asobj(val(icr))[0]), P_[1] - E[1])
        I.eq('intercept high', log10(asobj(val(icr))[1]), P_[1] + E[1])
        I.eq('intercept in km/s', log10(one(val(icv)) * 10.0), P_[1])
        I.eq('corrected index', g, P_[0] * 1.52 - 0.19)
        I.eq('corrected low', gr[0], (P_[0] - E[0]) * 1.34 - 0.39)
        I.eq('corrected high', gr[1], (P_[0] + E[0]) * 1.70 + 0.01)
        I.eq('model', mod, P_[0] * I.real('mx', lo=0, hi=2) + P_[1])
        q = P_[0] * 1.52 - 0.19 if use_gamma else P_[0]
        cs = math.sqrt(1.380649e-23 * T / (mu * 1.67262192e-27)) / 100.0
        lam = one(val(sl)) / conv[unit]
        I.eq('sonic length', log10(lam) * q, math.log10(cs) - P_[1], tol=1e-5)
        I.true('sonic unit', sl.unit == u.Unit(unit))
        lo_, hi_ = asobj(val(slr))[0] / conv[unit], asobj(val(slr))[1] / conv[unit]
        I.eq('sonic range centre', lo_ + hi_, lam * 2.0)
        I.le('sonic range order', lo_, hi_)
        for k in range(n):
            if k not in nans:
                I.eq('spatial width %d' % k, asobj(val(wd))[k], S[k] * conv[unit])
                I.eq('spatial error %d' % k, asobj(val(we))[k], SE[k] * conv[unit])
            I.eq('spectral width %d' % k, asobj(val(vd))[k], V[k] * 0.1)
            if k + n not in nans:
                I.eq('spectral error %d' % k, asobj(val(vde))[k], VE[k] * 100.0)
    return Ob(name, body, 'every %d widths, errors and fit results' % n)


def bayes_ob(n, m):
    """the function that is sampled, and what is reported from an arbitrary chain"""
    def body(I):
        import emcee
        from turbustat.statistics.fitting_utils import bayes_linear
        x, y = I.arr('x', n, lo=-2, hi=2), I.arr('y', n, lo=-2, hi=2)
        ex, ey = I.arr('ex', n, lo=0.1, hi=1), I.arr('ey', n, lo=0.1, hi=1)
        b = I.real('b', lo=-2, hi=2)
        ch = I.arr('c', m, lo=-2, hi=2)
        th = [0.2 + 0.15 * k for k in range(m)]
        for k in range(m - 1):
            I.assume(ch[k] < ch[k + 1])
        got = {}

        class Sampler(object):
            def __init__(s, nw, nd, f, args=(), **k):
                s.f, s.args = f, args
                got.update(nw=nw, nd=nd, f=f, args=list(args), runs=[], reset=0)

            def run_mcmc(s, p, n_, **k):
                got['runs'].append((p, n_, got['reset']))
                return p, None, None

            def reset(s):
                got['reset'] += 1

            @property
            def flatchain(s):
                c = objarr((m, 2))
                for k in range(m):
                    c[k, 0], c[k, 1] = th[k], ch[k]
                return pack(I, c)

            def get_chain(s, flat=False, discard=0, **k):
                return s.flatchain
        s0 = I.snapshot(y)
        saved = emcee.EnsembleSampler
        emcee.EnsembleSampler = Sampler
        vals = []
        try:
            with I.code():
                par, err = bayes_linear(x, y, ex, ey, nWalkers=6, nBurn=7, nSample=9, conf_interval=[25., 75.])
                if got:
                    for t in (-0.01, 0.3, 1.2, math.pi / 2 + 0.01):
                        vals.append((t, got['f']([t, b], *got['args'])))
        finally:
            emcee.EnsembleSampler = saved
        if not got:
            return
        I.true('walkers', got['nw'] == 6 and got['nd'] == 2 and all(np.shape(r[0]) == (6, 2) for r in got['runs']))
        I.true('burn in, forgotten, then sampled', [(r[1], r[2]) for r in got['runs']] == [(7, 0), (9, 1)])
        for t, v in vals:
            if not 0 < t < math.pi / 2:
                I.true('angle %g excluded' % t, isinstance(v, float) and v == -math.inf)
                continue
            c, s = math.cos(t), math.sin(t)
            S = [s * s * ex[i] * ex[i] + c * c * ey[i] * ey[i] for i in range(n)]
            D = [c * y[i] - s * x[i] - b * c for i in range(n)]
            I.eq('log probability at %g' % t, v, total([-0.5 * D[i] * D[i] / S[i] - 0.5 * ln(S[i]) for i in range(n)]), tol=1e-6)

        def q(v, p):
            f = p * (m - 1)
            k = int(math.floor(f))
            return v[k] if k == m - 1 else v[k] + (f - k) * (v[k + 1] - v[k])
        E = asobj(err)
        sl = [math.tan(t) for t in th]
        I.eq('slope', par[0], q(sl, 0.5), tol=1e-9)
        I.eq('intercept', par[1], q(ch, 0.5), tol=1e-9)
        for j, p in enumerate((0.25, 0.75)):
            I.eq('slope range %d' % j, E[0, j], q(sl, p), tol=1e-9)
            I.eq('intercept range %d' % j, E[1, j], q(ch, p), tol=1e-9)
        I.unchanged('y', y, s0)
    return Ob('sampled line-%d-%d' % (n, m), body, 'every %d points with errors in [0.1,1], every ordered chain of %d intercepts in [-2,2]' % (n, m))


def one(x):
    return asobj(x).reshape(-1)[0] if isinstance(x, np.ndarray) else x


def limits_ob():
    def body(I):
        import astropy.units as u
        from turbustat.statistics import PCA
        sw, se = I.arr('sw', 3, lo=1, hi=10), I.arr('se', 3, lo=0.1, hi=1)
        cube = np.random.RandomState(3).rand(3, 4, 3)
        b_ = 'turbustat.statistics.pca.pca.'
        with I.stub(b_ + 'WidthEstimate2D', lambda *a, **k: (sw, se)), I.stub(b_ + 'WidthEstimate1D', lambda *a, **k: (sw, se)):
            with I.code():
                p = PCA((cube, hdr3()))
                p.compute_pca(n_eigs=3, mean_sub=True, show_progress=False)
                p.find_spatial_widths(beam_fwhm=2 * u.deg)
                p.find_spectral_widths()
            I.raises('limit without unit', TypeError, p.fit_plaw, xlow=2.0)
            I.raises('high limit without unit', TypeError, p.fit_plaw, xhigh=2.0)
            I.raises('nothing left', ValueError, p.fit_plaw, xlow=11 * u.pix)
            I.raises('unknown fit', TypeError, p.fit_plaw, fit_method='ols')
        I.raises('no beam', ValueError, p.run, n_eigs=3, show_progress=False)
    return Ob('refused limits', body, 'every 3 widths in [1,10]')


def obligations(tier):
    obs = [walk_ob(4, 2), walk_ob(5, 1), walk_ob(6, 1), refused_ob(),
           width2_ob(2, 'fit', None, False), width2_ob(2, 'fit', (3.0, 'arcmin', -40.0, 'arcsec'), True),
           width2_ob(2, 'contour', (0.02, 'deg', 0.01, 'deg'), False), width2_ob(2, 'contour-none', None, False),
           width2_ob(2, 'contour-out', (0.02, 'deg', 0.01, 'deg'), False),
           fit_ob('fit', 4), fit_ob('fit-limits', 3, xlow=2.0, xhigh=7.0), fit_ob('fit-limits-deg', 3, xlow=2.0, unit='deg', use_gamma=False),
           fit_ob('fit-limits-pc', 3, xhigh=6.0, unit='pc', T=20.0, mu=2.3), fit_ob('fit-blanks', 4, nans=[1, 6], hot=True),
           limits_ob(), bayes_ob(2, 4), bayes_ob(3, 5)]
    if tier == 'thorough':
        obs += [walk_ob(7, 2), width2_ob(3, 'contour', (0.02, 'deg', 0.01, 'deg'), False), fit_ob('fit-limits-6', 5, xlow=2.0, xhigh=7.0)]
    return obs
