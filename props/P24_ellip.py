"""Elliptical power-law model of the 2-D power spectrum"""
import types

from props.common import *

TITLE = 'The 2-D fit is the better elliptical power law within the limits'
META = dict(
    title=TITLE,
    statement='The surface fitted to a two-dimensional power spectrum is, at every frequency, a power law of the distance in axes turned by the angle '
              'and squeezed by the ellipticity, so that the field simulated with an angle and ellipticity follows it; ellipticities and their errors map to '
              'and from the fitted scale consistently. The fit sees the logarithm of exactly the spectrum values with frequency above the lower and up to the '
              'upper limit, and inside the angular mask when asked, at their own coordinates, starting from the given parameters or the one-dimensional fit. '
              'Of the fits from the start and from the angle turned by 90 degrees the one with the smaller residuals is reported, with its own errors, zero or blank '
              'for parameters held fixed.',
    quantifier=dict(over=['inputs', 'histories'], text='all spectrum values, frequencies, parameters and results of the inner fit within bounds'),
    why_tests_cant='Tests fit a few simulated fields on square grids; which of both fits supplies the errors, held parameters without resampling and '
                   'non-square spectra are never looked at.',
    anchors=dict(files=['turbustat/statistics/elliptical_powerlaw.py', 'turbustat/statistics/base_pspec2.py'],
                 mechanism=[dict(name='LogEllipticalPowerLaw2D', where='turbustat/statistics/elliptical_powerlaw.py:194'),
                            dict(name='fit_elliptical_powerlaw', where='turbustat/statistics/elliptical_powerlaw.py:11'),
                            dict(name='fit_2Dpspec', where='turbustat/statistics/base_pspec2.py:367')]))
MODULES = ['turbustat.statistics', 'turbustat.statistics.elliptical_powerlaw']
OUTSIDE = 'the Levenberg-Marquardt minimiser itself, spectra larger than 6x6, the values added to residuals when resampling'
ASSUMPTIONS = ['in the obligations on the fit, the minimiser returns arbitrary parameters, model values and covariances']


def cs(I, th):
    if I.sym and is_sym(th):
        s, c = s_sincos(th)
        return c, s
    return math.cos(th), math.sin(th)


def model_ob(name, pts, trig, circular=False):
    def body(I):
        from turbustat.statistics.elliptical_powerlaw import LogEllipticalPowerLaw2D
        n = len(pts)
        x = np.array([p[0] for p in pts])
        y = np.array([p[1] for p in pts])
        if trig == 'free':
            th = I.real('th', lo=-3, hi=3)
        else:
            th = trig
        a, g = I.real('a'), I.real('g')
        t = np.inf if circular else I.real('t', lo=-3, hi=3)
        with I.code():
            m = LogEllipticalPowerLaw2D.evaluate(x, y, a, t, th, g)
        m = asobj(m)
        c, s = cs(I, th)
        if circular:
            q = 1.0
        else:
            q = 1.0 / (1.0 + (s_uf('exp', -t) if I.sym else math.exp(-t)))
        for i in range(n):
            if x[i] == 0 and y[i] == 0:
                I.eq('centre', m[i], 0.0)
                continue
            u, v = x[i] * c - y[i] * s, x[i] * s + y[i] * c
            r2 = q * q * u * u + v * v
            I.eq('value %d' % i, m[i], a + 0.5 * g * log10(r2), tol=1e-6)
    return Ob('model-' + name, body, 'all amplitudes, slopes%s%s at %d frequencies' % ('' if circular else ', ellipticities',
                                                                                      ', angles' if trig == 'free' else '', len(pts)), atoms=False)


def transform_ob():
    def body(I):
        from turbustat.statistics import elliptical_powerlaw as ep
        t, d = I.real('t', lo=-3, hi=3), I.real('d', lo=0, hi=1)
        E = s_uf('exp', -t) if I.sym else math.exp(-t)
        a, b = I.real('a', lo=-2, hi=0), I.real('b', lo=0.5, hi=2)
        x = I.real('x', lo=0.1, hi=0.4)
        with I.code():
            v = ep.inverse_interval_transform(t, a, b)
            e = ep.inverse_interval_transform_stderr(d, t, a, b)
            f = ep.interval_transform_stderr(d, x, a, b)
            w = ep.interval_transform(x, a, b)
        I.eq('from the fitted scale', v * (1.0 + E), (b - a) + a * (1.0 + E))
        I.eq('error', e * (1.0 + E) * (1.0 + E), (b - a) * E * d)
        I.eq('to the fitted scale', w, ln(x - a) - ln(b - x))
        I.eq('error to the fitted scale', f * (x - a) * (b - x), (b - a) * d)
    return Ob('transform', body, 'all parameters')


class Fitter(object):
    """stands for the minimiser"""

    def __init__(self, I, cov, npts, nfree=4, boots=0):
        self.I, self.cov, self.npts, self.nfree, self.calls = I, cov, npts, nfree, []

    def cls(self):
        rec = self
        I = self.I

        class Lev(object):
            def __init__(self, *a, **k):
                self.fit_info = {}

            def __call__(self, model, x, y, z, weights=None, **k):
                i = len(rec.calls)
                names = ('logamplitude', 'ellip_transf', 'theta', 'gamma')
                p = [I.real('p%d_%d' % (i, j)) for j in range(4)]
                for j, nm in enumerate(names):
                    if getattr(model, nm).fixed:
                        p[j] = float(model.parameters[j])
                vals = [I.real('m%d_%d' % (i, j)) for j in range(rec.npts)]
                info = {}
                c = None
                if rec.cov:
                    c = objarr((rec.nfree, rec.nfree))
                    for r in range(rec.nfree):
                        for s in range(rec.nfree):
                            c[r, s] = I.real('c%d_%d%d' % (i, r, s), lo=0.2, hi=2)
                    info['param_cov'] = pack(I, c)
                else:
                    info['param_cov'] = None
                self.fit_info = info
                out = Out()
                out.parameters = pack(I, np.array(p, dtype=object))
                out.v = pack(I, np.array(vals, dtype=object))
                for nm in ('logamplitude', 'ellip_transf', 'theta', 'gamma'):
                    setattr(out, nm, types.SimpleNamespace(fixed=bool(getattr(getattr(model, nm), 'fixed'))))
                out.fixed = {nm: getattr(out, nm).fixed for nm in ('logamplitude', 'ellip_transf', 'theta', 'gamma')}
                out.param_names = ('logamplitude', 'ellip_transf', 'theta', 'gamma')
                rec.calls.append(dict(model=model, x=x, y=y, z=z, w=weights, p=p, v=vals, c=c, out=out, fitter=self,
                                      start=list(getattr(model, 'parameters', [])), fixed=[getattr(out, nm).fixed for nm in out.param_names]))
                return out

        class Out(object):
            def __call__(self, x, y):
                return self.v
        return Lev


def fit_ob(cov=True, fixed=False, weights=False, npts=3):
    """which fit is reported, with which errors"""
    def body(I):
        from turbustat.statistics.elliptical_powerlaw import fit_elliptical_powerlaw
        x, y = np.array([0.1, -0.2, 0.3, 0.05])[:npts], np.array([0.25, 0.1, -0.15, 0.4])[:npts]
        z = I.arr('z', npts)
        F = Fitter(I, cov, npts, nfree=2 if fixed else 4)
        p0 = (1.5, 0.25, 0.5, -2.0)
        with I.stub('astropy.modeling.fitting.LevMarLSQFitter', F.cls()), I.code():
            params, errs, model, fitter = fit_elliptical_powerlaw(z, x, y, p0, radial_weighting=weights, fix_ellip_params=fixed)
        K = F.calls
        if not K:
            return
        I.true('number of fits', len(K) == (1 if fixed else 2))
        if len(K) != (1 if fixed else 2):
            return
        for k, c in enumerate(K):
            I.eq('x %d' % k, c['x'], x)
            I.eq('y %d' % k, c['y'], y)
            I.eq('values %d' % k, c['z'], z)
            if weights:
                I.eq('weights %d' % k, c['w'], 1.0 / np.sqrt(x * x + y * y))
            else:
                I.true('no weights %d' % k, c['w'] is None)
            th = (p0[2] + k * math.pi / 2) % math.pi
            I.eq('start %d' % k, np.array([s for s in c['start']])[[0, 2, 3]], np.array([p0[0], th, p0[3]]))
            I.true('ellipticity start %d' % k, (c['start'][1] > 30) if fixed else abs(c['start'][1] - p0[1]) < 1e-12)
            I.true('fixed %d' % k, c['fixed'] == [False, fixed, fixed, False])
        best = 0
        if not fixed:
            R = [total([abs(z[i] - c['v'][i]) for i in range(npts)]) for c in K]
            I.assume(abs(R[0] - R[1]) > 1e-3)
            best = 1 if bool(R[0] > R[1]) else 0
        B = K[best]
        I.true('model of the better fit', model is B['out'])
        I.eq('parameters of the better fit', params, np.array(B['p'], dtype=object))
        e = asobj(errs)
        I.true('four errors', e.shape == (4,))
        if e.shape != (4,):
            return
        free = [0, 3] if fixed else [0, 1, 2, 3]
        for j in range(4):
            if j not in free and not cov and bool(isnan(e[j])):
                continue        # no covariance: nothing is known
            elif j not in free:
                I.eq('error of fixed %d' % j, e[j], 0.0)
            elif cov:
                I.eq('error %d' % j, e[j] * e[j], B['c'][free.index(j), free.index(j)], tol=1e-6)
            else:
                I.true('no error %d' % j, bool(isnan(e[j])))
    return Ob('fit-%s%s%s' % ('covariance' if cov else 'no-covariance', '-fixed' if fixed else '', '-weights' if weights else ''), body,
              'all values, model values, parameters and covariances', max_paths=400)


def boot_ob(fixed, n=2, alpha=0.5):
    def body(I):
        from turbustat.statistics.elliptical_powerlaw import fit_elliptical_powerlaw
        x, y = np.array([0.1, -0.2]), np.array([0.25, 0.1])
        z = I.arr('z', 2)
        F = Fitter(I, True, 2)
        with I.stub('astropy.modeling.fitting.LevMarLSQFitter', F.cls()), I.code():
            params, errs, model, fitter = fit_elliptical_powerlaw(z, x, y, (1.5, 0.25, 0.5, -2.0), bootstrap=True, niters=n, alpha=alpha, fix_ellip_params=fixed)
        K = F.calls
        first = 1 if fixed else 2
        if not K:
            return
        I.true('number of fits', len(K) == first + n)
        if len(K) != first + n:
            return
        e = asobj(errs)
        I.true('four errors', e.shape == (4,))
        P = [c['p'] for c in K[first:]]
        for j in (0, 3):
            v = [p[j] for p in P]
            # linear percentiles of the refits
            v = sorted_sym(v)
            lo, hi = (n - 1) * (0.5 - alpha / 2), (n - 1) * (0.5 + alpha / 2)

            def q(f):
                k = min(int(math.floor(f)), n - 2)
                return v[k] + (v[k + 1] - v[k]) * (f - k)
            I.eq('half width %d' % j, e[j], 0.5 * (q(hi) - q(lo)), tol=1e-6)
        if fixed:
            for j in (1, 2):
                if not bool(isnan(e[j])):       # undefined for the infinite parameter of a circle
                    I.eq('error of fixed %d' % j, e[j], 0.0)
            I.true('error of the angle', not bool(isnan(e[2])))
    return Ob('fit-resampled%s' % ('-fixed' if fixed else ''), body, 'all values and all results of %d refits' % n, max_paths=900, time_limit=100)


def sorted_sym(v):
    v = list(v)
    for i in range(1, len(v)):
        j = i
        while j > 0 and bool(v[j] < v[j - 1]):
            v[j], v[j - 1] = v[j - 1], v[j]
            j -= 1
    return v


def refuse_ob():
    def body(I):
        from turbustat.statistics.elliptical_powerlaw import fit_elliptical_powerlaw
        x, y = np.array([0.1, -0.2, 0.3]), np.array([0.25, 0.1, -0.15])
        z = asobj(I.arr('z', 3))
        p0 = (1.5, 0.25, 0.5, -2.0)
        I.raises('method', ValueError, fit_elliptical_powerlaw, pack(I, z), x, y, p0, fit_method='MCMC')
        for bad in (np.nan, np.inf):
            w = z.copy()
            w[1] = bad
            I.raises('not finite', ValueError, fit_elliptical_powerlaw, pack(I, w), x, y, p0)
    return Ob('refused', body, 'any values')


def use_ob(shape, lo, hi, mask=False, p0='given', default=False, fixed=False):
    """fit_2Dpspec with an arbitrary result of the fit"""
    def body(I):
        import astropy.units as u
        from turbustat.statistics import PowerSpectrum
        ny, nx = shape
        ps = I.arr('ps', shape, lo=0.5, hi=4)
        p, e = I.arr('p', 4, lo=-1, hi=1), I.arr('e', 4, lo=0, hi=1)
        seen = {}

        def fake(values, x, y, p0, **k):
            seen.update(values=values, x=x, y=y, p0=p0, **k)
            return p, e, 'model', 'fitter'
        given = (1.0, 0.5, 0.25, -3.0)
        sl = I.arr('sl', 2)
        am = I.real('am')
        az = (np.arange(ny * nx).reshape(shape) % 3) != 1
        kw = {} if default else dict(low_cut=lo / u.pix, high_cut=hi / u.pix)
        if fixed:
            kw['fix_ellip_params'] = True
        with I.stub('turbustat.statistics.elliptical_powerlaw.fit_elliptical_powerlaw', fake), I.code():
            o = PowerSpectrum(np.ones(shape), header=hdr2())
            I.plant(o, '_ps2D', ps)
            I.plant(o, '_freqs', np.array([0.1, 0.3, 0.45]) / u.pix)
            if mask:
                I.plant(o, '_azim_mask', az)
            if p0 in ('slope', 'slopes'):
                I.plant(o, '_slope', sl[0] if p0 == 'slope' else sl)
                o.fit = types.SimpleNamespace(params=pack(I, np.array([am, 1.0], dtype=object)))
            o.fit_2Dpspec(p0=given if p0 == 'given' else (), bootstrap=False, niters=7, use_azimmask=mask is True, radial_weighting=fixed, **kw)
        if 'values' not in seen:
            return
        if default:
            lo_, hi_ = 2.0 / max(shape), 0.45
        else:
            lo_, hi_ = lo, hi
        fy, fx = np.fft.fftshift(np.fft.fftfreq(ny))[::-1], np.fft.fftshift(np.fft.fftfreq(nx))
        ps = asobj(val(o.ps2D))
        want = []
        # rows run from high to low vertical frequency
        for j in range(ny):
            for i in range(nx):
                r = math.hypot(fy[j], fx[i])
                if lo_ < r <= hi_ and (mask is not True or az[j, i]):
                    want.append((log10(ps[j, i]), fx[i], fy[j]))
        I.true('number of values', np.size(seen['values']) == len(want))
        if np.size(seen['values']) == len(want):
            I.eq('values', seen['values'], np.array([w[0] for w in want], dtype=object), tol=1e-6)
            I.eq('x', seen['x'], np.array([w[1] for w in want]))
            I.eq('y', seen['y'], np.array([w[2] for w in want]))
        if p0 == 'given':
            I.true('start', tuple(seen['p0']) == given)
        else:
            st = list(seen['p0'])
            I.eq('start amplitude', st[0], am)
            I.eq('start slope', st[3], sl[0])
        I.true('options', seen.get('bootstrap') is False and seen.get('niters') == 7 and bool(seen.get('fix_ellip_params')) is fixed and
               bool(seen.get('radial_weighting')) is fixed)
        E = s_uf('exp', -p[1]) if I.sym else math.exp(-p[1])
        I.eq('slope', o.slope2D, p[3])
        I.eq('slope error', o.slope2D_err, e[3])
        I.eq('ellipticity', o.ellip2D * (1.0 + E), 1.0)
        I.eq('ellipticity error', o.ellip2D_err * (1.0 + E) * (1.0 + E), E * e[1])
        I.eq('angle error', o.theta2D_err, e[2])
        neg = p[2] < 0
        I.eq('angle', o.theta2D, where(neg, p[2] + math.pi, p[2]), tol=1e-9)
    return Ob('use-%dx%d-%s%s%s%s%s' % (shape + (p0, '-mask' if mask is True else '-mask-unused' if mask else '', '-default' if default else '',
                                                '-fixed' if fixed else '', '-%g-%g' % (lo, hi))), body,
              'all spectra of %dx%d and results of the fit' % shape, atoms=True)


def empty_ob():
    def body(I):
        import astropy.units as u
        from turbustat.statistics import PowerSpectrum
        ps = I.arr('ps', (4, 4), lo=0.5, hi=4)
        with I.code():
            o = PowerSpectrum(np.ones((4, 4)), header=hdr2())
            I.plant(o, '_ps2D', ps)
            I.plant(o, '_freqs', np.array([0.1, 0.3, 0.45]) / u.pix)
        I.raises('nothing left', ValueError, o.fit_2Dpspec, p0=(1.0, 0.5, 0.25, -3.0), low_cut=0.9 / u.pix, high_cut=0.95 / u.pix)
    return Ob('use-empty', body, 'all spectra of 4x4')


def obligations(tier):
    P = [(0.1, 0.2), (-0.3, 0.25), (0.0, 0.4), (0.5, 0.0), (0.0, 0.0)]
    obs = [model_ob('free-angle', P, 'free'), model_ob('circular', P, 'free', circular=True),
           transform_ob(), refuse_ob(), empty_ob(),
           fit_ob(), fit_ob(cov=False), fit_ob(fixed=True), fit_ob(cov=False, fixed=True), fit_ob(fixed=True, weights=True), fit_ob(weights=True),
           boot_ob(False), boot_ob(True)]
    for shape in ((4, 4), (5, 4), (4, 6), (5, 5)):
        obs.append(use_ob(shape, 0.2, 0.45))
    obs += [use_ob((4, 6), 0.1, 0.36, mask=True), use_ob((4, 6), 0.1, 0.36, mask='unused'), use_ob((5, 6), 0, 0, default=True), use_ob((4, 4), 0.25, 0.5, p0='slope'),
            use_ob((4, 4), 0.25, 0.5, p0='slopes', fixed=True)]
    if tier == 'thorough':
        obs += [fit_ob(npts=4), use_ob((6, 6), 0.15, 0.5, mask=True), boot_ob(False, alpha=0.7)]
    return obs
