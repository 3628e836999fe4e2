"""Mock spectral cubes (make_ppv and the compiled spectrum generator)"""
from props.common import *
from symx import pyx
import astropy.constants as co
import astropy.units as u

TITLE = 'A mock cube holds the emission of every voxel at its velocity'
META = dict(
    title=TITLE,
    statement='For every velocity and non-negative density field, temperature, line-of-sight length and line-of-sight axis, the brightness in a channel of a mock cube is the sum, '
              'over all voxels of that line of sight whose velocity lies in the velocity range (lower edges of channels included), of the voxel column density times a Gaussian centred '
              'on its velocity and normalised to one, whose variance is the thermal one plus the square of the velocity step to the neighbouring voxels, converted to kelvin. '
              'The channels divide the range evenly, their number being the range over the channel width (asked or estimated) rounded up, whatever units the limits, widths and '
              'fields are given in, and the header says so. Negative densities, reversed or non-velocity limits and too many channels are refused, fewer than six channels are warned about with their number, and results do not depend on the number of threads.',
    quantifier=dict(over=['inputs'], text='all velocities, densities, temperatures and lengths (or the listed free ones) for the listed field shapes and channel ranges'),
    why_tests_cant='The tests compare total column and centroid of one random field within tolerances; lost voxels, mixed units or a wrong line of sight for special values pass.',
    anchors=dict(files=['turbustat/simulator/make_cube.py', 'turbustat/simulator/spectrum.pyx'],
                 mechanism=[dict(name='make_ppv', where='turbustat/simulator/make_cube.py:18'),
                            dict(name='generate_spectrum', where='turbustat/simulator/spectrum.pyx:14'),
                            dict(name='field_slice', where='turbustat/simulator/make_cube.py:245')]))
OUTSIDE = 'fields above 4 voxels along the line of sight; a voxel exactly at the upper end of the velocity range; scheduling inside the process pool'
MODULES = ['turbustat.simulator', 'turbustat.simulator.make_cube']

PYX = os.path.join(REPO, 'turbustat', 'simulator', 'spectrum.pyx')
REAL = SYM_MOD = None
FAIL = ''


def load():
    """the compiled generator is built from the current source before the package is imported"""
    global REAL, SYM_MOD, FAIL
    import turbustat
    try:
        if os.path.exists(PYX):
            REAL = pyx.compiled(PYX, 'turbustat.simulator.spectrum')
            sys.modules['turbustat.simulator.spectrum'] = REAL
    except Exception as ex:
        out = getattr(ex, 'output', b'') or b''
        FAIL = 'cannot compile the generator: %s %s' % (ex, out[-300:])
    import turbustat.simulator
    try:
        if os.path.exists(PYX):
            SYM_MOD = pyx.as_python(PYX, 'turbustat.simulator.spectrum__symbolic')
    except Exception as ex:
        FAIL = 'cannot translate the generator: %s' % ex


load()


@contextlib.contextmanager
def generator(I):
    """symbolic runs execute the translated source, concrete ones the compiled one"""
    if FAIL:
        raise MissingName(FAIL)
    if SYM_MOD is None or not I.sym:
        yield
        return
    if not hasattr(SYM_MOD, 'generate_spectrum') or not hasattr(REAL, 'generate_spectrum'):
        raise MissingName('generate_spectrum')
    with I.stub('turbustat.simulator.spectrum.generate_spectrum', SYM_MOD.generate_spectrum):
        yield


def Q(x, unit):
    return u.Quantity(x, unit)


KT = (co.k_B * (1 * u.K) / (1.4 * co.m_p)).to(u.cm**2 / u.s**2).value
K21 = 1.823e13
PC = (1 * u.pc).to(u.cm).value
SQ2PI = math.sqrt(2 * math.pi)


def grad(v, k):
    n = len(v)
    if k == 0:
        return v[1] - v[0]
    if k == n - 1:
        return v[n - 1] - v[n - 2]
    return (v[k + 1] - v[k - 1]) / 2.0


def sx_exp(x):
    return s_uf('exp', x) if is_sym(x) else math.exp(x)


def spectrum(v, dens, vt2, dz, lo, hi, n):
    """from the definition, everything in cgs; velocities may be symbolic"""
    w = (hi - lo) / n
    cen = [lo + (k + 0.5) * w for k in range(n)]
    out = [[] for _ in cen]
    for k in range(len(v)):
        if not bool(v[k] >= lo) or not bool(v[k] < hi):
            continue
        g = grad(v, k)
        s2 = g * g + vt2
        amp = dens[k] * dz / (SQ2PI * sqrt(s2)) / K21
        for c in range(n):
            d = cen[c] - v[k]
            out[c].append(amp * sx_exp(-(d * d) / (2.0 * s2)))
    return [total(o) for o in out], cen


def fields(I, shape, vfree, dfree, vlo, vhi, same=None):
    """velocities and densities; free ones are symbolic"""
    v, d = objarr(shape), objarr(shape)
    span = vhi - vlo
    for k, ix in enumerate(np.ndindex(*shape)):
        v[ix] = I.real('v%s' % (ix,), lo=vlo, hi=vhi) if ix in vfree else round(vlo + span * (0.15 + 0.7 * ((k * 0.618 + 0.31) % 1.0)), 3) + 0.0007
        d[ix] = I.real('d%s' % (ix,), lo=0, hi=5) if ix in dfree else 0.5 + (k * 7 % 5) * 0.4
    return v, d


VU = dict(kms=u.km / u.s, ms=u.m / u.s, cms=u.cm / u.s)
FAC = dict(kms=1e5, ms=100.0, cms=1.0)


def cube_ob(shape, axis, vfree=(), dfree=(), unit='kms', n=3, lo=-3.0, hi=3.0, T=None, L=None, threads=1, name='', dunit='cm', margin=0.0):
    def body(I):
        from turbustat.simulator import make_ppv
        f = FAC[unit]
        k = 1e5 / f
        v, d = fields(I, shape, vfree, dfree, (lo - margin) * k, (hi + margin) * k)
        t = I.real('T', lo=50, hi=500) if T is None else T
        ln = I.real('L', lo=0.5, hi=3) if L is None else L
        vq, dq = Q(pack(I, v), VU[unit]), Q(pack(I, d), u.cm**-3 if dunit == 'cm' else u.m**-3)
        for x in v.ravel():
            if is_sym(x):
                I.assume(abs(x - hi * k) > 1e-3 * k)
        pools = []

        class Pool(object):
            def __init__(self, n=None, *a, **kw):
                pools.append(n)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def map(self, fn, it, *a):
                xs = list(it)
                return [fn(x) for x in xs]
            starmap = lambda self, fn, it, *a: [fn(*x) for x in it]
            imap = map

            def close(self):
                pass
            join = terminate = close
        kw = dict(los_axis=axis, T=Q(t, u.K), los_length=Q(ln, u.pc), v_min=Q(lo * k, VU[unit]), v_max=Q(hi * k, VU[unit]), chan_width=Q((hi - lo) * k / n, VU[unit]), return_hdu=False)
        with generator(I), I.stub('multiprocessing.Pool', Pool), I.code():
            cube, ax = make_ppv(vq, dq, threads=threads, **kw)
        if threads > 1:
            I.true('threads', pools in ([], [threads]))
        sp = [s for a, s in enumerate(shape) if a != axis]
        I.true('shape', tuple(cube.shape) == (n,) + tuple(sp))
        if tuple(cube.shape) != (n,) + tuple(sp):
            return
        I.true('unit', cube.unit == u.K)
        c = asobj(cube.value)
        a = asobj(ax.to(VU[unit]).value)
        vt2 = t * KT
        dz = ln * (PC / shape[axis])
        dm = 1.0 if dunit == 'cm' else 1e-6
        for y in range(sp[0]):
            for x in range(sp[1]):
                ix = [y, x]
                ix.insert(axis, slice(None))
                vv, dd = [q * f for q in v[tuple(ix)]], [q * dm for q in d[tuple(ix)]]
                want, cen = spectrum(vv, dd, vt2, dz, lo * 1e5, hi * 1e5, n)
                for i in range(n):
                    I.eq('cube %d %d %d' % (i, y, x), c[i, y, x], want[i], tol=1e-6)
        for i in range(n):
            I.eq('velocity %d' % i, a[i] / k, lo + (i + 0.5) * (hi - lo) / n)
    return Ob('cube-%s-%d-%s-%dv%dd%s' % ('x'.join(map(str, shape)), axis, unit, len(vfree), len(dfree), name), body,
              '%d free velocities and %d free densities of a %s field, axis %d, %d channels' % (len(vfree), len(dfree), 'x'.join(map(str, shape)), axis, n), max_paths=200, time_limit=150)


def edge_ob(unit='kms', n=4):
    """a uniform velocity exactly on the edge of two channels"""
    def body(I):
        from turbustat.simulator import make_ppv
        f = FAC[unit]
        v0 = I.real('v0', lo=-20, hi=20, integer=True)
        for at in range(n):
            lo = v0 - at * 1.0
            hi = lo + n * 1.0
            v, d = objarr((2, 2, 2)), objarr((2, 2, 2))
            v[...] = v0
            for ix in np.ndindex(2, 2, 2):
                d[ix] = I.real('d%s' % (ix,), lo=0.1, hi=3)
            with generator(I), I.code():
                cube, ax = make_ppv(Q(pack(I, v), VU[unit]), Q(pack(I, d), u.cm**-3), T=100 * u.K, los_length=1 * u.pc, v_min=Q(lo, VU[unit]), v_max=Q(hi, VU[unit]), chan_width=Q(1.0, VU[unit]), return_hdu=False)
            if cube.shape[0] != n:
                I.true('channels', False)
                return
            c = asobj(cube.value)
            vt2 = 100 * KT / f / f
            for i in range(n):
                e = i + 0.5 - at
                g = math.exp(-e * e / 2 / vt2) / math.sqrt(2 * math.pi * vt2) * (PC / 2) / f / K21
                for y in range(2):
                    for x in range(2):
                        I.eq('edge %d channel %d at %d %d' % (at, i, y, x), c[i, y, x], (d[0, y, x] + d[1, y, x]) * g, tol=1e-5)
    return Ob('edge-%s' % unit, body, 'any uniform integer velocity on any lower channel edge, any densities')


def velaxis_ob(units, width=None, disp='free', lims='none', name='', axis=0, index=None, other=(1, 2)):
    """number and position of the channels, in any mixture of units"""
    fu, lu, hu, wu, du = units

    def body(I):
        from turbustat.simulator import make_ppv
        t = I.real('T', lo=80, hi=120)
        f = FAC[fu]
        shape = other[:axis] + (4,) + other[axis:]
        v = np.resize([-1.0, 1.5, 0.5, -0.25, 2.0, -0.5, 0.75, 0.125], 4 * other[0] * other[1]).reshape(shape) * 1e5 / f
        kw = dict(los_axis=axis)
        if index is not None:
            kw['vel_struct_index'] = index
        vt2 = t * (KT / (f * f))        # everything in the unit of the field
        if disp == 'free':
            dd = I.real('disp', lo=1.0, hi=1.3)
            kw['vel_disp'] = Q(dd * (1e5 / FAC[du]), VU[du])
            D = dd * (1e5 / f)
        else:
            D = float(np.std(v, axis=axis).mean())
        lim = sqrt(D * D + vt2)
        lo, hi = float(v.min()) - lim * 4.0, float(v.max()) + lim * 4.0
        if 'l' in lims:
            a = I.real('vmin', lo=-5, hi=-4)
            lo = a * (1e5 / f)
            kw['v_min'] = Q(a * (1e5 / FAC[lu]), VU[lu])
        if 'h' in lims:
            b = I.real('vmax', lo=4, hi=5)
            hi = b * (1e5 / f)
            kw['v_max'] = Q(b * (1e5 / FAC[hu]), VU[hu])
        if width:
            w = I.real('width', lo=width[0], hi=width[1])
            kw['chan_width'] = Q(w * (1e5 / FAC[wu]), VU[wu])
            step = w * (1e5 / f)
        else:
            step = sqrt(D * D * (2.0 / 4)**(0.5 if index is None else index) + 2.0 * vt2) / 2.0
        calls = []

        def spec(vel, dens, edges, *a):
            calls.append(len(edges) - 1)
            return np.zeros(len(edges) - 1)
        with I.stub('turbustat.simulator.spectrum.generate_spectrum', spec), I.code():
            cube, ax = make_ppv(Q(v, VU[fu]), Q(np.ones(shape), u.cm**-3), T=Q(t, u.K), return_hdu=False, **kw)
        n = cube.shape[0]
        ratio = (hi - lo) / step
        I.true('enough channels', ratio <= n + 1e-6)
        I.true('no channel too many', ratio >= n - 1 - 1e-6)
        a = asobj(ax.to(VU[fu]).value)
        I.true('axis', len(a) == n)
        for i in range(min(n, len(a))):
            I.eq('channel %d' % i, a[i] * (f * 1e-5), (lo + (hi - lo) * ((i + 0.5) / n)) * (f * 1e-5), tol=1e-6)
    return Ob('channels-%s-%s-%s%s' % ('.'.join(units), lims, disp, '-width' if width else '') + name, body, 'any temperature, dispersion, limits and width', max_paths=60, time_limit=150)


def header_ob(axis, unit):
    def body(I):
        from turbustat.simulator import make_ppv
        import turbustat.io.sim_tools as st
        import inspect
        f = FAC[unit]
        k = 1e5 / f
        shape = (2, 3, 4)
        p, rf = I.real('pix', lo=0.5, hi=3), I.real('rf', lo=1, hi=3)
        lo, hi = I.real('lo', lo=-5, hi=-4), I.real('hi', lo=4, hi=5)
        v = np.linspace(-2, 2, 24).reshape(shape) * k
        ks = [I.real('s%d' % i, lo=0, hi=4) for i in range(3)]
        sig = inspect.signature(st.create_cube_header)
        got, hd = [], []

        def head(*a, **kw):
            b = sig.bind(*a, **kw)
            b.apply_defaults()
            got.append(b.arguments)
            return 'HEADER'

        def hdu(data=None, header=None, *a, **kw):
            hd.append((data, header))
            return 'HDU'

        def spec(vel, dens, edges, *a):
            x = objarr(len(edges) - 1)
            for i in range(len(x)):
                x[i] = ks[i % 3] * vel[0] * 1e-5 * 1e13
            return pack(I, x)
        n = 5
        with I.stub('turbustat.simulator.spectrum.generate_spectrum', spec), I.stub('turbustat.io.sim_tools.create_cube_header', head), \
                I.stub('astropy.io.fits.PrimaryHDU', hdu), I.code():
            out = make_ppv(Q(v, VU[unit]), Q(np.ones(shape), u.cm**-3), los_axis=axis, v_min=Q(lo * k, VU[unit]), v_max=Q(hi * k, VU[unit]),
                           chan_width=Q((hi - lo) * (k / (n - 0.5)), VU[unit]), pixel_ang_scale=Q(p, u.arcmin), restfreq=Q(rf, u.GHz))
        if len(got) != 1 or len(hd) != 1:
            return
        g = got[0]
        I.true('returned', out == 'HDU' and hd[0][1] == 'HEADER')
        I.eq('pixel', g['pixel_scale'].to(u.arcmin).value, p)
        I.eq('frequency', g['restfreq'].to(u.GHz).value, rf)
        I.eq('channel width', g['spec_pixel_scale'].to(u.km / u.s).value, (hi - lo) / n)
        I.eq('first channel', g['v0'].to(u.km / u.s).value, lo + (hi - lo) * (0.5 / n))
        sp = [s for a, s in enumerate(shape) if a != axis]
        I.true('shape', tuple(g['imshape']) == (n,) + tuple(sp) and g['bunit'] == u.K)
        d = asobj(hd[0][0])
        I.true('data shape', d.shape == (n,) + tuple(sp))
        for y in range(sp[0]):
            for x in range(sp[1]):
                ix = [y, x]
                ix.insert(axis, 0)
                for i in range(n):
                    I.eq('data %d %d %d' % (i, y, x), d[i, y, x], ks[i % 3] * (v[tuple(ix)] * f * 1e8 / K21), tol=1e-6)
    return Ob('header-%d-%s' % (axis, unit), body, 'any pixel size, frequency, limits and spectra')


def refuse_ob():
    def body(I):
        from turbustat.simulator import make_ppv
        v = np.linspace(-1, 1, 8).reshape(2, 2, 2) * u.km / u.s
        one = np.ones((2, 2, 2)) * u.cm**-3
        for ix in ((0, 0, 0), (1, 0, 1), (1, 1, 1)):
            d = objarr((2, 2, 2))
            d[...] = 1.0
            d[ix] = I.real('neg%s' % (ix,), lo=-5, hi=-0.001)
            I.raises('negative density %s' % (ix,), ValueError, make_ppv, v, Q(pack(I, d), u.cm**-3))
        a, w = I.real('a', lo=-3, hi=3), I.real('w', lo=0.01, hi=2)
        I.raises('reversed', ValueError, make_ppv, v, one, v_min=Q(a + w, u.km / u.s), v_max=Q(a, u.km / u.s))
        I.raises('reversed in other units', ValueError, make_ppv, v, one, v_min=Q(a + w, u.km / u.s), v_max=Q(a * 1000.0, u.m / u.s))
        I.raises('lower limit', u.UnitsError, make_ppv, v, one, v_min=Q(a, u.km), v_max=Q(5.0, u.km / u.s))
        I.raises('upper limit', u.UnitsError, make_ppv, v, one, v_min=Q(-5.0, u.km / u.s), v_max=Q(a, u.s))
        mx = I.real('mx', lo=1, hi=9.99)
        I.raises('channels', ValueError, make_ppv, v, one, v_min=-5.0 * u.km / u.s, v_max=5.0 * u.km / u.s, chan_width=Q(1.0, u.km / u.s), max_chan=mx)
        I.raises('channels in other units', ValueError, make_ppv, v, one, v_min=-5.0 * u.km / u.s, v_max=5.0 * u.km / u.s, chan_width=Q(1000.0, u.m / u.s), max_chan=mx)
        I.raises('default maximum', ValueError, make_ppv, v, one, v_min=-5.0 * u.km / u.s, v_max=5.0 * u.km / u.s, chan_width=Q(0.00999 - w * 1e-5, u.km / u.s))

    def go(I):
        body(I)
    return Ob('refused', go, 'any negative density, reversed limit, or channel maximum')


def warn_ob():
    def body(I):
        import warnings
        from turbustat.simulator import make_ppv
        v = np.linspace(-1, 1, 8).reshape(2, 2, 2) * u.km / u.s
        one = np.ones((2, 2, 2)) * u.cm**-3
        w = I.real('w', lo=1.1, hi=4.9)
        with I.stub('turbustat.simulator.spectrum.generate_spectrum', lambda vel, dens, edges, *a: np.zeros(len(edges) - 1)), I.code(), warnings.catch_warnings(record=True) as log:
            warnings.simplefilter('always')
            cube, ax = make_ppv(v, one, v_min=-5.0 * u.km / u.s, v_max=5.0 * u.km / u.s, chan_width=Q(w, u.km / u.s), return_hdu=False)
        n = cube.shape[0]
        said = [str(x.message) for x in log if 'channels' in str(x.message)]
        I.true('warned', bool(said) == (n < 6))
        I.true('with the number', all(str(n) in m for m in said))
    return Ob('few-channels', body, 'any channel width', max_paths=20)


def keep_ob():
    def body(I):
        from turbustat.simulator import make_ppv
        v, d = fields(I, (3, 1, 1), [(1, 0, 0)], [(0, 0, 0), (2, 0, 0)], -2.0, 2.0)
        vq, dq = Q(pack(I, v), u.km / u.s), Q(pack(I, d), u.cm**-3)
        sv, sd = I.snapshot(vq.value), I.snapshot(dq.value)
        lo, hi = Q(-3.0, u.km / u.s), Q(3000.0, u.m / u.s)
        with generator(I), I.code():
            make_ppv(vq, dq, v_min=lo, v_max=hi, chan_width=Q(2.0, u.km / u.s), return_hdu=False)
        I.unchanged('velocities', vq.value, sv)
        I.unchanged('densities', dq.value, sd)
        I.true('limits', lo.unit == u.km / u.s and hi.unit == u.m / u.s and lo.value == -3.0 and hi.value == 3000.0)
    return Ob('inputs-kept', body, 'one free velocity, two free densities', max_paths=50)


def obligations(tier):
    all222 = list(np.ndindex(2, 2, 2))
    obs = [cube_ob((3, 1, 2), 0, [(1, 0, 0)], list(np.ndindex(3, 1, 2))),
           cube_ob((1, 3, 2), 1, [(0, 0, 1), (0, 2, 1)], list(np.ndindex(1, 3, 2)), unit='ms', T=100.0, L=1.0),
           cube_ob((2, 1, 3), 2, [(1, 0, 1)], list(np.ndindex(2, 1, 3)), T=60.0),
           cube_ob((3, 1, 2), 0, [(0, 0, 1)], [(0, 0, 1), (2, 0, 1)], margin=1.0, L=2.0, T=200.0, n=2, name='-outside'),
           cube_ob((2, 2, 2), 0, [], all222, n=5), cube_ob((2, 2, 2), 1, [], all222, n=4, unit='cms', dunit='m'), cube_ob((3, 2, 2), 2, [], list(np.ndindex(3, 2, 2)), n=4, threads=3, name='-threads'),
           edge_ob(), edge_ob('ms'),
           velaxis_ob(('kms',) * 5), velaxis_ob(('kms',) * 5, disp='none'), velaxis_ob(('ms', 'ms', 'ms', 'ms', 'kms'), width=(1.6, 2.4)),
           velaxis_ob(('kms', 'kms', 'ms', 'ms', 'ms'), lims='lh', width=(1.0, 1.6)), velaxis_ob(('kms', 'ms', 'kms', 'kms', 'kms'), lims='l'),
           velaxis_ob(('kms', 'kms', 'cms', 'kms', 'kms'), lims='h'), velaxis_ob(('ms', 'kms', 'kms', 'cms', 'ms'), lims='lh', disp='none', width=(1.1, 1.7)),
           velaxis_ob(('kms',) * 5, disp='none', axis=1, name='-axis1'), velaxis_ob(('kms',) * 5, axis=2, index=0.8, name='-axis2'),
           velaxis_ob(('kms',) * 5, axis=0, index=0.8, name='-wide', other=(2, 7)), velaxis_ob(('kms',) * 5, axis=1, other=(6, 1), name='-tall'),
           header_ob(0, 'kms'), header_ob(1, 'ms'), header_ob(2, 'kms'), refuse_ob(), warn_ob(), keep_ob()]
    if tier == 'thorough':
        obs += [cube_ob((4, 1, 1), 0, [(0, 0, 0), (1, 0, 0), (3, 0, 0)], list(np.ndindex(4, 1, 1)), T=100.0, L=1.0),
                cube_ob((1, 4, 1), 1, [(0, 2, 0), (0, 3, 0)], list(np.ndindex(1, 4, 1)), unit='ms', n=4), edge_ob('cms', 6)]
    return obs
