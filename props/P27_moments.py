"""Moment maps, their errors and their files"""
import contextlib
import types

from props.common import *

TITLE = 'Moment errors are the propagated noise; moments survive saving and loading'
META = dict(
    title=TITLE,
    statement='For any cube, the error of the integrated intensity is the channel width times the root of the summed squared noise of the unmasked channels, '
              'blank where there are none, and for complete spectra the errors of centroid and line width follow from first-order propagation of the noise '
              'through their definitions, the same whether computed plane by plane or at once, and without changing the maps given. '
              'A noise level may be given once or with the request, is refused when negative or of another kind of unit, and moments, errors and their units '
              'and headers stay with their own names in memory and through saving and loading.',
    quantifier=dict(over=['inputs', 'histories'], text='all voxel values, noise levels and noise cubes within bounds'),
    why_tests_cant='One test saves and reloads the maps of one cube with the code under test on both sides; no value of any error is ever checked.',
    anchors=dict(files=['turbustat/moments/_moment_errs.py', 'turbustat/moments/make_moments.py'],
                 mechanism=[dict(name='moment0_error', where='turbustat/moments/_moment_errs.py:30'),
                            dict(name='moment1_error', where='turbustat/moments/_moment_errs.py:83'),
                            dict(name='moment2_error', where='turbustat/moments/_moment_errs.py:144'),
                            dict(name='Moments', where='turbustat/moments/make_moments.py:33')]))
MODULES = ['turbustat.moments', 'turbustat.moments._moment_errs', 'turbustat.moments.make_moments']
OUTSIDE = 'moments along spatial axes, errors of centroid and line width of spectra with masked channels, the moments computed by spectral-cube'
ASSUMPTIONS = ['spectral-cube is replaced by a stand-in with the documented attributes (data, mask, spectral axis, moments)']


class Filled(object):
    def __init__(self, q):
        self.q = q

    def __getitem__(self, v):
        return self.q[v]


def make_cube(I, x, mask, vel, unit='K', cls=object):
    """stand-in for a SpectralCube"""
    import astropy.units as u
    n = x.shape[0]

    class Cube(cls):
        pass
    c = Cube.__new__(Cube)
    d = {}
    filled = asobj(x).copy()
    filled[~mask] = float('nan')
    dv = abs(vel[1] - vel[0])
    m0, m1, m2 = [objarr(x.shape[1:]) for _ in range(3)]
    for ix in np.ndindex(*x.shape[1:]):
        ch = [k for k in range(n) if mask[(k,) + ix]]
        if not ch:
            m0[ix] = m1[ix] = m2[ix] = float('nan')
            continue
        s = total([asobj(x)[(k,) + ix] for k in ch])
        m0[ix] = s * dv
        m1[ix] = total([asobj(x)[(k,) + ix] * vel[k] for k in ch]) / s
        m2[ix] = total([asobj(x)[(k,) + ix] * (vel[k] - m1[ix]) * (vel[k] - m1[ix]) for k in ch]) / s
    un, kms = u.Unit(unit), u.km / u.s

    def q(a, t):
        return u.Quantity(pack(I, a), t)

    def include(data=None, wcs=None, view=()):
        return mask[view] if view != () else mask
    vals = dict(unit=un, spectral_axis=u.Quantity(np.array(vel), kms), shape=x.shape, size=x.size, ndim=3, meta={'k': 1}, _wcs='wcs', wcs='wcs', _nowcs_header='hdr', header='cube header',
                _data=pack(I, asobj(x)), _mask=types.SimpleNamespace(include=include), filled_data=Filled(q(filled, un)), _is_huge=False, allow_huge_operations=False,
                _pix_size_slice=lambda axis: float(dv), _pix_cen=lambda: (np.broadcast_to((np.array(vel) - vel[0])[:, None, None], x.shape), None, None),
                moment0=lambda axis=0, how=None, **k: q(m0, un * kms), moment1=lambda axis=0, how=None, **k: q(m1, kms), moment2=lambda axis=0, how=None, **k: q(m2, kms**2),
                linewidth_sigma=lambda how=None, **k: q(np.array([sqrt(v) for v in m2.ravel()], dtype=object).reshape(m2.shape), kms))
    for k, v in vals.items():
        object.__setattr__(c, k, v) if cls is object else d.__setitem__(k, v)
    if cls is not object:
        c = d
    return c, (m0, m1, m2), dv


@contextlib.contextmanager
def env(I):
    def proj(value, **k):
        return value
    proj2 = proj
    with contextlib.ExitStack() as st:
        st.enter_context(I.stub('spectral_cube.lower_dimensional_structures.Projection', proj2))
        st.enter_context(I.stub('spectral_cube.wcs_utils.drop_axis', lambda w, a: w))
        yield


def voxels(I, shape, free, pos=True):
    x = asobj(np.abs(np.cos(np.arange(np.prod(shape)) * 1.7 + 0.4)).reshape(shape) * 2 + 0.5)
    for k, ix in enumerate(free):
        x[ix] = I.real('x%d' % k, lo=0.5, hi=3)
    return x


def err_ob(what, how, noise='level', mask=None, given=True, shape=(3, 1, 2), free=((0, 0, 0), (1, 0, 0)), down=False):
    def body(I):
        import astropy.units as u
        from turbustat.moments import _moment_errs as E
        vel = np.array([2.0, 1.5, 1.0, 0.5])[:shape[0]] if down else np.array([1.0, 1.5, 2.0, 2.5])[:shape[0]]
        x = voxels(I, shape, free)
        mk_ = np.ones(shape, dtype=bool)
        for ix in (mask or ()):
            mk_[ix] = False
        c, (m0, m1, m2), dv = make_cube(I, x, mk_, vel)
        if noise == 'level':
            s = I.real('noise', lo=0.1, hi=2)
            scale = u.Quantity(s, u.K)
            sg = objarr(shape)
            sg[...] = s
            st = contextlib.nullcontext()
        else:
            sg = asobj(np.abs(np.sin(np.arange(np.prod(shape)) * 0.9 + 1.0)).reshape(shape) + 0.3)
            sg[0, 0, 0] = I.real('noise0', lo=0.1, hi=2)
            sg[1, 0, 0] = I.real('noise1', lo=0.1, hi=2)
            scale, _, _ = make_cube(I, sg, np.ones(shape, dtype=bool), vel)
            st = I.stub('spectral_cube.SpectralCube', type(scale))
        mu, kms = u.K * u.km / u.s, u.km / u.s

        def q(a, t):
            return u.Quantity(pack(I, a), t)
        M0, M1, M2 = q(m0, mu), q(m1, kms), q(m2, kms**2)
        snap_ = [I.snapshot(v.value) for v in (M0, M1, M2)]
        kw = dict(how=how)
        if given:
            kw.update(moment0=M0, moment1=M1)
        with st, env(I), I.code():
            if what == 'moment0':
                e = E.moment0_error(c, scale, how=how)
            elif what == 'moment1':
                e = E.moment1_error(c, scale, **kw)
            elif what == 'moment2':
                e = E.moment2_error(c, scale, moment2=M2 if given else None, **kw)
            elif what == 'sigma':
                e = E.linewidth_sigma_err(c, scale, moment2=M2 if given else None, **kw)
            else:
                e = E.linewidth_fwhm_err(c, scale, moment2=M2 if given else None, **kw)
        I.true('unit', e.unit.is_equivalent({'moment0': mu, 'moment2': kms**2}.get(what, kms)))
        v = asobj(e.to({'moment0': mu, 'moment2': kms**2}.get(what, kms)).value)
        I.true('size', v.shape == shape[1:])
        n = shape[0]
        for ix in np.ndindex(*shape[1:]):
            col = [(k,) + ix for k in range(n)]
            if what == 'moment0':
                ch = [k for k in col if mk_[k]]
                if not ch:
                    I.true('blank %s' % (ix,), bool(isnan(v[ix])))
                    continue
                I.eq('error %s' % (ix,), v[ix] * v[ix], total([sg[k] * sg[k] for k in ch]) * dv * dv, tol=1e-6)
                continue
            if not all(mk_[k] for k in col):
                if not any(mk_[k] for k in col):
                    I.true('blank %s' % (ix,), bool(isnan(v[ix])))
                continue
            S = total([x[k] for k in col])
            a = [vel[k] - m1[ix] for k in range(n)]
            e1 = total([a[k] * a[k] * sg[col[k]] * sg[col[k]] for k in range(n)]) / (S * S)
            if what == 'moment1':
                I.eq('error %s' % (ix,), v[ix] * v[ix], e1, tol=1e-6)
                continue
            b = [a[k] * a[k] - m2[ix] for k in range(n)]
            # the term of the centroid error vanishes for complete spectra
            cen = total([x[col[k]] * a[k] for k in range(n)]) / S
            e2 = total([b[k] * b[k] * sg[col[k]] * sg[col[k]] for k in range(n)]) / (S * S) + 4.0 * e1 * cen * cen
            if what == 'moment2':
                I.eq('error %s' % (ix,), v[ix] * v[ix], e2, tol=1e-6)
            else:
                f = 1.0 if what == 'sigma' else 8.0 * math.log(2.0)
                I.eq('error %s' % (ix,), v[ix] * v[ix] * m2[ix] * 4.0, e2 * f, tol=1e-6)
        for nm, mm, s_ in zip(('integrated intensity', 'centroid', 'second moment'), (M0, M1, M2), snap_):
            I.unchanged(nm, mm.value, s_)
    nm = '%s-%s-%s%s%s%s' % (what, how, noise, '-masked' if mask else '', '' if given else '-computed', '-down' if down else '')
    return Ob('error-' + nm, body, '%d free voxels of %s and any noise' % (len(free), shape), time_limit=120)


def how_ob():
    def body(I):
        import astropy.units as u
        from turbustat.moments import _moment_errs as E
        x = voxels(I, (3, 1, 1), ((0, 0, 0),))
        c, (m0, m1, m2), dv = make_cube(I, x, np.ones((3, 1, 1), dtype=bool), np.array([1.0, 1.5, 2.0]))
        s = u.Quantity(I.real('noise', lo=0.1, hi=2), u.K)
        with env(I):
            for f in (E.moment0_error, E.moment1_error, E.moment2_error):
                I.raises('method', ValueError, f, c, s, how='ray')
    return Ob('error-method', body, 'any voxel and noise')


def scale_ob():
    def body(I):
        import astropy.units as u
        from turbustat.moments import Moments
        x = voxels(I, (3, 1, 1), ((0, 0, 0),))
        c, _, _ = make_cube(I, x, np.ones((3, 1, 1), dtype=bool), np.array([1.0, 1.5, 2.0]))
        s = I.real('s', lo=0, hi=3)
        with I.stub('spectral_cube.SpectralCube', type(c)):
            with I.code():
                m = Moments(c, scale=u.Quantity(s, u.mK))
                v = m.scale
                none = Moments(c).scale
            I.eq('kept', v.to(u.mK).value, s)
            I.true('none', none is None)
            I.raises('negative', ValueError, Moments, c, scale=u.Quantity(-s - 0.1, u.K))
            I.raises('unit', u.UnitsError, Moments, c, scale=u.Quantity(s, u.m))
            I.raises('no unit', TypeError, Moments, c, scale=s)
            I.raises('method', TypeError, Moments, c, moment_method='other')
    return Ob('scale', body, 'any noise level')


def class_ob(given, how='slice', units=True):
    """Moments: which scale is used, and what is forwarded"""
    def body(I):
        import astropy.units as u
        from turbustat.moments import Moments
        x = voxels(I, (3, 1, 2), ((0, 0, 0),))
        c, (m0, m1, m2), dv = make_cube(I, x, np.ones((3, 1, 2), dtype=bool), np.array([1.0, 1.5, 2.0]))
        s, t = I.real('s', lo=0.1, hi=3), I.real('t', lo=0.1, hi=3)
        kms = u.km / u.s
        res = [u.Quantity(I.arr('e%d' % k, (1, 2), lo=0, hi=1), un) for k, un in enumerate((u.K * kms, kms, kms))]
        seen = {}

        def rec(nm, r):
            def f(cube, scale, **k):
                seen[nm] = (cube, scale, k)
                return r
            return f
        st = [I.stub('spectral_cube.SpectralCube', type(c))]
        for nm, r in zip(('moment0_error', 'moment1_error', 'linewidth_sigma_err'), res):
            st.append(I.stub('turbustat.moments._moment_errs.' + nm, rec(nm, r)))
        with contextlib.ExitStack() as es:
            for q in st:
                es.enter_context(q)
            es.enter_context(I.code())
            m = Moments(c, scale=None if given in ('none', 'call') else u.Quantity(s, u.K), moment_method=how)
            m.make_moments(units=units)
            m.make_moment_errors(**({} if given in ('none', 'object') else dict(scale=u.Quantity(t, u.K))))
            mom, err = m.all_moments(), m.all_moment_errs()
            one = [m.moment0, m.moment1, m.linewidth], [m.moment0_err, m.moment1_err, m.linewidth_err]
        for k in range(3):
            I.true('same maps', one[0][k] is mom[k] and one[1][k] is err[k])
            I.true('units of maps', hasattr(mom[k], 'unit') == units)
        I.eq('integrated', val(mom[0]), m0)
        I.eq('centroid', val(mom[1]), m1, tol=1e-6)
        lw = asobj(val(mom[2]))
        I.eq('width', lw * lw, m2, tol=1e-6)
        if given == 'none':
            for k in range(3):
                I.eq('no error %d' % k, val(err[k]), np.zeros((1, 2)))
            return
        if len(seen) != 3:
            I.true('errors computed', bool(seen) or all(err[k] is res[k] for k in range(3)))
            return
        for k, nm in enumerate(('moment0_error', 'moment1_error', 'linewidth_sigma_err')):
            I.true('%s reported' % nm, err[k] is res[k])
            cube, scale, kw = seen[nm]
            I.true('%s cube' % nm, cube is c)
            I.eq('%s scale' % nm, scale.to(u.K).value, s if given == 'object' else t)
            I.true('%s method' % nm, kw.get('how') == how)
            for a, b in (('moment0', m0), ('moment1', m1)):
                if kw.get(a) is not None:
                    I.eq('%s %s' % (nm, a), val(kw[a]), b, tol=1e-6)
    return Ob('maps-%s-%s%s' % (given, how, '' if units else '-plain'), body, 'one free voxel, any noise', atoms=True)


def order_ob():
    def body(I):
        from turbustat.moments import Moments
        x = voxels(I, (3, 1, 1), ((0, 0, 0),))
        c, _, _ = make_cube(I, x, np.ones((3, 1, 1), dtype=bool), np.array([1.0, 1.5, 2.0]))
        with I.stub('spectral_cube.SpectralCube', type(c)), I.code():
            m = Moments(c)
        I.raises('errors first', ValueError, m.make_moment_errors)
    return Ob('maps-order', body, 'one free voxel')


def real_cube(x):
    from spectral_cube import SpectralCube
    from astropy.io import fits
    return SpectralCube.read(fits.PrimaryHDU(x, hdr3()))


def store_ob(units, prefix='name', path=None):
    """dictionary, saving and loading with arbitrary maps"""
    def body(I):
        import astropy.units as u
        from astropy.io import fits
        from turbustat.moments import Moments
        c = real_cube(np.ones((3, 2, 2)))
        kms = u.m / u.s
        un = [u.K * kms, kms, kms]
        maps = [I.arr('m%d' % k, (2, 2)) for k in range(3)]
        errs = [I.arr('e%d' % k, (2, 2)) for k in range(3)]
        store = {}

        class HDU(object):
            def __init__(self, data=None, header=None, **k):
                self.data, self.header = data, header

        class HList(list):
            def writeto(self, name, *a, **k):
                store[name] = (list(self), k)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

        def opn(name, *a, **k):
            if name not in store:
                raise IOError(name)
            return HList(store[name][0])
        with contextlib.ExitStack() as es:
            for nm, r in (('PrimaryHDU', HDU), ('ImageHDU', HDU), ('HDUList', HList), ('open', opn)):
                es.enter_context(I.stub('astropy.io.fits.' + nm, r))
            es.enter_context(I.code())
            m = Moments(c)
            for nm, a, b, t in zip(('moment0', 'moment1', 'linewidth'), maps, errs, un):
                I.plant(m, '_' + nm, u.Quantity(a, t) if units else a)
                I.plant(m, '_%s_err' % nm, u.Quantity(b, t) if units else b)
            d = m.to_dict()
            pre = ('' if path is None else path + '/') + prefix
            m.to_fits(save_name=pre, overwrite=True)
            kw = {} if path is None else dict(moments_path=path)
            back = Moments.from_fits(c, moments_prefix=prefix, **kw)
            named = Moments.from_fits(c, moment0=pre + '_linewidth.fits', centroid=pre + '_moment0.fits', linewidth=pre + '_centroid.fits', moments_prefix='x')
            none = Moments.from_fits(c, moments_prefix='missing')
        for k, nm in enumerate(('moment0', 'centroid', 'linewidth')):
            I.eq('%s in the dictionary' % nm, d[nm][0], maps[k])
            I.eq('%s error in the dictionary' % nm, d[nm + '_error'][0], errs[k])
            I.true('%s unit' % nm, u.Unit(d[nm][1]['BUNIT']) == un[k] and u.Unit(d[nm + '_error'][1]['BUNIT']) == un[k])
            I.true('%s has two axes' % nm, d[nm][1].get('WCSAXES', 2) == 2)
        if len(store) == 0:
            return
        for k, (a, e) in enumerate((('moment0', 'moment0_err'), ('moment1', 'moment1_err'), ('linewidth', 'linewidth_err'))):
            I.eq('%s loaded' % a, getattr(back, a), maps[k])
            I.eq('%s loaded' % e, getattr(back, e), errs[k])
            I.eq('%s loaded by name' % a, getattr(named, a), maps[(k + 2) % 3])
            I.eq('%s loaded by name' % e, getattr(named, e), errs[(k + 2) % 3])
            I.true('%s missing' % a, getattr(none, a) is None and getattr(none, e) is None)
        I.true('files', sorted(store) == sorted(pre + s for s in ('_moment0.fits', '_centroid.fits', '_linewidth.fits')))
        I.true('options of saving', all(v[1].get('overwrite') is True for v in store.values()))
    return Ob('files-%s%s' % ('units' if units else 'plain', '-path' if path else ''), body, 'all 2x2 maps and errors')


def mask_ob():
    def body(I):
        import astropy.units as u
        from turbustat.moments import Moments
        c = real_cube(np.arange(12.0).reshape(3, 2, 2) + 1)
        msk = np.arange(12).reshape(3, 2, 2) % 5 != 0
        s = I.real('s', lo=0.1, hi=2)

        def getdata(name, *a, **k):
            return msk
        with I.stub('astropy.io.fits.getdata', getdata), I.code():
            m = Moments.from_fits(c, moments_prefix='none', mask_name='mask.fits', scale=u.Quantity(s, u.K))
        I.true('mask applied', np.array_equal(m.cube.mask.include(), msk))
        I.eq('scale', m.scale.value, s)
        with I.code():
            m2 = Moments(c)
            m2.apply_mask(msk)
        I.true('mask applied to the object', np.array_equal(m2.cube.mask.include(), msk) and np.array_equal(c.mask.include(), np.ones((3, 2, 2), dtype=bool)))
    return Ob('files-mask', body, 'any noise level')


def obligations(tier):
    blank = [(0, 0, 1), (1, 0, 1), (2, 0, 1), (1, 0, 0)]
    obs = []
    for how in ('slice', 'cube', 'auto'):
        obs += [err_ob('moment0', how), err_ob('moment0', how, mask=blank)]
    for how in ('slice', 'cube'):
        obs += [err_ob('moment0', how, noise='cube', mask=blank), err_ob('moment1', how), err_ob('moment1', how, noise='cube'), err_ob('moment1', how, mask=blank[:3]),
                err_ob('moment2', how, free=((1, 0, 0),)), err_ob('sigma', how, free=((1, 0, 0),))]
    obs += [err_ob('moment1', 'cube', given=False), err_ob('moment1', 'slice', given=False, down=True), err_ob('moment2', 'cube', given=False, free=((1, 0, 0),)), err_ob('moment2', 'slice', noise='cube', free=((1, 0, 0),)),
            err_ob('fwhm', 'slice', free=((1, 0, 0),)), err_ob('fwhm', 'cube', given=False, free=((1, 0, 0),)), err_ob('moment2', 'auto', free=((1, 0, 0),)), how_ob(), scale_ob(),
            class_ob('object'), class_ob('call'), class_ob('none'), class_ob('object', how='cube'), class_ob('both'), class_ob('object', units=False), order_ob(),
            store_ob(True), store_ob(False), store_ob(True, path='dir'), mask_ob()]
    return obs
