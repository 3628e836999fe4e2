"""Units, input data and headers"""
from props.common import *

TITLE = 'Input forms and units are interchangeable'
META = dict(
    title=TITLE,
    statement='A length, frequency or area given in pixels, angles or physical units stands for the same size: conversions use the pixel size of the '
              'header and the distance, round-trip exactly, and quantities without a unit or of another kind are refused. Data given as array and '
              'header, as a pair, or as a FITS object reach the statistics with the same values and header (as a copy when asked for), and '
              'headers made for simulated data describe the given pixel sizes, beam, spectral axis and reference pixel at their own axes.',
    quantifier=dict(over=['inputs'], text='all values, pixel sizes and distances within bounds, and all listed units and input forms'),
    why_tests_cant='Tests convert one value for one header; mixed units, inverse units and non-square images are not compared.',
    anchors=dict(files=['turbustat/statistics/base_statistic.py', 'turbustat/io/input_base.py', 'turbustat/io/sim_tools.py', 'turbustat/io/try_load_beamwidth.py'],
                 mechanism=[dict(name='BaseStatisticMixIn', where='turbustat/statistics/base_statistic.py:23'),
                            dict(name='input_data', where='turbustat/io/input_base.py:27'),
                            dict(name='create_cube_header', where='turbustat/io/sim_tools.py:27')]))
MODULES = ['turbustat.statistics', 'turbustat.io', 'turbustat.io.sim_tools', 'turbustat.io.try_load_beamwidth']
OUTSIDE = 'the WCS computation of astropy (pixel sizes are left free or taken from simple headers), header keywords handled by radio_beam'
ASSUMPTIONS = ['the pixel size returned by astropy.wcs is an arbitrary positive number']


def base(pix=0.01, cube=False, dist=None, extra=None):
    from turbustat.statistics.base_statistic import BaseStatisticMixIn
    o = BaseStatisticMixIn()
    o.header = hdr3(pix, extra=extra) if cube else hdr2(pix, extra)
    if dist is not None:
        o.distance = dist
    return o


RAD = math.pi / 180.0


def size_of(U, p, D, dunit):
    """pixels per unit U: 1/(size of a pixel in U)"""
    import astropy.units as u
    if U.is_equivalent(u.pix):
        return 1.0
    if U.is_equivalent(u.deg):
        return p * (1.0 * u.deg).to(U).value
    return p * RAD * D * (1.0 * dunit).to(U).value


def units():
    import astropy.units as u
    return dict(pix=u.pix, deg=u.deg, arcsec=u.arcsec, rad=u.rad, pc=u.pc, AU=u.AU, kpc=u.kpc)


def turned(kind, pix):
    """the same square pixels of size pix, turned on the sky"""
    c, s = math.cos(0.6), math.sin(0.6)
    m = dict(PC1_1=c, PC1_2=s, PC2_1=-s, PC2_2=c) if kind == 'pc' else dict(CD1_1=-pix * c, CD1_2=pix * s, CD2_1=pix * s, CD2_2=pix * c)
    if kind == 'half':
        m = dict(CDELT1=-2.0 * pix, CDELT2=2.0 * pix, PC1_1=0.5, PC2_2=0.5)
    return m


def spatial_ob(name, dunit='pc', free=True, turn=None):
    def body(I):
        import astropy.units as u
        U, dU = units()[name], units()[dunit]
        v = I.arr('v', 2, lo=0.5, hi=20)
        p = I.real('p', lo=0.001, hi=0.5) if free else 0.02
        D = I.real('D', lo=1, hi=500)
        seen = []

        def sc(w):
            seen.append(1)
            return pack(I, np.array([p, p], dtype=object))

        def conv():
            o = base(0.02, dist=u.Quantity(D, dU), extra=turned(turn, 0.02) if turn else None)
            if turn == 'cd':
                del o.header['CDELT1'], o.header['CDELT2']
            pv, uv = u.Quantity(v, u.pix), u.Quantity(v, U)
            to = o._to_pixel(uv)
            frm = o._spatial_unit_conversion(pv, U)
            back = o._to_pixel(o._spatial_unit_conversion(pv, U))
            f1 = o._to_pixel_freq(u.Quantity(v, 1 / U) if not I.sym else uv.__class__(v, u.Unit(1 / U)))
            f2 = o._spatial_freq_unit_conversion(pv.__class__(v, u.pix**-1), U**-1)
            ar = o._to_pixel_area(u.Quantity(v, U**2))
            return to, frm, back, f1, f2, ar
        if free:
            with I.stub('astropy.wcs.utils.proj_plane_pixel_scales', sc), I.code():
                to, frm, back, f1, f2, ar = conv()
            if not seen and name != 'pix':
                return
        else:
            with I.code():
                to, frm, back, f1, f2, ar = conv()
        k = size_of(U, p, D, dU)
        for nm, q, un in (('to', to, u.pix), ('from', frm, U), ('back', back, u.pix), ('freq to', f1, u.pix**-1), ('freq from', f2, U**-1), ('area', ar, u.pix**2)):
            I.true('unit of %s' % nm, q.unit.is_equivalent(un) and abs((1 * q.unit).to(un).value - 1) < 1e-9)
        v = asobj(v)
        for i in range(2):
            I.eq('to pixels %d' % i, asobj(val(to))[i] * k, v[i])
            I.eq('from pixels %d' % i, asobj(val(frm))[i], v[i] * k)
            I.eq('back %d' % i, asobj(val(back))[i], v[i])
            I.eq('frequency to pixels %d' % i, asobj(val(f1))[i], v[i] * k)
            I.eq('frequency from pixels %d' % i, asobj(val(f2))[i] * k, v[i])
            I.eq('area %d' % i, asobj(val(ar))[i] * k * k, v[i], tol=1e-5)
    return Ob('spatial-%s-%s%s' % (name, dunit, ('' if free else '-header') + ('-' + turn if turn else '')), body, 'any values, pixel size and distance', atoms=True)


def spectral_ob(dv, unit):
    def body(I):
        import astropy.units as u
        U = dict(ms=u.m / u.s, kms=u.km / u.s, pix=u.pix)[unit]
        v = I.arr('v', 2, lo=0.5, hi=20)
        k = abs(dv) / (1000.0 if unit == 'kms' else 1.0) if unit != 'pix' else 1.0
        with I.code():
            from turbustat.statistics.base_statistic import BaseStatisticMixIn
            o = BaseStatisticMixIn()
            o.header = hdr3(0.01, dv)
            a = o._to_spectral(u.Quantity(v, u.pix), U)
            b = o._to_spectral(u.Quantity(v, U), u.pix)
            f = o._spectral_freq_unit_conversion(u.Quantity(v, u.pix**-1), U**-1)
            g = o._spectral_freq_unit_conversion(u.Quantity(v, U**-1), u.pix**-1)
            I.true('has spectral axis', bool(o._has_spectral()))
            I.true('image has none', not bool(base()._has_spectral()))
        I.raises('image', ValueError, base()._has_spectral, raise_error=True)
        v = asobj(v)
        for i in range(2):
            I.eq('from pixels %d' % i, asobj(val(a))[i], v[i] * k)
            I.eq('to pixels %d' % i, asobj(val(b))[i] * k, v[i])
            I.eq('frequency from pixels %d' % i, asobj(val(f))[i] * k, v[i])
            I.eq('frequency to pixels %d' % i, asobj(val(g))[i], v[i] * k)
        for nm, q, un in (('from', a, U), ('to', b, u.pix), ('freq from', f, U**-1), ('freq to', g, u.pix**-1)):
            I.true('unit of %s' % nm, q.unit.is_equivalent(un) and abs((1 * q.unit).to(un).value - 1) < 1e-9)
    return Ob('spectral-%s-%s' % (dv, unit), body, 'any values, channel width %s m/s' % dv)


def refuse_ob():
    def body(I):
        import astropy.units as u
        v = I.real('v', lo=0.5, hi=4)
        o = base()
        I.raises('no unit', TypeError, o._to_pixel, v)
        I.raises('other kind', u.UnitConversionError, o._to_pixel, u.Quantity(v, u.s) if not I.sym else sq(v, u.s))
        I.raises('no distance', AttributeError, o._to_pixel, 3.0 * u.pc)
        I.raises('target kind', u.UnitConversionError, o._spatial_unit_conversion, 3.0 * u.pix, u.s)

        def setd(x):
            o.distance = x
        I.raises('distance without unit', TypeError, setd, v)
        I.raises('distance of another kind', u.UnitConversionError, setd, 3.0 * u.s)
        I.raises('several distances', TypeError, setd, np.array([1.0, 2.0]) * u.pc)

        def seth(x):
            o.header = x
        I.raises('header', TypeError, seth, 3)

        def setdata(x):
            o.data = x
        I.raises('data', TypeError, setdata, [1.0, 2.0])
        h = hdr2()
        h['CDELT2'] = 0.02
        o.header = h
        I.raises('non-square pixels', ValueError, o._to_pixel, 3.0 * u.deg)
    return Ob('refused', body, 'any value')


def sq(v, unit):
    from symx.qty import SymQ
    return SymQ(v, unit)


def input_ob(form, copy):
    def body(I):
        import turbustat.io.input_base as ib
        from astropy.io import fits
        x = I.split(I.arr('x', (2, 3), nan='sym'))
        h = hdr2()
        s = I.snapshot(x)
        with I.code():
            if form == 'array':
                d = ib.input_data(x, no_header=True, need_copy=copy)
                g = None
            else:
                src = (x, h) if form == 'tuple' else [x, h]
                d, g = ib.input_data(src, need_copy=copy)
                d2 = ib.input_data(src, no_header=True, need_copy=copy)
                I.true('data alone', d2.shape == x.shape)
        if g is not None:
            I.true('header', g == h)
        I.true('shape', d.shape == x.shape)
        for k in np.ndindex(2, 3):
            e, q = asobj(x)[k], asobj(d)[k]
            I.true('blank %s' % (k,), bool(isnan(e)) == bool(isnan(q)))
            if not bool(isnan(e)):
                I.eq('value %s' % (k,), q, e)
        if copy:
            d[0, 0] = 77.0
            if not bool(isnan(asobj(x)[0, 0])):
                I.unchanged('data', x, s)
            else:
                I.true('data', bool(isnan(asobj(x)[0, 0])))
    return Ob('input-%s%s' % (form, '-copy' if copy else ''), body, 'any 2x3 map, blank anywhere', max_paths=200)


def forms_ob(cube):
    """the same statistic from every form of input (fixed data)"""
    def body(I):
        import turbustat.io.input_base as ib
        from astropy.io import fits
        import astropy.units as u
        v = I.real('v')
        sh = (2, 3, 4) if cube else (3, 4)
        x = np.arange(24.0 if cube else 12.0).reshape(sh)
        h = hdr3() if cube else hdr2()
        from turbustat.statistics.base_statistic import BaseStatisticMixIn
        forms = dict(hdu=fits.PrimaryHDU(x, h), image=fits.ImageHDU(x, h), pair=(x, h), list=[x, h])
        if cube:
            from spectral_cube import SpectralCube
            forms['cube'] = SpectralCube.read(fits.PrimaryHDU(x, h))
        else:
            from spectral_cube import Projection
            forms['projection'] = Projection.from_hdu(fits.PrimaryHDU(x, h))
        for nm, f in forms.items():
            with I.code():
                o = BaseStatisticMixIn()
                o.input_data_header(f, None)
                q = BaseStatisticMixIn()
                q.input_data_header(f, h)
            for r in (o, q):
                d = np.asarray(val(r.data), dtype=float)
                I.true('shape of %s' % nm, d.shape == sh)
                if d.shape == sh:
                    I.eq('values of %s' % nm, d * v, x * v)
                I.true('header of %s' % nm, abs(r.header['CDELT2'] - h['CDELT2']) < 1e-12 and r.header['CTYPE1'] == h['CTYPE1'])
            with I.code():
                c = ib.input_data(f, no_header=True, need_copy=True)
            if nm not in ('cube',):
                keep = x.copy()
                np.asarray(c)[(0,) * len(sh)] = 55.0
                I.true('copy of %s' % nm, bool((np.asarray(x) == keep).all()))
        o = BaseStatisticMixIn()
        I.raises('array without header', ValueError, o.input_data_header, x, None)
        I.raises('array alone', TypeError, ib.input_data, x)
        I.raises('three items', TypeError, ib.input_data, (x, h, 3))
        I.raises('file name', TypeError, ib.input_data, 'name.fits')
    return Ob('forms-%s' % ('cube' if cube else 'image'), body, 'fixed data in every form')


def simhdr_ob(cube, pu, bu, vu):
    def body(I):
        import astropy.units as u
        import turbustat.io.sim_tools as st
        P, B = dict(deg=u.deg, arcmin=u.arcmin)[pu], dict(deg=u.deg, arcsec=u.arcsec)[bu]
        p, b, f, dv, v0 = I.real('p', lo=0.01, hi=1), I.real('b', lo=0.1, hi=3), I.real('f', lo=1, hi=3), I.real('dv', lo=-3, hi=3), I.real('v0')
        ny, nx, nv = 7, 12, 5
        V = dict(ms=u.m / u.s, kms=u.km / u.s, hz=u.GHz)[vu]

        def head(d):
            seen.append(1)
            return dict(d)
        seen = []
        with I.stub('astropy.io.fits.Header', head), I.code():
            if cube:
                h = st.create_cube_header(u.Quantity(p, P), u.Quantity(dv, V), u.Quantity(b, B), (nv, ny, nx), u.Quantity(f, u.GHz), u.K,
                                          v0=u.Quantity(v0, u.km / u.s if vu != 'hz' else u.MHz))
            else:
                h = st.create_image_header(u.Quantity(p, P), u.Quantity(b, B), (ny, nx), u.Quantity(f, u.GHz), u.K)
        if not seen:
            return
        pp, bb = p * (1 * P).to(u.deg).value, b * (1 * B).to(u.deg).value
        I.eq('pixel x', h['CDELT1'], -pp)
        I.eq('pixel y', h['CDELT2'], pp)
        I.eq('beam', h['BMAJ'], bb)
        I.eq('beam minor', h['BMIN'], bb)
        I.eq('rest frequency', h['RESTFRQ'] / 1e9, f)
        I.true('reference pixel', h['CRPIX1'] == nx / 2.0 and h['CRPIX2'] == ny / 2.0)
        I.true('units', h['CUNIT1'] == 'deg' and h['CUNIT2'] == 'deg' and u.Unit(h['BUNIT']) == u.K)
        if cube:
            I.eq('channel', h['CDELT3'] * (1 * u.Unit(h['CUNIT3'])).to(V).value, dv)
            k = (1 * u.km / u.s).to(u.Unit(h['CUNIT3'])).value if vu != 'hz' else (1 * u.MHz).to(u.Unit(h['CUNIT3'])).value
            I.eq('first channel', h['CRVAL3'], v0 * k, tol=1e-5)
            I.true('first pixel', h['CRPIX3'] == 1)
            I.true('axis type', h['CTYPE3'] == ('FREQ' if vu == 'hz' else 'VRAD'))
    return Ob('simulated-%s-%s-%s-%s' % ('cube' if cube else 'image', pu, bu, vu), body, 'any pixel size, beam, frequency and channel')


def simhdu_ob():
    def body(I):
        import astropy.units as u
        import turbustat.io.sim_tools as st
        v = I.real('v')
        for x, a in ((np.arange(24.0).reshape(2, 3, 4), (0.1 * u.arcmin, 2.0 * u.km / u.s, 5 * u.arcsec, (2, 3, 4), 1.4 * u.GHz, u.K)),
                     (np.arange(12.0).reshape(3, 4), (0.1 * u.arcmin, 5 * u.arcsec, (3, 4), 1.4 * u.GHz, u.K))):
            with I.code():
                h = st.create_fits_hdu(x, *a)
            I.eq('data', np.asarray(h.data) * v, x * v)
            I.eq('pixel', h.header['CDELT2'] * v, v * 0.1 / 60)
            I.true('axes', h.header['NAXIS1'] == 4 and h.header['NAXIS2'] == 3)
        I.raises('1D', ValueError, st.create_fits_hdu, np.arange(4.0), *a)
    return Ob('simulated-hdu', body, 'fixed data')


def beam_ob():
    def body(I):
        import astropy.units as u
        import turbustat.io.try_load_beamwidth as tl
        from radio_beam import Beam
        v = I.real('v', lo=1, hi=2)
        h = hdr2(extra=dict(BMAJ=0.03, BMIN=0.02, BPA=30.0))
        with I.code():
            a, b, c = tl.find_beam_properties(h)
            w = tl.find_beam_width(h)
        I.eq('major', a.to(u.deg).value * v, 0.03 * v)
        I.eq('minor', b.to(u.deg).value * v, 0.02 * v)
        I.eq('angle', c.to(u.deg).value * v, 30.0 * v)
        I.eq('width', w.to(u.deg).value * v, 0.03 * v)
        with I.code():
            o = base()
            o.header = h
            o.load_beam()
            p = base()
            p.load_beam(Beam(0.05 * u.deg))
        I.eq('from the header', o._beam.minor.to(u.deg).value * v, 0.02 * v)
        I.eq('given', p._beam.major.to(u.deg).value * v, 0.05 * v)
        I.raises('not a beam', TypeError, o.load_beam, 3.0)
    return Ob('beam', body, 'one header')


def header_beam_ob(keys):
    """beam of a header, with and without the optional beam library"""
    def body(I):
        import turbustat.io.try_load_beamwidth as T
        from astropy.io import fits
        v = dict(BMAJ=I.real('major', lo=0.002, hi=0.01), BMIN=I.real('minor', lo=0.001, hi=0.002), BPA=I.real('angle', lo=0, hi=90))

        class H(fits.Header):
            def __getitem__(s, k):
                return v[k] if k in v and k in keys else fits.Header.__getitem__(s, k)
        h = H()
        for k in keys:
            h[k] = 0.001
        saved = getattr(T, 'RADIO_BEAM_INSTALL', None)
        if saved is None:
            return
        T.RADIO_BEAM_INSTALL = False
        try:
            if 'BMAJ' not in keys:
                I.raises('no beam', ValueError, T.find_beam_properties, h)
                I.raises('no width', ValueError, T.find_beam_width, h)
                I.raises('not a header', TypeError, T.find_beam_properties, {'BMAJ': 0.1})
                return
            with I.code():
                a, b, c = T.find_beam_properties(h)
                w = T.find_beam_width(h)
        finally:
            T.RADIO_BEAM_INSTALL = saved
        I.eq('major', a.to_value('deg'), v['BMAJ'])
        I.eq('minor', b.to_value('deg'), v['BMIN'] if 'BMIN' in keys else v['BMAJ'])
        I.eq('angle', c.to_value('deg'), v['BPA'] if 'BPA' in keys else 0.0)
        I.eq('width', w.to_value('deg'), v['BMAJ'])
    return Ob('beam of the header-%s' % '-'.join(keys), body, 'every beam of [0.002,0.01] by [0.001,0.002] degrees')


def obligations(tier):
    obs = [spatial_ob(n) for n in ('pix', 'deg', 'arcsec', 'rad', 'pc', 'AU')]
    obs += [spatial_ob('pc', 'kpc'), spatial_ob('kpc', 'AU'), spatial_ob('deg', free=False), spatial_ob('pc', free=False), spatial_ob('arcsec', free=False)]
    obs += [spatial_ob(n, free=False, turn=t) for n, t in (('deg', 'pc'), ('pc', 'pc'), ('deg', 'cd'), ('arcsec', 'half'))]
    obs += [spectral_ob(100.0, 'ms'), spectral_ob(-250.0, 'kms'), spectral_ob(40.0, 'pix'), refuse_ob()]
    obs += [input_ob(f, c) for f in ('array', 'tuple', 'list') for c in (False, True)]
    obs += [forms_ob(False), forms_ob(True), simhdr_ob(False, 'deg', 'deg', 'ms'), simhdr_ob(False, 'arcmin', 'arcsec', 'ms'),
            simhdr_ob(True, 'deg', 'arcsec', 'ms'), simhdr_ob(True, 'arcmin', 'deg', 'kms'), simhdr_ob(True, 'deg', 'deg', 'hz'), simhdu_ob(), beam_ob()]
    obs += [header_beam_ob(('BMAJ', 'BMIN', 'BPA')), header_beam_ob(('BMAJ',)), header_beam_ob(('BMAJ', 'BPA')), header_beam_ob(('BMIN',))]
    return obs
