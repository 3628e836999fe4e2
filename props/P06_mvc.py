"""Modified velocity centroids"""
from props.common import *
from props.P04_vca import kern_of

TITLE = 'MVC power removes the density term from the velocity-centroid power'
META = dict(
    title=TITLE,
    statement='For every triple of centroid, intensity and line-width maps of equal shape, the MVC '
              'spectrum equals ( |FT(centroid x intensity)| - <linewidth^2 + centroid^2> |FT(intensity)| '
              ')^2 sample by sample on the centred grid (rows high to low frequency), where pixels that '
              'are NaN in all three maps count as zero everywhere; a beam divides it by the beam power, '
              'and an apodizing window multiplies the maps that are transformed. Hence it is '
              'non-negative, scales with the square of the intensity unit, and does not change when '
              'the caller repeats the computation. Maps of different shape are refused and none of the '
              'three maps is ever modified.',
    quantifier=dict(over=['inputs', 'histories'], text='all values of the three maps (NaN allowed in '
                    'common) for the listed shapes; single and repeated computation'),
    why_tests_cant='The unit test pins one slope; a swapped map, a wrong mean or NaN leak alters the '
                   'spectrum only for particular data.',
    anchors=dict(files=['turbustat/statistics/mvc/mvc.py'],
                 mechanism=[dict(name='MVC.__init__', where='turbustat/statistics/mvc/mvc.py:45'),
                            dict(name='MVC.compute_pspec',
                                 where='turbustat/statistics/mvc/mvc.py:119')]))
MODULES = ['turbustat.statistics']
OUTSIDE = 'maps larger than 4x5; the documented formula |.|^2-<.>|.|^2 (the code squares the difference)'


def ref(cen, m0, lw, w1, wt):
    sh = cen.shape
    a, b = objarr(sh), objarr(sh)
    disp = []
    for k in np.ndindex(*sh):
        a[k] = cen[k] * m0[k] * float(w1[k])
        b[k] = m0[k] * float(w1[k])
        disp.append(lw[k] * lw[k] + cen[k] * cen[k] * float(wt[k]))
    t2 = mean(disp)
    out = objarr(sh)
    ny, nx = sh
    for i in range(ny):
        for j in range(nx):
            p1 = dft_mag(a, i - ny // 2, j - nx // 2)
            p0 = dft_mag(b, i - ny // 2, j - nx // 2)
            d = p1 - t2 * p0
            out[i, j] = d * d
    return out[::-1]


def ob(shape, nan=(), apod=None, beam=False, twice=False, zero_cen=False):
    def body(I):
        from turbustat.statistics import MVC
        import astropy.units as u
        from radio_beam import Beam
        cen = I.arr('cen', shape, lo=-2, hi=2)
        m0 = I.arr('m0', shape, lo=0, hi=3)
        lw = I.arr('lw', shape, lo=0, hi=2)
        if zero_cen:
            cen = cen * 0.0
        for k in nan:
            if bool(I.bool('nan%s' % (k,))):
                cen[k] = m0[k] = lw[k] = float('nan')
        snaps = [I.snapshot(q) for q in (cen, m0, lw)]
        bm = Beam(0.012 * u.deg) if beam else None
        with I.code():
            v = MVC(cen, m0, lw, header=hdr2(), beam=bm)
            v.compute_pspec(apodize_kernel=apod, alpha=0.6, beta=0.2, beam_correct=beam)
            if twice:
                v.compute_pspec(apodize_kernel=apod, alpha=0.6, beta=0.2, beam_correct=beam)
            out = v.ps2D
        z = lambda a: pack(I, np.array([where(isnan(e), 0.0, e) for e in asobj(a).flat] + [None],
                                       dtype=object)[:-1].reshape(shape))
        w = kern_of(apod, shape)
        r = ref(asobj(z(cen)), asobj(z(m0)), asobj(z(lw)), w, np.ones(shape))
        if beam:
            bk = bm.as_kernel(0.01 * u.deg, y_size=shape[0], x_size=shape[1]).array
            bp = (np.abs(np.fft.fftshift(np.fft.fft2(bk))) ** 2)[::-1]
            for c in np.ndindex(*bp.shape):
                r[c] = float('nan') if bp[c] == 0 else r[c] / float(bp[c])
            sel = (bp > 1e-8) | (bp == 0)
            I.eq('power', pack(I, asobj(out)[sel]), pack(I, r[sel]), tol=1e-5)
        else:
            I.eq('power', out, r)
            I.le('non-negative', 0.0, out)
        for nm, q, s in zip(('centroid', 'moment0', 'linewidth'), (cen, m0, lw), snaps):
            I.unchanged(nm, q, s)
    nm = 'power%s%s%s%s%s' % (shape, '-nan' if nan else '', '-' + apod if apod else '',
                              '-beam' if beam else '', '-twice' if twice else '')
    return Ob(nm, body, 'every centroid in [-2,2], intensity in [0,3], width in [0,2] of shape %s, '
              'NaN in all maps allowed at %s' % (shape, list(nan)))


def shape_ob():
    def body(I):
        from turbustat.statistics import MVC
        a, b = I.arr('a', (2, 3)), I.arr('b', (3, 2))
        for nm, t in (('centroid', (b, a, a)), ('intensity', (a, b, a)), ('width', (a, a, b))):
            I.raises('different %s shape refused' % nm, IndexError,
                     lambda: MVC(*t, header=hdr2()))
    return Ob('shapes', body, 'one map of a different shape')


def run_ob(shape):
    def body(I):
        from turbustat.statistics import MVC
        import astropy.units as u
        pw = I.arr('power', shape, lo=0.5, hi=4)
        one = np.ones(shape)
        got = {}
        with I.code():
            a = MVC(one, one, one, header=hdr2())

            def fake(**k):
                got.update(k)
                I.plant(a, '_ps2D', pw)
            a.compute_pspec = fake
            a.run(fit_2D=False, apodize_kernel='hanning', alpha=0.4, beta=0.1,
                  low_cut=0.1 / u.pix, high_cut=0.45 / u.pix,
                  radial_pspec_kwargs=dict(max_bin=0.5))
            b = MVC(one, one, one, header=hdr2())
            I.plant(b, '_ps2D', pw)
            b.compute_radial_pspec(max_bin=0.5)
            b.fit_pspec(low_cut=0.1 / u.pix, high_cut=0.45 / u.pix)
        I.eq('profile', a.ps1D, b.ps1D)
        I.eq('slope', a.slope, b.slope)
        I.true('options forwarded', got['apodize_kernel'] == 'hanning' and got['alpha'] == 0.4 and
               got['beta'] == 0.1 and got['beam_correct'] is False)
    return Ob('run%s' % (shape,), body, 'every 2-D power array of shape %s in [0.5,4]' % (shape,))


def obligations(tier):
    obs = [ob((2, 3)), ob((3, 3)), ob((3, 4)), ob((4, 3)), ob((3, 2), nan=[(0, 0), (2, 1)]),
           ob((2, 3), twice=True), ob((3, 4), apod='tukey', zero_cen=True),
           ob((3, 3), apod='hanning', zero_cen=True), ob((3, 3), beam=True), ob((2, 4), beam=True),
           shape_ob(), run_ob((6, 6))]
    if tier == 'thorough':
        obs += [ob((4, 4)), ob((3, 5)), ob((4, 3), nan=[(0, 0), (1, 1), (3, 2)])]
    return obs
