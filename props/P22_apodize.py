"""Apodizing windows"""
from props.common import *

TITLE = 'Apodizing windows taper from one at the centre to zero as documented'
META = dict(
    title=TITLE,
    statement='For every image shape and all fractions, a split cosine bell window is 1 within the inner radius (a fraction of the half width of the '
              'shorter side), falls off as half a cosine period over the taper (a fraction of that half width in whole pixels) and is 0 beyond, with '
              'distances measured from the image centre. The Hanning, Tukey and cosine bell windows are those with fractions (1, 0), (a, 1-a) and '
              '(a, 0), and every power-spectrum statistic gets the window of its kernel name and spatial shape.',
    quantifier=dict(over=['inputs'], text='all taper fractions (and inner fractions) within bounds for the listed shapes'),
    why_tests_cant='Tests apply the windows to one image with default fractions and compare fitted slopes.',
    anchors=dict(files=['turbustat/statistics/apodizing_kernels.py', 'turbustat/statistics/base_pspec2.py'],
                 mechanism=[dict(name='SplitCosineBellWindow', where='turbustat/statistics/apodizing_kernels.py:69'),
                            dict(name='StatisticBase_PSpec2D.apodizing_kernel', where='turbustat/statistics/base_pspec2.py:330')]))
MODULES = ['turbustat.statistics']
OUTSIDE = 'images larger than 9 pixels, pixels exactly on the inner or outer radius'
ASSUMPTIONS = ['the cosine is an uninterpreted function where its argument is free']


def AK():
    import importlib
    return importlib.import_module('turbustat.statistics.apodizing_kernels')


def cosv(x):
    if is_sym(x):
        return s_sincos(x)[1]
    return math.cos(x)


def expect(I, name, got, shape, alpha, beta):
    n = (min(shape) - 1.0) / 2.0
    ri = beta * n
    t = 0
    while bool(alpha * n >= t + 1):
        t += 1
    I.true('%s shape' % name, np.shape(got) == tuple(shape))
    if np.shape(got) != tuple(shape):
        return
    g = asobj(got)
    for k in np.ndindex(*shape):
        r = math.hypot(k[0] - (shape[0] - 1) / 2.0, k[1] - (shape[1] - 1) / 2.0)
        if not is_sym(ri):
            if abs(r - ri) < 1e-9 and t == 0:
                continue
            if t and abs(r - ri - t) < 1e-9:
                I.eq('%s edge %s' % (name, k), g[k], 0.0, tol=1e-6)
                continue
            inside, outside = r < ri - 1e-9, r > ri + t
        else:
            I.assume(abs(ri - r) > 1e-4)
            I.assume(abs(ri + float(t) - r) > 1e-4)
            inside, outside = bool(r < ri), bool(r > ri + t)
        if inside:
            I.eq('%s inside %s' % (name, k), g[k], 1.0)
        elif outside:
            I.eq('%s outside %s' % (name, k), g[k], 0.0)
        elif t:
            I.eq('%s taper %s' % (name, k), g[k], 0.5 * (1.0 + cosv(math.pi * (r - ri) / t)), tol=1e-6)


def alpha_ob(shape, beta):
    def body(I):
        a = I.real('a', lo=0.0, hi=1.0)
        n = (min(shape) - 1.0) / 2.0
        for j in range(0, 10):
            I.assume(abs(a * n - float(j)) > 1e-5)
        with I.code():
            w = AK().SplitCosineBellWindow(a, beta)(shape)
        expect(I, 'window', w, shape, a, beta)
    return Ob('split-%s-%g' % (shape, beta), body, 'any taper fraction in [0,1], inner fraction %g' % beta)


def beta_ob(shape, alpha):
    def body(I):
        b = I.real('b', lo=0.0, hi=1.0)
        with I.code():
            w = AK().SplitCosineBellWindow(alpha, b)(shape)
        expect(I, 'window', w, shape, alpha, b)
    return Ob('inner-%s-%g' % (shape, alpha), body, 'any inner fraction in [0,1], taper fraction %g' % alpha, atoms=True, max_paths=400)


def named_ob(shape):
    def body(I):
        v = I.real('v')
        with I.code():
            h, c, t = AK().HanningWindow()(shape), AK().CosineBellWindow(0.6)(shape), AK().TukeyWindow(0.7)(shape)
        expect(I, 'hanning', h, shape, 1.0, 0.0)
        expect(I, 'cosine bell', c, shape, 0.6, 0.0)
        expect(I, 'tukey', t, shape, 0.7, 1.0 - 0.7)
        I.eq('flip', np.asarray(h)[::-1, ::-1] * v, np.asarray(h) * v)
    return Ob('named-%s' % (shape,), body, 'fixed fractions')


def tukey_ob(shape):
    def body(I):
        a = I.real('a', lo=0.3, hi=0.95)
        n = (min(shape) - 1.0) / 2.0
        for j in range(0, 10):
            I.assume(abs(a * n - float(j)) > 1e-5)
        with I.code():
            w = AK().TukeyWindow(a)(shape)
        expect(I, 'window', w, shape, a, 1.0 - a)
    return Ob('tukey-%s' % (shape,), body, 'any fraction in [0.3,0.95]', atoms=True, max_paths=400)


def cosine_ob(shape):
    def body(I):
        a = I.real('a', lo=0.0, hi=1.0)
        n = (min(shape) - 1.0) / 2.0
        for j in range(0, 10):
            I.assume(abs(a * n - float(j)) > 1e-5)
        with I.code():
            w = AK().CosineBellWindow(a)(shape)
        expect(I, 'window', w, shape, a, 0.0)
    return Ob('cosinebell-%s' % (shape,), body, 'any fraction in [0,1]')


def select_ob(kind, sh=(5, 8)):
    def body(I):
        import turbustat.statistics as S
        x = np.arange(40.0).reshape(sh) + 1.0
        with I.code():
            if kind == 'VCA':
                o = S.VCA(np.arange(120.0).reshape((3,) + sh), header=hdr3())
            elif kind == 'MVC':
                o = S.MVC(x, x + 1.0, x + 2.0, header=hdr2())
            else:
                o = S.PowerSpectrum(x, header=hdr2())
        a = I.real('a', lo=0.55, hi=0.95)
        for j in (1.0, 2.0):
            I.assume(abs(a * 2.0 - j) > 1e-5)
        for nm, kw, al, be in (('splitcosinebell', dict(alpha=a, beta=0.2), a, 0.2), ('hanning', {}, 1.0, 0.0),
                               ('tukey', dict(alpha=0.6, beta=0.1), 0.6, 0.4), ('cosinebell', dict(alpha=a, beta=0.3), a, 0.0)):
            with I.code():
                w = o.apodizing_kernel(kernel_type=nm, **kw)
            expect(I, nm, w, sh, al, be)
        I.raises('unknown', ValueError, o.apodizing_kernel, kernel_type='square')
    return Ob('select-%s-%s' % (kind, sh), body, 'any taper fraction in [0.55,0.95]')


def obligations(tier):
    obs = [alpha_ob((5, 7), 0.3), alpha_ob((6, 4), 0.0), alpha_ob((7, 7), 0.55), beta_ob((5, 4), 0.7), beta_ob((4, 4), 1.0), named_ob((6, 9)), named_ob((5, 5)),
           tukey_ob((5, 6)), tukey_ob((4, 4)), cosine_ob((7, 5)), select_ob('PowerSpectrum'), select_ob('VCA'), select_ob('MVC'), select_ob('PowerSpectrum', (8, 5)), select_ob('MVC', (8, 5))]
    if tier == 'thorough':
        obs += [alpha_ob((9, 8), 0.3), beta_ob((5, 7), 0.7), tukey_ob((7, 8))]
    return obs
