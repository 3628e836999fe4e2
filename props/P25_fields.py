"""Simulated power-law fields and the 3-D power spectrum"""
from props.common import *

TITLE = 'Simulated fields are real and have exactly the asked power law'
META = dict(
    title=TITLE,
    statement='For every set of random phases, size (odd or even) and slope, a simulated two- or three-dimensional field is real, has the asked size in every '
              'direction and zero mean, and its Fourier power times the distance of the frequency (in turned and squeezed axes for elliptical fields) to the slope '
              'is the same at all frequencies that are not their own mirror image (below the highest one, for elliptical fields); three-dimensional fields have the asked rms. '
              'Transforms asked for are those of the field, complete and centred or the half-plane, and the same seed gives the same field without disturbing other '
              'random numbers. The three-dimensional power spectrum averages the Fourier power over each shell of frequencies.',
    quantifier=dict(over=['inputs'], text='all random phases (or the listed free ones), slopes and angles for the listed sizes'),
    why_tests_cant='The tests compare two outputs of the same function for two sizes; a lost column for odd sizes or a mode without its conjugate passes.',
    anchors=dict(files=['turbustat/simulator/gen_field.py', 'turbustat/simulator/threeD_pspec.py'],
                 mechanism=[dict(name='make_extended', where='turbustat/simulator/gen_field.py:137'),
                            dict(name='make_3dfield', where='turbustat/simulator/gen_field.py:6'),
                            dict(name='threeD_pspec', where='turbustat/simulator/threeD_pspec.py:5')]))
MODULES = ['turbustat.simulator', 'turbustat.simulator.gen_field', 'turbustat.simulator.threeD_pspec']
OUTSIDE = 'sizes above 6 (2-D) and 5 (3-D); the overall amplitude of 2-D fields; quality of the random numbers'


def phases(I, free, seen, sign=None):
    """stands for np.random.uniform: all (or the listed) angles arbitrary"""
    def uniform(low=0.0, high=1.0, size=None):
        shape = (size,) if np.ndim(size) == 0 else tuple(size)
        seen.append((low, high, shape, np.random.get_state()[1].copy()))
        a = objarr(shape)
        for k, ix in enumerate(np.ndindex(*shape)):
            if free == 'all' or ix in free:
                a[ix] = I.real('phi%s' % (ix,), lo=0, hi=6)
            else:
                a[ix] = ((k * k + 3) * 0.7548776662466927 % 1.0) * 2 * math.pi
        if sign is not None:
            # the phases do not cancel
            t = []
            for v in a.ravel():
                if is_sym(v):
                    sn, cn = s_sincos(v)
                else:
                    sn, cn = math.sin(v), math.cos(v)
                t.append(cn * cn - sn * sn)
            I.assume(total(t) * sign > 0.1)
        return pack(I, a)
    return uniform


def parts(z):
    if isinstance(z, (complex, np.complexfloating)):
        return float(z.real), float(z.imag)
    if hasattr(z, 're'):
        return z.re, z.im
    return z, 0.0


def mod2(z):
    a, b = parts(z)
    return a * a + b * b


def freqs(n):
    return [((k + n // 2) % n - n // 2) / float(n) for k in range(n)]


def selfconj(ix, n):
    return all((2 * k) % n == 0 for k in ix)


def ext_ob(n, free='all', p=2.0, ellip=1.0, theta=0.0, sign=1):
    def body(I):
        from turbustat.simulator import make_extended
        seen = []
        pw = I.real('pw', lo=1, hi=4) if p == 'free' else p
        kw = dict(powerlaw=pw, ellip=ellip, theta=theta, randomseed=4321)
        with I.stub('numpy.random.uniform', phases(I, free, seen, sign)), I.code():
            full = make_extended(n, return_fft=True, **kw)
            half = make_extended(n, return_fft=True, full_fft=False, **kw)
            img = make_extended(n, **kw)
        if len(seen) != 3:
            return
        I.true('reproducible', all(np.array_equal(s[3], np.random.RandomState(4321).get_state()[1]) for s in seen))
        I.true('angles over the circle', all(s[0] == 0 and abs(s[1] - 2 * math.pi) < 1e-12 for s in seen))
        full, half, img = asobj(full), asobj(half), asobj(img)
        I.true('sizes', full.shape == (n, n) and half.shape == (n, n // 2 + 1) and img.shape == (n, n))
        if full.shape != (n, n) or half.shape != (n, n // 2 + 1) or img.shape != (n, n):
            return
        F = np.fft.ifftshift(full)
        f = freqs(n)
        c, s = math.cos(theta), math.sin(theta)
        ref = None
        for j in range(n):
            for i in range(n):
                a, b = parts(F[j, i])
                d, e = parts(F[-j % n, -i % n])
                I.eq('conjugate real %d %d' % (j, i), a, d, tol=1e-8)
                I.eq('conjugate imaginary %d %d' % (j, i), b, -e, tol=1e-8)
                if i <= n // 2:
                    g, h = parts(half[j, i])
                    I.eq('half real %d %d' % (j, i), g, a, tol=1e-8)
                    I.eq('half imaginary %d %d' % (j, i), h, b, tol=1e-8)
                if (j, i) == (0, 0):
                    I.eq('zero mean', mod2(F[0, 0]), 0.0, tol=1e-12)
                    continue
                u, v = f[i] * c - f[j] * s, f[i] * s + f[j] * c
                r = math.sqrt(ellip * ellip * u * u + v * v)
                q = mod2(F[j, i]) * (s_uf('exp', pw * math.log(r)) if is_sym(pw) else r ** pw)
                if selfconj((j, i), n) or (ellip < 1 and (2 * i == n or 2 * j == n)):
                    continue    # own mirror, or a frequency of either sign in turned axes
                elif ref is None:
                    ref = q
                else:
                    I.eq('power %d %d' % (j, i), q, ref, tol=1e-6)
        T = np.fft.rfft2(img if not I.sym else img.view(SymArr))
        for j in range(n):
            for i in range(n // 2 + 1):
                g, h = parts(half[j, i])
                a, b = parts(asobj(T)[j, i])
                I.eq('image real %d %d' % (j, i), a, g, tol=1e-7)
                I.eq('image imaginary %d %d' % (j, i), b, h, tol=1e-7)
    return Ob('field-%s' % ('%d-%s-%s-%g-%g%s' % (n, 'all' if free == 'all' else len(free), p, ellip, theta, '' if sign > 0 else '-b')), body,
              'size %d, %s' % (n, 'all phases' if free == 'all' else '%d phases' % len(free)), time_limit=120)


def refuse_ob():
    def body(I):
        from turbustat.simulator import make_extended
        e = I.real('e', lo=1.01, hi=5)
        I.raises('above 1', ValueError, make_extended, 4, ellip=e)
        I.raises('zero or below', ValueError, make_extended, 4, ellip=1.01 - e)
    return Ob('refused', lambda I: body(I), 'ellipticities above 1 and below 0')


def field3_ob(n, free, p=2.0, amp=True, name=''):
    def body(I):
        from turbustat.simulator import make_3dfield
        seen = []
        am = I.real('amp', lo=0.5, hi=3)
        with I.stub('numpy.random.uniform', phases(I, free, seen)), I.code():
            cube = make_3dfield(n, powerlaw=p, amp=am, randomseed=99)
            fft = make_3dfield(n, powerlaw=p, amp=am, randomseed=99, return_fft=True)
        if len(seen) != 2:
            return
        I.true('reproducible', all(np.array_equal(s[3], np.random.RandomState(99).get_state()[1]) for s in seen))
        cube, fft = asobj(cube), asobj(fft)
        I.true('sizes', cube.shape == (n,) * 3 and fft.shape == (n, n, n // 2 + 1))
        if cube.shape != (n,) * 3 or fft.shape != (n, n, n // 2 + 1):
            return
        f = freqs(n)
        F = asobj(np.fft.rfftn(cube.view(SymArr) if I.sym else cube))
        ref = None
        for ix in np.ndindex(n, n, n // 2 + 1):
            a, b = parts(F[ix])
            g, h = parts(fft[ix])
            I.eq('transform %s' % (ix,), g, a, tol=1e-7)
            I.eq('transform imaginary %s' % (ix,), h, b, tol=1e-7)
            if ix == (0, 0, 0):
                I.eq('zero mean', a, 0.0, tol=1e-9)
                continue
            r = math.sqrt(sum(f[k] ** 2 for k in ix))
            q = mod2(F[ix]) * r ** p
            if selfconj(ix, n):
                continue
            elif ref is None:
                ref = q
            else:
                I.eq('power %s' % (ix,), q, ref, tol=1e-6)
        I.eq('rms', total([v * v for v in cube.ravel()]), am * am * n**3, tol=1e-6)
    return Ob('field3d-%d-%s%s' % (n, p, name), body, 'size %d, %d free phases and any amplitude' % (n, len(free)), time_limit=150)


def pspec3_ob(shape, free='all', std=False):
    def body(I):
        from turbustat.simulator import threeD_pspec as mod
        f3 = getattr(mod, 'threeD_pspec', mod)
        if free == 'all':
            x = asobj(I.arr('x', shape))
        else:
            x = asobj(np.cos(np.arange(np.prod(shape)) * 1.7).reshape(shape) * 2)
            for ix in free:
                x[ix] = I.real('x%s' % (ix,))
        with I.code():
            fr, ps, sd = f3(pack(I, x))
        n = max(shape)
        edges = [k / float(n) for k in range(1, n) if k / float(n) < 0.5 - 1e-9]
        I.eq('frequencies', fr, np.array(edges))
        F = asobj(np.fft.fftn(pack(I, x)))
        bins = [[] for _ in edges]
        fq = [freqs(m) for m in shape]
        for ix in np.ndindex(*shape):
            r = math.sqrt(sum(fq[a][k] ** 2 for a, k in enumerate(ix)))
            b = int(np.digitize([r + 1e-12], edges)[0]) - 1
            if b >= 0:
                bins[b].append(mod2(F[ix]))
        I.true('shells', np.size(ps) == len(edges) and np.size(sd) == len(edges))
        for k, b in enumerate(bins[:np.size(ps)]):
            m = mean(b)
            I.eq('mean %d' % k, asobj(ps)[k], m, tol=1e-6)
            if std:
                e = asobj(sd)[k]
                I.eq('deviation %d' % k, e * e, mean([(v - m) * (v - m) for v in b]), tol=1e-5)
    return Ob('shells-%dx%dx%d%s' % (shape + ('-deviation' if std else '',)), body, '%s values of a %dx%dx%d cube' % (('all',) + shape if free == 'all' else (len(free),) + shape))


def pspec3_refuse():
    def body(I):
        from turbustat.simulator import threeD_pspec as mod
        f3 = getattr(mod, 'threeD_pspec', mod)
        I.raises('image', ValueError, f3, I.arr('x', (4, 4)))
    return Ob('shells-refused', body, 'any image')


def obligations(tier):
    obs = [ext_ob(4), ext_ob(3), ext_ob(5, p=3.0), ext_ob(6, p=3.0), ext_ob(4, p=0.5, sign=-1), ext_ob(4, ellip=0.5, theta=0.6),
           ext_ob(5, ellip=0.5, theta=-1.1), ext_ob(4, ellip=0.6), ext_ob(5, ellip=0.4, theta=math.pi / 2), refuse_ob(),
           field3_ob(3, [(0, 1, 0), (0, 0, 1)], p=3.0), field3_ob(3, [(1, 1, 0), (2, 2, 1), (0, 0, 1)], p=3.0, name='-b'), field3_ob(4, [(3, 3, 0), (1, 3, 2)]), field3_ob(4, [(0, 3, 0), (2, 3, 2), (1, 1, 1)], name='-b'),
           field3_ob(4, [(2, 2, 0), (0, 2, 2), (3, 0, 2)], name='-c'),
           pspec3_ob((4, 4, 4), free=[(0, 0, 1), (1, 2, 3), (2, 0, 0), (3, 1, 2), (1, 1, 0)]), pspec3_ob((2, 4, 2)), pspec3_ob((5, 3, 2), free=[(0, 0, 1), (1, 2, 1), (2, 0, 0), (3, 1, 1)]), pspec3_ob((4, 4, 4), free=[(1, 2, 0), (3, 3, 1)], std=True), pspec3_refuse()]
    if tier == 'thorough':
        obs += [ext_ob(7, p=2.0), ext_ob(8, p=2.0, ellip=0.3, theta=0.4), field3_ob(5, [(1, 4, 0), (2, 3, 2)]), pspec3_ob((6, 4, 5), free=[(0, 0, 1), (1, 2, 3), (5, 3, 4)]), pspec3_ob((3, 4, 2))]
    return obs
