"""Cramer"""
import contextlib

from props.common import *

TITLE = 'The Cramer statistic is the energy distance of the brightest values or spectra'
META = dict(
    title=TITLE,
    statement='For every pair of cubes, each data matrix holds per channel the requested fraction of finite values above '
              'the noise level, brightest first and filled up with zeros, relative to the cube maximum, or the requested '
              'number of brightest spectra; with normalisation the matrix is divided by its spectral norm, and when the '
              'sample counts differ the larger set is sampled without replacement, row by row, to the smaller count. The '
              'distance is mn/(m+n) times the mean root distance between the sets less half the mean root distances '
              'within each, symmetric and zero for equal data; the cubes are never modified.',
    quantifier=dict(over=['inputs'], text='all cube values, NaN patterns, noise limits within bounds, all samplings'),
    why_tests_cant='One pair of square cubes with one noise value is pinned; non-square cubes, blanks, unequal channel '
                   'numbers and the spectra format are not.',
    anchors=dict(files=['turbustat/statistics/cramer/cramer.py', 'turbustat/statistics/threeD_to_twoD.py'],
                 mechanism=[dict(name='intensity_data', where='turbustat/statistics/threeD_to_twoD.py:12'),
                            dict(name='_format_data', where='turbustat/statistics/threeD_to_twoD.py:66'),
                            dict(name='Cramer_Distance.cramer_statistic', where='turbustat/statistics/cramer/cramer.py:120')]))
MODULES = ['turbustat.statistics']
OUTSIDE = 'cubes of more than 12 voxels, the distribution of the random sampling'
ASSUMPTIONS = ['pairwise_distances is modelled as the Euclidean distance', 'numpy.random.choice is replaced by an arbitrary choice']


def order(I, vals):
    """decreasing; one path per order"""
    out = []
    for v in vals:
        k = sum(bool(u > v) for u in out)
        out.insert(k, v)
    return out


def cube(I, shape, free, name='x', nans=(), nansym=()):
    c = asobj((np.arange(int(np.prod(shape))).reshape(shape) * 5 % 7) / 4.0 + 0.1)
    for k in free:
        c[k] = I.real('%s%s' % (name, k), lo=0.05, hi=3, nan='sym' if k in nansym else False)
    for k in nans:
        c[k] = float('nan')
    return I.split(pack(I, c))


def intensity_ob(shape, free, p, noise=None, nans=(), nansym=(), which=1):
    def body(I):
        from turbustat.statistics import Cramer_Distance
        x = cube(I, shape, free, nans=nans, nansym=nansym)
        s = I.snapshot(x)
        y = np.arange(int(np.prod(shape))).reshape(shape) + 1.0
        X = asobj(x)
        lim = -np.inf
        if noise == 'sym':
            lim = I.real('noise', lo=0.1, hi=1.5)
        elif noise is not None:
            lim = noise
        fin = [e for e in X.ravel() if not bool(isnan(e))]
        mx = fin[0]
        for e in fin[1:]:
            if bool(e > mx):
                mx = e
        n = int(round(p * shape[1] * shape[2]))
        ref = []
        for c in range(shape[0]):
            v = []
            for e in X[c].ravel():
                if bool(isnan(e)):
                    continue
                if noise is None or bool(e > lim):
                    v.append(e)
            ref.append((order(I, v) + [0.0] * n)[:n])
        with I.code():
            if which == 1:
                t = Cramer_Distance(x, y, noise_value1=lim)
            else:
                t = Cramer_Distance(y, x, noise_value2=lim)
            t.format_data(normalize=False, p=p)
            m = asobj(t.data_matrix1 if which == 1 else t.data_matrix2)
        I.unchanged('cube', x, s)
        I.true('matrix shape', m.shape == (shape[0], n))
        if m.shape != (shape[0], n):
            return
        for c in range(shape[0]):
            for k in range(n):
                I.eq('value %d %d' % (c, k), m[c, k] * mx, ref[c][k])
    return Ob('intensity%s-%g-%s%s-%d' % (shape, p, noise, '-nan' if nans or nansym else '', which), body,
              'cube %s, free voxels %s in [0.05,3], blank %s' % (shape, list(free), list(nans) + list(nansym)), max_paths=900)


def spectra_ob(shape, free, num, nans=()):
    def body(I):
        from turbustat.statistics import Cramer_Distance
        x = cube(I, shape, free, nans=nans)
        s = I.snapshot(x)
        X = asobj(x)
        sums = {}
        for q in np.ndindex(*shape[1:]):
            sums[q] = total([X[(c,) + q] for c in range(shape[0]) if not bool(isnan(X[(c,) + q]))])
        ks = list(sums)
        for i in range(len(ks)):
            for j in range(i):
                I.assume(abs(sums[ks[i]] - sums[ks[j]]) > 1e-4)
        bright = [k for k in ks if sum(bool(sums[j] > sums[k]) for j in ks) < num]
        with I.code():
            t = Cramer_Distance(x, x)
            t.format_data(data_format=''.join(['spec', 'tra']), normalize=False, num_spec=num)
            m = asobj(t.data_matrix1)
        I.unchanged('cube', x, s)
        I.true('matrix shape', m.shape == (shape[0], num))
        if m.shape != (shape[0], num):
            return
        for k in bright:
            hit = False
            for c in range(num):
                if all(bool(isnan(m[v, c])) == bool(isnan(X[(v,) + k])) and (bool(isnan(m[v, c])) or bool(abs(m[v, c] - X[(v,) + k]) < 1e-9))
                       for v in range(shape[0])):
                    hit = True
            I.true('spectrum %s' % (k,), hit)
        I.raises('unknown format', NameError, t.format_data, data_format='other')
    return Ob('spectra%s-%d%s' % (shape, num, '-nan' if nans else ''), body,
              'cube %s, free voxels %s (integrated intensities distinct)' % (shape, list(free)), max_paths=900)


def norm_ob(fmt):
    def body(I):
        from turbustat.statistics import Cramer_Distance
        sh = (2, 2, 3)
        x = cube(I, sh, [(0, 0, 1)])
        r = I.real('r', lo=0.5, hi=3)
        seen = []

        def nm(a, ord=None, **k):
            seen.append((a.copy(), ord))
            return r
        kw = dict(num_spec=2) if fmt == 'spectra' else dict(p=0.5)
        with I.code():
            t = Cramer_Distance(x, x)
            t.format_data(data_format=fmt, normalize=False, **kw)
            m0 = t.data_matrix1
        with I.stub('numpy.linalg.norm', nm), I.code():
            t.format_data(data_format=fmt, **kw)
            m = t.data_matrix1
        if not seen:
            return
        I.true('spectral norm', seen[0][1] == 2)
        I.eq('norm of the matrix', seen[0][0], m0)
        I.eq('normalised', asobj(m) * r, m0)
    return Ob('normalised-%s' % fmt, body, 'cube (2,2,3) with a free voxel, any norm')


def sample_ob(sh1, sh2):
    def body(I):
        from turbustat.statistics import Cramer_Distance
        x, y = cube(I, sh1, [(0, 0, 1)], 'x'), cube(I, sh2, [(0, 1, 0)], 'y')
        seen = []

        def ch(a, size=None, replace=True, p=None):
            seen.append((replace, size))
            o = asobj(a)
            r = o[::-1][:size] if len(seen) % 2 else o[:size]
            return pack(I, r.copy())
        with I.code():
            t1 = Cramer_Distance(x, x)
            t1.format_data(normalize=False, p=0.5)
            t2 = Cramer_Distance(y, y)
            t2.format_data(normalize=False, p=0.5)
        with I.stub('numpy.random.choice', ch), I.code():
            t = Cramer_Distance(x, y)
            t.format_data(normalize=False, p=0.5)
            a, b = asobj(t.data_matrix1), asobj(t.data_matrix2)
        if not seen:
            return
        f1, f2 = asobj(t1.data_matrix1), asobj(t2.data_matrix1)
        n = min(f1.shape[1], f2.shape[1])
        I.true('same count', a.shape == (sh1[0], n) and b.shape == (sh2[0], n))
        I.true('without replacement', all(s[0] is False for s in seen))
        if a.shape != (sh1[0], n) or b.shape != (sh2[0], n):
            return
        if len(seen) != (sh2[0] if f2.shape[1] > n else sh1[0]):
            return
        for got, full in ((a, f1), (b, f2)):
            for c in range(got.shape[0]):
                want = full[c] if full.shape[1] == n else (full[c][::-1][:n] if c % 2 == 0 else full[c][:n])
                I.eq('row %d' % c, got[c], want)
    return Ob('sampling%s-%s' % (sh1, sh2), body, 'one free voxel in each cube')


def stat_ob(r1, r2, k, same=False, full=True):
    """statistic of any two matrices"""
    def body(I):
        from turbustat.statistics import Cramer_Distance
        a, b = I.arr('a', (r1, k), lo=-2, hi=2), I.arr('b', (r2, k), lo=-2, hi=2)
        if same:
            b = a
        aa, bb = asobj(a), asobj(b)

        def root(p, q):
            if k == 1:
                d = abs(p[0] - q[0])
            else:
                d = total([(u - v) * (u - v) for u, v in zip(p, q)])
                d = s_sqrt(d, nonneg=True) if is_sym(d) else math.sqrt(d)
            return s_sqrt(d, nonneg=True) if is_sym(d) else math.sqrt(d)
        m, n = float(r1), float(r2)
        t = total([root(p, q) for p in aa for q in bb]) / (m * n)
        t = t - total([root(aa[i], aa[j]) for i in range(r1) for j in range(i)]) / (m * m)
        t = t - total([root(bb[i], bb[j]) for i in range(r2) for j in range(i)]) / (n * n)
        t = t * (m * n / (m + n))
        with I.code():
            d = Cramer_Distance(np.ones((2, 2, 2)), np.ones((2, 2, 2)))
            I.plant(d, '_data_matrix1', a)
            I.plant(d, '_data_matrix2', b)
            d.cramer_statistic()
            e = Cramer_Distance(np.ones((2, 2, 2)), np.ones((2, 2, 2)))
            I.plant(e, '_data_matrix1', b)
            I.plant(e, '_data_matrix2', a)
            e.cramer_statistic()
        if same:
            I.eq('zero for equal data', d.distance, 0.0, tol=1e-3)
        else:
            I.eq('statistic', d.distance, t)
            I.eq('symmetric', e.distance, t)
    return Ob('statistic-%dx%d-%dx%d%s' % (r1, k, r2, k, '-same' if same else ''), body, 'every two matrices in [-2,2]')


def run_ob(normalize, sh2=(3, 2, 3)):
    def body(I):
        from turbustat.statistics import Cramer_Distance
        x, y = cube(I, (2, 2, 3), [(0, 0, 1)], 'x'), cube(I, sh2, [(1, 1, 0)], 'y')
        n1, n2 = I.real('n1', lo=0.1, hi=0.4), I.real('n2', lo=0.5, hi=0.8)
        with I.stub('numpy.linalg.norm', lambda a, ord=None, **k: asobj(a)[0, 0] * 2.0 + 1.0):
            with I.code():
                a = Cramer_Distance(x, y, noise_value1=n1, noise_value2=n2)
                a.distance_metric(normalize=normalize)
                b = Cramer_Distance(x, y, noise_value1=n1, noise_value2=n2)
                b.format_data(normalize=normalize)
                b.cramer_statistic()
        I.eq('distance_metric', a.distance, b.distance)
        I.eq('matrix 1', a.data_matrix1, b.data_matrix1)
        I.eq('matrix 2', a.data_matrix2, b.data_matrix2)
    return Ob('metric-%s' % normalize, body, 'one free voxel in each cube, noise limits in [0.1,0.8]', max_paths=900)


def obligations(tier):
    obs = [intensity_ob((2, 2, 3), [(0, 0, 1), (0, 1, 0)], 0.5), intensity_ob((2, 2, 2), [(0, 0, 1), (1, 1, 0)], 0.5, noise='sym'),
           intensity_ob((2, 2, 3), [(0, 0, 1), (1, 1, 2)], 0.5, noise=0.6, nansym=[(0, 0, 1)], which=2),
           intensity_ob((3, 3, 2), [(2, 0, 1)], 0.8, noise='sym', nans=[(2, 1, 1), (0, 0, 0)]), intensity_ob((2, 2, 3), [(1, 0, 1)], 0.2, which=2),
           spectra_ob((2, 2, 3), [(0, 0, 1), (1, 1, 2)], 2), spectra_ob((2, 3, 2), [(0, 0, 1), (1, 2, 0)], 3), spectra_ob((2, 2, 2), [(0, 0, 1), (1, 1, 0)], 1, nans=[(0, 1, 0)]),
           spectra_ob((2, 1, 4), [(1, 0, 2)], 2),
           norm_ob('intensity'), norm_ob('spectra'), sample_ob((2, 2, 2), (2, 2, 4)), sample_ob((3, 2, 4), (2, 2, 3)),
           stat_ob(1, 3, 2), stat_ob(3, 2, 2), stat_ob(2, 3, 2), stat_ob(2, 2, 3), stat_ob(3, 3, 2, same=True), stat_ob(2, 2, 2, same=True),
           run_ob(True), run_ob(False)]
    if tier == 'thorough':
        obs += [intensity_ob((2, 2, 3), [(0, 0, 1), (0, 1, 0), (1, 1, 1)], 0.5, noise='sym'), stat_ob(4, 3, 2), spectra_ob((2, 3, 3), [(0, 0, 1), (1, 2, 0), (0, 1, 1)], 4)]
    return obs
