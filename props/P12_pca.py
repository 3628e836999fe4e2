"""PCA of the spectral covariance"""
from props.common import *

TITLE = 'PCA eigenvalues, eigenimages and their autocorrelations follow the covariance'
META = dict(
    title=TITLE,
    statement='For every cube, the PCA covariance of two channels is the mean product of the pixels '
              'finite in both, after subtracting each channel mean and dividing by one less when '
              'mean subtraction is on; eigenvalues and matching eigenvectors are ordered from the '
              'largest, the variance proportion and total leave out the first one without mean '
              'subtraction, and the kept number is as requested or the number of eigenvalues (or '
              'cumulated proportions, at least one) within the given limit. Each eigenimage is the '
              'eigenvector-weighted sum of channels with blanks as zero, on the sky grid of the cube; '
              'its circular autocorrelation (after zeroing its first pixel) is centred on the map, '
              'the noise autocorrelation averages the last requested valid components, and the PCA '
              'distance is the norm of the difference of the eigenvalues normalised by their sum. The '
              'cube is never modified.',
    quantifier=dict(over=['inputs'], text='all voxel values (NaN allowed where listed) of the listed cube '
                    'shapes; all eigenvalues and eigenvectors for the derived quantities'),
    why_tests_cant='The pinned eigenvalues come from one cube without blanks; orientation, blanks, '
                   'channel order and the cut rules are not separated by it.',
    anchors=dict(files=['turbustat/statistics/pca/pca.py', 'turbustat/statistics/threeD_to_twoD.py'],
                 mechanism=[dict(name='PCA.compute_pca', where='turbustat/statistics/pca/pca.py:80'),
                            dict(name='PCA.eigimages', where='turbustat/statistics/pca/pca.py:197'),
                            dict(name='PCA_Distance', where='turbustat/statistics/pca/pca.py:1039'),
                            dict(name='var_cov_cube', where='turbustat/statistics/threeD_to_twoD.py:108')]))
MODULES = ['turbustat.statistics']
OUTSIDE = 'cubes larger than 4x3x3, eigen-decomposition of numpy beyond 2x2 (its output is left free)'
ASSUMPTIONS = ['numpy.linalg.eigh: closed form for 2x2; for larger matrices its result is an arbitrary '
               'set of values and vectors']


def cov_ref(x, mean_sub):
    n = x.shape[0]
    X = asobj(x).reshape(n, -1)
    fin = [[k for k in range(X.shape[1]) if not bool(isnan(X[i, k]))] for i in range(n)]
    if mean_sub:
        mu = [mean([X[i, k] for k in fin[i]]) if fin[i] else 0.0 for i in range(n)]
    else:
        mu = [0.0] * n
    out = objarr((n, n))
    for i in range(n):
        for j in range(n):
            both = [k for k in fin[i] if k in fin[j]]
            d = len(both) - (1 if mean_sub else 0)
            if d <= 0:
                out[i, j] = 0.0 if not both else None
                continue
            out[i, j] = total([(X[i, k] - mu[i]) * (X[j, k] - mu[j]) for k in both]) / float(d)
    return out


def cov_ob(shape, mean_sub, nansym=(), nans=()):
    def body(I):
        from turbustat.statistics.threeD_to_twoD import var_cov_cube
        x = I.split(I.arr('x', shape, lo=-3, hi=3, nansym=nansym, nan=list(nans) or False))
        s = I.snapshot(x)
        with I.code():
            c = var_cov_cube(x, mean_sub=mean_sub, progress_bar=False)
        I.unchanged('cube', x, s)
        want = cov_ref(x, mean_sub)
        for k in np.ndindex(*want.shape):
            if want[k] is not None:
                I.eq('covariance%s' % (k,), c[k], want[k])
    return Ob('covariance%s%s%s' % (shape, '-mean' if mean_sub else '', '-nan' if nansym or nans else ''), body,
              'every cube %s in [-3,3], NaN possible at %s, NaN at %s' % (shape, list(nansym), list(nans)))


def full_ob(shape, mean_sub, n_eigs, free, min_eigval=None, method='value'):
    """two channels, through the decomposition"""
    def body(I):
        from turbustat.statistics import PCA
        x = (np.arange(int(np.prod(shape))).reshape(shape) * 7 % 5 - 1.5)
        if I.sym:
            x = asobj(x).view(SymArr)
        for k in free:
            x[k] = I.real('x%s' % (k,), lo=-3, hi=3)
        cov = cov_ref(x, mean_sub)
        I.assume(abs(cov[0, 1]) > 1e-3)
        s = I.snapshot(x)
        with I.code():
            p = PCA((x, hdr3()))
            p.compute_pca(mean_sub=mean_sub, n_eigs=n_eigs, min_eigval=min_eigval,
                          eigen_cut_method=method, show_progress=False)
            ev, vec = asobj(p.eigvals), asobj(p.eigvecs)
            tv, vp, n = p.total_variance, p.var_proportion, p.n_eigs
        I.unchanged('cube', x, s)
        I.le('descending', ev[1], ev[0])
        I.eq('trace', ev[0] + ev[1], cov[0, 0] + cov[1, 1])
        I.eq('determinant', ev[0] * ev[1], cov[0, 0] * cov[1, 1] - cov[0, 1] * cov[0, 1], tol=1e-5)
        for k in range(2):      # the sign of an eigenvector is free
            for i in range(2):
                I.eq('eigenvector %d %d' % (k, i), cov[i, 0] * vec[0, k] + cov[i, 1] * vec[1, k]
                     - ev[k] * vec[i, k], 0.0, tol=1e-5)
        if mean_sub:
            I.eq('total variance', tv, cov[0, 0] + cov[1, 1])
        else:
            I.eq('total variance', tv, ev[1])
        if n_eigs == -1:
            I.true('all kept', n == 2)
    return Ob('decomposition%s%s-%s-%s' % (shape, '-mean' if mean_sub else '', n_eigs, min_eigval), body,
              'cube %s, voxels %s free in [-3,3], correlated channels' % (shape, free))


def eig_ob(nchan, mean_sub, n_eigs, min_eigval=None, method='value', low=0.05):
    """any decomposition: ordering, kept number, variance"""
    def body(I):
        from turbustat.statistics import PCA
        vals = I.arr('l', nchan, lo=low, hi=4)
        V = I.arr('v', (nchan, nchan), lo=-1, hi=1)
        for a in range(nchan):
            for b in range(a):
                I.assume(abs(vals[a] - vals[b]) > 1e-4)
        if low < 0:      # blanks can make the covariance indefinite
            I.assume(vals[0] + vals[1] + vals[2] > 1.0)
            for a in range(0 if mean_sub else nchan):
                I.assume(vals[a] + vals[(a + 1) % nchan] > 0.1)
        seen = []
        x = np.random.RandomState(1).rand(nchan, 3, 2)
        if n_eigs == 'auto' and method == 'value':
            I.assume(vals[1] > min_eigval + 0.01)
        with I.stub('numpy.linalg.eigh', lambda a, *r, **k: (seen.append(a), (vals, V))[1]), I.code():
            p = PCA((x, hdr3()))
            p.compute_pca(mean_sub=mean_sub, n_eigs=n_eigs, min_eigval=min_eigval,
                          eigen_cut_method=method, show_progress=False)
            ev, vec = asobj(p.eigvals), asobj(p.eigvecs)
            tv, vp, n = p.total_variance, p.var_proportion, int(p.n_eigs)
        if not seen:
            return
        L = list(asobj(vals))
        o = sorted(range(nchan), key=lambda k: sum(bool(L[j] > L[k]) for j in range(nchan)))
        S = [L[k] for k in o]
        I.eq('eigenvalues', ev, np.array(S, dtype=object))
        for k in range(nchan):
            I.eq('eigenvector %d' % k, vec[:, k], asobj(V)[:, o[k]])
        if n_eigs == 'auto':
            if method == 'value':
                for q in S:
                    I.assume(abs(q - min_eigval) > 1e-6)
                want = sum(bool(q >= min_eigval) for q in S)
            else:
                c, want = 0.0, 0
                t = total(S)
                for q in S:
                    c = c + q
                    I.assume(abs(c - t * min_eigval) > 1e-6)
                    want += bool(c <= t * min_eigval)
                want = max(want, 1)
        else:
            want = nchan if n_eigs == -1 else n_eigs
        I.true('number kept', n == want)
        lo = 0 if mean_sub else 1
        I.eq('total variance', tv, total(S[lo:]))
        I.eq('variance proportion', vp, total(S[lo:want]) / total(S[lo:]))
    return Ob('order-%d%s-%s-%s-%s%s' % (nchan, '-mean' if mean_sub else '', n_eigs, min_eigval, method, '-negative' if low < 0 else ''), body,
              'every set of %d eigenvalues in [%g,4] and vectors' % (nchan, low), max_paths=600)


def images_ob(shape, n, mean_sub, nansym=(), neg=False, acf=False):
    def body(I):
        from turbustat.statistics import PCA
        x = I.split(I.arr('x', shape, lo=-3, hi=3, nansym=nansym)) if not acf else \
            np.arange(int(np.prod(shape))).reshape(shape) * 7 % 5 - 1.5
        nc = shape[0]
        V = I.arr('v', (nc, nc), lo=-1, hi=1)
        s = I.snapshot(x)
        ev = np.arange(nc, 0, -1).astype(float)
        if neg == 'zero':
            ev[-1] = 0.0
        with I.code():
            p = PCA((x, hdr3()))
            I.plant(p, '_eigvecs', V)
            I.plant(p, '_eigvals', ev)
            I.plant(p, '_mean_sub', mean_sub)
            p.n_eigs = n
            if acf == 'noise':
                g = p.noise_ACF(n_eigs=-n if neg else n)
            elif acf:
                g = p.autocorr_images()
            else:
                g = p.eigimages(n_eigs=-n) if neg else p.eigimages()
        I.unchanged('cube', x, s)
        X = asobj(x)
        ny, nx = shape[1:]
        comps = list(range(n))
        if neg:
            comps = list(range(nc - (1 if neg == 'zero' else 0)))[-n:]
        out = objarr((n, ny, nx))
        for q, k in enumerate(comps):
            for p_ in np.ndindex(ny, nx):
                t = []
                for c in range(nc):
                    if bool(isnan(X[(c,) + p_])):
                        continue
                    e = X[(c,) + p_]
                    if mean_sub:
                        e = e - mean([X[(c,) + r] for r in np.ndindex(ny, nx) if not bool(isnan(X[(c,) + r]))])
                    t.append(e * asobj(V)[c, k])
                out[(q,) + p_] = total(t)
        if not acf:
            I.eq('eigenimages', g, out)
            return
        A_ = objarr((n, ny, nx))
        for q in range(n):
            im = out[q].copy()
            im[0, 0] = 0.0
            for dy in range(ny):
                for dx in range(nx):
                    v = total([im[a, b] * im[(a + dy) % ny, (b + dx) % nx] for a, b in np.ndindex(ny, nx)])
                    A_[q, (dy + ny // 2) % ny, (dx + nx // 2) % nx] = v
        if acf == 'noise':
            B = objarr((ny, nx))
            for k in np.ndindex(ny, nx):
                B[k] = mean([A_[(q,) + k] for q in range(n)])
            I.eq('noise autocorrelation', g, B)
        else:
            I.eq('autocorrelation', g, A_)
    return Ob('%s%s-%d%s%s%s' % ({False: 'eigenimages', True: 'autocorrelation', 'noise': 'noise'}[acf], shape, n,
                                 '-mean' if mean_sub else '', '-nan' if nansym else '', '-last' + str(neg) if neg else ''),
              body, 'every %s%s and eigenvectors in [-1,1]' % ('cube in [-3,3] ' if not acf else 'fixed cube ', shape))


def spec_ob(nc, n):
    def body(I):
        from turbustat.statistics import PCA
        V = I.arr('v', (nc, nc), lo=-1, hi=1)
        with I.code():
            p = PCA((np.ones((nc, 2, 2)), hdr3()))
            I.plant(p, '_eigvecs', V)
            p.n_eigs = n
            g = p.autocorr_spec()
        for k in range(n):
            v = [0.0] + list(asobj(V)[1:, k])
            for d in range(nc):
                I.eq('autocorrelation %d lag %d' % (k, d), asobj(g)[d, k],
                     total([v[c] * v[(c + d) % nc] for c in range(nc)]))
    return Ob('spectral autocorrelation-%d-%d' % (nc, n), body, 'every set of eigenvectors of %d channels' % nc)


def dist_ob(nc, n, mean_sub):
    def body(I):
        from turbustat.statistics import PCA, PCA_Distance
        a = I.arr('a', nc, lo=0.1, hi=4)
        b = I.arr('b', nc, lo=0.1, hi=4)
        with I.code():
            ps = []
            for e in (a, b):
                p = PCA((np.ones((nc, 2, 2)), hdr3()))
                I.plant(p, '_eigvals', e)
                I.plant(p, '_n_eigs', n)
                I.plant(p, '_mean_sub', mean_sub)
                ps.append(p)
            d = PCA_Distance(ps[0], ps[1], n_eigs=n, mean_sub=mean_sub).distance_metric().distance
            e = PCA_Distance(ps[1], ps[0], n_eigs=n, mean_sub=mean_sub).distance_metric().distance
            z = PCA_Distance(ps[0], ps[0], n_eigs=n, mean_sub=mean_sub).distance_metric().distance
        lo = 0 if mean_sub else 1
        A_, B_ = list(asobj(a))[lo:n], list(asobj(b))[lo:n]
        sa, sb = total(A_), total(B_)
        w = total([(p / sa - q / sb) * (p / sa - q / sb) for p, q in zip(A_, B_)])
        I.eq('distance', d * d, w)
        I.le('not negative', 0.0, d)
        I.eq('symmetric', e * e, w)
        I.eq('zero on itself', z, 0.0)
    return Ob('distance-%d-%d%s' % (nc, n, '-mean' if mean_sub else ''), body,
              'every pair of %d eigenvalues in [0.1,4]' % nc)


def inputs_ob(kinds):
    """data sets without a decomposition are decomposed with the options of the comparison"""
    def body(I):
        from turbustat.statistics import PCA, PCA_Distance
        nc, n = 4, 3
        e = [I.arr('a', nc, lo=0.1, hi=4), I.arr('b', nc, lo=0.1, hi=4)]
        calls = []

        def run(self, *a, **k):
            i = int(round(float(np.asarray(self.data)[0, 0, 0]))) - 1
            calls.append((i, k))
            I.plant(self, '_eigvals', e[i])
            I.plant(self, '_n_eigs', n)
        saved = PCA.run, PCA.compute_pca
        PCA.run = PCA.compute_pca = run
        try:
            with I.code():
                o = []
                for i, k in enumerate(kinds):
                    c = (np.ones((nc, 2, 2)) * (i + 1), hdr3())
                    if k != 'data':
                        c = PCA(c)
                        if k == 'fitted':
                            I.plant(c, '_eigvals', e[i])
                            I.plant(c, '_n_eigs', nc)
                            I.plant(c, '_mean_sub', True)
                    o.append(c)
                d = PCA_Distance(o[0], o[1], n_eigs=n, mean_sub=True).distance_metric().distance
        except AttributeError as exc:
            if "'_eigvals'" not in str(exc):
                raise
            # the code still keeps its eigenvalues under this name, and has not made them
            I.true('decomposition made', False)
            return
        finally:
            PCA.run, PCA.compute_pca = saved
        I.true('decomposed where needed', sorted(i for i, _ in calls) == [i for i in range(2) if kinds[i] != 'fitted'])
        for i, k in calls:
            I.true('options of %d' % i, k.get('mean_sub') is True and k.get('n_eigs') == n)
        A_, B_ = [list(asobj(v))[:n] for v in e]
        sa, sb = total(A_), total(B_)
        I.eq('distance', d * d, total([(p / sa - q / sb) * (p / sa - q / sb) for p, q in zip(A_, B_)]))
    return Ob('distance-inputs-%s-%s' % kinds, body, 'every pair of 4 eigenvalues in [0.1,4]')


def limits_ob():
    def body(I):
        from turbustat.statistics import PCA
        x = I.arr('x', (2, 2, 2), lo=1, hi=3)
        I.assume(abs(x[0, 0, 0] - x[1, 0, 1]) > 0.1)
        with I.code():
            p = PCA((x, hdr3()))
        I.raises('auto without limit', ValueError, p.compute_pca, n_eigs='auto', show_progress=False)
        I.raises('more than channels', (Warning, ValueError), p.compute_pca, n_eigs=3, show_progress=False)
        I.raises('none', (Warning, ValueError), p.compute_pca, n_eigs=0, show_progress=False)
        I.raises('below -1', (Warning, ValueError), p.compute_pca, n_eigs=-2, show_progress=False)
        I.raises('unknown cut', ValueError, p.compute_pca, n_eigs='auto', min_eigval=0.1,
                 eigen_cut_method='best', show_progress=False)
    return Ob('refused settings', body, 'every 2x2x2 cube in [1,3]')


def obligations(tier):
    obs = [cov_ob((3, 2, 2), False), cov_ob((3, 2, 2), True), cov_ob((2, 2, 3), True),
           cov_ob((3, 2, 2), False, nansym=[(0, 0, 0), (2, 1, 1)]), cov_ob((3, 2, 2), True, nansym=[(0, 0, 0), (2, 1, 1)]),
           cov_ob((3, 1, 3), False, nans=[(1, 0, 0), (1, 0, 1), (1, 0, 2)]), cov_ob((3, 1, 3), True, nans=[(0, 0, 0), (0, 0, 1), (0, 0, 2)]),
           cov_ob((4, 3, 2), True, nansym=[(1, 0, 0), (1, 2, 1), (3, 2, 1)]),
           full_ob((2, 2, 2), False, -1, [(0, 0, 1)]), full_ob((2, 2, 2), True, -1, [(1, 1, 0)]), full_ob((2, 3, 2), True, 1, [(0, 2, 1)]),
           eig_ob(3, True, 2), eig_ob(3, False, 2), eig_ob(3, True, -1, low=-1.0), eig_ob(3, False, 3, low=-1.0), eig_ob(3, False, -1), eig_ob(3, True, 'auto', 1.0),
           eig_ob(3, False, 'auto', 0.9, 'proportion'), eig_ob(3, True, 'auto', 0.5, 'proportion'),
           images_ob((3, 2, 3), 2, False), images_ob((2, 3, 2), 2, True), images_ob((3, 3, 2), 1, False),
           images_ob((3, 2, 2), 2, False, nansym=[(0, 0, 0), (2, 1, 1)]), images_ob((3, 2, 2), 2, True, nansym=[(0, 0, 0), (2, 1, 1)]),
           images_ob((4, 2, 3), 2, True, neg=True), images_ob((4, 2, 2), 2, False, neg='zero'),
           images_ob((2, 2, 3), 2, False, acf=True), images_ob((3, 3, 2), 2, True, acf=True), images_ob((2, 3, 3), 1, True, acf=True),
           images_ob((3, 2, 3), 2, False, acf='noise', neg=True), images_ob((4, 3, 2), 2, True, acf='noise', neg='zero'),
           spec_ob(4, 2), spec_ob(5, 3), dist_ob(4, 3, True), dist_ob(4, 3, False), limits_ob(),
           inputs_ob(('data', 'data')), inputs_ob(('fitted', 'bare')), inputs_ob(('bare', 'fitted')), inputs_ob(('data', 'fitted'))]
    if tier == 'thorough':
        obs += [cov_ob((4, 3, 3), True, nansym=[(1, 0, 0), (1, 2, 1), (3, 2, 1), (0, 0, 0)]), eig_ob(4, True, 3), eig_ob(4, False, 'auto', 0.9, 'proportion'),
                images_ob((4, 3, 3), 3, True), images_ob((3, 4, 3), 3, True, acf=True), dist_ob(5, 4, True)]
    return obs
