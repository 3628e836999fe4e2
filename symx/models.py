"""Models of the library functions (scipy, statsmodels, astropy, sklearn) the package calls.

Each model is registered by the identity of the real function and is only used
inside `symbolic()`; the real function is used whenever no argument is symbolic.
"""
import math
import operator
import types

import numpy as np
import scipy.stats
import scipy.ndimage
import scipy.interpolate
import scipy.fft as sfft

from .core import *
from . import arr as A
from .arr import SymArr, asobj, mk, native, has_sym, apply, fold_list, UF
from . import patch as P
from .patch import model, always, symize_plain


# ------------------------------------------------------------ scipy.stats
@model(scipy.stats.binned_statistic)
def binned_statistic(x, values, statistic='mean', bins=10, range=None):
    x = A.native(asobj(x)) if isinstance(x, np.ndarray) else np.asarray(x)
    if has_sym(x):
        raise Unsupported('binned_statistic with symbolic sample positions')
    x = np.asarray(x, dtype=float).view(np.ndarray)
    v = asobj(values).reshape(-1)
    if has_sym(bins):
        raise Unsupported('binned_statistic with symbolic bins')
    b = native(asobj(bins)) if isinstance(bins, np.ndarray) else bins
    cts, edges, num = scipy.stats.binned_statistic(
        x, np.ones(x.shape), 'count', b if np.ndim(b) == 0 else np.asarray(b, dtype=float), range)
    n = len(edges) - 1
    out = np.empty(n, dtype=object)
    for k in np.arange(n):
        sel = v[num == k + 1]
        if statistic == 'count':
            out[k] = float(len(sel))
            continue
        if len(sel) == 0:
            if callable(statistic):
                try:
                    r = statistic(mk(sel))
                except Exception:
                    r = float('nan')
            elif statistic == 'sum':
                r = 0.0
            else:
                r = float('nan')
        elif statistic == 'mean':
            r = A.np_mean(mk(sel))
        elif statistic == 'sum':
            r = A.np_sum(mk(sel))
        elif statistic == 'std':
            r = A.np_std(mk(sel))
        elif statistic == 'median':
            r = A.np_median(mk(sel))
        elif statistic == 'min':
            r = A.np_min(mk(sel))
        elif statistic == 'max':
            r = A.np_max(mk(sel))
        elif callable(statistic):
            r = statistic(mk(sel))
        else:
            raise Unsupported('binned statistic')
        out[k] = A.unnump(r)
    r = mk(out) if has_sym(out) else out.astype(float).view(P.NatArr)
    return types.SimpleNamespace(statistic=r, bin_edges=edges, binnumber=num,
                                 __iter__=None) if False else _BS(r, edges, num)


class _BS(tuple):
    def __new__(cls, a, b, c):
        t = tuple.__new__(cls, (a, b, c))
        return t

    statistic = property(lambda s: s[0])
    bin_edges = property(lambda s: s[1])
    binnumber = property(lambda s: s[2])


@model(scipy.stats.skew)
def skew(a, axis=0, bias=True, nan_policy='propagate'):
    return _mom(a, axis, 3)


@model(scipy.stats.kurtosis)
def kurtosis(a, axis=0, fisher=True, bias=True, nan_policy='propagate'):
    r = _mom(a, axis, 4)
    return r - 3.0 if fisher else r


def _mom(a, axis, k):
    o = asobj(a)
    if axis is None:
        o = o.reshape(-1)
        axis = 0
    m = A.np_mean(o, axis=axis, keepdims=True)
    d = mk(apply(UF[np.subtract], o, m))
    m2 = A.np_mean(d * d, axis=axis)
    mk_ = A.np_mean(d ** k, axis=axis)
    return mk_ / (m2 ** 1.5 if k == 3 else m2 * m2)


# -------------------------------------------------------------- statsmodels
class SymFit:
    """least-squares results for a concrete design matrix or closed-form (one
    regressor plus constant) weighted fits"""

    def __init__(self, model, params, cov=None):
        self.model = model
        self.params = params
        self._cov = cov

    @property
    def fittedvalues(self):
        return A.np_dot(self.model.exog, self.params)

    @property
    def resid(self):
        return self.model.endog - A.np_dot(self.model.exog, self.params)

    @property
    def wresid(self):
        return self.model.wendog - A.np_dot(self.model.wexog, self.params)

    @property
    def bse(self):
        c = self.cov_params()
        n = len(self.params)
        out = np.empty(n, dtype=object)
        for i in range(n):
            out[i] = s_sqrt(SymReal.lift(asobj(c)[i, i]), nonneg=True)
        return mk(out)

    def cov_params(self):
        return self._cov()

    @property
    def tvalues(self):
        return self.params / self.bse

    def summary(self, *a, **k):
        return 'symbolic fit'

    def predict(self, exog=None, **k):
        return A.np_dot(self.model.exog if exog is None else asobj(exog), self.params)


def inv_sym(M):
    """exact inverse (adjugate) of a small symbolic matrix"""
    n = M.shape[0]
    if n == 1:
        det = M[0, 0]
        adj = np.array([[1.0]], dtype=object)
    elif n == 2:
        det = M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0]
        adj = np.array([[M[1, 1], -M[0, 1]], [-M[1, 0], M[0, 0]]], dtype=object)
    else:
        raise Unsupported('inverse of a symbolic %dx%d matrix' % (n, n))
    return adj, det


class _LS:
    def __init__(self, endog, exog, missing='none', weights=None, **k):
        y = asobj(endog)
        X = asobj(exog)
        y = y.reshape(-1) if y.ndim else y.reshape(1)
        if X.ndim == 1:
            X = X[:, None]
        w = None if weights is None else asobj(weights)
        if w is not None and w.ndim == 0:
            w = np.full(y.shape, w.item(), dtype=object)
        if missing == 'drop':
            keep = []
            for i in range(len(y)):
                bad = s_isnan(y[i])
                for e in X[i]:
                    bad = s_or(bad, s_isnan(e))
                if w is not None:
                    bad = s_or(bad, s_isnan(w[i]))
                keep.append(not bool(bad))
            keep = np.array(keep)
            y, X = y[keep], X[keep]
            w = None if w is None else w[keep]
        self.endog, self.exog = mk(y), mk(X)
        self.weights = 1.0 if w is None else mk(w)
        self._w = w
        if w is None:
            self.wendog, self.wexog = self.endog, self.exog
        else:
            sw = apply(lambda e: s_sqrt(e) if is_sym(e) else math.sqrt(e), w)
            self.wendog = mk(apply(UF[np.multiply], sw, y))
            self.wexog = mk(apply(UF[np.multiply], sw[:, None], X))
        self.nobs = len(y)

    def fit(self, cov_type='nonrobust', **k):
        X, y, w = asobj(self.exog), asobj(self.endog), self._w
        n, p = X.shape
        if w is None and not has_sym(X):
            Xc = X.astype(float)
            pinv = np.linalg.pinv(Xc)
            params = A.mm(pinv.astype(object), y)

            def cov():
                e = y - asobj(A.np_dot(Xc, params))
                if cov_type == 'HC3':
                    h = np.einsum('ij,ji->i', Xc, pinv)
                    s = [e[i] * e[i] * (1.0 / (1 - h[i]) ** 2) for i in range(n)]
                    C = np.empty((p, p), dtype=object)
                    for a in range(p):
                        for b in range(p):
                            C[a, b] = fold_list(operator.add, 0.0,
                                                [s[i] * float(pinv[a, i] * pinv[b, i])
                                                 for i in range(n)])
                    return mk(C)
                s2 = fold_list(operator.add, 0.0, [x * x for x in e]) / float(n - p)
                N = pinv @ pinv.T
                return mk(apply(lambda q: s2 * float(q), N.astype(object)))
            return SymFit(self, params, cov)
        # weighted: normal equations in closed form
        if w is None:
            w = np.ones(n, dtype=object)
        M = np.empty((p, p), dtype=object)
        r = np.empty(p, dtype=object)
        mul = UF[np.multiply]
        for a in range(p):
            r[a] = fold_list(operator.add, 0.0, [mul(mul(w[i], X[i, a]), y[i]) for i in range(n)])
            for b in range(p):
                M[a, b] = fold_list(operator.add, 0.0,
                                    [mul(mul(w[i], X[i, a]), X[i, b]) for i in range(n)])
        adj, det = inv_sym(M)
        params = np.empty(p, dtype=object)
        for a in range(p):
            params[a] = UF[np.true_divide](fold_list(operator.add, 0.0,
                                                     [mul(adj[a, b], r[b]) for b in range(p)]),
                                           det)

        def cov():
            # not modelled: unconstrained values (nothing can be proved about them)
            C = np.empty((p, p), dtype=object)
            for a in range(p):
                for b in range(p):
                    C[a, b] = SymReal(ENG().fresh('opaque_cov'))
            return mk(C)
        return SymFit(self, mk(params), cov)


class SymOLS(_LS):
    def __init__(self, endog, exog=None, missing='none', **k):
        super().__init__(endog, exog, missing, None)


class SymWLS(_LS):
    def __init__(self, endog, exog, weights=1.0, missing='none', **k):
        super().__init__(endog, exog, missing, weights)


def _install_statsmodels():
    try:
        import statsmodels.api as sm
    except ImportError:
        return

    class FakeSM(types.ModuleType):
        def __getattr__(self, n):
            v = getattr(sm, n)
            # a class stubbed by an obligation is used as it is
            return fakes[n] if n in fakes and v is reals[n] else v
    f = FakeSM('statsmodels.api')
    fakes, reals = {}, dict(OLS=sm.OLS, WLS=sm.WLS)

    def pick(real, fake):
        def mkr(endog, exog=None, **k):
            if has_sym(symize_plain(endog)) or has_sym(symize_plain(exog)) or \
                    has_sym(symize_plain(k.get('weights'))):
                return fake(symize_plain(endog), symize_plain(exog), **k)
            nk = {a: A.nativize(b) for a, b in k.items()}
            return real(np.asarray(A.nativize(endog)).view(np.ndarray),
                        np.asarray(A.nativize(exog)).view(np.ndarray), **nk)
        return mkr
    fakes['OLS'] = pick(sm.OLS, SymOLS)
    fakes['WLS'] = pick(sm.WLS, SymWLS)

    def add_constant(x, prepend=True, has_constant='skip'):
        o = asobj(symize_plain(x))
        if o.ndim == 1:
            o = o[:, None]
        if has_constant == 'skip' and any(not has_sym(c) and len(set(c.tolist())) == 1 and c[0] != 0 for c in o.T):
            return mk(o) if has_sym(o) else o.astype(float)
        one = np.ones((o.shape[0], 1), dtype=object)
        r = np.concatenate([one, o] if prepend else [o, one], axis=1)
        return mk(r) if has_sym(r) else r.astype(float)
    f.add_constant = add_constant
    always(sm)(f)
    import statsmodels.tools.tools as smt
    always(smt.add_constant)(add_constant)


_install_statsmodels()


# ---------------------------------------------------------------- scipy FFT
for _n, _f in A.FFT.items():
    if hasattr(sfft, _n):
        model(getattr(sfft, _n))(_f)
    try:
        import scipy.fftpack as _fp
        if hasattr(_fp, _n):
            model(getattr(_fp, _n))(_f)
    except ImportError:
        pass
    try:
        import pyfftw.interfaces.numpy_fft as _pf
        if hasattr(_pf, _n):
            model(getattr(_pf, _n))(_f)
    except ImportError:
        pass


# ------------------------------------------------ linear library operators
def affine(fn, x, *a, **k):
    """fn(x, ...) for a function that is affine in the finite entries of x: the
    matrix is measured on the real function with unit impulses"""
    xo = asobj(x)
    nanpos = np.zeros(xo.shape, dtype=bool)
    for q in np.ndindex(*xo.shape):
        e = xo[q]
        if isinstance(e, SymReal):
            if e.nan is not False and (e.nan is True or bool(s_isnan(e))):
                nanpos[q] = True
        elif isinstance(e, SymComplex):
            raise Unsupported('complex argument of a linear operator')
        else:
            nanpos[q] = math.isnan(e)
    base = np.zeros(xo.shape)
    base[nanpos] = np.nan
    for q in np.ndindex(*xo.shape):
        if not nanpos[q] and not is_sym(xo[q]):
            base[q] = float(xo[q])
    r0 = np.asarray(fn(base.copy(), *a, **k), dtype=float)
    acc = [[v] for v in r0.ravel()]
    for q in np.ndindex(*xo.shape):
        if nanpos[q] or not is_sym(xo[q]):
            continue
        imp = base.copy()
        imp[q] = 1.0
        r = np.asarray(fn(imp, *a, **k), dtype=float) - r0
        e = xo[q]
        if isinstance(e, SymReal) and e.nan is not False:
            e = SymReal(e.n, e.d)
        big = np.nanmax(np.abs(r)) if np.isfinite(r).any() else 0.0
        for n, c in enumerate(r.ravel()):
            if math.isnan(c):
                continue
            if abs(c) > 1e-15 * max(big, 1.0):
                acc[n].append(e * float(c))
    out = np.empty(r0.size, dtype=object)
    for n, t in enumerate(acc):
        out[n] = float('nan') if math.isnan(t[0]) else fold_list(operator.add, 0.0, t)
    return mk(out.reshape(r0.shape))


def _register_convolve():
    import astropy.convolution as ac

    def conv(real):
        @model(real)
        def f(array, kernel, *a, **k):
            for key in ('fftn', 'ifftn'):
                v = k.get(key)
                if v is not None:
                    k[key] = getattr(np.fft, getattr(v, '__name__', key))
            if has_sym(kernel if isinstance(kernel, np.ndarray) else getattr(kernel, 'array', 0)):
                raise Unsupported('convolution with a symbolic kernel')
            k = {q: (A.unnump(v) if not callable(v) else v) for q, v in k.items()}
            return affine(real, array, kernel, *a, **k)
    conv(ac.convolve_fft)
    conv(ac.convolve)


_register_convolve()


# ------------------------------------------------------------- eigenvalues (2x2)
@model(np.linalg.eigh)
def eigh(a, UPLO='L'):
    """closed form for symmetric 2x2 matrices (the lower triangle is used)"""
    m = A.asobj(a)
    if m.shape != (2, 2):
        raise Unsupported('eigh of %s' % (m.shape,))
    p, q = m[0, 0], m[1, 1]
    b = m[1, 0] if UPLO == 'L' else m[0, 1]
    h = (p - q) / 2.0
    s = s_sqrt(h * h + b * b, nonneg=True) if is_sym(h * h + b * b) else float(np.sqrt(h * h + b * b))
    c = (p + q) / 2.0
    vals = np.empty(2, dtype=object)
    vals[0], vals[1] = c - s, c + s
    vecs = np.empty((2, 2), dtype=object)
    if bool(b == 0):
        one = 0 if bool(p > q) else 1
        vecs[...] = 0.0
        vecs[one, 1] = 1.0
        vecs[1 - one, 0] = 1.0
    else:
        # (b, s - h) and (s - h, -b), both of norm sqrt(b^2 + (s-h)^2)
        t = s - h
        n = s_sqrt(b * b + t * t, nonneg=True)
        vecs[0, 1], vecs[1, 1] = b / n, t / n
        vecs[0, 0], vecs[1, 0] = t / n, -b / n
    return A.mk(vals), A.mk(vecs)


# ------------------------------------------------ scipy.ndimage labels
def concrete_bool(a):
    """array with every truth value decided on this path"""
    o = asobj(a)
    r = np.zeros(o.shape, dtype=bool)
    for k in np.ndindex(*o.shape):
        r[k] = bool(o[k])
    return r


import scipy.ndimage as _nd


@model(_nd.label)
def nd_label(input, structure=None, output=None):
    if structure is not None:
        structure = np.asarray(A.native(asobj(structure)))
    return _nd.label(concrete_bool(input), structure)


@model(_nd.sum)
def nd_sum(input, labels=None, index=None):
    o = asobj(input)
    if all(isinstance(e, (SymBool, bool, np.bool_)) for e in o.ravel()):
        return _nd.sum(concrete_bool(input), labels, index)
    lab = np.asarray(A.native(asobj(labels))) if labels is not None else np.ones(o.shape, int)
    idx = [None] if index is None else list(np.atleast_1d(index))
    out = np.empty(len(idx), dtype=object)
    for n, i in enumerate(idx):
        out[n] = fold_list(operator.add, 0.0, list(o[(lab == i) if i is not None else lab > 0]))
    return mk(out) if index is not None and np.ndim(index) else out[0]


# ------------------------------------------------ splines, linear in the values
import scipy.interpolate as _si


def _spline(real):
    class Spline(object):
        def __init__(self, x, y, *a, **k):
            self.x, self.y, self.a, self.k = x, y, a, k

        def __call__(self, p, *a, **k):
            if has_sym(self.x) or has_sym(p):
                raise Unsupported('spline with symbolic abscissae')
            xx, pp = np.asarray(A.native(asobj(self.x))), np.asarray(A.native(asobj(p)))
            if not has_sym(self.y):
                return real(xx, np.asarray(A.native(asobj(self.y)), dtype=float), *self.a, **self.k)(pp, *a, **k)
            return affine(lambda y: real(xx, y, *self.a, **self.k)(pp, *a, **k), self.y)
    P.SPECIAL_TYPES[real] = Spline
    return Spline


_spline(_si.InterpolatedUnivariateSpline)


# ------------------------------------------------ empirical distributions
def _ecdf():
    try:
        from statsmodels.distributions.empirical_distribution import ECDF as real
    except ImportError:
        return

    class ECDF(object):
        def __init__(self, x, side='right'):
            self.v, self.side = list(asobj(x).reshape(-1)), side
            self.n = len(self.v)

        def __call__(self, p):
            def f(e):
                c = [(v <= e if self.side == 'right' else v < e) for v in self.v]
                return fold_list(operator.add, 0.0, [ite(k, 1.0, 0.0) if is_sym(k) else float(k) for k in c]) / float(self.n)
            r = apply(f, p)
            return mk(r) if r.ndim else r.item()
    P.SPECIAL_TYPES[real] = ECDF


_ecdf()


@model(scipy.stats.ks_2samp)
def ks_2samp(data1, data2, *a, **k):
    x, y = list(asobj(data1).reshape(-1)), list(asobj(data2).reshape(-1))

    def F(s, e):
        return fold_list(operator.add, 0.0, [ite(v <= e, 1.0, 0.0) if is_sym(v <= e) else float(v <= e) for v in s]) / float(len(s))
    best = 0.0
    for e in x + y:
        d = abs(F(x, e) - F(y, e))
        c = d > best
        best = ite(c, d, best) if is_sym(c) else (d if c else best)
    return best, float('nan')


# ------------------------------------------------ pairwise distances
def _pairwise():
    try:
        from sklearn.metrics.pairwise import pairwise_distances as real
    except ImportError:
        return

    @model(real)
    def pairwise_distances(X, Y=None, metric='euclidean', **k):
        if metric != 'euclidean':
            raise Unsupported('pairwise metric')
        a = asobj(X)
        b = a if Y is None else asobj(Y)
        out = np.empty((a.shape[0], b.shape[0]), dtype=object)
        for i, j in np.ndindex(*out.shape):
            if b is a and j <= i:
                out[i, j] = 0.0 if i == j else out[j, i]
                continue
            d = [p - q for p, q in zip(a[i], b[j])]
            if len(d) == 1:
                out[i, j] = abs(d[0])
                continue
            s = fold_list(operator.add, 0.0, [e * e for e in d])
            out[i, j] = s_sqrt(s, nonneg=True) if is_sym(s) else math.sqrt(s)
        return mk(out)


_pairwise()
