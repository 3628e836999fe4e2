"""Symbolic ndarray (object dtype) and models of the numpy functions."""
import math
import operator
from fractions import Fraction

import numpy as np

from .core import *
from .core import _is_concrete_num
from . import core


# ------------------------------------------------------------------ utilities
def has_sym(x, depth=0):
    if type(x) in SYM:
        return True
    if isinstance(x, np.ndarray):
        if x.dtype.kind != 'O':
            return False
        b = x.view(np.ndarray)
        if b.ndim == 0:
            return type(b.item()) in SYM
        for e in b.flat:
            if type(e) in SYM:
                return True
        return False
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_sym(e, depth + 1) for e in x)
    if isinstance(x, dict) and depth < 6:
        return any(has_sym(e, depth + 1) for e in x.values())
    return False


def has_obj(x, depth=0):
    if type(x) in SYM:
        return True
    if isinstance(x, np.ndarray):
        return x.dtype.kind == 'O' or isinstance(x, SymArr)
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_obj(e, depth + 1) for e in x)
    return False


def concrete_kind(vals):
    k = 0
    for e in vals:
        if isinstance(e, (bool, np.bool_)):
            k = max(k, 1)
        elif isinstance(e, (int, np.integer)):
            k = max(k, 2)
        elif isinstance(e, (float, np.floating, Fraction)):
            k = max(k, 3)
        elif isinstance(e, (complex, np.complexfloating)):
            k = max(k, 4)
        else:
            return None
    return k


def native(x):
    """all-concrete object array -> native numpy array (else unchanged)"""
    if isinstance(x, np.ndarray) and x.dtype.kind == 'O' and type(x) in (SymArr, np.ndarray):
        if has_sym(x):
            return x
        b = x.view(np.ndarray)
        k = concrete_kind(b.flat)
        if k is None:
            return x
        hint = getattr(x, 'hint', None)
        dt = {0: float, 1: bool, 2: int, 3: float, 4: complex}[k]
        if hint is not None and (k == 0 or np.can_cast(np.dtype(dt), hint, 'same_kind')):
            dt = hint
        return b.astype(dt)
    return x


def nativize(x, depth=0):
    if isinstance(x, np.ndarray):
        return native(x)
    if isinstance(x, list) and depth < 6:
        return [nativize(e, depth + 1) for e in x]
    if isinstance(x, tuple) and depth < 6 and type(x) is tuple:
        return tuple(nativize(e, depth + 1) for e in x)
    if isinstance(x, dict) and depth < 6 and type(x) is dict:
        return {k: nativize(v, depth + 1) for k, v in x.items()}
    return x


def asobj(x):
    """anything -> plain object ndarray"""
    if isinstance(x, np.ndarray):
        b = x.view(np.ndarray)
        return b if b.dtype.kind == 'O' else b.astype(object)
    if type(x) in SYM:
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, (list, tuple)):
        return stack_list(x)
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def stack_list(x):
    if len(x) == 0:
        return np.empty((0,), dtype=object)
    parts = [asobj(e) for e in x]
    shp = parts[0].shape
    if any(p.shape != shp for p in parts):
        raise ValueError('setting an array element with a sequence. The requested array has '
                         'an inhomogeneous shape')
    out = np.empty((len(parts),) + shp, dtype=object)
    for i, p in enumerate(parts):
        out[i] = p if shp else p.item()
    return out


def mk(a, hint=None):
    """plain object ndarray -> SymArr (or the scalar for 0-d)"""
    if isinstance(a, np.ndarray):
        if a.ndim == 0:
            return a.item() if a.dtype.kind == 'O' else a[()]
        if a.dtype.kind == 'b' and hint is None:
            return a
        r = asobj(a).view(SymArr)
        if hint is not None:
            r.hint = np.dtype(hint)
        elif a.dtype.kind != 'O':
            r.hint = a.dtype
        return r
    return a


def mkb(a):
    """object ndarray of bools -> native bool when concrete, else SymArr"""
    if a.ndim == 0:
        e = a.item()
        return e if is_sym(e) else np.bool_(e)
    if not has_sym(a):
        return a.astype(bool)
    return a.view(SymArr)


_LANG_OK = True


def conc(e):
    return type(e) not in SYM


def numpify(e):
    """python scalar -> numpy scalar, so float rules (x/0 -> inf) apply"""
    if isinstance(e, float):
        return np.float64(e)
    if isinstance(e, bool):
        return np.bool_(e)
    if isinstance(e, int):
        return np.int64(e) if abs(e) < 2 ** 62 else np.float64(e)
    if isinstance(e, complex):
        return np.complex128(e)
    if isinstance(e, Fraction):
        return np.float64(float(e))
    return e


def unnump(e):
    if isinstance(e, np.ndarray) and e.ndim == 0:
        e = e[()]
    if isinstance(e, np.floating):
        return float(e)
    if isinstance(e, np.bool_):
        return bool(e)
    if isinstance(e, np.integer):
        return int(e)
    if isinstance(e, np.complexfloating):
        return complex(e)
    return e


def _elem(symf, realf):
    def f(*xs):
        for x in xs:
            if type(x) in SYM:
                return symf(*xs)
        with np.errstate(all='ignore'):
            return unnump(realf(*[numpify(x) for x in xs]))
    return f


def _c(name):
    def f(x):
        return getattr(SymReal.lift(x) if isinstance(x, SymBool) else x, name)()
    return f


def _arctan2(y, x):
    return s_uf('arctan2', y, x)


def _angle(z):
    z = SymComplex.lift(z)
    return s_uf('arctan2', z.im, z.re)


def _absolute(x):
    return abs(x)


def _pw(a, b):
    return s_pow(a, b)


def _hypot(a, b):
    a, b = SymReal.lift(a), SymReal.lift(b)
    return s_sqrt(a * a + b * b, nonneg=True)


def _rint(x):
    return SymReal.lift(x).rint()


def _shl(x, y):
    raise Unsupported('shift')


UF = {}


def reg(ufunc, symf):
    UF[ufunc] = (_elem(symf, ufunc))


reg(np.add, operator.add)
reg(np.subtract, operator.sub)
reg(np.multiply, operator.mul)
reg(np.true_divide, operator.truediv)
reg(np.floor_divide, operator.floordiv)
reg(np.remainder, operator.mod)
reg(np.power, _pw)
reg(np.float_power, _pw)
reg(np.negative, operator.neg)
reg(np.positive, lambda x: x)
reg(np.absolute, _absolute)
reg(np.fabs, _absolute)
reg(np.sqrt, lambda x: s_sqrt(x))
reg(np.square, lambda x: x * x)
reg(np.reciprocal, lambda x: 1.0 / x)
def _exp(x):
    if isinstance(x, SymComplex):
        s, c = s_sincos(x.imag)
        m = s_uf('exp', x.real) if is_sym(x.real) else float(np.exp(x.real))
        return SymComplex(m * c, m * s)
    return s_uf('exp', x)


reg(np.exp, _exp)
reg(np.exp2, lambda x: s_uf('exp', x * math.log(2)))
reg(np.expm1, lambda x: s_uf('exp', x) - 1)
reg(np.log, lambda x: s_log(x))
reg(np.log10, lambda x: s_log(x, 10))
reg(np.log2, lambda x: s_log(x, 2))
reg(np.log1p, lambda x: s_log(x + 1))
reg(np.sin, lambda x: s_sincos(x)[0])
reg(np.cos, lambda x: s_sincos(x)[1])
reg(np.tan, lambda x: s_sincos(x)[0] / s_sincos(x)[1])
reg(np.arctan, lambda x: s_uf('arctan', x))
reg(np.arctan2, _arctan2)
reg(np.arcsin, lambda x: s_uf('arcsin', x))
reg(np.arccos, lambda x: s_uf('arccos', x))
reg(np.sinh, lambda x: (s_uf('exp', x) - s_uf('exp', -x)) / 2)
reg(np.cosh, lambda x: (s_uf('exp', x) + s_uf('exp', -x)) / 2)
reg(np.tanh, lambda x: s_uf('tanh', x))
reg(np.hypot, _hypot)
reg(np.deg2rad, lambda x: x * (math.pi / 180))
reg(np.rad2deg, lambda x: x * (180 / math.pi))
reg(np.radians, lambda x: x * (math.pi / 180))
reg(np.degrees, lambda x: x * (180 / math.pi))
reg(np.conjugate, lambda x: x if isinstance(x, SymBool) else x.conjugate())
reg(np.floor, lambda x: SymReal.lift(x).floor())
reg(np.ceil, lambda x: SymReal.lift(x).ceil())
reg(np.trunc, lambda x: SymReal.lift(x).trunc())
reg(np.rint, _rint)
reg(np.sign, s_sign)
reg(np.less, operator.lt)
reg(np.less_equal, operator.le)
reg(np.greater, operator.gt)
reg(np.greater_equal, operator.ge)
reg(np.equal, operator.eq)
reg(np.not_equal, operator.ne)
reg(np.logical_and, s_and)
reg(np.logical_or, s_or)
reg(np.logical_not, s_not)
reg(np.logical_xor, s_xor)
reg(np.bitwise_and, s_and)
reg(np.bitwise_or, s_or)
reg(np.bitwise_xor, s_xor)
reg(np.invert, s_not)
reg(np.isnan, s_isnan)
reg(np.isfinite, s_isfinite)
reg(np.isinf, s_isinf)
reg(np.minimum, s_min)
reg(np.maximum, s_max)
reg(np.fmin, s_fmin)
reg(np.fmax, s_fmax)
reg(np.copysign, lambda a, b: ite(SymReal.lift(b) >= 0, abs(SymReal.lift(a)), -abs(SymReal.lift(a))))
reg(np.heaviside, lambda a, b: ite(a < 0, 0.0, ite(a > 0, 1.0, b)))
reg(np.signbit, lambda a: SymReal.lift(a) < 0)
for _n in ('cbrt', ):
    reg(getattr(np, _n), lambda x: s_pow(x, Fraction(1, 3)))

BOOL_UF = {np.less, np.less_equal, np.greater, np.greater_equal, np.equal, np.not_equal,
           np.logical_and, np.logical_or, np.logical_not, np.logical_xor, np.isnan,
           np.isfinite, np.isinf, np.signbit}
BIT_UF = {np.bitwise_and, np.bitwise_or, np.bitwise_xor, np.invert}
FOLD = {np.add: (operator.add, 0.0), np.multiply: (operator.mul, 1.0),
        np.maximum: (s_max, None), np.minimum: (s_min, None),
        np.fmax: (s_fmax, None), np.fmin: (s_fmin, None),
        np.logical_and: (s_and, True), np.logical_or: (s_or, False),
        np.bitwise_and: (s_and, True), np.bitwise_or: (s_or, False)}


def _bits_ok(ins):
    """bitwise ops are modelled on booleans only"""
    for a in ins:
        for e in asobj(a).flat:
            if isinstance(e, (SymBool, bool, np.bool_)):
                continue
            return False
    return True


def strip_q(x):
    return x


def dispatch_ufunc(ufunc, method, inputs, kw):
    kw = dict(kw)
    out = kw.pop('out', None)
    where = kw.pop('where', True)
    dtype = kw.pop('dtype', None)
    kw.pop('casting', None)
    kw.pop('subok', None)
    kw.pop('order', None)
    # Quantity inputs: let astropy treat the unit, then it re-enters with values
    for x in inputs:
        if _is_quantity(x):
            if hasattr(x, '_to_own_unit') and any(has_sym(y) for y in inputs):
                from . import qty
                return qty.ufunc(ufunc, method, inputs, dict(kw, out=out) if out else kw)
            return NotImplemented
    if method == '__call__':
        if ufunc.nout != 1 or ufunc not in UF:
            if ufunc is np.matmul:
                return mm(inputs[0], inputs[1])
            if ufunc is np.modf:
                t = apply(UF[np.trunc], inputs[0])
                return apply(UF[np.subtract], inputs[0], t), t
            if ufunc is np.divmod:
                q = apply(UF[np.floor_divide], *inputs)
                return q, apply(UF[np.remainder], *inputs)
            if not any(has_sym(a) for a in inputs):
                r = getattr(ufunc, method)(*[native(a) if isinstance(a, np.ndarray) else a
                                             for a in inputs], **kw)
                return r
            if getattr(ufunc, '__name__', '').startswith('erf'):
                return mk(apply(_elem(lambda x: s_uf('erf', x), ufunc), *inputs))
            raise Unsupported('ufunc %s' % ufunc)
        if ufunc in BIT_UF and not _bits_ok(inputs):
            if any(has_sym(a) for a in inputs):
                raise Unsupported('bitwise op on symbolic numbers')
            return ufunc(*[native(a) if isinstance(a, np.ndarray) else a for a in inputs])
        r = apply(UF[ufunc], *inputs)
        if ufunc in BOOL_UF or ufunc in BIT_UF:
            r = mkb(r)
        else:
            r = mk(r, hint=_rhint(ufunc, inputs))
        if where is not True:
            base = out[0] if out else np.empty(np.shape(r), dtype=object)
            r = np_where(where, r, base)
        if dtype is not None:
            r = cast(r, dtype)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if o is not None:
                assign(o, Ellipsis, r)
                return o
        return r
    if method == 'reduce':
        axis = kw.get('axis', 0)
        keep = kw.get('keepdims', False)
        a = inputs[0]
        if where is not True:
            ident = FOLD[ufunc][1]
            a = np_where(where, a, ident)
        if ufunc not in FOLD:
            raise Unsupported('reduce %s' % ufunc)
        r = reduce_(FOLD[ufunc], a, axis, keep)
        if out is not None and (out[0] if isinstance(out, tuple) else out) is not None:
            o = out[0] if isinstance(out, tuple) else out
            assign(o, Ellipsis, r)
            return o
        return r
    if method == 'accumulate':
        return cumul(FOLD[ufunc][0], inputs[0], kw.get('axis', 0))
    if method == 'outer':
        a, b = asobj(inputs[0]), asobj(inputs[1])
        aa = a.reshape(a.shape + (1,) * b.ndim)
        return mk(apply(UF[ufunc], aa, b))
    if method == 'at':
        a, idx = inputs[0], inputs[1]
        idx = np.asarray(native(np.asarray(idx)) if not isinstance(idx, tuple) else idx)
        b = inputs[2] if len(inputs) > 2 else None
        bb = np.broadcast_to(asobj(b), idx.shape) if b is not None else None
        for k in np.ndindex(idx.shape):
            i = idx[k]
            a[i] = UF[ufunc](a[i], bb[k]) if bb is not None else UF[ufunc](a[i])
        return None
    raise Unsupported('ufunc method %s' % method)


def _rhint(ufunc, inputs):
    return None


def _is_quantity(x):
    t = type(x)
    return t.__module__.startswith('astropy.units') or hasattr(x, '_to_own_unit')


def apply(f, *xs):
    os_ = [asobj(x) for x in xs]
    if all(o.ndim == 0 for o in os_):
        a = np.empty((), dtype=object)
        a[()] = f(*[unnump(o.item()) for o in os_])
        return a
    shp = np.broadcast_shapes(*[o.shape for o in os_])
    out = np.empty(shp, dtype=object)
    bs = [np.broadcast_to(o, shp) for o in os_]
    of = out.reshape(-1)
    its = [list(b.reshape(-1)) for b in bs]
    for i, args in enumerate(zip(*its)):
        of[i] = f(*args)
    return of.reshape(shp)


def _norm_axes(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (int, np.integer)):
        axis = (int(axis),)
    out = []
    for a in axis:
        a = int(a)
        if not -nd <= a < nd:
            raise np.AxisError(a, nd)
        out.append(a % nd)
    return tuple(out)


def reduce_(fold, a, axis=None, keepdims=False, wrap=True):
    f, ident = fold
    o = asobj(a)
    axes = _norm_axes(axis, o.ndim)
    rest = [i for i in range(o.ndim) if i not in axes]
    t = o.transpose(rest + list(axes))
    shp = tuple(o.shape[i] for i in rest)
    n = 1
    for i in axes:
        n *= o.shape[i]
    t = t.reshape(shp + (n,))
    out = np.empty(shp, dtype=object)
    ef = _elem(f, None)
    for idx in np.ndindex(shp):
        vals = list(t[idx])
        out[idx] = fold_list(f, ident, vals)
    if keepdims:
        out = out.reshape(tuple(1 if i in axes else o.shape[i] for i in range(o.ndim)))
    if f in (s_and, s_or):
        return mkb(out)
    return mk(out)


def fold_list(f, ident, vals):
    if not vals:
        if ident is None:
            raise ValueError('zero-size array to reduction operation which has no identity')
        return ident
    if all(conc(v) for v in vals):
        arr_ = np.array([numpify(v) for v in vals])
        with np.errstate(all='ignore'):
            g = {operator.add: np.sum, operator.mul: np.prod, s_max: np.max, s_min: np.min,
                 s_fmax: np.fmax.reduce, s_fmin: np.fmin.reduce, s_and: np.all, s_or: np.any}[f]
            return unnump(g(arr_))
    acc = None
    # concrete part first
    if f is operator.add:
        cs = [v for v in vals if conc(v)]
        ss = [v for v in vals if not conc(v)]
        ss = [v.to_real() if isinstance(v, SymBool) else v for v in ss]
        acc = ss[0]
        # single n-ary z3 sum keeps terms shallow
        if all(isinstance(v, SymReal) and v.d is None and v.inf is False for v in ss) and len(ss) > 2:
            acc = SymReal(z3.Sum([v.n for v in ss]), None, bor(*[v.nan for v in ss]))
        else:
            for v in ss[1:]:
                acc = acc + v
        if cs:
            c = sum(cs)
            if c != 0:
                acc = acc + c
        return acc
    if f is s_and:
        return s_and(*vals)
    if f is s_or:
        return s_or(*vals)
    acc = vals[0]
    for v in vals[1:]:
        acc = f(acc, v)
    return acc


def cumul(f, a, axis=None):
    o = asobj(a)
    if axis is None:
        o = o.reshape(-1)
        axis = 0
    t = np.moveaxis(o, axis, 0)
    out = np.empty(t.shape, dtype=object)
    for i in range(t.shape[0]):
        if i == 0:
            out[0] = t[0]
        else:
            out[i] = apply(_elem(f, f), out[i - 1], t[i])
    return mk(np.moveaxis(out, 0, axis))


# ---------------------------------------------------------------------- casts
def cast_scalar(e, dt):
    if dt in (float, complex, int, bool, object):
        kind = {float: 'f', complex: 'c', int: 'i', bool: 'b', object: 'O'}[dt]
    else:
        kind = np.dtype(dt).kind
    if kind == 'O':
        return e
    if conc(e):
        with np.errstate(all='ignore'):
            if kind in 'iu' and isinstance(e, float):
                if e != e:
                    return -2 ** 63
                return int(e)
            if kind == 'f':
                return float(e.real) if isinstance(e, complex) else float(e)
            if kind == 'c':
                return complex(e)
            if kind == 'b':
                return bool(e)
            if kind in 'iu':
                return int(e)
        return e
    if kind == 'f':
        if isinstance(e, SymComplex):
            return e.re
        return e.to_real() if isinstance(e, SymBool) else e
    if kind == 'c':
        return SymComplex.lift(e)
    if kind == 'b':
        return mkbool(zbool(e))
    if kind in 'iu':
        if isinstance(e, SymBool):
            return e.to_real()
        return e.trunc()
    raise Unsupported('cast to %s' % dt)


def cast(a, dt):
    if not isinstance(a, np.ndarray):
        return cast_scalar(a, dt)
    o = asobj(a)
    r = apply(lambda e: cast_scalar(e, dt), o)
    k = np.dtype(dt).kind
    if k == 'b':
        return mkb(r)
    return mk(r, hint=None if k == 'O' else dt)


# ------------------------------------------------------------------- SymArr
class SymArr(np.ndarray):
    __array_priority__ = 2000

    def __array_finalize__(self, obj):
        self.hint = getattr(obj, 'hint', None)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return dispatch_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return dispatch_function(func, args, kwargs)

    def __array_wrap__(self, a, context=None, *r):
        return a

    def __reduce__(self):
        raise Unsupported('pickling a symbolic array')

    # -- units: let them build a quantity
    def __mul__(self, o):
        if hasattr(o, 'decompose') and not isinstance(o, np.ndarray):
            return NotImplemented
        return np.ndarray.__mul__(self, o)

    def __truediv__(self, o):
        if hasattr(o, 'decompose') and not isinstance(o, np.ndarray):
            return NotImplemented
        return np.ndarray.__truediv__(self, o)

    # -- indexing
    def __getitem__(self, idx):
        idx = fix_index(idx, self)
        r = self.view(np.ndarray)[idx]
        if isinstance(r, np.ndarray):
            v = r.view(SymArr)
            v.hint = getattr(self, 'hint', None)
            return v
        return r

    def __setitem__(self, idx, val):
        assign(self, idx, val)

    # -- methods
    def astype(self, dt, *a, **k):
        return cast(self, dt)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np_sum(self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_(FOLD[np.multiply], self, axis, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np_mean(self, axis=axis, keepdims=keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return np_var(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return np_std(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(FOLD[np.minimum], self, axis, keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(FOLD[np.maximum], self, axis, keepdims)

    def ptp(self, axis=None, **k):
        return self.max(axis) - self.min(axis)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(FOLD[np.logical_or], self, axis, keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(FOLD[np.logical_and], self, axis, keepdims)

    def argmax(self, axis=None, **k):
        return np_argmax(self, axis)

    def argmin(self, axis=None, **k):
        return np_argmin(self, axis)

    def argsort(self, axis=-1, **k):
        return np_argsort(self, axis)

    def sort(self, axis=-1, **k):
        assign(self, Ellipsis, np_sort(self, axis))

    def cumsum(self, axis=None, **k):
        return cumul(operator.add, self, axis)

    def cumprod(self, axis=None, **k):
        return cumul(operator.mul, self, axis)

    def dot(self, o, **k):
        return np_dot(self, o)

    def __matmul__(self, o):
        return mm(self, o)

    def __rmatmul__(self, o):
        return mm(o, self)

    def conj(self):
        return mk(apply(UF[np.conjugate], self))
    conjugate = conj

    def nonzero(self):
        return np_nonzero(self)

    def clip(self, min=None, max=None, **k):
        return np_clip(self, min, max)

    def round(self, decimals=0, **k):
        return np_round(self, decimals)

    def copy(self, *a, **k):
        r = self.view(np.ndarray).copy().view(SymArr)
        r.hint = self.hint
        return r

    def fill(self, v):
        assign(self, Ellipsis, v)

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def item(self, *a):
        return self.view(np.ndarray).item(*a)

    def take(self, indices, axis=None, **k):
        return mk(self.view(np.ndarray).take(native(np.asarray(indices)), axis=axis))

    def trace(self, *a, **k):
        return np_sum(mk(self.view(np.ndarray).diagonal(*a)))

    @property
    def real(self):
        return mk(apply(lambda e: e.real if not isinstance(e, SymBool) else e, self))

    @real.setter
    def real(self, v):
        raise Unsupported('assign .real')

    @property
    def imag(self):
        return mk(apply(lambda e: e.imag if not isinstance(e, SymBool) else 0.0, self))

    def __bool__(self):
        if self.size == 1:
            return bool(self.view(np.ndarray).reshape(-1)[0])
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous. '
                         'Use a.any() or a.all()')

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __index__(self):
        return self.item().__index__()

    def __repr__(self):
        return 'SymArr(%s)' % (self.shape,)
    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def __contains__(self, x):
        return bool(reduce_(FOLD[np.logical_or], apply(UF[np.equal], self, x)))

    # in-place operators keep the buffer
    def _ip(self, uf, o):
        r = apply(UF[uf], self, o)
        if r.shape != self.shape:
            raise ValueError('non-broadcastable output operand')
        assign(self, Ellipsis, r)
        return self

    def __iadd__(self, o):
        return self._ip(np.add, o)

    def __isub__(self, o):
        return self._ip(np.subtract, o)

    def __imul__(self, o):
        return self._ip(np.multiply, o)

    def __itruediv__(self, o):
        return self._ip(np.true_divide, o)

    def __ipow__(self, o):
        return self._ip(np.power, o)

    def __iand__(self, o):
        return self._ip(np.bitwise_and, o)

    def __ior__(self, o):
        return self._ip(np.bitwise_or, o)


def _fix1(i, force=True):
    if isinstance(i, SymBool):
        return bool(i)
    if isinstance(i, SymReal):
        return int(i)
    if isinstance(i, slice):
        f = lambda v: int(v) if isinstance(v, SymReal) else v
        return slice(f(i.start), f(i.stop), f(i.step))
    if isinstance(i, list):
        i = asobj(i)
    if isinstance(i, np.ndarray) and i.dtype.kind == 'O':
        b = i.view(np.ndarray)
        if not has_sym(b):
            return native(b)
        vals = list(b.flat)
        if all(isinstance(v, (SymBool, bool, np.bool_)) for v in vals):
            r = np.array([bool(v) for v in vals], dtype=bool).reshape(b.shape)
            return r
        r = np.array([int(v) for v in vals], dtype=int).reshape(b.shape)
        return r
    return i


def fix_index(idx, a=None):
    if isinstance(idx, tuple):
        return tuple(_fix1(i) for i in idx)
    return _fix1(idx)


def _is_symmask(i):
    return isinstance(i, np.ndarray) and i.dtype.kind == 'O' and has_sym(i) and \
        all(isinstance(v, (SymBool, bool, np.bool_)) for v in i.view(np.ndarray).flat)


def assign(a, idx, val):
    """a[idx] = val; symbolic boolean masks with scalar values merge by ite"""
    if isinstance(idx, tuple) and len(idx) == 1:
        idx = idx[0]
    target = a.view(np.ndarray)
    if _is_symmask(idx) and (np.ndim(val) == 0 or isinstance(val, SYM)):
        m = idx.view(np.ndarray)
        if isinstance(val, np.ndarray):
            val = val.item() if val.dtype.kind == 'O' else val[()]
        sub = target
        if m.shape != target.shape:
            m = m.reshape(m.shape + (1,) * (target.ndim - m.ndim))
            m = np.broadcast_to(m, target.shape)
        for k in np.ndindex(target.shape):
            target[k] = ite(m[k], val, target[k])
        return
    if isinstance(idx, SymBool) and np.ndim(val) == 0:
        for k in np.ndindex(target.shape):
            target[k] = ite(idx, val, target[k])
        return
    idx = fix_index(idx, a)
    hint = getattr(a, 'hint', None)
    if isinstance(val, np.ndarray):
        v = val.view(np.ndarray)
        if v.dtype.kind != 'O':
            v = v.astype(object)
        elif np.shares_memory(v, target):
            v = v.copy()
    elif isinstance(val, (list, tuple)):
        v = asobj(val)
    else:
        v = asobj(unnump(val))
    if hint is not None and hint.kind in 'iu' and v.size and \
            any(isinstance(e, (float, SymReal)) for e in v.flat):
        v = asobj(apply(lambda e: cast_scalar(e, int), v))
    if hint is not None and hint.kind == 'f' and v.size and \
            any(isinstance(e, (complex, SymComplex)) for e in v.flat):
        v = asobj(apply(lambda e: cast_scalar(e, float), v))
    if hint is not None and hint.kind == 'b' and v.size:
        v = asobj(apply(lambda e: cast_scalar(e, bool), v))
    if target.dtype.kind != 'O':
        raise Unsupported('assigning symbolic values into a native array')
    if v.ndim == 0:
        r = target[idx]
        if isinstance(r, np.ndarray):
            fillv = np.empty(r.shape, dtype=object)
            fillv[...] = v
            target[idx] = fillv
        else:
            target[idx] = v.item()
    else:
        target[idx] = v


# ------------------------------------------------------------ numpy functions
FN = {}


def fn(*funcs):
    def deco(h):
        for f in funcs:
            if f is not None:
                FN[f] = h
        return h
    return deco


def dispatch_function(func, args, kwargs):
    if func in FN:
        return FN[func](*args, **kwargs)
    name = getattr(func, '__name__', str(func))
    if not has_sym(list(args)) and not has_sym(dict(kwargs)):
        r = func(*nativize(args), **nativize(kwargs))
        return r
    # structural functions work on plain object arrays
    if name in STRUCTURAL:
        r = func(*plain(args), **plain(kwargs))
        return rewrap(r)
    raise Unsupported('numpy function %s' % name)


STRUCTURAL = {
    'roll', 'concatenate', 'stack', 'vstack', 'hstack', 'dstack', 'column_stack', 'tile',
    'repeat', 'transpose', 'swapaxes', 'moveaxis', 'rollaxis', 'reshape', 'ravel', 'squeeze',
    'expand_dims', 'flip', 'fliplr', 'flipud', 'rot90', 'diag', 'diagonal', 'fftshift',
    'ifftshift', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'broadcast_to', 'broadcast_arrays',
    'split', 'array_split', 'hsplit', 'vsplit', 'append', 'insert', 'delete', 'triu', 'tril',
    'meshgrid', 'ndim', 'shape', 'size', 'copy', 'resize', 'take', 'kron', 'block', 'diagflat',
    'take_along_axis', 'trim_zeros', 'row_stack', 'may_share_memory', 'shares_memory',
    'ascontiguousarray',
}


def plain(x, depth=0):
    if isinstance(x, SymArr):
        return x.view(np.ndarray)
    if isinstance(x, list) and depth < 6:
        return [plain(e, depth + 1) for e in x]
    if isinstance(x, tuple) and depth < 6:
        return tuple(plain(e, depth + 1) for e in x)
    if isinstance(x, dict):
        return {k: plain(v, depth + 1) for k, v in x.items()}
    if type(x) in SYM:
        return asobj(x)
    return x


def rewrap(r):
    if isinstance(r, np.ndarray):
        if r.dtype.kind == 'O':
            return mk(r)
        return r
    if isinstance(r, list):
        return [rewrap(e) for e in r]
    if isinstance(r, tuple):
        return tuple(rewrap(e) for e in r)
    return r


def _where_arg(a, where, ident):
    return np_where(where, a, ident) if where is not None and where is not True and \
        where is not np._NoValue else a


@fn(np.sum)
def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, where=None, **k):
    if keepdims is np._NoValue:
        keepdims = False
    r = reduce_(FOLD[np.add], _where_arg(a, where, 0.0), axis, keepdims)
    if out is not None:
        assign(out, Ellipsis, r)
        return out
    return r


@fn(np.prod)
def np_prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return reduce_(FOLD[np.multiply], a, axis, False if keepdims is np._NoValue else keepdims)


@fn(np.cumsum)
def np_cumsum(a, axis=None, **k):
    return cumul(operator.add, a, axis)


@fn(np.cumprod)
def np_cumprod(a, axis=None, **k):
    return cumul(operator.mul, a, axis)


@fn(np.any)
def np_any(a, axis=None, out=None, keepdims=False, **k):
    return reduce_(FOLD[np.logical_or], a, axis, False if keepdims is np._NoValue else keepdims)


@fn(np.all)
def np_all(a, axis=None, out=None, keepdims=False, **k):
    return reduce_(FOLD[np.logical_and], a, axis, False if keepdims is np._NoValue else keepdims)


def _count(shape, axis):
    axes = _norm_axes(axis, len(shape))
    n = 1
    for i in axes:
        n *= shape[i]
    return n


@fn(np.mean)
def np_mean(a, axis=None, dtype=None, out=None, keepdims=False, where=None, **k):
    if where is not None and where is not np._NoValue and where is not True:
        n = np_sum(np_where(where, np.ones(np.shape(a)), 0.0), axis=axis, keepdims=keepdims)
        return np_sum(a, axis=axis, keepdims=keepdims, where=where) / n
    s = np_sum(a, axis=axis, keepdims=keepdims)
    n = _count(np.shape(a), axis)
    if n == 0:
        return s * float('nan') if isinstance(s, np.ndarray) else float('nan')
    return s / float(n) if not isinstance(s, np.ndarray) else mk(apply(UF[np.true_divide], s, float(n)))


@fn(np.var)
def np_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    m = np_mean(a, axis=axis, keepdims=True)
    d = apply(UF[np.subtract], a, m)
    if _anycomplex(d):
        sq = apply(lambda e: SymComplex.lift(e).abs2(), d)
    else:
        sq = apply(UF[np.multiply], d, d)
    s = np_sum(mk(sq), axis=axis, keepdims=keepdims)
    n = float(_count(np.shape(a), axis) - ddof)
    return mk(apply(UF[np.true_divide], s, n))


def _anycomplex(a):
    return any(isinstance(e, (complex, SymComplex)) for e in asobj(a).flat)


@fn(np.std)
def np_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    v = np_var(a, axis=axis, ddof=ddof, keepdims=keepdims)
    f = _elem(lambda x: s_sqrt(x, nonneg=True), np.sqrt)
    return mk(apply(f, v))


@fn(np.average)
def np_average(a, axis=None, weights=None, returned=False, keepdims=False):
    if weights is None:
        return np_mean(a, axis=axis)
    w = asobj(weights)
    if w.shape != np.shape(a) and axis is not None:
        shp = [1] * np.ndim(a)
        shp[axis] = w.shape[0]
        w = np.broadcast_to(w.reshape(shp), np.shape(a))
    sw = np_sum(mk(w), axis=axis)
    r = mk(apply(UF[np.true_divide], np_sum(mk(apply(UF[np.multiply], a, w)), axis=axis), sw))
    return (r, sw) if returned else r


def _nz(a, fill):
    return apply(lambda e: (ite(s_isnan(e), fill, e) if is_sym(e) else
                            (fill if e != e else e)), a)


def _cnt(a, axis, keepdims=False):
    return np_sum(mk(apply(lambda e: ite(s_isnan(e), 0.0, 1.0) if is_sym(e) else
                           float(not e != e), a)), axis=axis, keepdims=keepdims)


@fn(np.nansum)
def np_nansum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return np_sum(mk(_nz(a, 0.0)), axis=axis,
                  keepdims=False if keepdims is np._NoValue else keepdims)


@fn(np.nanmean)
def np_nanmean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    kd = False if keepdims is np._NoValue else keepdims
    return mk(apply(UF[np.true_divide], np_nansum(a, axis=axis, keepdims=kd),
                    _cnt(a, axis, kd)))


@fn(np.nanvar)
def np_nanvar(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    kd = False if keepdims is np._NoValue else keepdims
    m = np_nanmean(a, axis=axis, keepdims=True)
    d = apply(UF[np.subtract], a, m)
    sq = apply(UF[np.multiply], d, d)
    s = np_nansum(mk(sq), axis=axis, keepdims=kd)
    c = apply(UF[np.subtract], _cnt(a, axis, kd), float(ddof))
    return mk(apply(UF[np.true_divide], s, c))


@fn(np.nanstd)
def np_nanstd(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return mk(apply(_elem(lambda x: s_sqrt(x, nonneg=True), np.sqrt),
                    np_nanvar(a, axis=axis, ddof=ddof, keepdims=keepdims)))


@fn(np.max, np.amax)
def np_max(a, axis=None, out=None, keepdims=False, initial=None, **k):
    return reduce_(FOLD[np.maximum], a, axis, False if keepdims is np._NoValue else keepdims)


@fn(np.min, np.amin)
def np_min(a, axis=None, out=None, keepdims=False, initial=None, **k):
    return reduce_(FOLD[np.minimum], a, axis, False if keepdims is np._NoValue else keepdims)


@fn(np.nanmax)
def np_nanmax(a, axis=None, out=None, keepdims=False, **k):
    return reduce_(FOLD[np.fmax], a, axis, False if keepdims is np._NoValue else keepdims)


@fn(np.nanmin)
def np_nanmin(a, axis=None, out=None, keepdims=False, **k):
    return reduce_(FOLD[np.fmin], a, axis, False if keepdims is np._NoValue else keepdims)


@fn(np.ptp)
def np_ptp(a, axis=None, **k):
    return np_max(a, axis) - np_min(a, axis)


@fn(np.where)
def np_where(c, *xy):
    if not xy:
        return np_nonzero(c)
    x, y = xy
    return mk(apply(lambda cc, a, b: ite(cc, a, b) if is_sym(cc) else (a if cc else b), c, x, y))


@fn(np.nonzero)
def np_nonzero(a):
    m = _fix1(mkb(apply(lambda e: mkbool(zbool(e)), a)))
    return np.nonzero(m)


@fn(np.argwhere)
def np_argwhere(a):
    return np.argwhere(_fix1(mkb(apply(lambda e: mkbool(zbool(e)), a))))


@fn(np.flatnonzero)
def np_flatnonzero(a):
    return np.nonzero(_fix1(mkb(apply(lambda e: mkbool(zbool(e)), asobj(a).reshape(-1)))))[0]


@fn(np.count_nonzero)
def np_count_nonzero(a, axis=None, **k):
    return np_sum(mk(apply(lambda e: mkbool(zbool(e)), a)), axis=axis)


@fn(np.isclose)
def np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return mkb(apply(lambda x, y: _isclose(x, y, rtol, atol, equal_nan), a, b))


def _isclose(x, y, rtol, atol, en):
    if conc(x) and conc(y):
        return bool(np.isclose(x, y, rtol, atol, en))
    x, y = SymReal.lift(x), SymReal.lift(y)
    r = abs(x - y) <= (abs(y) * rtol + atol)
    if en:
        r = s_or(r, s_and(x.isnan(), y.isnan()))
    return r


@fn(np.allclose)
def np_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return reduce_(FOLD[np.logical_and], np_isclose(a, b, rtol, atol, equal_nan))


@fn(np.array_equal)
def np_array_equal(a, b, equal_nan=False):
    a, b = asobj(a), asobj(b)
    if a.shape != b.shape:
        return False
    return reduce_(FOLD[np.logical_and], apply(UF[np.equal], a, b))


@fn(np.nan_to_num)
def np_nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
    r = mk(_nz(a, nan))
    big = np.finfo(float).max

    def f(e):
        if conc(e):
            return float(np.nan_to_num(e, posinf=posinf, neginf=neginf)) \
                if isinstance(e, float) else e
        if isinstance(e, SymReal) and e.inf is not False:
            return ite(mkbool(e.inf), ite(mkbool(e.sgn_pos()), big if posinf is None else posinf,
                                          -big if neginf is None else neginf),
                       SymReal(e.n, e.d, e.nan, False))
        return e
    r = mk(apply(f, r))
    if not copy and isinstance(a, np.ndarray):
        assign(a, Ellipsis, r)
        return a
    return r


@fn(np.clip)
def np_clip(a, a_min=None, a_max=None, out=None, **k):
    if 'min' in k:
        a_min = k['min']
    if 'max' in k:
        a_max = k['max']
    r = a
    if a_min is not None:
        r = apply(UF[np.maximum], r, a_min)
    if a_max is not None:
        r = apply(UF[np.minimum], r, a_max)
    r = mk(asobj(r))
    if out is not None:
        assign(out, Ellipsis, r)
        return out
    return r


@fn(np.round, getattr(np, 'round_', None), np.around)
def np_round(a, decimals=0, out=None):
    return mk(apply(_elem(lambda x: SymReal.lift(x).rint(decimals),
                          lambda x: np.round(x, decimals)), a))


@fn(np.real)
def np_real(a):
    return mk(apply(lambda e: e.real if not isinstance(e, SymBool) else e, a))


@fn(np.real_if_close)
def np_real_if_close(a, tol=100):
    if isinstance(a, np.ndarray):
        if any(isinstance(e, (complex, SymComplex)) for e in asobj(a).ravel()):
            raise Unsupported('real_if_close of complex values')
    elif isinstance(a, (complex, SymComplex)):
        raise Unsupported('real_if_close of complex values')
    return a


@fn(np.imag)
def np_imag(a):
    return mk(apply(lambda e: e.imag if not isinstance(e, SymBool) else 0.0, a))


@fn(np.angle)
def np_angle(a, deg=False):
    r = mk(apply(_elem(_angle, np.angle), a))
    return r * (180 / math.pi) if deg else r


@fn(np.dot)
def np_dot(a, b, out=None):
    a_, b_ = asobj(a), asobj(b)
    if a_.ndim == 0 or b_.ndim == 0:
        return mk(apply(UF[np.multiply], a_, b_))
    if a_.ndim == 1 and b_.ndim == 1:
        return np_sum(mk(apply(UF[np.multiply], a_, b_)))
    if b_.ndim == 1:
        return np_sum(mk(apply(UF[np.multiply], a_, b_)), axis=-1)
    if a_.ndim <= 2 and b_.ndim == 2:
        return mm(a_, b_)
    raise Unsupported('dot %s %s' % (a_.shape, b_.shape))


@fn(np.vdot)
def np_vdot(a, b):
    return np_sum(mk(apply(UF[np.multiply], apply(UF[np.conjugate], asobj(a).ravel()),
                           asobj(b).ravel())))


@fn(np.inner)
def np_inner(a, b):
    a_, b_ = asobj(a), asobj(b)
    if a_.ndim == 1 and b_.ndim == 1:
        return np_dot(a_, b_)
    return mm(a_, b_.T)


@fn(np.outer)
def np_outer(a, b, out=None):
    a_, b_ = asobj(a).reshape(-1), asobj(b).reshape(-1)
    return mk(apply(UF[np.multiply], a_[:, None], b_[None, :]))


def mm(a, b):
    a_, b_ = asobj(a), asobj(b)
    v1 = a_.ndim == 1
    v2 = b_.ndim == 1
    if v1:
        a_ = a_[None, :]
    if v2:
        b_ = b_[:, None]
    if a_.ndim != 2 or b_.ndim != 2:
        raise Unsupported('matmul nd')
    if a_.shape[1] != b_.shape[0]:
        raise ValueError('shapes %s and %s not aligned' % (a_.shape, b_.shape))
    out = np.empty((a_.shape[0], b_.shape[1]), dtype=object)
    m = UF[np.multiply]
    for i in range(out.shape[0]):
        for j in range(out.shape[1]):
            out[i, j] = fold_list(operator.add, 0.0,
                                  [m(x, y) for x, y in zip(a_[i], b_[:, j])])
    if v1 and v2:
        return out[0, 0]
    if v1:
        out = out[0]
    elif v2:
        out = out[:, 0]
    return mk(out)


FN[np.matmul] = mm


@fn(np.einsum)
def np_einsum(spec, *ops, **k):
    spec = spec.replace(' ', '')
    ins, out = (spec.split('->') + [None])[:2]
    ins = ins.split(',')
    if out is None:
        letters = sorted(set(''.join(ins)))
        out = ''.join(c for c in letters if ''.join(ins).count(c) == 1)
    ops_ = [asobj(o) for o in ops]
    dims = {}
    for s, o in zip(ins, ops_):
        for c, n in zip(s, o.shape):
            dims[c] = n
    inner = [c for c in dims if c not in out]
    res = np.empty(tuple(dims[c] for c in out), dtype=object)
    m = UF[np.multiply]
    for oi in np.ndindex(res.shape):
        env = dict(zip(out, oi))
        vals = []
        for ii in np.ndindex(tuple(dims[c] for c in inner)):
            env.update(zip(inner, ii))
            p = 1.0
            for s, o in zip(ins, ops_):
                p = m(p, o[tuple(env[c] for c in s)])
            vals.append(p)
        res[oi] = fold_list(operator.add, 0.0, vals)
    return mk(res) if res.ndim else res.item()


@fn(np.tensordot)
def np_tensordot(a, b, axes=2):
    raise Unsupported('tensordot')


@fn(np.cov)
def np_cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    if k or y is not None:
        raise Unsupported('cov')
    x = asobj(m)
    if not rowvar:
        x = x.T
    n = x.shape[1]
    if ddof is None:
        ddof = 0 if bias else 1
    xm = apply(UF[np.subtract], x, np_mean(x, axis=1, keepdims=True))
    return mk(apply(UF[np.true_divide], mm(xm, xm.T), float(n - ddof)))


@fn(np.trapz)
def np_trapz(y, x=None, dx=1.0, axis=-1):
    y = asobj(y)
    if y.ndim != 1:
        raise Unsupported('trapz nd')
    d = np.full(y.size - 1, dx) if x is None else np_diff(asobj(x))
    return np_sum(mk(apply(UF[np.multiply], d, apply(lambda a, b: (a + b) / 2.0, y[1:], y[:-1]))))


@fn(np.diff)
def np_diff(a, n=1, axis=-1, **k):
    a = asobj(a)
    for _ in range(n):
        s1 = [slice(None)] * a.ndim
        s2 = [slice(None)] * a.ndim
        s1[axis] = slice(1, None)
        s2[axis] = slice(None, -1)
        a = asobj(apply(UF[np.subtract], a[tuple(s1)], a[tuple(s2)]))
    return mk(a)


@fn(np.gradient)
def np_gradient(f, *varargs, axis=None, edge_order=1):
    f = asobj(f)
    if f.ndim != 1 or edge_order != 1 or len(varargs) > 1:
        raise Unsupported('gradient')
    h = varargs[0] if varargs else 1.0
    n = f.shape[0]
    out = np.empty(n, dtype=object)
    sub, div = UF[np.subtract], UF[np.true_divide]
    for i in range(n):
        if i == 0:
            out[i] = div(sub(f[1], f[0]), h)
        elif i == n - 1:
            out[i] = div(sub(f[-1], f[-2]), h)
        else:
            out[i] = div(sub(f[i + 1], f[i - 1]), UF[np.multiply](2.0, h))
    return mk(out)


# --- sorting (value sort: ite network; order: forks)
def _cmpx(a, b):
    """(min,max), NaN sorts last"""
    if conc(a) and conc(b):
        x, y = sorted([a, b], key=lambda v: (v != v, v))
        return x, y
    A, B = SymReal.lift(a), SymReal.lift(b)
    le = mkbool(bor(B.nan, band(bnot(A.nan), zbool(A <= B))))
    return ite(le, A, B), ite(le, B, A)


def sort_list(v):
    v = list(v)
    n = len(v)
    for i in range(n):
        for j in range(n - 1 - i):
            v[j], v[j + 1] = _cmpx(v[j], v[j + 1])
    return v


@fn(np.sort)
def np_sort(a, axis=-1, **k):
    o = asobj(a)
    if axis is None:
        o = o.reshape(-1)
        axis = 0
    t = np.moveaxis(o, axis, -1).copy()
    for i in np.ndindex(t.shape[:-1]):
        t[i] = sort_list(t[i])
    return mk(np.moveaxis(t, -1, axis))


@fn(np.argsort)
def np_argsort(a, axis=-1, **k):
    o = asobj(a)
    if o.ndim != 1:
        t = np.moveaxis(o, axis, -1)
        out = np.empty(t.shape, dtype=int)
        for i in np.ndindex(t.shape[:-1]):
            out[i] = np_argsort(t[i])
        return np.moveaxis(out, -1, axis)
    idx = list(range(o.size))

    def lt(i, j):
        x, y = o[i], o[j]
        if bool(s_isnan(x)):
            return False
        if bool(s_isnan(y)):
            return True
        return bool(x < y)
    # insertion sort (stable)
    res = []
    for i in idx:
        k_ = len(res)
        while k_ > 0 and lt(i, res[k_ - 1]):
            k_ -= 1
        res.insert(k_, i)
    return np.array(res, dtype=int)


@fn(np.argpartition)
def np_argpartition(a, kth, axis=-1, **k):
    return np_argsort(a, axis=axis)         # one admissible partition


def _arg(a, axis, better, nanfirst=True):
    o = asobj(a)
    if axis is None:
        o = o.reshape(-1)
        best = 0
        for i in range(1, o.size):
            if nanfirst and bool(s_isnan(o[best])):
                break
            if nanfirst and bool(s_isnan(o[i])):
                best = i
                break
            if bool(better(o[i], o[best])):
                best = i
        return best
    t = np.moveaxis(o, axis, -1)
    out = np.empty(t.shape[:-1], dtype=int)
    for i in np.ndindex(out.shape):
        out[i] = _arg(t[i], None, better, nanfirst)
    return out if out.ndim else int(out)


@fn(np.argmax)
def np_argmax(a, axis=None, **k):
    return _arg(a, axis, operator.gt)


@fn(np.argmin)
def np_argmin(a, axis=None, **k):
    return _arg(a, axis, operator.lt)


@fn(np.nanargmax)
def np_nanargmax(a, axis=None, **k):
    return _arg(_nz(a, -math.inf), axis, operator.gt, False)


@fn(np.nanargmin)
def np_nanargmin(a, axis=None, **k):
    return _arg(_nz(a, math.inf), axis, operator.lt, False)


@fn(np.unique)
def np_unique(a, **k):
    if k:
        raise Unsupported('unique options')
    o = asobj(a).reshape(-1)
    s = [o[i] for i in np_argsort(o)]
    out = []
    for e in s:
        if not out or bool(out[-1] != e):
            out.append(e)
    return mk(stack_list(out))


def quantile_sorted(s, q, method='linear'):
    n = len(s)
    if method not in ('linear',):
        raise Unsupported('percentile method')
    if is_sym(q):
        raise Unsupported('symbolic percentile')
    pos = Fraction(q) * (n - 1)
    lo = int(math.floor(pos))
    hi = min(lo + 1, n - 1)
    w = float(pos - lo)
    if w == 0:
        return s[lo]
    return s[lo] + (s[hi] - s[lo]) * w


def _quant(a, q, axis, nan):
    if axis is not None and np.ndim(a) > 1:
        if not isinstance(axis, (int, np.integer)):
            raise Unsupported('percentile axis')
        o = np.moveaxis(asobj(a), axis, -1)
        r = [_quant(mk(w), q, None, nan) for w in o.reshape(-1, o.shape[-1])]
        r = [asobj(e) for e in r]
        out = np.empty(r[0].shape + (len(r),), dtype=object)
        for i, e in enumerate(r):
            out[..., i] = e
        return mk(out.reshape(r[0].shape + o.shape[:-1]))
    v = list(asobj(a).reshape(-1))
    flag = False
    if nan:
        v = [e for e in v if not bool(s_isnan(e))]
    else:
        flag = s_or(*[s_isnan(e) for e in v]) if v else False
    if not v:
        r = float('nan')
        return r if np.ndim(q) == 0 else np.full(np.shape(q), r)
    s = sort_list(v)
    nanv = float('nan')
    f = lambda p: ite(flag, nanv, quantile_sorted(s, p))
    if np.ndim(q) == 0:
        return f(float(q))
    return mk(stack_list([f(float(p)) for p in np.asarray(native(np.asarray(q))).ravel()]))


def _frac_q(q, s):
    if np.ndim(q) == 0:
        return snap(float(q)) / s
    return [snap(float(x)) / s for x in np.asarray(native(np.asarray(q))).ravel()]


@fn(np.percentile)
def np_percentile(a, q, axis=None, **k):
    if k:
        raise Unsupported('percentile options')
    return _quant(a, np.asarray(native(np.asarray(q))) / 100., axis, False)


@fn(np.nanpercentile)
def np_nanpercentile(a, q, axis=None, **k):
    if k:
        raise Unsupported('percentile options')
    return _quant(a, np.asarray(native(np.asarray(q))) / 100., axis, True)


@fn(np.quantile)
def np_quantile(a, q, axis=None, **k):
    return _quant(a, q, axis, False)


@fn(np.nanquantile)
def np_nanquantile(a, q, axis=None, **k):
    return _quant(a, q, axis, True)


def _along(a, axis, f):
    if axis is None:
        return f(asobj(a).reshape(-1))
    t = np.moveaxis(asobj(a), axis, -1)
    out = np.empty(t.shape[:-1], dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = f(t[i])
    return mk(out)


@fn(np.median)
def np_median(a, axis=None, **k):
    return _along(a, axis, lambda v: _quant(v, 0.5, None, False))


@fn(np.nanmedian)
def np_nanmedian(a, axis=None, **k):
    return _along(a, axis, lambda v: _quant(v, 0.5, None, True))


# --- histogram family
OPTS = {'hist_decide': False}


def hist_count(v, edges, weights=None):
    """counts (merged by ite) of values v in edges (concrete or symbolic, increasing)"""
    nb = len(edges) - 1
    out = np.empty(nb, dtype=object)
    for b in range(nb):
        terms = []
        for i, x in enumerate(v):
            lo = x >= edges[b] if is_sym(x) or is_sym(edges[b]) else bool(x >= edges[b])
            if b == nb - 1:
                hi = x <= edges[b + 1]
            else:
                hi = x < edges[b + 1]
            w = 1.0 if weights is None else weights[i]
            c = s_and(lo, hi)
            if OPTS['hist_decide'] and is_sym(c):
                c = bool(c)         # decided on this path
            terms.append(ite(c, w, 0.0) if is_sym(c) else (w if c else 0.0))
        out[b] = fold_list(operator.add, 0.0, terms)
    return out


@fn(np.histogram_bin_edges)
def np_histogram_bin_edges(a, bins=10, range=None, weights=None):
    return _edges(asobj(a).reshape(-1), bins, range)


def _edges(v, bins, rng):
    if np.ndim(bins) == 0 and not isinstance(bins, str):
        nb = int(bins)
        if nb < 1:
            raise ValueError('`bins` must be positive, when an integer')
        if rng is not None:
            lo, hi = rng
        elif len(v) == 0:
            lo, hi = 0.0, 1.0
        else:
            lo, hi = np_min(v), np_max(v)
            if bool(s_or(s_not(s_isfinite(lo)), s_not(s_isfinite(hi)))):
                raise ValueError('autodetected range of [%s, %s] is not finite' % (lo, hi))
        if bool(lo == hi):
            lo, hi = lo - 0.5, hi + 0.5
        step = (hi - lo) / float(nb)
        ed = np.empty(nb + 1, dtype=object)
        for i in np.arange(nb + 1):
            ed[i] = lo + step * float(i)
        ed[nb] = hi
        return mk(ed)
    if isinstance(bins, str):
        raise Unsupported('string bins')
    return mk(asobj(bins))


@fn(np.histogram)
def np_histogram(a, bins=10, range=None, density=None, weights=None):
    v = asobj(a).reshape(-1)
    ed = _edges(v, bins, range)
    w = None if weights is None else asobj(weights).reshape(-1)
    h = hist_count(v, list(asobj(ed)), w)
    if density:
        tot = fold_list(operator.add, 0.0, list(h))
        wd = np_diff(ed)
        h = apply(lambda c, d: UF[np.true_divide](UF[np.true_divide](c, d), tot), h, wd)
        return mk(h), ed
    return mk(h), ed


@fn(np.digitize)
def np_digitize(x, bins, right=False):
    bs = list(asobj(bins).reshape(-1))

    def f(e):
        # increasing bins assumed
        c = [(e > b if right else e >= b) for b in bs]
        r = fold_list(operator.add, 0.0, [ite(k, 1.0, 0.0) if is_sym(k) else float(k) for k in c])
        return int(r) if conc(r) else r
    o = apply(f, x)
    if not has_sym(o):
        return o.astype(int) if o.ndim else int(o.item())
    return mk(o, hint=int)


@fn(np.searchsorted)
def np_searchsorted(a, v, side='left', sorter=None):
    bs = list(asobj(a).reshape(-1))

    def f(e):
        c = [(b < e if side == 'left' else b <= e) for b in bs]
        return fold_list(operator.add, 0.0,
                         [ite(k, 1.0, 0.0) if is_sym(k) else float(k) for k in c])
    o = apply(f, v)
    if not has_sym(o):
        return o.astype(int) if o.ndim else int(o.item())
    return mk(o, hint=int)


@fn(np.bincount)
def np_bincount(x, weights=None, minlength=0):
    x = np.asarray(_fix1(asobj(x)))
    if weights is None or not has_sym(weights):
        return np.bincount(x, weights=None if weights is None else native(np.asarray(weights)),
                           minlength=minlength)
    w = asobj(weights).reshape(-1)
    n = max(int(x.max()) + 1 if x.size else 0, minlength)
    out = np.empty(n, dtype=object)
    for k in range(n):
        out[k] = fold_list(operator.add, 0.0, [w[i] for i in range(x.size) if x[i] == k])
    return mk(out)


@fn(np.interp)
def np_interp(x, xp, fp, left=None, right=None, period=None):
    xp, fp = asobj(xp), asobj(fp)

    def f(e):
        n = len(xp)
        r = fp[-1] if right is None else right
        r = ite(e == xp[-1], fp[-1], r)
        for i in range(n - 2, -1, -1):
            seg = fp[i] + (fp[i + 1] - fp[i]) * ((e - xp[i]) / (xp[i + 1] - xp[i]))
            r = ite(e < xp[i + 1], seg, r)
        return ite(e < xp[0], fp[0] if left is None else left, r)
    return mk(apply(f, x))


# --- pad
@fn(np.pad)
def np_pad(a, pad_width, mode='constant', **kw):
    o = asobj(a)
    if mode == 'constant' or callable(mode) or mode in ('wrap', 'edge', 'reflect', 'symmetric'):
        if mode == 'constant':
            cv = kw.get('constant_values', 0)
            return mk(np.pad(o, pad_width, mode, constant_values=cv))
        return mk(np.pad(o, pad_width, mode, **kw))
    raise Unsupported('pad mode')


# --- creation
def _new(a, dtype):
    k = np.dtype(dtype if dtype is not None else float)
    r = a.view(SymArr)
    r.hint = k
    return r


def c_zeros(shape, dtype=float, *a, **k):
    x = np.zeros(shape, dtype=dtype)
    if x.dtype.kind in 'fc':
        return mkfull(x)
    return x


def mkfull(x):
    r = x.astype(object).view(SymArr)
    r.hint = x.dtype
    r.fresh = True      # just made by zeros/empty/...: will be filled in place
    return r


def c_ones(shape, dtype=None, *a, **k):
    x = np.ones(shape, dtype=dtype)
    return mkfull(x) if x.dtype.kind in 'fc' else x


def c_full(shape, fill_value, dtype=None, *a, **k):
    if is_sym(fill_value) or has_sym(fill_value):
        x = np.empty(shape, dtype=object)
        x[...] = asobj(fill_value)
        return mk(x)
    x = np.full(shape, fill_value, dtype=dtype)
    return mkfull(x) if x.dtype.kind in 'fc' else x


def c_like(val):
    def f(a, *args, dtype=None, shape=None, **k):
        # argument order of full_like differs
        fv = val
        if val == 'full':
            fv, args = args[0] if args else k['fill_value'], args[1:]
        if args and dtype is None:
            dtype = args[0]
        shp = np.shape(a) if shape is None else shape
        if dtype is None:
            if isinstance(a, np.ndarray):
                dt = getattr(a, 'hint', None) or a.dtype
                if dt.kind == 'O':
                    dt = np.dtype(float)
                    if all(isinstance(e, (SymBool, bool)) for e in asobj(a).flat) and np.size(a):
                        dt = np.dtype(bool)
                    elif _anycomplex(a):
                        dt = np.dtype(complex)
            else:
                dt = np.asarray(native(asobj(a)) if has_obj(a) else a).dtype if not has_sym(a) \
                    else np.dtype(float)
        else:
            dt = np.dtype(dtype)
        if has_sym(fv):
            return c_full(shp, fv)
        x = np.full(shp, fv if fv is not None else 0, dtype=dt)
        r = mkfull(x) if dt.kind in 'fc' else x
        if _is_quantity(a):
            from astropy import units as u
            return u.Quantity(r, a.unit)
        return r
    return f


def c_array(x, dtype=None, copy=True, **k):
    if _is_quantity(x):
        x = x.value
    if isinstance(x, SymArr) or (isinstance(x, np.ndarray) and x.dtype.kind == 'O'):
        r = mk(asobj(x).copy(), hint=getattr(x, 'hint', None))
    elif has_sym(x) or has_obj(x):
        r = mk(stack_list(x)) if isinstance(x, (list, tuple)) else x
        if type(r) in SYM:
            return r
    else:
        r = np.array(x, dtype=dtype, **{kk: v for kk, v in k.items() if kk in ('ndmin', 'subok')})
        return mkfull(r) if r.dtype.kind in 'fc' and r.ndim > 0 else r
    if dtype is not None:
        r = cast(r, dtype)
    nd = k.get('ndmin', 0)
    if isinstance(r, np.ndarray):
        while r.ndim < nd:
            r = r[None]
    return r


def c_asarray(x, dtype=None, *a, **k):
    if isinstance(x, SymArr):
        return x if dtype is None else cast(x, dtype)
    if _is_quantity(x):
        x = x.value
    if isinstance(x, np.ndarray) and x.dtype.kind == 'O':
        r = mk(x)
        return r if dtype is None else cast(r, dtype)
    if has_sym(x) or has_obj(x):
        return c_array(x, dtype=dtype)
    return np.asarray(x, dtype=dtype)


def c_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if not (is_sym(start) or is_sym(stop)):
        return np.linspace(native(start) if isinstance(start, np.ndarray) else start,
                           native(stop) if isinstance(stop, np.ndarray) else stop, int(num),
                           endpoint=endpoint, retstep=retstep, dtype=dtype)
    num = int(num)
    div = float(num - 1 if endpoint else num)
    step = (stop - start) / div if div > 0 else float('nan')
    out = np.empty(num, dtype=object)
    for i in range(num):
        out[i] = start + step * float(i)
    if endpoint and num > 1:
        out[num - 1] = stop
    r = mk(out)
    return (r, step) if retstep else r


def c_arange(*a, **k):
    if not any(is_sym(x) for x in a):
        return np.arange(*a, **k)
    start, stop, step = 0, None, 1
    if len(a) == 1:
        stop = a[0]
    elif len(a) == 2:
        start, stop = a
    else:
        start, stop, step = a[:3]
    n = int(SymReal.lift((stop - start) / step).ceil())
    out = np.empty(max(n, 0), dtype=object)
    for i in range(max(n, 0)):
        out[i] = start + step * i
    return mk(out)


def c_logspace(start, stop, num=50, endpoint=True, base=10.0, dtype=None, axis=0):
    y = c_linspace(start, stop, num, endpoint)
    if not has_sym(y):
        return np.power(base, native(y) if isinstance(y, np.ndarray) else y)
    return mk(apply(UF[np.power], base, y))


# --------------------------------------------------------------------- linalg
@fn(np.linalg.norm)
def np_norm(x, ord=None, axis=None, keepdims=False):
    o = asobj(x)
    if ord not in (None, 2, 'fro') or (ord == 2 and axis is None and o.ndim == 2):
        raise Unsupported('norm ord')
    sq = apply(_elem(lambda e: SymComplex.lift(e).abs2() if isinstance(e, SymComplex) else e * e,
                     lambda e: np.abs(e) ** 2), o)
    s = np_sum(mk(sq), axis=axis, keepdims=keepdims)
    return mk(apply(_elem(lambda e: s_sqrt(e, nonneg=True), np.sqrt), s))


@fn(np.linalg.inv, np.linalg.pinv, np.linalg.solve, np.linalg.lstsq, np.linalg.svd, np.linalg.eig)
def np_linalg_unsupported(*a, **k):
    raise Unsupported('linalg on symbolic data')


@fn(np.linalg.det)
def np_det(a):
    o = asobj(a)
    n = o.shape[0]
    if n == 1:
        return o[0, 0]
    if n == 2:
        return o[0, 0] * o[1, 1] - o[0, 1] * o[1, 0]
    raise Unsupported('det')


# ------------------------------------------------------------------------ FFT
_tw = {}


def _num_sym_table(n):
    """cos/sin(2 pi m/n) with exact symmetries; exact for n in 1,2,4"""
    if n in _tw:
        return _tw[n]

    def base(fn_, m):
        return fn_(2 * math.pi * m / n)
    cs = [None] * n
    sn = [None] * n
    for m in range(n):
        f = Fraction(m, n)
        cs[m] = cosr(f)
        sn[m] = cosr(f - Fraction(1, 4))
    _tw[n] = (cs, sn)
    return _tw[n]


def cosr(f):
    """cos(2 pi f) as a Fraction, exact where rational and exactly symmetric"""
    f = f % 1
    if f > Fraction(1, 2):
        f = 1 - f
    sgn = 1
    if f > Fraction(1, 4):
        f = Fraction(1, 2) - f
        sgn = -1
    if f == 0:
        return Fraction(sgn)
    if f == Fraction(1, 4):
        return Fraction(0)
    if f == Fraction(1, 6):
        return Fraction(sgn, 2)
    return sgn * Fraction(math.cos(2 * math.pi * float(f)))


def dft1(v, inverse=False):
    """v: list of scalars -> list of SymComplex"""
    n = len(v)
    cs, sn = _num_sym_table(n)
    v = [SymComplex.lift(x) for x in v]
    sg = 1 if inverse else -1
    out = []
    for k in range(n):
        re, im = [], []
        for j in range(n):
            m = (j * k) % n
            c, s = cs[m], sn[m] * sg
            a = v[j]
            # (a.re + i a.im)(c + i s)
            if c != 0:
                re.append(a.re * c)
                im.append(a.im * c)
            if s != 0:
                re.append(a.im * (-s))
                im.append(a.re * s)
        r = SymComplex(fold_list(operator.add, 0.0, [x for x in re if not _z(x)]),
                       fold_list(operator.add, 0.0, [x for x in im if not _z(x)]))
        if inverse:
            r = SymComplex(r.re / n, r.im / n)
        out.append(r)
    return out


def _z(x):
    return x.is_const() and frac(x.n) == 0 and x.plain()


def _along_axis(a, axis, f):
    t = np.moveaxis(a, axis, -1)
    rows = [f(list(t[i])) for i in np.ndindex(t.shape[:-1])]
    m = len(rows[0])
    out = np.empty((len(rows), m), dtype=object)
    for i, r in enumerate(rows):
        for j in range(m):
            out[i, j] = r[j]
    out = out.reshape(t.shape[:-1] + (m,))
    return np.moveaxis(out, -1, axis)


def _fit(a, n, axis):
    if n is None or a.shape[axis] == n:
        return a
    if a.shape[axis] > n:
        s = [slice(None)] * a.ndim
        s[axis] = slice(0, n)
        return a[tuple(s)]
    pw = [(0, 0)] * a.ndim
    pw[axis] = (0, n - a.shape[axis])
    return np.pad(a, pw, constant_values=0.0)


def _nrm(a, norm, shape_n, inverse):
    if norm in (None, 'backward'):
        return a
    if norm == 'ortho':
        s = math.sqrt(shape_n)
        return apply(lambda e: e * s if inverse else e / s, a)
    raise Unsupported('fft norm')


def fft(a, n=None, axis=-1, norm=None, **k):
    o = _fit(asobj(a), n, axis)
    return mk(_nrm(_along_axis(o, axis, dft1), norm, o.shape[axis], False))


def ifft(a, n=None, axis=-1, norm=None, **k):
    o = _fit(asobj(a), n, axis)
    return mk(_nrm(_along_axis(o, axis, lambda v: dft1(v, True)), norm, o.shape[axis], True))


def _axes_s(o, s, axes):
    if axes is None:
        if s is None:
            axes = list(range(o.ndim))
        else:
            axes = list(range(o.ndim - len(s), o.ndim))
    axes = [a % o.ndim for a in axes]
    if s is None:
        s = [o.shape[a] for a in axes]
    return axes, list(s)


def fftn(a, s=None, axes=None, norm=None, **k):
    o = asobj(a)
    axes, s = _axes_s(o, s, axes)
    for ax, n in zip(axes, s):
        o = asobj(fft(o, n, ax, norm))
    return mk(o)


def ifftn(a, s=None, axes=None, norm=None, **k):
    o = asobj(a)
    axes, s = _axes_s(o, s, axes)
    for ax, n in zip(axes, s):
        o = asobj(ifft(o, n, ax, norm))
    return mk(o)


def fft2(a, s=None, axes=(-2, -1), norm=None, **k):
    return fftn(a, s, axes, norm)


def ifft2(a, s=None, axes=(-2, -1), norm=None, **k):
    return ifftn(a, s, axes, norm)


def rfft(a, n=None, axis=-1, norm=None, **k):
    o = _fit(asobj(a), n, axis)
    m = o.shape[axis] // 2 + 1
    return mk(_nrm(_along_axis(o, axis, lambda v: dft1(v)[:m]), norm, o.shape[axis], False))


def irfft(a, n=None, axis=-1, norm=None, **k):
    o = asobj(a)
    if n is None:
        n = 2 * (o.shape[axis] - 1)
    m = n // 2 + 1
    o = _fit(o, m, axis)

    def f(v):
        v = [SymComplex.lift(x) for x in v]
        full = [None] * n
        for i in range(m):
            full[i] = v[i]
        full[0] = SymComplex(v[0].re, 0)
        if n % 2 == 0:
            full[n // 2] = SymComplex(v[n // 2].re, 0)
        for i in range(m, n):
            full[i] = v[n - i].conjugate()
        return [x.re for x in dft1(full, True)]
    return mk(_nrm(_along_axis(o, axis, f), norm, n, True))


def rfftn(a, s=None, axes=None, norm=None, **k):
    o = asobj(a)
    axes, s = _axes_s(o, s, axes)
    o = asobj(rfft(o, s[-1], axes[-1], norm))
    for ax, n in zip(axes[:-1], s[:-1]):
        o = asobj(fft(o, n, ax, norm))
    return mk(o)


def irfftn(a, s=None, axes=None, norm=None, **k):
    o = asobj(a)
    given = s is not None
    axes, s = _axes_s(o, s, axes)
    if not given:
        s[-1] = 2 * (o.shape[axes[-1]] - 1)
    for ax, n in zip(axes[:-1], s[:-1]):
        o = asobj(ifft(o, n, ax, norm))
    return irfft(o, s[-1], axes[-1], norm)


def rfft2(a, s=None, axes=(-2, -1), norm=None, **k):
    return rfftn(a, s, axes, norm)


def irfft2(a, s=None, axes=(-2, -1), norm=None, **k):
    return irfftn(a, s, axes, norm)


FFT = dict(fft=fft, ifft=ifft, fftn=fftn, ifftn=ifftn, fft2=fft2, ifft2=ifft2, rfft=rfft,
           irfft=irfft, rfftn=rfftn, irfftn=irfftn, rfft2=rfft2, irfft2=irfft2)
for _n, _f in FFT.items():
    FN[getattr(np.fft, _n)] = _f
