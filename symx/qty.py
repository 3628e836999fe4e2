"""Quantities whose values are symbolic.

astropy refuses object dtypes, so symbolic values with a unit live in SymQ, a
Quantity subclass with explicit unit rules; unit arithmetic and conversion
factors still come from astropy.units.  Concrete Quantities are never touched.
"""
import numpy as np
from astropy import units as u
from .core import *
from . import arr as A
from .arr import SymArr, has_sym, has_obj, asobj, mk

ONE = u.dimensionless_unscaled


def _plain(v):
    """value -> SymArr / scalar"""
    if isinstance(v, np.ndarray):
        if v.ndim == 0:
            return v.view(np.ndarray).item() if v.dtype.kind == 'O' else v.item()
        if v.dtype.kind == 'O':
            return v.view(SymArr) if type(v) is not SymArr else v
    return v


def _objarr(v):
    return A.asobj(v)


def wants_sym(v, depth=0):
    if type(v) in SYM:
        return True
    if isinstance(v, np.ndarray) and v.dtype.kind == 'O':
        return True
    if isinstance(v, (list, tuple)) and depth < 3:
        return any(wants_sym(e, depth + 1) for e in v)
    return False


class SymQ(u.Quantity):
    __array_priority__ = 20000

    def __new__(cls, value, unit=None, *a, **k):
        if isinstance(value, (list, tuple)):
            if any(isinstance(e, u.Quantity) for e in value):
                un = unit or next(e.unit for e in value if isinstance(e, u.Quantity))
                value = [e.to_value(un) if isinstance(e, u.Quantity) else e for e in value]
                unit = un
            value = A.c_array(list(value))
        if isinstance(value, u.Quantity):
            if unit is not None:
                value = value.to_value(unit)
            else:
                value, unit = value.value, value.unit
        o = _objarr(value).view(np.ndarray)
        if k.get('copy', True):
            o = o.copy()
        r = o.view(cls)
        r._unit = u.Unit(unit) if unit is not None else ONE
        return r

    def __array_finalize__(self, obj):
        if obj is None:
            return
        un = getattr(obj, '_unit', None)
        if un is not None:
            self._unit = un

    # -- values
    @property
    def value(self):
        return _plain(self.view(np.ndarray))

    @property
    def unit(self):
        return getattr(self, '_unit', ONE)

    @property
    def isscalar(self):
        return self.ndim == 0

    def to_value(self, unit=None, equivalencies=[]):
        if unit is None:
            return self.value
        unit = u.Unit(unit)
        v = self.value
        if not equivalencies:
            f = self.unit.to(unit)
            return v if f == 1.0 else v * f
        f = self.unit._get_converter(unit, equivalencies)
        if isinstance(v, np.ndarray):
            return _plain(asobj(f(v)))
        a = np.empty(1, dtype=object)
        a[0] = v
        return asobj(f(a.view(SymArr)))[0]

    def to(self, unit, equivalencies=[], copy=True):
        return SymQ(self.to_value(unit, equivalencies), unit)

    def _to_own_unit(self, value, check_precision=False, **k):
        return _tov(value, self.unit)

    def _new_view(self, obj, unit=None, *a, **k):
        return SymQ(obj, self.unit if unit is None else unit)

    def decompose(self, bases=[]):
        un = self.unit.decompose(bases=bases)
        f = un.scale
        return SymQ(self.value * f, un / f)

    @property
    def si(self):
        return self.decompose()

    def copy(self, order='C'):
        return SymQ(self.value, self.unit)

    def __getitem__(self, k):
        v = self.view(np.ndarray).view(SymArr)[k]
        return SymQ(v, self.unit, copy=False) if type(v) is not np.ndarray or True else v

    def __setitem__(self, k, v):
        self.view(np.ndarray).view(SymArr)[k] = _tov(v, self.unit)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __repr__(self):
        return 'SymQ(%r, %s)' % (self.view(np.ndarray), self.unit)
    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __bool__(self):
        return bool(self.value)

    def __float__(self):
        return float(self.to_value(ONE))

    def __hash__(self):
        return id(self)

    def __reduce__(self):
        raise Unsupported('pickling a symbolic value')

    def __deepcopy__(self, memo):
        return self.copy()

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        return ufunc(uf, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import patch as P
        return P.q_call(func, args, kwargs)

    # operators (explicit: Quantity treats units / strings specially)
    def __mul__(self, o):
        if isinstance(o, (u.UnitBase, str)):
            return SymQ(self.value, self.unit * u.Unit(o))
        return ufunc(np.multiply, '__call__', (self, o), {})

    def __rmul__(self, o):
        return self.__mul__(o)

    def __truediv__(self, o):
        if isinstance(o, (u.UnitBase, str)):
            return SymQ(self.value, self.unit / u.Unit(o))
        return ufunc(np.divide, '__call__', (self, o), {})

    def __rtruediv__(self, o):
        if isinstance(o, (u.UnitBase, str)):
            return SymQ(1.0 / self.value, u.Unit(o) / self.unit)
        return ufunc(np.divide, '__call__', (o, self), {})

    def __pow__(self, o):
        return SymQ(self.value ** o, self.unit ** o)

    def _bin(uf_, r=False):
        def f(self, o):
            return ufunc(uf_, '__call__', (o, self) if r else (self, o), {})
        return f
    __add__, __radd__ = _bin(np.add), _bin(np.add, True)
    __sub__, __rsub__ = _bin(np.subtract), _bin(np.subtract, True)
    __floordiv__, __mod__ = _bin(np.floor_divide), _bin(np.remainder)
    __lt__, __le__, __gt__, __ge__ = map(_bin, (np.less, np.less_equal, np.greater,
                                                np.greater_equal))

    def __eq__(self, o):
        try:
            return ufunc(np.equal, '__call__', (self, o), {})
        except u.UnitsError:
            return False

    def __ne__(self, o):
        try:
            return ufunc(np.not_equal, '__call__', (self, o), {})
        except u.UnitsError:
            return True

    def __neg__(self):
        return SymQ(-self.value, self.unit)

    def __abs__(self):
        return SymQ(abs(self.value) if not isinstance(self.value, np.ndarray) else
                    np.abs(self.value), self.unit)

    def __iadd__(self, o):
        return self + o

    def __isub__(self, o):
        return self - o

    def __imul__(self, o):
        return self * o

    def __itruediv__(self, o):
        return self / o

    def _red(name, p=1, keep=True):
        def f(self, *a, **k):
            k.pop('out', None)
            v = self.value
            if not isinstance(v, np.ndarray):
                v = asobj(v).reshape(1).view(SymArr)
            r = getattr(v, name)(*a, **k)
            return SymQ(r, self.unit ** p) if keep else r
        return f
    for _n in ('sum', 'mean', 'std', 'min', 'max', 'cumsum', 'ravel', 'flatten', 'reshape',
               'squeeze', 'transpose', 'round', 'repeat', 'take', 'swapaxes'):
        locals()[_n] = _red(_n)
    var = _red('var', 2)
    for _n in ('any', 'all', 'argmin', 'argmax', 'argsort', 'nonzero'):
        locals()[_n] = _red(_n, keep=False)
    del _n

    @property
    def T(self):
        return SymQ(self.value.T, self.unit)


def _tov(x, unit):
    """value of x in unit (plain numbers: dimensionless, or 0/inf/nan in any unit)"""
    if isinstance(x, u.Quantity):
        return x.to_value(unit)
    if not is_sym(x) and not has_sym(x):
        a = np.asarray(A.native(asobj(x)) if has_obj(x) else x)
        if a.dtype.kind in 'fiu' and np.all((a == 0) | ~np.isfinite(a)):
            return x
    f = ONE.to(unit) if unit != ONE else 1.0
    return x if f == 1.0 else x * f


def _uv(x):
    if isinstance(x, u.Quantity):
        return x.value, x.unit
    return x, None


def _call(uf, *vals):
    vals = [_plain(v) for v in vals]
    if uf in (np.add, np.subtract, np.multiply, np.true_divide) and \
            not any(isinstance(v, np.ndarray) for v in vals):
        pass
    return _plain(asobj(A.dispatch_ufunc(uf, '__call__', tuple(vals), {})))


CMP = {np.less, np.less_equal, np.greater, np.greater_equal, np.equal, np.not_equal}
SAME2 = {np.add, np.subtract, np.maximum, np.minimum, np.hypot, np.remainder, np.fmax, np.fmin,
         np.copysign}
SAME1 = {np.absolute, np.negative, np.positive, np.floor, np.ceil, np.rint, np.trunc, np.fabs,
         np.conjugate}
FLAG = {np.isnan, np.isfinite, np.isinf, np.sign, np.signbit}
DIMLESS = {np.log, np.log10, np.log2, np.log1p, np.exp, np.exp2, np.expm1}
TRIG = {np.sin, np.cos, np.tan}
ATRIG = {np.arcsin, np.arccos, np.arctan}


def ufunc(uf, method, inputs, kw):
    from . import patch as P
    if hasattr(uf, '_uf'):
        uf = uf._uf
    if method == 'reduce':
        q = inputs[0]
        r = A.dispatch_ufunc(uf, method, (q.value,), kw)
        if uf in (np.add, np.maximum, np.minimum):
            return SymQ(r, q.unit)
        return r
    if method != '__call__':
        raise Unsupported('Quantity ufunc method %s' % method)
    out = kw.get('out')
    r = _ufunc(uf, inputs)
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if o is not None:
            if isinstance(o, SymQ):
                o.view(np.ndarray).view(SymArr)[...] = _plain(asobj(r.value if isinstance(
                    r, u.Quantity) else r))
                if isinstance(r, u.Quantity):
                    o._unit = r.unit
                return o
            o[...] = r
            return o
    return r


def _ufunc(uf, inputs):
    if len(inputs) == 1:
        v, un = _uv(inputs[0])
        if uf in SAME1:
            return SymQ(_call(uf, v), un)
        if uf in FLAG:
            return _call(uf, v)
        if uf is np.sqrt:
            return SymQ(_call(uf, v), un ** 0.5)
        if uf is np.square:
            return SymQ(_call(uf, v), un ** 2)
        if uf is np.reciprocal:
            return SymQ(_call(np.true_divide, 1.0, v), un ** -1)
        if uf in DIMLESS:
            return SymQ(_call(uf, v * un.to(ONE)), ONE)
        if uf in TRIG:
            return SymQ(_call(uf, v * un.to(u.rad)), ONE)
        if uf in ATRIG:
            return SymQ(_call(uf, v * un.to(ONE)), u.rad)
        raise Unsupported('Quantity ufunc %s' % uf)
    a, b = inputs[:2]
    if isinstance(a, (u.UnitBase, str)) or isinstance(b, (u.UnitBase, str)):
        raise Unsupported('unit operand')
    va, ua = _uv(a)
    vb, ub = _uv(b)
    if uf is np.multiply:
        return SymQ(_call(uf, va, vb), (ua or ONE) * (ub or ONE))
    if uf in (np.true_divide, np.divide):
        return SymQ(_call(np.true_divide, va, vb), (ua or ONE) / (ub or ONE))
    if uf is np.power:
        return SymQ(_call(uf, va, vb if ub is None else b.to_value(ONE)), (ua or ONE) ** vb if (ua or ONE) != ONE else ONE)
    un = ua if ua is not None else ub
    x = va if ua is not None else _tov(a, un)
    y = _tov(b, un)
    if uf in CMP:
        return _call(uf, x, y)
    if uf in SAME2:
        return SymQ(_call(uf, x, y), un)
    if uf is np.floor_divide:
        return SymQ(_call(uf, x, y), ONE)
    if uf is np.arctan2:
        return SymQ(_call(uf, x, y), u.rad)
    raise Unsupported('Quantity ufunc %s' % uf)


_orig_new = u.Quantity.__new__


def _new(cls, value, unit=None, dtype=np.inexact, copy=True, order=None, subok=False, ndmin=0,
         **k):
    if cls is u.Quantity or cls is SymQ:
        if isinstance(value, SymQ):
            return SymQ(value, unit, copy=copy)
        if wants_sym(value) or (isinstance(value, (list, tuple)) and
                                any(isinstance(e, SymQ) for e in value)):
            if not isinstance(value, (list, tuple)) and not has_sym(value) and \
                    not (ACTIVE[0] and getattr(value, 'fresh', False)):
                value = A.native(asobj(value))
            else:
                return SymQ(value, unit, copy=copy)
    if dtype is not np.inexact:
        k['dtype'] = dtype
    return _orig_new(cls, value, unit=unit, copy=copy, order=order, subok=subok, ndmin=ndmin, **k)


_orig_uf = u.Quantity.__array_ufunc__


def _array_ufunc(self, uf, method, *inputs, **kw):
    """real Quantity meets a symbolic operand"""
    if any(isinstance(x, SymQ) for x in inputs) or any(
            type(x) in SYM or (isinstance(x, np.ndarray) and x.dtype.kind == 'O')
            for x in inputs):
        return ufunc(uf, method, inputs, kw)
    return _orig_uf(self, uf, method, *inputs, **kw)


ACTIVE = [0]
_orig_value = u.Quantity.value


def _value(self):
    v = _orig_value.fget(self)
    if ACTIVE[0] and type(v) is np.ndarray and v.ndim:
        from . import patch as P
        return v.view(P.NatArr)
    return v


def install():
    u.Quantity.value = property(_value)
    u.Quantity.__new__ = staticmethod(_new)
    u.Quantity.__array_ufunc__ = _array_ufunc
    for nm, uf in (('__iadd__', np.add), ('__isub__', np.subtract), ('__imul__', np.multiply),
                   ('__itruediv__', np.true_divide)):
        if not getattr(getattr(u.Quantity, nm), '_symx', False):
            setattr(u.Quantity, nm, _inplace(getattr(u.Quantity, nm), uf))


def _inplace(orig, uf):
    """`q += symbolic` on a concrete Quantity rebinds the name to a symbolic one (a concrete
    buffer cannot hold symbolic values); the unit rules are those of the plain operator."""
    def op(self, o):
        if not isinstance(self, SymQ) and (
                isinstance(o, SymQ) or type(o) in SYM or
                (isinstance(o, np.ndarray) and o.dtype.kind == 'O' and has_sym(o))):
            r = _ufunc(uf, (self, o))
            if r.shape != self.shape:
                raise ValueError('non-broadcastable output operand')
            return r
        return orig(self, o)
    op._symx = True
    return op
