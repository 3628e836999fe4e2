"""Run the code of /repo with its numpy/scipy/astropy references redirected.

Nothing in /repo is edited: inside `symbolic()` every module of the package gets,
for each global that *is* numpy (or a function of numpy/scipy/...), a stand-in
that understands symbolic values and otherwise calls the real thing.  Outside of
it the modules are untouched, which is how counterexamples are replayed.
"""
import builtins
import contextlib
import importlib
import os
import pkgutil
import sys
import types

import numpy as np

from .core import *
from . import arr as A
from .arr import SymArr, has_sym, has_obj, nativize, native, mk, mkb, asobj, apply


class NatArr(np.ndarray):
    """native array that accepts (concretised) symbolic indices"""

    def __getitem__(self, idx):
        if type(idx) in SYM or isinstance(idx, (tuple, list)) or \
                (isinstance(idx, np.ndarray) and idx.dtype.kind == 'O'):
            if isinstance(idx, tuple):
                idx = tuple(A._fix1(i) if not isinstance(i, list) or has_sym(i) else i
                            for i in idx)
            elif not isinstance(idx, list) or has_sym(idx):
                idx = A._fix1(idx)
        return super().__getitem__(idx)

    def __setitem__(self, idx, val):
        if not isinstance(idx, list) or has_sym(idx):
            idx = A.fix_index(idx)
        if isinstance(val, np.ndarray) and val.dtype.kind == 'O':
            val = native(val)
        super().__setitem__(idx, val)

    def __array_wrap__(self, a, context=None, *r):
        # reductions give scalars, as they do for plain arrays
        if a.ndim == 0:
            return a[()]
        return a.view(NatArr) if type(a) is np.ndarray else a

    def squeeze(self, axis=None):
        return natwrap(self.view(np.ndarray).squeeze(axis))

    def __array_function__(self, func, types_, args, kwargs):
        if has_obj(list(args)) or has_sym(dict(kwargs)):
            return A.dispatch_function(func, args, kwargs)
        return super().__array_function__(func, types_, args, kwargs)


def natwrap(r):
    if type(r) is np.ndarray:
        if r.dtype.kind == 'O':
            return mk(r)
        if r.ndim:
            return r.view(NatArr)
        return r
    if type(r) is tuple:
        return tuple(natwrap(e) for e in r)
    if type(r) is list:
        return [natwrap(e) for e in r]
    return r


def is_q(x):
    return A._is_quantity(x)


def any_q(args, kwargs):
    return any(is_q(a) or (isinstance(a, (list, tuple)) and any(is_q(b) for b in a))
               for a in list(args) + list(kwargs.values()))


def symize_plain(x, depth=0):
    """plain object ndarrays (e.g. Quantity.value) -> SymArr"""
    if type(x) is np.ndarray and x.dtype.kind == 'O':
        return x.view(SymArr)
    if type(x) in (list, tuple) and depth < 4:
        return type(x)(symize_plain(e, depth + 1) for e in x)
    return x


SPECIAL = {}       # id(real function) -> model (called when arguments are symbolic)
ALWAYS = {}        # id(real function) -> model (always called)
_keepalive = []


def model(*reals):
    def deco(f):
        for r in reals:
            if r is None:
                continue
            SPECIAL[id(r)] = f
            _keepalive.append(r)
        return f
    return deco


def always(*reals):
    def deco(f):
        for r in reals:
            if r is None:
                continue
            ALWAYS[id(r)] = f
            _keepalive.append(r)
        return f
    return deco


def unwrap_q(x):
    return x


def q_apply(real, args, kwargs):
    """symbolic Quantities: run the real (unit aware) function; astropy strips
    units and re-enters our array layer through object loops"""
    return real(*args, **kwargs)


def wrap_callable(real, name):
    if id(real) in ALWAYS:
        return ALWAYS[id(real)]
    special = SPECIAL.get(id(real))

    def w(*args, **kwargs):
        if any_q(args, kwargs):
            r = q_call(real, args, kwargs)
            return r
        args = symize_plain(args)
        kwargs = {k: symize_plain(v) for k, v in kwargs.items()}
        sym = has_sym(list(args)) or has_sym(dict(kwargs))
        if not sym:
            return natwrap(real(*nativize(args), **nativize(kwargs)))
        if special is not None:
            return special(*args, **kwargs)
        if real in A.FN:
            return A.FN[real](*args, **kwargs)
        mod = getattr(real, '__module__', '') or ''
        if mod.split('.')[0] in ('numpy',):
            return A.dispatch_function(real, args, kwargs)
        raise Unsupported('library function %s.%s on symbolic data'
                          % (getattr(real, '__module__', '?'), name))
    w.__name__ = name
    w.__wrapped__ = real
    w._symx_real = real
    return w


def q_value(x):
    return x


def q_call(real, args, kwargs):
    """call numpy with Quantity arguments.  When values are symbolic, use unit
    rules for the handful of functions the code uses; otherwise the real call."""
    if not has_sym(list(args)) and not has_sym(kwargs) and \
            not any(is_q(a) and getattr(a, 'dtype', None) is not None and a.dtype.kind == 'O'
                    for a in list(args) + list(kwargs.values())):
        return natwrap(real(*nativize(args), **nativize(kwargs)))
    import astropy.units as u
    name = getattr(real, '__name__', '')
    if isinstance(real, np.ufunc):
        from . import qty
        return qty.ufunc(real, '__call__', args, kwargs)
    if name in ('allclose', 'isclose', 'hstack', 'concatenate', 'vstack', 'append', 'stack',
                'searchsorted', 'digitize', 'clip', 'interp', 'array_equal', 'where'):
        un = None
        for a in args:
            for b in (a if isinstance(a, (list, tuple)) else [a]):
                if isinstance(b, u.Quantity) and un is None:
                    un = b.unit

        def strip(a):
            if isinstance(a, (list, tuple)):
                return type(a)(strip(b) for b in a)
            return a.to_value(un) if isinstance(a, u.Quantity) else a
        r = wrap_callable(real, name)(*[strip(a) for a in args], **{k: strip(v) for k, v in
                                                                 kwargs.items()})
        if name in ('hstack', 'concatenate', 'vstack', 'append', 'stack', 'clip', 'where'):
            return u.Quantity(r, un)
        return r
    if name in ('linspace', 'logspace') and len(args) > 1 and isinstance(args[0], u.Quantity) \
            and isinstance(args[1], u.Quantity):
        un = args[0].unit
        f = {'linspace': A.c_linspace}.get(name) or wrap_callable(real, name)
        return u.Quantity(f(args[0].value, args[1].to_value(un), *args[2:], **kwargs), un)
    if args and isinstance(args[0], u.Quantity):
        val = args[0].value
        if isinstance(val, np.ndarray):
            val = symize_plain(val)
        unit = args[0].unit
        if name in ('sum', 'mean', 'nanmean', 'nansum', 'std', 'nanstd', 'min', 'max',
                    'amin', 'amax', 'nanmin', 'nanmax', 'round', 'around', 'roll', 'gradient',
                    'diff', 'nan_to_num', 'sort', 'median', 'nanmedian', 'flip', 'abs',
                    'copy', 'squeeze', 'ravel', 'transpose', 'atleast_1d', 'reshape', 'unique',
                    'real', 'cumsum', 'nancumsum', 'average', 'percentile', 'nanpercentile'):
            return u.Quantity(wrap_callable(real, name)(val, *args[1:], **kwargs), unit)
        if name in ('any', 'all', 'argmax', 'argmin', 'argsort', 'size', 'shape', 'ndim',
                    'isreal', 'iscomplex', 'nonzero', 'count_nonzero', 'isscalar'):
            return wrap_callable(real, name)(val, *args[1:], **kwargs)
        if name in ('var', 'nanvar'):
            return u.Quantity(wrap_callable(real, name)(val, *args[1:], **kwargs), unit ** 2)
    raise Unsupported('numpy.%s on symbolic quantities' % name)


class UfuncProxy:
    def __init__(self, uf):
        self._uf = uf
        self._call = wrap_callable(uf, uf.__name__)
        self.__name__ = uf.__name__

    def __call__(self, *a, **k):
        if any_q(a, k):
            return q_call(self._uf, a, k)
        a = symize_plain(a)
        if has_obj(list(a)):
            out = k.get('out')
            if out is not None and not isinstance(out, tuple):
                k = dict(k, out=(out,))
            return A.dispatch_ufunc(self._uf, '__call__', a, k)
        return natwrap(self._uf(*a, **k))

    def __getattr__(self, n):
        real = getattr(self._uf, n)
        if n in ('reduce', 'accumulate', 'outer', 'at'):
            def m(*a, **k):
                a = symize_plain(a)
                if has_obj(list(a)):
                    if n == 'reduce' and len(a) > 1:
                        k = dict(k, axis=a[1])
                        a = a[:1]
                    if n == 'accumulate' and len(a) > 1:
                        k = dict(k, axis=a[1])
                        a = a[:1]
                    return A.dispatch_ufunc(self._uf, n, a, k)
                return natwrap(real(*a, **k))
            return m
        return real


CREATE = {
    'zeros': A.c_zeros, 'empty': A.c_zeros, 'ones': A.c_ones, 'full': A.c_full,
    'zeros_like': A.c_like(0), 'empty_like': A.c_like(0), 'ones_like': A.c_like(1),
    'full_like': A.c_like('full'), 'array': A.c_array, 'asarray': A.c_asarray,
    'asanyarray': A.c_asarray, 'ascontiguousarray': A.c_asarray, 'linspace': A.c_linspace,
    'arange': A.c_arange, 'logspace': A.c_logspace, 'copy': lambda a, *r, **k:
        a.copy() if isinstance(a, np.ndarray) else A.c_array(a),
}


class ModProxy(types.ModuleType):
    """stand-in for numpy, numpy.fft, numpy.linalg, numpy.random, ..."""

    def __init__(self, real, overrides=None):
        super().__init__(real.__name__)
        self.__dict__['_real'] = real
        self.__dict__['_cache'] = {}
        self.__dict__['_over'] = overrides or {}

    def __getattr__(self, name):
        c = self._cache
        if name in c:
            return c[name]
        if name in self._over:
            c[name] = self._over[name]
            return c[name]
        r = getattr(self._real, name)
        c[name] = proxy_of(r, name)
        return c[name]

    def __dir__(self):
        return dir(self._real)


_modproxies = {}


def proxy_of(r, name):
    if id(r) in ALWAYS:
        return ALWAYS[id(r)]
    if isinstance(r, types.ModuleType):
        top = r.__name__.split('.')[0]
        if top in PROXIED_TOPS:
            return mod_proxy(r)
        return r
    if isinstance(r, np.ufunc):
        return UfuncProxy(r)
    if isinstance(r, type):
        return SPECIAL_TYPES.get(r, r)
    if callable(r) and (isinstance(r, (types.FunctionType, types.BuiltinFunctionType,
                                       types.MethodType)) or type(r).__name__ in
                        ('_ArrayFunctionDispatcher', 'function', 'cython_function_or_method',
                         'fused_cython_function', 'builtin_function_or_method')):
        return wrap_callable(r, name)
    return r


SPECIAL_TYPES = {}
PROXIED_TOPS = {'numpy', 'scipy'}


def mod_proxy(m):
    if m.__name__ not in _modproxies:
        over = CREATE_WRAPPED if m is np else None
        _modproxies[m.__name__] = ModProxy(m, over)
    return _modproxies[m.__name__]


def _cw(name, f):
    real = getattr(np, name)

    def w(*a, **k):
        a = symize_plain(a)
        r = f(*a, **k)
        return natwrap(r) if type(r) is np.ndarray else r
    w.__name__ = name
    return w


CREATE_WRAPPED = {n: _cw(n, f) for n, f in CREATE.items()}


def np_fromiter(it, dtype=float, count=-1):
    return A.c_array(list(it), dtype=dtype)


CREATE_WRAPPED['fromiter'] = np_fromiter


def np_vectorize(f, *a, **k):
    def g(*args):
        return mk(A.apply(f, *args))
    return g


CREATE_WRAPPED['vectorize'] = np_vectorize


def np_finfo(t):
    t = getattr(t, 'dtype', t)
    try:
        if np.dtype(t).kind == 'O':
            t = float
    except TypeError:
        pass
    return np.finfo(t)


CREATE_WRAPPED['finfo'] = np_finfo


def np_apply_along_axis(f, axis, a, *args, **k):
    t = np.moveaxis(A.asobj(a), axis, -1)
    out = None
    for i in np.ndindex(t.shape[:-1]):
        r = A.asobj(f(mk(t[i]), *args, **k))
        if out is None:
            out = np.empty(t.shape[:-1] + r.shape, dtype=object)
        out[i] = r if r.ndim else r.item()
    return mk(np.moveaxis(out, -1, axis) if out.ndim == t.ndim else out)


CREATE_WRAPPED['apply_along_axis'] = np_apply_along_axis


def load_package(name='turbustat', want=None):
    """import (fresh, from source) the modules listed in want"""
    mods = []
    for w in want:
        mods.append(importlib.import_module(w))
    return mods


def package_modules(pkg='turbustat'):
    return [m for n, m in list(sys.modules.items())
            if m is not None and (n == pkg or n.startswith(pkg + '.')) and
            isinstance(m, types.ModuleType)]


REPLACE_TOPS = ('numpy', 'scipy', 'astropy', 'statsmodels', 'sklearn', 'pyfftw', 'astrodendro',
                'skimage', 'radio_beam', 'spectral_cube', 'emcee')


def _want_replace(v):
    if isinstance(v, types.ModuleType):
        return v.__name__.split('.')[0] in ('numpy', 'scipy') or id(v) in ALWAYS
    if id(v) in ALWAYS or id(v) in SPECIAL:
        return True
    if isinstance(v, np.ufunc):
        return True
    if isinstance(v, type):
        return v in SPECIAL_TYPES
    if callable(v) and not isinstance(v, type):
        mod = getattr(v, '__module__', None) or ''
        top = mod.split('.')[0]
        if top in ('numpy', 'scipy'):
            return True
        if type(v).__name__ == '_ArrayFunctionDispatcher':
            return True
    return False


@contextlib.contextmanager
def symbolic(extra=None):
    """redirect numpy/scipy references of all loaded package modules"""
    saved = []
    for m in package_modules():
        d = m.__dict__
        for k in list(d):
            if k.startswith('__'):
                continue
            v = d[k]
            try:
                if not _want_replace(v):
                    continue
            except Exception:
                continue
            saved.append((d, k, v))
            if isinstance(v, types.ModuleType) and id(v) not in ALWAYS:
                d[k] = mod_proxy(v)
            else:
                d[k] = proxy_of(v, k)
    real_import = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        m = real_import(name, globals, locals, fromlist, level)
        if globals is not None and str(globals.get('__name__', '')).startswith('turbustat') \
                and level == 0 and name.split('.')[0] in ('numpy', 'scipy'):
            if isinstance(m, types.ModuleType):
                return mod_proxy(m)
        return m
    builtins.__import__ = imp
    # shadow builtins that coerce
    shadow = dict(extra or {})
    for m in package_modules():
        for k, v in SHADOW_BUILTINS.items():
            if k not in m.__dict__:
                m.__dict__[k] = v
                saved.append((m.__dict__, k, _DEL))
    for (d, k, v) in list(shadow.get('globals', [])):
        saved.append((d, k, d.get(k, _DEL)))
        d[k] = v
    _qty.ACTIVE[0] += 1
    try:
        yield
    finally:
        _qty.ACTIVE[0] -= 1
        builtins.__import__ = real_import
        for d, k, v in reversed(saved):
            if v is _DEL:
                d.pop(k, None)
            else:
                d[k] = v


_DEL = object()


def sh_float(x=0.0):
    if type(x) in SYM:
        if isinstance(x, SymBool):
            return x.to_real()
        if isinstance(x, SymComplex):
            raise TypeError("can't convert complex to float")
        return x
    if isinstance(x, SymArr) and x.size == 1:
        return sh_float(x.view(np.ndarray).reshape(-1)[0])
    if isinstance(x, np.ndarray) and x.dtype.kind == 'O' and x.size == 1 and not is_q(x):
        return sh_float(x.reshape(-1)[0])
    return float(x)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or type(x) is SymReal

    def __call__(cls, *a):
        return sh_float(*a)

    def __eq__(cls, o):
        return o is float or o is ShFloat

    def __hash__(cls):
        return hash(float)


class ShFloat(metaclass=_FloatMeta):
    pass


def sh_min(*a, **k):
    vals = list(a[0]) if len(a) == 1 else list(a)
    if any(type(v) in SYM for v in vals) and not k:
        r = vals[0]
        for v in vals[1:]:
            r = ite(v < r, v, r)
        return r
    return min(*a, **k)


def sh_max(*a, **k):
    vals = list(a[0]) if len(a) == 1 else list(a)
    if any(type(v) in SYM for v in vals) and not k:
        r = vals[0]
        for v in vals[1:]:
            r = ite(v > r, v, r)
        return r
    return max(*a, **k)


def sh_round(x, nd=None):
    if type(x) is SymReal:
        return x.rint(nd or 0)
    return round(x) if nd is None else round(x, nd)


SHADOW_BUILTINS = {'min': sh_min, 'max': sh_max, 'round': sh_round}

from . import qty as _qty      # noqa
_qty.install()
