"""Symbolic scalars and the path-exploring engine.

The functions of /repo are *executed* (not re-modelled): their numpy arrays are
object arrays whose elements are the classes below.  Every arithmetic operation
builds a z3 term; every branch on a symbolic condition asks the solver which
sides are feasible and forks (by re-execution).  Numbers are mathematical reals
(stated as an assumption in every evidence file) extended with NaN and +/-inf
flags, so NaN/inf handling of the code is modelled explicitly.
"""
import math
import numbers
import sys
import time
from fractions import Fraction

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
import numpy as np
import z3

z3.set_param('model.completion', True)


class Unsupported(Exception):
    """The symbolic layer cannot encode an operation (never a violation)."""


class PathAbort(BaseException):
    """Infeasible or pruned path."""


class BudgetExceeded(BaseException):
    """Path/time budget of an obligation is used up."""


# ----------------------------------------------------------------- constants
_frac_cache = {}


def snap(f):
    """Exact rational of a float, snapped to the simple rational it rounds
    (1/3. -> 1/3) so that code may write x/3 or x*(1/3.)."""
    r = _frac_cache.get(f)
    if r is None:
        exact = Fraction(f)
        r = exact
        if exact.denominator > 4096:
            cand = exact.limit_denominator(20000)
            if cand != 0 and abs(cand - exact) <= abs(exact) * Fraction(4, 2 ** 53):
                r = cand
        _frac_cache[f] = r
    return r


def rv(x):
    """z3 real value of a concrete finite number."""
    if isinstance(x, Fraction):
        f = x
    elif isinstance(x, (bool, np.bool_)):
        return z3.RealVal(1) if x else z3.RealVal(0)
    elif isinstance(x, (int, np.integer)):
        return z3.RealVal(int(x))
    else:
        f = snap(float(x))
    return z3.RealVal(f) if f.denominator == 1 else z3.Q(f.numerator, f.denominator)


def is_num(t):
    return z3.is_rational_value(t)


def frac(t):
    return Fraction(t.numerator_as_long(), t.denominator_as_long())


# ------------------------------------------------------------ boolean helpers
def bnot(a):
    if a is True or a is False:
        return not a
    if z3.is_not(a):
        return a.arg(0)
    if z3.is_true(a):
        return False
    if z3.is_false(a):
        return True
    return z3.Not(a)


def band(*xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return False
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def bor(*xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            continue
        if any(x.eq(o) for o in out):
            continue
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def zb(a):
    return z3.BoolVal(a) if isinstance(a, (bool, np.bool_)) else a


def bite(c, a, b):
    """ite on booleans"""
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else bnot(c)
    if a is True:
        return bor(c, b)
    if a is False:
        return band(bnot(c), b)
    if b is True:
        return bor(bnot(c), a)
    if b is False:
        return band(c, a)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def rite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b or a.eq(b):
        return a
    return z3.If(c, a, b)


ZERO = z3.RealVal(0)
ONE = z3.RealVal(1)


def t_add(a, b):
    if is_num(a):
        if is_num(b):
            return rv(frac(a) + frac(b))
        if frac(a) == 0:
            return b
    elif is_num(b) and frac(b) == 0:
        return a
    return a + b


def t_sub(a, b):
    if is_num(b):
        if is_num(a):
            return rv(frac(a) - frac(b))
        if frac(b) == 0:
            return a
    if a.eq(b):
        return ZERO
    return a - b


def t_mul(a, b):
    if is_num(a):
        if is_num(b):
            return rv(frac(a) * frac(b))
        f = frac(a)
        if f == 0:
            return ZERO
        if f == 1:
            return b
    elif is_num(b):
        f = frac(b)
        if f == 0:
            return ZERO
        if f == 1:
            return a
    return a * b


def t_cmp(op, a, b):
    if is_num(a) and is_num(b):
        x, y = frac(a), frac(b)
        return {'<': x < y, '<=': x <= y, '==': x == y}[op]
    if a.eq(b):
        return op != '<'
    e = _CUR[0]
    if e is not None and e.bounds:
        la, ha = _bnd(e, a)
        lb, hb = _bnd(e, b)
        if op == '<':
            if ha is not None and lb is not None and ha < lb:
                return True
            if la is not None and hb is not None and la >= hb:
                return False
        elif op == '<=':
            if ha is not None and lb is not None and ha <= lb:
                return True
            if la is not None and hb is not None and la > hb:
                return False
        else:
            if ha is not None and lb is not None and ha < lb:
                return False
            if la is not None and hb is not None and la > hb:
                return False
    if e is not None and 'ln' in e.uf_insts:
        r = _ln_cmp(e, op, a, b)
        if r is not None:
            return r
    if op == '<':
        return a < b
    if op == '<=':
        return a <= b
    return a == b


def _ln_lin(e, t):
    """(coefficient, argument, constant) of a term linear in one logarithm"""
    h = e.aux.get(t.get_id())
    if h is not None:
        return (Fraction(1), h[1][0], Fraction(0)) if h[0] == 'ln' else None
    if z3.is_mul(t) and t.num_args() == 2 and (is_num(t.arg(0)) or is_num(t.arg(1))):
        i = 0 if is_num(t.arg(0)) else 1
        r = _ln_lin(e, t.arg(1 - i))
        f = frac(t.arg(i))
    elif z3.is_div(t) and is_num(t.arg(1)):
        r = _ln_lin(e, t.arg(0))
        f = 1 / frac(t.arg(1)) if frac(t.arg(1)) else None
    elif z3.is_add(t) and t.num_args() == 2 and (is_num(t.arg(0)) or is_num(t.arg(1))):
        i = 0 if is_num(t.arg(0)) else 1
        r = _ln_lin(e, t.arg(1 - i))
        return r and (r[0], r[1], r[2] + frac(t.arg(i)))
    else:
        return None
    return r and f and (r[0] * f, r[1], r[2] * f)


def _ln_cmp(e, op, a, b):
    """comparison of a logarithm with a constant, taken out of the logarithm"""
    if is_num(b):
        r, k, sw = _ln_lin(e, a), frac(b), False
    elif is_num(a):
        r, k, sw = _ln_lin(e, b), frac(a), True
    else:
        return None
    if not r:
        return None
    k = float((k - r[2]) / r[0])
    if abs(k) > 500:
        return None
    k = rv(math.exp(k))
    if r[0] < 0:
        sw = not sw
    x, y = (k, r[1]) if sw else (r[1], k)
    return t_cmp(op, x, y)


def _bnd(e, t):
    if is_num(t):
        f = frac(t)
        return f, f
    b = e.bounds.get(t.get_id())
    if b is not None:
        return b
    return _interval(e, t)


_NB = (None, None)


def _isum(xs):
    lo = hi = Fraction(0)
    for a, b in xs:
        lo = None if lo is None or a is None else lo + a
        hi = None if hi is None or b is None else hi + b
    return lo, hi


def _imul(x, y, same=False):
    if None in x or None in y:
        if same and x[0] is not None and x[0] >= 0:
            return x[0] * x[0], None
        if x[0] is not None and y[0] is not None and x[0] >= 0 and y[0] >= 0:
            return x[0] * y[0], None
        return (Fraction(0), None) if same else _NB
    p = [x[0] * y[0], x[0] * y[1], x[1] * y[0], x[1] * y[1]]
    if same:
        lo = Fraction(0) if x[0] <= 0 <= x[1] else min(x[0] * x[0], x[1] * x[1])
        return lo, max(p)
    return min(p), max(p)


def _interval(e, t0):
    """bounds of a term from the bounds of the inputs (plain interval arithmetic)"""
    memo = e.imemo
    hit = memo.get(t0.get_id())
    if hit is not None:
        return hit[1]
    stack = [t0]
    budget = 4000
    while stack:
        x = stack[-1]
        i = x.get_id()
        if i in memo:
            stack.pop()
            continue
        budget -= 1
        if budget < 0:
            memo[t0.get_id()] = (t0, _NB)
            return _NB
        if is_num(x):
            f = frac(x)
            memo[i] = (x, (f, f))
            stack.pop()
            continue
        b = e.bounds.get(i)
        if b is not None:
            memo[i] = (x, b)
            stack.pop()
            continue
        k = x.decl().kind()
        if k == z3.Z3_OP_ITE:
            ch = [x.arg(1), x.arg(2)]
        elif k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL):
            ch = x.children()
        else:
            memo[i] = (x, _NB)
            stack.pop()
            continue
        need = [c for c in ch if c.get_id() not in memo]
        if need:
            stack.extend(need)
            continue
        v = [memo[c.get_id()][1] for c in ch]
        if k == z3.Z3_OP_ITE:
            lo = None if v[0][0] is None or v[1][0] is None else min(v[0][0], v[1][0])
            hi = None if v[0][1] is None or v[1][1] is None else max(v[0][1], v[1][1])
            r = (lo, hi)
        elif k == z3.Z3_OP_ADD:
            r = _isum(v)
        elif k == z3.Z3_OP_SUB:
            r = _isum([v[0]] + [(None if b is None else -b, None if a is None else -a)
                                for a, b in v[1:]])
        elif k == z3.Z3_OP_UMINUS:
            a, b = v[0]
            r = (None if b is None else -b, None if a is None else -a)
        else:
            # group equal factors so that squares are known to be non-negative
            fs = {}
            for c, q in zip(ch, v):
                fs.setdefault(c.get_id(), [0, q])[0] += 1
            r = (Fraction(1), Fraction(1))
            for n, q in fs.values():
                sq = _imul(q, q, True)
                for _ in range(n // 2):
                    r = _imul(r, sq)
                if n % 2:
                    r = _imul(r, q)
        memo[i] = (x, r)
        stack.pop()
    return memo[t0.get_id()][1]


_CUR = [None]


def som(t):
    return z3.simplify(t, som=True, som_blowup=10000, hoist_mul=False,
                       sort_sums=True, flat=True, arith_lhs=False)


# ------------------------------------------------------------------- SymBool
class SymBool:
    __slots__ = ('b',)
    __array_priority__ = 1000
    __hash__ = object.__hash__

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        if self.b is True or self.b is False:
            return self.b
        return ENG().decide(self.b)

    @staticmethod
    def _c(o):
        if isinstance(o, SymBool):
            return o.b
        if isinstance(o, (bool, np.bool_)):
            return bool(o)
        if isinstance(o, (int, float, np.integer, np.floating)):
            return bool(o)
        if isinstance(o, SymReal):
            return bnot(o.eq0())
        return None

    def __and__(self, o):
        c = self._c(o)
        return NotImplemented if c is None else mkbool(band(self.b, c))
    __rand__ = __and__

    def __or__(self, o):
        c = self._c(o)
        return NotImplemented if c is None else mkbool(bor(self.b, c))
    __ror__ = __or__

    def __xor__(self, o):
        c = self._c(o)
        if c is None:
            return NotImplemented
        return mkbool(bite(c if not isinstance(c, bool) else c, bnot(self.b), self.b))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(bnot(self.b))

    def logical_not(self):
        return mkbool(bnot(self.b))

    def to_real(self):
        return SymReal(rite(self.b, ONE, ZERO))

    # arithmetic: behave like 0/1, except bool*real keeps the ite on top
    def __add__(self, o):
        if isinstance(o, (SymBool,)):
            return self.to_real() + o.to_real()
        return self.to_real() + o

    def __radd__(self, o):
        return o + self.to_real()

    def __sub__(self, o):
        return self.to_real() - o

    def __rsub__(self, o):
        return o - self.to_real()

    def __mul__(self, o):
        if isinstance(o, SymBool):
            return self & o
        return self.to_real() * o

    def __rmul__(self, o):
        return o * self.to_real()

    def __truediv__(self, o):
        return self.to_real() / o

    def __rtruediv__(self, o):
        return o / self.to_real()

    def __eq__(self, o):
        c = self._c(o)
        if c is None:
            return NotImplemented
        return mkbool(bite(c, self.b, bnot(self.b)))

    def __ne__(self, o):
        c = self._c(o)
        if c is None:
            return NotImplemented
        return mkbool(bite(c, bnot(self.b), self.b))

    def __lt__(self, o):
        return self.to_real() < o

    def __gt__(self, o):
        return self.to_real() > o

    def __le__(self, o):
        return self.to_real() <= o

    def __ge__(self, o):
        return self.to_real() >= o

    def __neg__(self):
        return -self.to_real()

    def __abs__(self):
        return self.to_real()

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self

    def sum(self, *a, **k):
        return self.to_real()

    def astype(self, t, *a, **k):
        from . import arr
        return arr.cast_scalar(self, t)

    @property
    def size(self):
        return 1

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.dispatch_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import arr
        return arr.dispatch_function(func, args, kwargs)

    def __repr__(self):
        return 'SymBool(%s)' % str(self.b)[:60]

    def __reduce__(self):
        raise Unsupported('pickling a symbolic value')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def mkbool(b):
    """z3 bool or python bool -> SymBool / python bool"""
    if isinstance(b, (bool, np.bool_)):
        return bool(b)
    if z3.is_true(b):
        return True
    if z3.is_false(b):
        return False
    return SymBool(b)


# ------------------------------------------------------------------- SymReal
def _is_concrete_num(o):
    return isinstance(o, (int, float, np.integer, np.floating, bool, np.bool_, Fraction)) \
        and not isinstance(o, (SymReal, SymBool))


class SymReal:
    """n/d with NaN and inf flags.  When inf is set, sign(n/d) is the sign."""
    __slots__ = ('n', 'd', 'nan', 'inf', 'root')
    __array_priority__ = 1000
    __hash__ = object.__hash__

    def __init__(self, n, d=None, nan=False, inf=False, root=None):
        self.n = n
        self.d = d
        self.nan = nan
        self.inf = inf
        self.root = root

    # -- helpers
    @property
    def v(self):
        if self.d is None:
            return self.n
        return self.n / self.d

    def plain(self):
        return self.nan is False and self.inf is False

    def is_const(self):
        return self.d is None and is_num(self.n)

    def fin(self):
        return band(bnot(self.nan), bnot(self.inf))

    def sgn_pos(self):
        """z3 condition value > 0"""
        if self.d is None:
            return t_cmp('<', ZERO, self.n)
        return t_cmp('<', ZERO, t_mul(self.n, self.d))

    def eq0(self):
        return band(bnot(self.nan), bnot(self.inf), t_cmp('==', self.n, ZERO))

    @staticmethod
    def lift(o):
        if isinstance(o, SymReal):
            return o
        if isinstance(o, SymBool):
            return o.to_real()
        if isinstance(o, (float, np.floating)):
            f = float(o)
            if f != f:
                return SymReal(ZERO, nan=True)
            if f in (math.inf, -math.inf):
                return SymReal(ONE if f > 0 else rv(-1), inf=True)
            return SymReal(rv(f))
        if isinstance(o, (int, np.integer, bool, np.bool_, Fraction)):
            return SymReal(rv(o))
        if isinstance(o, np.ndarray) and o.ndim == 0 and not hasattr(o, '_unit'):
            it = o.item()
            if isinstance(it, (int, float, bool, SymReal, SymBool)):
                return SymReal.lift(it)
        return None

    # -- arithmetic
    def _add(self, o, neg=False):
        a, b = self, o
        bn = b.n
        if neg:
            bn = rv(-frac(bn)) if is_num(bn) else -bn
        if a.d is None and b.d is None:
            n, d = (t_sub(a.n, b.n) if neg else t_add(a.n, b.n)), None
        elif a.d is None:
            n, d = t_add(t_mul(a.n, b.d), bn), b.d
        elif b.d is None:
            n, d = t_add(a.n, t_mul(bn, a.d)), a.d
        elif a.d.eq(b.d):
            n, d = t_add(a.n, bn), a.d
        else:
            n, d = t_add(t_mul(a.n, b.d), t_mul(bn, a.d)), t_mul(a.d, b.d)
        if a.inf is False and b.inf is False:
            return SymReal(n, d, bor(a.nan, b.nan))
        # infinities
        ap = a.sgn_pos()
        bp = b.sgn_pos() if not neg else bnot(b.sgn_pos())
        differ = bite(ap, bnot(bp), bp)
        nan = bor(a.nan, b.nan, band(a.inf, b.inf, differ))
        inf = bor(a.inf, b.inf)
        one = ONE
        sg = lambda p: rite(p, ONE, rv(-1)) if not isinstance(p, bool) else (ONE if p else rv(-1))
        base = n if d is None else n / d
        val = rite(a.inf, sg(ap), rite(b.inf, sg(bp), base))
        return SymReal(val, None, nan, inf)

    def __add__(self, o):
        if type(o) is SymComplex:
            return NotImplemented
        if isinstance(o, (complex, np.complexfloating)):
            return SymComplex(self, 0) + o
        o = SymReal.lift(o)
        if o is None:
            return NotImplemented
        return self._add(o)
    __radd__ = __add__

    def __sub__(self, o):
        if type(o) is SymComplex:
            return NotImplemented
        if isinstance(o, (complex, np.complexfloating)):
            return SymComplex(self, 0) - o
        o = SymReal.lift(o)
        if o is None:
            return NotImplemented
        return self._add(o, True)

    def __rsub__(self, o):
        if isinstance(o, (complex, np.complexfloating)):
            return SymComplex.lift(o) - SymComplex(self, 0)
        o = SymReal.lift(o)
        if o is None:
            return NotImplemented
        return o._add(self, True)

    def __neg__(self):
        n = rv(-frac(self.n)) if is_num(self.n) else -self.n
        return SymReal(n, self.d, self.nan, self.inf)

    def __pos__(self):
        return self

    def __mul__(self, o):
        if type(o) is SymComplex:
            return NotImplemented
        if isinstance(o, (complex, np.complexfloating)):
            return SymComplex(self, 0) * o
        o = SymReal.lift(o)
        if o is None:
            return NotImplemented
        a, b = self, o
        nan = bor(a.nan, b.nan)
        inf = bor(a.inf, b.inf)
        if inf is not False:
            nan = bor(nan, band(a.inf, bnot(b.inf), t_cmp('==', b.n, ZERO)),
                      band(b.inf, bnot(a.inf), t_cmp('==', a.n, ZERO)))
        if a.root is not None and b.root is not None and \
                (a.root is b.root or a.root.n.eq(b.root.n) and
                 (a.root.d is b.root.d or (a.root.d is not None and b.root.d is not None
                                           and a.root.d.eq(b.root.d)))):
            r = a.root
            return SymReal(r.n, r.d, nan, inf)
        n = t_mul(a.n, b.n)
        if a.d is None:
            d = b.d
        elif b.d is None:
            d = a.d
        else:
            d = t_mul(a.d, b.d)
        if d is not None and not is_num(n):
            pass
        if d is not None and is_num(n) and frac(n) == 0:
            d = None
        return SymReal(n, d, nan, inf)
    __rmul__ = __mul__

    @staticmethod
    def _div(a, b):
        nan = bor(a.nan, b.nan)
        if b.is_const() and b.inf is False:
            f = frac(b.n)
            if f != 0:
                return SymReal(t_mul(a.n, rv(1 / f)), a.d, nan, a.inf)
            # constant zero denominator
            az = t_cmp('==', a.n, ZERO)
            return SymReal(rite(a.sgn_pos(), ONE, rv(-1)) if not isinstance(a.sgn_pos(), bool)
                           else (ONE if a.sgn_pos() else rv(-1)), None,
                           bor(nan, band(az, bnot(a.inf))), True)
        bz = t_cmp('==', b.n, ZERO)
        if b.inf is not False:
            bz = band(bz, bnot(b.inf))
        if bz is not False and ENG().cannot(bz):
            bz = False
        # n/d
        n = a.n if b.d is None else t_mul(a.n, b.d)
        d = b.n if a.d is None else t_mul(a.d, b.n)
        if n.eq(d) and bz is False and a.inf is False and b.inf is False:
            return SymReal(ONE, None, nan)
        if is_num(n) and frac(n) == 0 and bz is False:
            return SymReal(ZERO, None, nan)
        inf = a.inf
        if b.inf is not False:
            nan = bor(nan, band(a.inf, b.inf))
            inf = band(a.inf, bnot(b.inf))
            n = rite(b.inf, ZERO, n)
            d = rite(b.inf, ONE, d)
        if ENG().ratio_atoms:
            n, d = ratio_atom(ENG(), n, d), None
        if bz is not False:
            az = band(t_cmp('==', a.n, ZERO), bnot(a.inf))
            nan = bor(nan, band(bz, az))
            inf = bor(inf, band(bz, bnot(az)))
            n = rite(bz, a.n if a.d is None else t_mul(a.n, a.d), n)
            d = rite(bz, ONE, d) if d is not None else None
        return SymReal(n, d, nan, inf)

    def __truediv__(self, o):
        if type(o) is SymComplex:
            return NotImplemented
        if isinstance(o, (complex, np.complexfloating)):
            return SymComplex(self, 0) / o
        o = SymReal.lift(o)
        if o is None:
            return NotImplemented
        return SymReal._div(self, o)

    def __rtruediv__(self, o):
        if isinstance(o, (complex, np.complexfloating)):
            return SymComplex.lift(o) / SymComplex(self, 0)
        o = SymReal.lift(o)
        if o is None:
            return NotImplemented
        return SymReal._div(o, self)

    def __floordiv__(self, o):
        return (self / o).floor()

    def __rfloordiv__(self, o):
        return (o / self).floor()

    def __mod__(self, o):
        q = (self / o).floor()
        return self - q * o

    def __rmod__(self, o):
        q = (o / self).floor()
        return o - q * self

    def __divmod__(self, o):
        q = (self / o).floor()
        return q, self - q * o

    def __pow__(self, p):
        return s_pow(self, p)

    def __rpow__(self, b):
        return s_pow(b, self)

    def __abs__(self):
        pos = t_cmp('<=', ZERO, self.n if self.d is None else t_mul(self.n, self.d))
        if pos is True or self.root is not None:
            return self
        m = -self
        sq = self * self if self.inf is False else None
        if sq is not None:
            sq = SymReal(sq.n, sq.d)
        return SymReal(rite(pos, self.n, m.n), self.d, self.nan, self.inf, sq)

    # -- comparisons
    def _cmp(self, op, o):
        a, b = self, o
        ok = band(bnot(a.nan), bnot(b.nan))
        if a.d is None and b.d is None:
            c = t_cmp(op, a.n, b.n)
        elif op == '==':
            l = a.n if b.d is None else t_mul(a.n, b.d)
            r = b.n if a.d is None else t_mul(b.n, a.d)
            c = t_cmp('==', l, r)
        elif a.d is None:
            # a op b.n/b.d
            c = bite(t_cmp('<', ZERO, b.d), t_cmp(op, t_mul(a.n, b.d), b.n),
                     t_cmp(op, b.n, t_mul(a.n, b.d)))
        elif b.d is None:
            c = bite(t_cmp('<', ZERO, a.d), t_cmp(op, a.n, t_mul(b.n, a.d)),
                     t_cmp(op, t_mul(b.n, a.d), a.n))
        else:
            l, r = t_mul(a.n, b.d), t_mul(b.n, a.d)
            c = bite(t_cmp('<', ZERO, t_mul(a.d, b.d)), t_cmp(op, l, r), t_cmp(op, r, l))
        if a.inf is not False or b.inf is not False:
            ap, bp = a.sgn_pos(), b.sgn_pos()
            both = band(a.inf, b.inf)
            if op == '==':
                same = bite(ap, bp, bnot(bp))
                c = bite(both, same, bite(bor(a.inf, b.inf), False, c))
            elif op == '<':
                c = bite(both, band(bnot(ap), bp), bite(a.inf, bnot(ap), bite(b.inf, bp, c)))
            else:
                c = bite(both, bor(bnot(ap), bp), bite(a.inf, bnot(ap), bite(b.inf, bp, c)))
        return band(ok, c)

    def _mk(self, op, o, swap=False, neg=False):
        if isinstance(o, SymComplex):
            return NotImplemented
        if isinstance(o, (complex, np.complexfloating)):
            return SymComplex.lift(self) == o
        o = SymReal.lift(o)
        if o is None:
            return NotImplemented
        c = o._cmp(op, self) if swap else self._cmp(op, o)
        return mkbool(bnot(c) if neg else c)

    def __lt__(self, o):
        return self._mk('<', o)

    def __le__(self, o):
        return self._mk('<=', o)

    def __gt__(self, o):
        return self._mk('<', o, swap=True)

    def __ge__(self, o):
        return self._mk('<=', o, swap=True)

    def __eq__(self, o):
        return self._mk('==', o)

    def __ne__(self, o):
        return self._mk('==', o, neg=True)

    def __bool__(self):
        return ENG().decide(bnot(self.eq0()))

    # -- conversions
    def __float__(self):
        if self.is_const() and self.plain():
            return float(frac(self.n))
        raise Unsupported('float() of a symbolic value')

    def __complex__(self):
        return complex(float(self))

    def __int__(self):
        if self.is_const() and self.plain():
            return int(frac(self.n))
        t = self.trunc()
        return ENG().concretize_int(t)

    def __index__(self):
        return int(self)

    def __trunc__(self):
        return int(self)

    def __round__(self, nd=None):
        if nd is None:
            return int(self.rint())
        return self.rint(nd)

    def __floor__(self):
        return int(self.floor())

    def __ceil__(self):
        return int(self.ceil())

    def trunc(self):
        f = self.floor()
        c = self.ceil()
        return ite(self >= 0, f, c)

    def floor(self):
        if self.is_const():
            return SymReal(rv(math.floor(frac(self.n))), None, self.nan, self.inf)
        return SymReal(rite(self.inf, self.v, z3.ToReal(z3.ToInt(self.v)))
                       if self.inf is not False else z3.ToReal(z3.ToInt(self.v)),
                       None, self.nan, self.inf)

    def ceil(self):
        return -((-self).floor())

    def rint(self, nd=0):
        s = 10 ** nd if nd else 1
        x = self * s if s != 1 else self
        f = x.floor()
        fr = x - f
        # round half to even
        half = SymReal(rv(Fraction(1, 2)))
        odd = (f - (f / 2).floor() * 2) == 1
        up = s_or(fr > half, s_and(fr == half, odd))
        r = ite(up, f + 1, f)
        return r / s if s != 1 else r

    def is_integer(self):
        return mkbool(band(self.fin(), z3.IsInt(self.v)))

    # -- numpy calls these on object elements
    def sqrt(self):
        return s_sqrt(self)

    def conjugate(self):
        return self
    conj = conjugate

    def exp(self):
        return s_uf('exp', self)

    def log(self):
        return s_log(self)

    def log10(self):
        return s_log(self, 10)

    def log2(self):
        return s_log(self, 2)

    def sin(self):
        return s_sincos(self)[0]

    def cos(self):
        return s_sincos(self)[1]

    def square(self):
        return self * self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def isnan(self):
        return mkbool(self.nan)

    def isfinite(self):
        return mkbool(self.fin())

    def isinf(self):
        return mkbool(band(self.inf, bnot(self.nan)))

    def item(self, *a):
        return self

    def copy(self, *a, **k):
        return self

    def mean(self, *a, **k):
        return self

    def sum(self, *a, **k):
        return self

    def min(self, *a, **k):
        return self
    max = min

    def any(self, *a, **k):
        return mkbool(bnot(self.eq0()))
    all = any

    def astype(self, t, *a, **k):
        from . import arr
        return arr.cast_scalar(self, t)

    @property
    def dtype(self):
        return np.dtype(object)

    @property
    def size(self):
        return 1

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.dispatch_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import arr
        return arr.dispatch_function(func, args, kwargs)

    def __repr__(self):
        return 'SymReal(%s)' % (str(self.n)[:60] + ('' if self.d is None else '/..'))

    def __format__(self, spec):
        return repr(self)

    def __reduce__(self):
        raise Unsupported('pickling a symbolic value')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


numbers.Number.register(SymReal)
numbers.Real.register(SymReal)


# ---------------------------------------------------------------- SymComplex
class SymComplex:
    __slots__ = ('re', 'im', 'inv')
    __array_priority__ = 1000
    __hash__ = object.__hash__

    def __init__(self, re, im):
        self.re = SymReal.lift(re)
        self.im = SymReal.lift(im)
        self.inv = None

    @staticmethod
    def lift(o):
        if isinstance(o, SymComplex):
            return o
        if isinstance(o, (complex, np.complexfloating)):
            return SymComplex(float(o.real), float(o.imag))
        r = SymReal.lift(o)
        if r is None:
            return None
        return SymComplex(r, 0)

    def _bin(self, o, f):
        o = SymComplex.lift(o)
        if o is None:
            return NotImplemented
        return f(self, o)

    def __add__(self, o):
        return self._bin(o, lambda a, b: SymComplex(a.re + b.re, a.im + b.im))
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: SymComplex(a.re - b.re, a.im - b.im))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: SymComplex(b.re - a.re, b.im - a.im))

    def __mul__(self, o):
        if isinstance(o, (SymReal, SymBool)) or _is_concrete_num(o):
            return SymComplex(self.re * o, self.im * o)
        return self._bin(o, lambda a, b: SymComplex(a.re * b.re - a.im * b.im,
                                                    a.re * b.im + a.im * b.re))
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (SymReal, SymBool)) or _is_concrete_num(o):
            o = SymReal.lift(o)
            return SymComplex(self.re / o, self.im / o)

        def f(a, b):
            if b.inv is not None:
                return a * b.inv
            m = b.re * b.re + b.im * b.im
            c = a * b.conjugate()
            return SymComplex(c.re / m, c.im / m)
        return self._bin(o, f)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: b / a)

    def __neg__(self):
        return SymComplex(-self.re, -self.im)

    def __pow__(self, p):
        if isinstance(p, (int, float, np.integer, np.floating)) and float(p) == int(p) \
                and 0 <= p <= 8:
            r = SymComplex(1, 0)
            for _ in range(int(p)):
                r = r * self
            return r
        raise Unsupported('complex power')

    def abs2(self):
        return self.re * self.re + self.im * self.im

    def __abs__(self):
        if self.im.is_const() and frac(self.im.n) == 0 and self.im.plain():
            return abs(self.re)
        if self.re.is_const() and frac(self.re.n) == 0 and self.re.plain():
            return abs(self.im)
        return s_sqrt(self.abs2(), nonneg=True)

    def conjugate(self):
        return SymComplex(self.re, -self.im)
    conj = conjugate

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def __eq__(self, o):
        return self._bin(o, lambda a, b: s_and(a.re == b.re, a.im == b.im))

    def __ne__(self, o):
        return self._bin(o, lambda a, b: s_not(s_and(a.re == b.re, a.im == b.im)))

    def __bool__(self):
        return bool(self != 0)

    def isnan(self):
        return s_or(self.re.isnan(), self.im.isnan())

    def isfinite(self):
        return s_and(self.re.isfinite(), self.im.isfinite())

    def isinf(self):
        return s_or(self.re.isinf(), self.im.isinf())

    def copy(self):
        return self

    def item(self, *a):
        return self

    def __complex__(self):
        raise Unsupported('complex() of a symbolic value')
    __float__ = __complex__

    @property
    def size(self):
        return 1

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.dispatch_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import arr
        return arr.dispatch_function(func, args, kwargs)

    def __repr__(self):
        return 'SymComplex'

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


numbers.Number.register(SymComplex)
numbers.Number.register(SymBool)

SYM = (SymReal, SymBool, SymComplex)


def is_sym(x):
    return type(x) in SYM


# ------------------------------------------------------------ scalar functions
def zbool(x):
    """anything truthy -> z3/py bool without forking"""
    if isinstance(x, SymBool):
        return x.b
    if isinstance(x, SymReal):
        return bnot(x.eq0())
    if isinstance(x, SymComplex):
        return zbool(x != 0)
    return bool(x)


def s_and(*xs):
    return mkbool(band(*[zbool(x) for x in xs]))


def s_or(*xs):
    return mkbool(bor(*[zbool(x) for x in xs]))


def s_not(x):
    return mkbool(bnot(zbool(x)))


def s_xor(a, b):
    a, b = zbool(a), zbool(b)
    return mkbool(bite(a, bnot(b), b))


def ite(c, a, b):
    """value-level if-then-else (merging, no fork)"""
    c = zbool(c)
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(b, (SymBool, bool, np.bool_)):
        return mkbool(bite(c, zbool(a), zbool(b)))
    if isinstance(a, (SymComplex, complex, np.complexfloating)) or \
            isinstance(b, (SymComplex, complex, np.complexfloating)):
        a, b = SymComplex.lift(a), SymComplex.lift(b)
        return SymComplex(ite(mkbool(c), a.re, b.re), ite(mkbool(c), a.im, b.im))
    x, y = SymReal.lift(a), SymReal.lift(b)
    if x is None or y is None:
        raise Unsupported('ite on %s / %s' % (type(a), type(b)))
    if x.d is None and y.d is None:
        n, d = rite(c, x.n, y.n), None
    elif x.d is not None and y.d is not None and x.d.eq(y.d):
        n, d = rite(c, x.n, y.n), x.d
    else:
        n = rite(c, x.n, y.n)
        d = rite(c, x.d if x.d is not None else ONE, y.d if y.d is not None else ONE)
    return SymReal(n, d, bite(c, x.nan, y.nan), bite(c, x.inf, y.inf))


def unpoly(p, atoms):
    """polynomial (see poly) back to a term"""
    ts = []
    for m, q in sorted(p.items()):
        x = None
        for i, k in m:
            for _ in range(k):
                x = atoms[i] if x is None else x * atoms[i]
        ts.append(rv(q) if x is None else (x if q == 1 else rv(q) * x))
    return ZERO if not ts else (ts[0] if len(ts) == 1 else z3.Sum(*ts))


def canon_ratio(e, n, d):
    """the same ratio with constant and common (nonzero) monomial factors cancelled and the
    leading coefficient of the denominator one; d is None when it became constant"""
    atoms = {}
    pn, pd = poly(n, 4000, atoms), poly(d, 4000, atoms)
    if pn is not None and pd is not None and pd:
        if not pn:
            return ZERO, None
        com = None
        for m in list(pn) + list(pd):
            mm = dict(m)
            com = mm if com is None else {i: min(k, mm[i]) for i, k in com.items() if i in mm}
            if not com:
                break
        com = {i: k for i, k in (com or {}).items()
               if t_cmp('==', atoms[i], ZERO) is False}
        f = pd[min(pd)] if not com else None
        if com:
            red = lambda p: {tuple((i, k - com.get(i, 0)) for i, k in m if k > com.get(i, 0)): q
                             for m, q in p.items()}
            pn, pd = red(pn), red(pd)
            f = pd[min(pd)]
        if f != 1:
            pn = {m: q / f for m, q in pn.items()}
            pd = {m: q / f for m, q in pd.items()}
        n, d = unpoly(pn, atoms), unpoly(pd, atoms)
        e.keep.append(list(atoms.values()))
        if is_num(d):
            return t_mul(n, rv(1 / frac(d))), None
    return n, d


def ratio_atom(e, n, d):
    """the value n/d as one variable r with r*d == n (where d != 0); see canon_ratio"""
    lo, hi = _ratio_bounds(_bnd(e, n), _bnd(e, d))
    n, d = canon_ratio(e, n, d)
    if d is None:
        return n
    n, d = som(n), som(d)
    key = ('ratio', n.get_id(), d.get_id())
    hit = e.memo.get(key)
    if hit is None:
        hit = e.similar('ratio', [n, d], key)
    if hit is None:
        r = e.fresh('ratio')
        e.add_def(r, z3.Implies(d != 0, r * d == n))
        e.aux[r.get_id()] = ('ratio', [n, d], r)
        e.keep.append((r, n, d))
        hit = r
        e.memo[key] = hit
        e.remember('ratio', [n, d], hit)
    if lo is not None or hi is not None:
        l0, h0 = e.bounds.get(hit.get_id(), (None, None))
        lo = lo if l0 is None else (l0 if lo is None else max(lo, l0))
        hi = hi if h0 is None else (h0 if hi is None else min(hi, h0))
        if (lo, hi) != (l0, h0):
            e.bounds[hit.get_id()] = (lo, hi)
            b = [] if lo is None else [hit >= rv(lo)]
            b += [] if hi is None else [hit <= rv(hi)]
            e.add_def(hit, z3.Implies(d != 0, z3.And(*b)))
    return hit


def _ratio_bounds(n, d):
    if d[0] is None or d[0] <= 0:
        if d[0] is not None and d[0] == 0 and n[0] is not None and n[0] >= 0:
            return Fraction(0), None
        return None, None
    lo = hi = None
    if n[0] is not None:
        if n[0] >= 0:
            lo = Fraction(0) if d[1] is None else n[0] / d[1]
        else:
            lo = n[0] / d[0]
    if n[1] is not None:
        hi = n[1] / d[0] if n[1] >= 0 else (Fraction(0) if d[1] is None else n[1] / d[1])
    return lo, hi


def s_sqrt(x, nonneg=False):
    if isinstance(x, SymBool):
        x = x.to_real()
    if isinstance(x, complex):
        return complex(np.sqrt(x))
    if isinstance(x, SymComplex):
        # principal root (on the negative axis the sign of the zero imaginary part is open),
        # with its inverse, so that dividing by it stays polynomial
        e = ENG()
        re, im = som(x.re.v), som(x.im.v)
        key = ('csqrt', re.get_id(), im.get_id())
        hit = e.memo.get(key)
        if hit is None:
            v = [e.fresh('csqrt_' + k) for k in ('re', 'im', 'ire', 'iim')]
            a, b, p, q = v
            ax = z3.And(a >= 0, a * a - b * b == re, 2 * a * b == im,
                        z3.Implies(z3.Or(re != 0, im != 0), z3.And(p * a - q * b == 1, p * b + q * a == 0)))
            for k, t in zip(('re', 'im', 'ire', 'iim'), v):
                e.add_def(t, ax)
                e.aux[t.get_id()] = ('csqrt_' + k, [re, im], t)
            hit = e.memo[key] = (v, re, im)
        bad = bor(x.re.nan, x.im.nan, x.re.inf, x.im.inf)
        a, b, p, q = [SymReal(t, None, bad) for t in hit[0]]
        r = SymComplex(a, b)
        if e.cannot_lin(z3.And(re == 0, im == 0)) or e.cannot(z3.And(re == 0, im == 0)):
            r.inv = SymComplex(p, q)
        return r
    if not isinstance(x, SymReal):
        with np.errstate(all='ignore'):
            return np.sqrt(np.float64(x))
    if x.plain() and (x.d is not None or not is_num(x.n)):
        n = som(x.n)
        d = None if x.d is None else som(x.d)
        if is_num(n) and (d is None or is_num(d) and frac(d) != 0):
            x = SymReal(rv(frac(n) / (1 if d is None else frac(d))))
    if x.is_const() and x.plain():
        f = frac(x.n)
        if f >= 0:
            r = Fraction(math.isqrt(f.numerator), 1) / math.isqrt(f.denominator) \
                if math.isqrt(f.denominator) else None
            if r is not None and r * r == f:
                return SymReal(rv(r))
            return SymReal(rv(Fraction(float(np.sqrt(float(f))))))
        else:
            return SymReal(ZERO, nan=True)
    e = ENG()
    n, d = (x.n, None) if x.d is None else canon_ratio(e, x.n, x.d)
    n = som(n)
    if d is None and is_num(n) and x.plain():
        return s_sqrt(SymReal(n), nonneg)
    d = None if d is None else som(d)
    key = ('sqrt', n.get_id(), None if d is None else d.get_id())
    hit = e.memo.get(key)
    if hit is None:
        hit = e.similar('sqrt', [n] if d is None else [n, d], key)
    if hit is None:
        s = e.fresh('sqrt')
        # s >= 0 and s*s*d == n
        if d is None:
            neg = t_cmp('<', n, ZERO)
            ax = z3.And(s >= 0, z3.Implies(zb(bnot(neg)), s * s == n))
        else:
            neg = t_cmp('<', t_mul(n, d), ZERO)
            ax = z3.And(s >= 0, z3.Implies(zb(band(bnot(neg), d != 0)), s * s * d == n))
        e.add_def(s, ax)
        e.bounds[s.get_id()] = (Fraction(0), None)
        e.aux[s.get_id()] = ('sqrt', [n] if d is None else [n / d], s)
        hit = (s, neg, n, d)
        e.memo[key] = hit
        e.remember('sqrt', [n] if d is None else [n, d], hit)
    s, neg, n, d = hit
    if nonneg:
        neg = False
    elif neg is not False and e.cannot(neg):
        neg = False
    root = SymReal(n, d)
    if neg is not False:
        nan = bor(x.nan, neg)
    else:
        nan = x.nan
    return SymReal(s if x.inf is False else rite(x.inf, ONE, s), None, nan, x.inf,
                   root if x.inf is False else None)


_UFS = {}


def uf(name, arity=1):
    k = (name, arity)
    if k not in _UFS:
        _UFS[k] = z3.Function('uf_' + name, *([z3.RealSort()] * (arity + 1)))
    return _UFS[k]


_MONO = {'exp': 1, 'ln': 1, 'arctan': 1, 'erf': 1}


def s_uf(name, *args):
    """uninterpreted function with a few sound axioms; instances are atoms"""
    e = ENG()
    xs = [SymReal.lift(a) for a in args]
    nan = bor(*[x.nan for x in xs])
    inf = bor(*[x.inf for x in xs])
    terms, flat = [], []
    for x in xs:
        if x.d is None:
            terms.append(som(x.v))
            flat.append(terms[-1])
            continue
        n, d = canon_ratio(e, x.n, x.d)
        n = som(n)
        flat.append(n)
        if d is not None:
            d = som(d)
            flat.append(d)
        terms.append(n if d is None else n / d)
    e.keep.append((terms, flat))
    if name == 'exp' and nan is False and inf is False and len(flat) == 1 and is_num(flat[0]):
        return SymReal(rv(Fraction(math.exp(float(frac(flat[0]))))))
    key = (name,) + tuple(t.get_id() for t in flat)
    hit = e.memo.get(key)
    if hit is None:
        hit = e.similar(name, flat, key)
    if hit is None:
        s = e.fresh(name)
        axs = []
        if name == 'exp':
            axs.append(s > 0)
            t = terms[0]
            axs.append(z3.And(z3.Implies(t >= 0, s >= 1 + t), z3.Implies(t <= 0, s <= 1),
                              z3.Implies(t == 0, s == 1)))
        if name == 'ln':
            t = terms[0]
            axs.append(z3.Implies(t > 0, z3.And(s <= t - 1, z3.Implies(t > 1, s > 0),
                                                z3.Implies(t < 1, s < 0),
                                                z3.Implies(t == 1, s == 0))))
        if name.startswith('pow'):
            b = terms[0]
            axs.append(z3.Implies(b > 0, s > 0))
            axs.append(z3.Implies(b == 1, s == 1))
        insts = e.uf_insts.setdefault(name, [])
        for (t2, s2) in insts:
            eqs = z3.And(*[a == b for a, b in zip(terms, t2)])
            axs.append(z3.Implies(eqs, s == s2))
            if name in _MONO:
                dom = z3.And(terms[0] > 0, t2[0] > 0) if name == 'ln' else z3.BoolVal(True)
                axs.append(z3.Implies(z3.And(dom, terms[0] < t2[0]), s < s2))
                axs.append(z3.Implies(z3.And(dom, terms[0] > t2[0]), s > s2))
        insts.append((terms, s))
        e.add_def(s, z3.And(*axs) if axs else z3.BoolVal(True))
        e.aux[s.get_id()] = (name, terms, s)
        hit = (s, terms)
        e.memo[key] = hit
        e.remember(name, flat, hit)
    s = hit[0]
    if inf is not False:
        if name == 'exp':
            x = xs[0]
            pos = x.sgn_pos()
            return SymReal(rite(band(inf, bnot(pos)), ZERO, s), None, nan, band(inf, pos))
        nan = bor(nan, inf)
    return SymReal(s, None, nan)


def _exp_monomial(e, t):
    """(c, [(power, exponent)]) of a positive multiple of exponentials"""
    if is_num(t):
        f = frac(t)
        return (f, []) if f > 0 else None
    h = e.aux.get(t.get_id())
    if h is not None:
        return (Fraction(1), [(1, h[1][0])]) if h[0] == 'exp' else None
    if z3.is_mul(t):
        c, l = Fraction(1), []
        for k in range(t.num_args()):
            r = _exp_monomial(e, t.arg(k))
            if r is None:
                return None
            c, l = c * r[0], l + r[1]
        return c, l
    if z3.is_div(t):
        a, b = _exp_monomial(e, t.arg(0)), _exp_monomial(e, t.arg(1))
        if a is None or b is None:
            return None
        return a[0] / b[0], a[1] + [(-k, q) for k, q in b[1]]
    return None


def _ln_exp(e, x):
    n = _exp_monomial(e, x.n)
    d = (Fraction(1), []) if x.d is None else _exp_monomial(e, x.d)
    if n is None or d is None or not (n[1] or d[1]):
        return None
    r = math.log(float(n[0] / d[0]))
    for k, t in n[1] + [(-k, t) for k, t in d[1]]:
        r = SymReal(t) * k + r
    return r


def s_log(x, base=None):
    if not isinstance(x, SymReal):
        if isinstance(x, SymBool):
            x = x.to_real()
        else:
            with np.errstate(all='ignore'):
                f = {None: np.log, 10: np.log10, 2: np.log2}[base]
                return f(np.float64(x))
    if x.is_const() and x.plain():
        with np.errstate(all='ignore'):
            f = {None: np.log, 10: np.log10, 2: np.log2}[base]
            return f(np.float64(float(frac(x.n))))
    e = ENG()
    neg = bnot(t_cmp('<=', ZERO, x.n if x.d is None else t_mul(x.n, x.d)))
    zero = t_cmp('==', x.n, ZERO)
    if neg is not False and e.cannot(neg):
        neg = False
    if zero is not False and e.cannot(zero):
        zero = False
    r = _ln_exp(e, x)
    if r is None:
        r = s_uf('ln', SymReal(x.n, x.d))
    if base is not None:
        r = r / math.log(base)
    n = r.n
    if x.inf is not False:
        neg = bor(band(neg, bnot(x.inf)), band(x.inf, bnot(x.sgn_pos())))
        zero = band(zero, bnot(x.inf))
        n = rite(x.inf, ONE, n)
    inf = bor(x.inf, zero)
    if zero is not False:
        n = rite(zero, rv(-1), n)
    return SymReal(n, None, bor(x.nan, neg), inf)


def s_sincos(x):
    e = ENG()
    if not isinstance(x, SymReal):
        return np.sin(np.float64(x)), np.cos(np.float64(x))
    if x.is_const():
        f = float(frac(x.n))
        return math.sin(f), math.cos(f)
    t = som(x.v)
    key = ('sincos', t.get_id())
    hit = e.memo.get(key)
    if hit is None:
        s, c = e.fresh('sin'), e.fresh('cos')
        e.add_def(s, s * s + c * c == 1)
        e.add_def(c, s * s + c * c == 1)
        e.aux[s.get_id()] = ('sin', [t], s)
        e.aux[c.get_id()] = ('cos', [t], c)
        hit = (s, c, t)
        e.memo[key] = hit
    return (SymReal(hit[0], None, bor(x.nan, x.inf)), SymReal(hit[1], None, bor(x.nan, x.inf)))


def s_pow(b, p):
    if is_sym(p):
        if isinstance(p, SymBool):
            p = p.to_real()
        if isinstance(p, SymReal) and p.is_const() and p.plain():
            p = frac(p.n)
        else:
            if not is_sym(b) and float(b) > 0:
                return s_uf('exp', p * math.log(float(b)))
            bb = SymReal.lift(b)
            if bb is None:
                raise Unsupported('complex symbolic power')
            if bb.plain() and _ln_exp(ENG(), bb) is not None:
                return s_uf('exp', p * s_log(bb))
            return s_uf('pow', bb, p)
    if isinstance(b, SymBool):
        b = b.to_real()
    if isinstance(b, SymComplex):
        return b.__pow__(p)
    pf = snap(float(p)) if not isinstance(p, Fraction) else p
    if pf.denominator == 1 and abs(pf.numerator) <= 8:
        k = abs(pf.numerator)
        if k == 0:
            return SymReal(ONE)
        r = b
        for _ in range(k - 1):
            r = r * b
        return r if pf > 0 else 1 / r
    if pf.denominator == 2 and abs(pf.numerator) <= 9:
        s = s_sqrt(b)
        k = abs(pf.numerator)
        r = s
        if k > 1:
            r = b ** (k // 2) * s
        return r if pf > 0 else 1 / r
    r = s_uf('pow%s_%s' % (pf.numerator, pf.denominator), b)
    neg = bnot(t_cmp('<=', ZERO, b.n if b.d is None else t_mul(b.n, b.d)))
    zero = t_cmp('==', b.n, ZERO)
    e = ENG()
    if neg is not False and e.cannot(neg):
        neg = False
    if zero is not False and e.cannot(zero):
        zero = False
    n = r.n
    inf = r.inf
    if zero is not False:
        n = rite(zero, ZERO if pf > 0 else ONE, n)
        if pf < 0:
            inf = bor(inf, zero)
    return SymReal(n, None, bor(r.nan, neg), inf)


def s_min(a, b):
    """np.minimum: NaN propagates"""
    if not is_sym(a) and not is_sym(b):
        return np.minimum(a, b)
    a, b = SymReal.lift(a), SymReal.lift(b)
    r = ite(a <= b, a, b)
    return SymReal(r.n, r.d, bor(a.nan, b.nan), r.inf)


def s_max(a, b):
    if not is_sym(a) and not is_sym(b):
        return np.maximum(a, b)
    a, b = SymReal.lift(a), SymReal.lift(b)
    r = ite(a >= b, a, b)
    return SymReal(r.n, r.d, bor(a.nan, b.nan), r.inf)


def s_fmin(a, b):
    a, b = SymReal.lift(a), SymReal.lift(b)
    r = ite(mkbool(bor(b.nan, band(bnot(a.nan), zbool(a <= b)))), a, b)
    return SymReal(r.n, r.d, band(a.nan, b.nan), r.inf)


def s_fmax(a, b):
    a, b = SymReal.lift(a), SymReal.lift(b)
    r = ite(mkbool(bor(b.nan, band(bnot(a.nan), zbool(a >= b)))), a, b)
    return SymReal(r.n, r.d, band(a.nan, b.nan), r.inf)


def s_isnan(x):
    if is_sym(x):
        return False if isinstance(x, SymBool) else x.isnan()
    return bool(np.isnan(x))


def s_isfinite(x):
    if is_sym(x):
        return True if isinstance(x, SymBool) else x.isfinite()
    return bool(np.isfinite(x))


def s_isinf(x):
    if is_sym(x):
        return False if isinstance(x, SymBool) else x.isinf()
    return bool(np.isinf(x))


def s_sign(x):
    if not is_sym(x):
        return np.sign(x)
    x = SymReal.lift(x)
    r = ite(x > 0, 1.0, ite(x < 0, -1.0, 0.0))
    r = SymReal.lift(r)
    return SymReal(r.n, r.d, x.nan)


# -------------------------------------------------------------------- engine

def ENG():
    if _CUR[0] is None:
        raise Unsupported('symbolic value used outside of an engine')
    return _CUR[0]


_vars_cache = {}


def term_vars(t):
    """ids of uninterpreted constants in t (iterative, cached)"""
    tid = t.get_id()
    hit = _vars_cache.get(tid)
    if hit is not None:
        return hit[1]
    out = {}
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        h = _vars_cache.get(i)
        if h is not None:
            out.update(h[1])
            continue
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[i] = x
        else:
            stack.extend(x.children())
    _vars_cache[tid] = (t, out)
    return out


class Engine:
    def __init__(self, max_paths=400, fork_timeout=1500, time_limit=None):
        self.memo = {}
        self.defs = {}          # var id -> list of axioms
        self.defvars = {}
        self.uf_insts = {}
        self.inputs = []
        self.assume_list = []
        self.counter = 0
        self.max_paths = max_paths
        self.fork_timeout = fork_timeout
        self.deadline = None if time_limit is None else time.time() + time_limit
        self.stats = dict(queries=0, solver_s=0.0, forks=0, paths=0, unsat=0, sat=0, unknown=0)
        self.pc = []
        self.trail = []
        self.pos = 0
        self.cannot_cache = {}
        self.keep = []
        self.aux = {}
        self.bounds = {}
        self.probes = None
        self.insts_by = {}
        self.imemo = {}
        self.ratio_atoms = False

    # ---- variables and definitions
    def fresh(self, base):
        self.counter += 1
        return z3.Real('%s!%d' % (base, self.counter))

    # ---- function instances whose arguments agree up to float constants
    def fingerprint(self, terms):
        if self.probes is None:
            self.probes = [NumEval(self, ProbeEnv(self, k)) for k in (1, 2)]
        out = []
        try:
            for ev in self.probes:
                for t in terms:
                    out.append(float(ev(t)))
        except Exception:
            return None
        return out

    def similar(self, name, terms, key):
        """an earlier instance name(terms') whose argument polynomials have the same
        coefficients up to 1e-11 (float constants such as cos(2 pi/3) computed in two
        ways); both are then treated as one value, an error far below the tolerance
        of every condition"""
        fp = self.fingerprint(terms)
        self.keep.append(terms)
        self.last_fp = (key, fp)
        if fp is None:
            return None
        ps = None
        for fp2, terms2, hit in self.insts_by.get((name, len(terms)), ()):
            if all(a == b or (a != a and b != b) or abs(a - b) <= 1e-10 * (abs(a) + abs(b))
                   for a, b in zip(fp, fp2)):
                if ps is None:
                    ps = [poly(t, 20000) for t in terms]
                if all(coef_close(p, poly(t2, 20000), 1e-11) for p, t2 in zip(ps, terms2)):
                    self.memo[key] = hit
                    return hit
        return None

    def remember(self, name, terms, hit):
        fp = self.fingerprint(terms)
        if fp is not None:
            self.insts_by.setdefault((name, len(terms)), []).append((fp, terms, hit))

    def add_def(self, var, ax):
        self.defs.setdefault(var.get_id(), []).append(ax)
        self.defvars[var.get_id()] = var

    def assume(self, c):
        c = zbool(c)
        if c is True:
            return
        if c is False:
            raise PathAbort()
        self.assume_list.append(c)

    def closure(self, forms):
        """axioms needed for the given formulas"""
        todo = {}
        for f in forms:
            todo.update(term_vars(f))
        seen = set()
        axs = []
        work = list(todo)
        while work:
            i = work.pop()
            if i in seen:
                continue
            seen.add(i)
            for ax in self.defs.get(i, ()):
                axs.append(ax)
                for j in term_vars(ax):
                    if j not in seen:
                        work.append(j)
        return axs

    # ---- solving
    def solve(self, forms, timeout, want_model=False, tactic=None):
        forms = [zb(f) for f in forms]
        axs = self.closure(forms)
        return self.raw_solve(forms + axs, timeout, want_model, tactic)

    def raw_solve(self, forms, timeout, want_model=False, tactic=None):
        if tactic:
            s = z3.Tactic(tactic).solver() if isinstance(tactic, str) else tactic.solver()
        else:
            s = z3.Solver()
        s.set('timeout', int(max(1, timeout)))
        for f in forms:
            s.add(f)
        t0 = time.time()
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t0
        self.stats[str(r)] = self.stats.get(str(r), 0) + 1
        if want_model:
            return r, (s.model() if r == z3.sat else None)
        return r

    def base(self):
        return self.assume_list + self.pc

    def cannot_lin(self, c):
        """`cannot` in the linear relaxation in which every product is an unknown of its own"""
        names = {}

        def key(t):
            if z3.is_mul(t):
                return tuple(sorted(k for a in t.children() for k in key(a)))
            if t.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)) \
                    and t.arg(1).denominator_as_long() == 1 and t.arg(1).numerator_as_long() > 0:
                return key(t.arg(0)) * t.arg(1).numerator_as_long()
            return (t.get_id(),)

        def walk(t):
            if z3.is_mul(t) or (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_POWER):
                cs = t.children() if z3.is_mul(t) else [t]
                num = [a for a in cs if z3.is_rational_value(a)]
                rest = [a for a in cs if not z3.is_rational_value(a)]
                if len(rest) == 1 and not z3.is_mul(rest[0]) and rest[0].decl().kind() != z3.Z3_OP_POWER:
                    v = walk(rest[0])
                else:
                    k = tuple(sorted(i for a in rest for i in key(a)))
                    if k not in names:
                        names[k] = z3.Real('prod!%d' % len(names))
                    v = names[k]
                for a in num:
                    v = a * v
                return v
            if z3.is_app(t) and t.num_args():
                return t.decl()(*[walk(a) for a in t.children()]) if not (z3.is_and(t) or z3.is_or(t) or z3.is_add(t)) \
                    else (z3.And if z3.is_and(t) else z3.Or if z3.is_or(t) else z3.Sum)([walk(a) for a in t.children()])
            return t
        sol = z3.Solver()
        sol.set('timeout', 400)
        try:
            for f in self.base() + [zb(c)]:
                sol.add(walk(z3.simplify(f, som=True)))
            return sol.check() == z3.unsat
        except z3.Z3Exception:
            return False

    def cannot(self, c):
        """True when c is impossible on this path (sound: unknown -> False)"""
        c = zb(c)
        self.keep.append(c)
        key = (c.get_id(), tuple(p.get_id() for p in self.pc), len(self.assume_list))
        h = self.cannot_cache.get(key)
        if h is None:
            r = self.solve(self.base() + [c], 400)
            h = (r == z3.unsat, c)
            self.cannot_cache[key] = h
        return h[0]

    def _push(self, c):
        self.keep.append(c)
        self.pc.append(c)

    def decide(self, c):
        """fork on a z3 condition"""
        c = zb(c)
        cs = z3.simplify(c)
        if z3.is_true(cs):
            return True
        if z3.is_false(cs):
            return False
        if self.pos < len(self.trail):
            v = self.trail[self.pos][0]
            self.pos += 1
            self._push(c if v else z3.Not(c))
            return v
        if self.deadline is not None and time.time() > self.deadline:
            raise BudgetExceeded('time')
        b = self.base()
        rt = self.solve(b + [c], self.fork_timeout)
        if rt == z3.unsat:
            v, both = False, False
        else:
            rf = self.solve(b + [z3.Not(c)], self.fork_timeout)
            if rf == z3.unsat:
                v, both = True, False
            else:
                v, both = True, True
        self.stats['forks'] += both
        self.trail.append([v, both])
        self.pos += 1
        self._push(c if v else z3.Not(c))
        return v

    def concretize_int(self, x):
        """pick an integer value for a symbolic (integral) real, forking over all"""
        v = z3.simplify(x.v)
        if is_num(v):
            return int(frac(v))
        for _ in range(64):
            if self.pos < len(self.trail):
                # replaying: the recorded candidate value
                rec = self.trail[self.pos]
                k = rec[2]
            else:
                r, m = self.solve(self.base(), self.fork_timeout, want_model=True)
                if r != z3.sat:
                    r, m = self.solve(self.base() + [v >= -64, v <= 64],
                                      self.fork_timeout, want_model=True)
                    if r != z3.sat:
                        raise Unsupported('cannot concretize an integer')
                k = m.eval(v, model_completion=True)
                k = int(math.floor(model_float(k)))
            n0 = len(self.trail)
            p0 = self.pos
            ok = self.decide(v == k)
            if len(self.trail) > p0 and len(self.trail[p0]) == 2 and self.pos == p0 + 1:
                self.trail[p0].append(k)
            if ok:
                return k
        raise Unsupported('integer value has too many candidates')

    # ---- exploration
    def explore(self, fn):
        """run fn() on every feasible path; yields (result, exc) with self.pc set"""
        _CUR.append(self)
        prev = _CUR[0]
        _CUR[0] = self
        try:
            self.trail = []
            base_n = len(self.assume_list)
            while True:
                self.pc = []
                self.pos = 0
                del self.assume_list[base_n:]
                if self.stats['paths'] >= self.max_paths:
                    raise BudgetExceeded('paths')
                if self.deadline is not None and time.time() > self.deadline:
                    raise BudgetExceeded('time')
                res, exc = None, None
                aborted = False
                try:
                    res = fn()
                except PathAbort:
                    aborted = True
                except (BudgetExceeded, KeyboardInterrupt, SystemExit):
                    raise
                except BaseException as ex:       # noqa
                    exc = ex
                self.stats['paths'] += 1
                if not aborted:
                    yield res, exc
                # next path
                while self.trail and not (self.trail[-1][1] and self.trail[-1][0]):
                    self.trail.pop()
                if not self.trail:
                    break
                last = self.trail[-1]
                last[0] = False
                last[1] = False
        finally:
            _CUR[0] = prev
            _CUR.pop()


_FEVAL = {z3.Z3_OP_TO_REAL: lambda a: a, z3.Z3_OP_TO_INT: math.floor, z3.Z3_OP_UMINUS: lambda a: -a,
          z3.Z3_OP_ADD: lambda *a: sum(a), z3.Z3_OP_SUB: lambda a, b: a - b,
          z3.Z3_OP_MUL: lambda *a: math.prod(a)}


def model_float(v):
    if z3.is_rational_value(v):
        f = frac(v)
        try:
            return float(f)
        except OverflowError:
            return math.inf if f > 0 else -math.inf
    if z3.is_algebraic_value(v):
        return float(frac(v.approx(20)))
    if z3.is_int_value(v):
        return float(v.as_long())
    k = v.decl().kind()
    if k in _FEVAL and v.num_args():       # floor of an algebraic number and the like
        return _FEVAL[k](*[model_float(c) for c in v.children()])
    raise Unsupported('cannot evaluate %s' % v)


# ------------------------------------------- numeric evaluation of the encoding
def _pw_name(name):
    a, b = name[3:].split('_')
    return float(Fraction(int(a), int(b)))


def _aux_num(name, xs):
    try:
        if name == 'ratio':
            return xs[0] / xs[1] if xs[1] else 0.0
        if name == 'sqrt':
            return math.sqrt(max(xs[0], 0.0))
        if name.startswith('csqrt_'):
            z = complex(np.sqrt(complex(xs[0], xs[1])))
            if name in ('csqrt_ire', 'csqrt_iim'):
                z = 1 / z if z else 0j
            return z.real if name.endswith('re') else z.imag
        if name == 'ln':
            return math.log(xs[0]) if xs[0] > 0 else 0.0
        if name == 'exp':
            return math.exp(xs[0])
        if name == 'pow':
            return xs[0] ** xs[1] if xs[0] > 0 else 0.0
        if name.startswith('pow'):
            return xs[0] ** _pw_name(name) if xs[0] > 0 else 0.0
        if name == 'erf':
            return math.erf(xs[0])
        if name == 'arctan2':
            return math.atan2(xs[0], xs[1])
        if name == 'arctan':
            return math.atan(xs[0])
        if name in ('sin', 'cos', 'tanh'):
            return getattr(math, name)(xs[0])
        if name in ('arcsin', 'arccos'):
            return getattr(math, 'a' + name[3:])(xs[0])
    except (OverflowError, ValueError):
        return math.nan
    return math.nan


class ProbeEnv:
    """fixed pseudo-random values for the inputs, used to recognise equal terms"""

    def __init__(self, eng, k):
        self.eng, self.k = eng, k

    def get(self, name, default=None):
        import zlib
        h = zlib.crc32(('%d:%s' % (self.k, name)).encode()) / 2.0 ** 32
        if name.endswith('?nan'):
            return False
        lo, hi = self.eng.bounds.get(z3.Real(name).get_id(), (None, None))
        if lo is not None and hi is not None:
            return float(lo) + (float(hi) - float(lo)) * (0.05 + 0.9 * h)
        return 0.3 + 1.4 * h


def poly(t, limit=60000, atoms=None):
    """polynomial over atoms: {((atom id, power), ...): Fraction}; None when too large"""
    memo = {}

    def go(x):
        i = x.get_id()
        if i in memo:
            return memo[i]
        k = x.decl().kind()
        if is_num(x):
            f = frac(x)
            r = {(): f} if f else {}
        elif k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
            r = {}
            for j, c in enumerate(x.children()):
                sg = -1 if (k == z3.Z3_OP_SUB and j) else 1
                for m, q in go(c).items():
                    v = r.get(m, 0) + sg * q
                    if v:
                        r[m] = v
                    else:
                        r.pop(m, None)
        elif k == z3.Z3_OP_UMINUS:
            r = {m: -q for m, q in go(x.arg(0)).items()}
        elif k == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for c in x.children():
                r = pmul(r, go(c))
        elif k == z3.Z3_OP_POWER and is_num(x.arg(1)) and frac(x.arg(1)).denominator == 1 \
                and 0 <= frac(x.arg(1)) <= 12:
            r = {(): Fraction(1)}
            for _ in range(int(frac(x.arg(1)))):
                r = pmul(r, go(x.arg(0)))
        else:
            atoms[i] = x
            r = {((i, 1),): Fraction(1)}
        if len(r) > limit:
            raise OverflowError
        memo[i] = r
        return r

    def pmul(a, b):
        if len(a) * len(b) > limit * 40:
            raise OverflowError
        out = {}
        for m1, q1 in a.items():
            for m2, q2 in b.items():
                d = dict(m1)
                for i, e in m2:
                    d[i] = d.get(i, 0) + e
                m = tuple(sorted(d.items()))
                v = out.get(m, 0) + q1 * q2
                if v:
                    out[m] = v
                else:
                    out.pop(m, None)
        return out
    atoms = {} if atoms is None else atoms
    try:
        return go(t)
    except (OverflowError, RecursionError):
        return None


def pythagoras(p, eng):
    """replace the squares of sines by one minus the squares of the cosines"""
    pair = {h[0].get_id(): h[1].get_id() for k, h in eng.memo.items() if k[0] == 'sincos'}
    if not pair or p is None:
        return p
    out = {}
    todo = list(p.items())
    while todo:
        m, q = todo.pop()
        hit = next((i for i, e in m if e > 1 and i in pair), None)
        if hit is None:
            v = out.get(m, 0) + q
            if v:
                out[m] = v
            else:
                out.pop(m, None)
            continue
        d = dict(m)
        d[hit] -= 2
        if not d[hit]:
            d.pop(hit)
        todo.append((tuple(sorted(d.items())), q))
        d[pair[hit]] = d.get(pair[hit], 0) + 2
        todo.append((tuple(sorted(d.items())), -q))
    return out


def coef_close(p, q, rel=1e-9):
    """two polynomials agree coefficient by coefficient up to float constants"""
    if p is None or q is None:
        return False
    big = max([abs(v) for v in p.values()] + [abs(v) for v in q.values()] + [Fraction(0)])
    for m in set(p) | set(q):
        a, b = p.get(m, 0), q.get(m, 0)
        if abs(a - b) > Fraction(rel) * max(abs(a), abs(b)) and \
                abs(a - b) > Fraction(rel) / 1000 * big:
            return False
    return True


class NumEval:
    """evaluate z3 terms in floats for given input values (aux vars by their
    definitions); used to validate the encoding against the real code"""

    def __init__(self, eng, env):
        self.eng = eng
        self.env = env           # var name -> float / bool
        self.memo = {}

    def __call__(self, t):
        if isinstance(t, (bool, int, float)):
            return t
        memo = self.memo
        stack = [t]
        while stack:
            x = stack[-1]
            i = x.get_id()
            if i in memo:
                stack.pop()
                continue
            if z3.is_rational_value(x):
                memo[i] = float(frac(x))
                stack.pop()
                continue
            if z3.is_algebraic_value(x):
                memo[i] = float(frac(x.approx(20)))
                stack.pop()
                continue
            if z3.is_int_value(x):
                memo[i] = float(x.as_long())
                stack.pop()
                continue
            if z3.is_const(x):
                k = x.decl().kind()
                if k == z3.Z3_OP_TRUE:
                    memo[i] = True
                elif k == z3.Z3_OP_FALSE:
                    memo[i] = False
                else:
                    ax = self.eng.aux.get(i)
                    if ax is not None:
                        need = [c for c in ax[1] if c.get_id() not in memo]
                        if need:
                            stack.extend(need)
                            continue
                        memo[i] = _aux_num(ax[0], [memo[c.get_id()] for c in ax[1]])
                    else:
                        memo[i] = self.env.get(x.decl().name(), 0.0)
                stack.pop()
                continue
            ch = x.children()
            need = [c for c in ch if c.get_id() not in memo]
            if need:
                stack.extend(need)
                continue
            v = [memo[c.get_id()] for c in ch]
            memo[i] = self._op(x.decl().kind(), v)
            stack.pop()
        return memo[t.get_id()]

    @staticmethod
    def _op(k, v):
        if k == z3.Z3_OP_ADD:
            return math.fsum(v) if all(math.isfinite(a) for a in v) else sum(v)
        if k == z3.Z3_OP_MUL:
            r = 1.0
            for a in v:
                r *= a
            return r
        if k == z3.Z3_OP_SUB:
            r = v[0]
            for a in v[1:]:
                r -= a
            return r
        if k == z3.Z3_OP_UMINUS:
            return -v[0]
        if k == z3.Z3_OP_DIV:
            return v[0] / v[1] if v[1] != 0 else 0.0
        if k == z3.Z3_OP_POWER:
            return v[0] ** v[1]
        if k == z3.Z3_OP_ITE:
            return v[1] if v[0] else v[2]
        if k == z3.Z3_OP_LE:
            return v[0] <= v[1]
        if k == z3.Z3_OP_LT:
            return v[0] < v[1]
        if k == z3.Z3_OP_GE:
            return v[0] >= v[1]
        if k == z3.Z3_OP_GT:
            return v[0] > v[1]
        if k == z3.Z3_OP_EQ:
            return v[0] == v[1]
        if k == z3.Z3_OP_DISTINCT:
            return len(set(v)) == len(v)
        if k == z3.Z3_OP_AND:
            return all(v)
        if k == z3.Z3_OP_OR:
            return any(v)
        if k == z3.Z3_OP_NOT:
            return not v[0]
        if k == z3.Z3_OP_IMPLIES:
            return (not v[0]) or v[1]
        if k == z3.Z3_OP_XOR:
            return bool(v[0]) != bool(v[1])
        if k == z3.Z3_OP_TO_INT:
            return float(math.floor(v[0]))
        if k == z3.Z3_OP_TO_REAL:
            return v[0]
        if k == z3.Z3_OP_IS_INT:
            return v[0] == math.floor(v[0])
        raise Unsupported('numeric evaluation of operator %s' % k)
