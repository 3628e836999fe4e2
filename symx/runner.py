"""Obligations: symbolic execution of the real code + solver verdict + replay.

An obligation is one Python function `body(I)`.  It declares its inputs through
`I`, calls the code of /repo inside `with I.code():`, and states conditions
(`I.eq`, `I.le`, `I.true`, ...).  The same body runs
  * symbolically (inputs are solver variables, the package's numpy/scipy
    references are redirected to the symbolic layer): every feasible path is
    explored and each condition's negation is given to the solver, and
  * concretely (inputs are floats, nothing is patched): to replay a solver model
    on the real code, and to validate the encoding.
Only a counterexample that also fails concretely is reported as a violation.
"""
import ast
import builtins
import contextlib
import importlib
import importlib.abc
import importlib.machinery
import json
import math
import os
import random
import re
import resource
import signal
import subprocess
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
warnings.filterwarnings('ignore')


class _NoCache(importlib.machinery.SourceFileLoader):
    """always compile from the current source, never from a .pyc"""

    def get_code(self, fullname):
        tree = ast.parse(self.get_data(self.path), self.path)
        for n in ast.walk(tree):        # float(x) keeps a symbolic x
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'float':
                n.func.id = '__sx_float__'
        return compile(tree, self.path, 'exec', dont_inherit=True)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != 'turbustat' and not name.startswith('turbustat.'):
            return None
        spec = importlib.machinery.PathFinder.find_spec(
            name, [REPO] if name == 'turbustat' else path, target)
        if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = _NoCache(spec.loader.name, spec.loader.path)
        return spec


sys.meta_path.insert(0, _Finder())
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)

import numpy as np                                     # noqa
np.seterr(all='ignore')
from .core import *                                    # noqa
from . import core, arr as A, patch as P, models as M    # noqa
from .arr import SymArr                                # noqa
builtins.__sx_float__ = P.sh_float


class AssumeFailed(Exception):
    pass


class InternalError(Exception):
    pass


class MissingName(Exception):
    pass


_names = {}


def used_names():
    """attribute names occurring in the loaded package sources"""
    for m in P.package_modules():
        f = getattr(m, '__file__', None)
        if f and f.endswith('.py') and f not in _names:
            with open(f) as fh:
                _names[f] = {n.attr for n in ast.walk(ast.parse(fh.read())) if isinstance(n, ast.Attribute)}
    return set().union(*_names.values())


def fname(x):
    return str(x)


class Cond:
    __slots__ = ('label', 'kind', 'a', 'b', 'tol')

    def __init__(self, label, kind, a, b=None, tol=1e-6):
        self.label, self.kind, self.a, self.b, self.tol = label, kind, a, b, tol


class Inputs:
    """mode 'sym' or 'conc'"""

    def __init__(self, mode, values=None, eng=None, rnd=None):
        self.planted = False
        self.mode = mode
        self.values = values if values is not None else {}
        self.eng = eng
        self.decl = {}
        self.conds = []
        self.rnd = rnd
        self.depth = 0

    @property
    def sym(self):
        return self.mode == 'sym'

    # -- declarations
    def real(self, name, lo=-4.0, hi=4.0, nan=False, integer=False):
        self.decl[name] = ('real', lo, hi, integer)
        if nan == 'sym':
            self.decl[name + '?nan'] = ('bool',)
        if self.sym:
            v = z3.Real(name)
            self.eng.keep.append(v)
            self.eng.bounds[v.get_id()] = (None if lo is None else frac(rv(lo)),
                                           None if hi is None else frac(rv(hi)))
            if lo is not None:
                self.eng.assume(mkbool(v >= rv(lo)))
            if hi is not None:
                self.eng.assume(mkbool(v <= rv(hi)))
            if integer:
                self.eng.assume(mkbool(z3.IsInt(v)))
            fl = nan if isinstance(nan, bool) else z3.Bool(name + '?nan')
            return SymReal(v, nan=fl)
        v = self._value(name)
        isn = nan if isinstance(nan, bool) else bool(self._value(name + '?nan'))
        return float('nan') if isn else v

    def _value(self, name):
        if name not in self.values:
            if self.rnd is None:
                d = self.decl[name]
                if d[0] == 'bool':
                    self.values[name] = False
                else:
                    lo = -4.0 if d[1] is None else d[1]
                    hi = 4.0 if d[2] is None else d[2]
                    self.values[name] = float(min(max(0.0, lo), hi))
            else:
                d = self.decl[name]
                if d[0] == 'bool':
                    self.values[name] = self.rnd.random() < 0.25
                else:
                    lo = -4.0 if d[1] is None else float(d[1])
                    hi = 4.0 if d[2] is None else float(d[2])
                    if d[3]:
                        self.values[name] = float(self.rnd.randint(math.ceil(lo), math.floor(hi)))
                    else:
                        k = self.rnd.random()
                        v = lo + (hi - lo) * self.rnd.randint(0, 64) / 64.0
                        if k < 0.1:
                            v = float(min(max(round(v), lo), hi))
                        self.values[name] = v
        return self.values[name]

    def bool(self, name):
        self.decl[name] = ('bool',)
        if self.sym:
            return SymBool(z3.Bool(name))
        return bool(self._value(name))

    def arr(self, name, shape, lo=-4.0, hi=4.0, nan=False, integer=False, nansym=()):
        """nan: False, 'sym' (every element may be NaN) or a list of indices that are
        NaN; nansym: indices that may be NaN"""
        if isinstance(shape, int):
            shape = (shape,)
        out = np.empty(shape, dtype=object)
        for k in np.ndindex(*shape):
            f = nan if nan == 'sym' else (nan is not False and tuple(k) in
                                          [tuple(np.atleast_1d(q)) for q in nan])
            if tuple(k) in [tuple(np.atleast_1d(q)) for q in nansym]:
                f = 'sym'
            out[k] = self.real('%s[%s]' % (name, ','.join(map(str, k))), lo, hi, f, integer)
        if self.sym:
            r = out.view(SymArr)
            r.hint = np.dtype(float)
            return r
        return out.astype(float)

    def split(self, x):
        """decide every NaN flag of x now (one path per NaN pattern)"""
        if self.sym:
            for k in np.ndindex(*x.shape):
                e = A.asobj(x)[k]
                if type(e) is SymReal and e.nan is not False and e.nan is not True:
                    x[k] = float('nan') if bool(s_isnan(e)) else SymReal(e.n, e.d)
        return x

    def assume(self, c):
        if self.sym:
            self.eng.assume(c)
        elif not bool(np.all(c)):
            raise AssumeFailed()

    @contextlib.contextmanager
    def code(self, **kw):
        """calls into the code under test happen inside this context"""
        if not self.sym:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                yield
            return
        if self.depth:
            yield
            return
        self.depth += 1
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with P.symbolic():
                    yield
        finally:
            self.depth -= 1

    def plant(self, obj, name, value):
        """set an internal attribute; if the package no longer uses that name the
        obligation says nothing"""
        if name not in used_names():
            raise MissingName('attribute %s is not used by the package' % name)
        self.planted = True
        setattr(obj, name, value)

    @contextlib.contextmanager
    def stub(self, path, repl):
        """replace a function (library or package) by `repl`, in both modes, wherever the
        package refers to it; enter it before `code()`"""
        mod, name = path.rsplit('.', 1)
        m = importlib.import_module(mod)
        real = getattr(m, name)
        saved = [(m.__dict__, name, real)]
        for pm in P.package_modules():
            for k, v in list(pm.__dict__.items()):
                if v is real and not (pm is m and k == name):
                    saved.append((pm.__dict__, k, v))
        for d, k, v in saved:
            d[k] = repl
        lib = not mod.startswith('turbustat')
        if lib:
            P.ALWAYS[id(repl)] = repl
            P.ALWAYS[id(real)] = repl
        for q in P._modproxies.values():
            q._cache.clear()
        try:
            yield
        finally:
            for d, k, v in saved:
                d[k] = v
            if lib:
                P.ALWAYS.pop(id(repl), None)
                P.ALWAYS.pop(id(real), None)
            for q in P._modproxies.values():
                q._cache.clear()

    # -- conditions
    def _vals(self, x):
        if hasattr(x, 'unit') and hasattr(x, 'value'):
            x = x.value
        if self.sym:
            return A.asobj(x)
        return np.asarray(A.native(A.asobj(x)) if isinstance(x, (list, tuple)) or
                          (isinstance(x, np.ndarray) and x.dtype.kind == 'O') else x)

    def eq(self, label, got, want, tol=1e-6):
        g, w = self._vals(got), self._vals(want)
        if g.shape != w.shape:
            if w.ndim == 0:
                w = np.broadcast_to(w, g.shape)
            else:
                self.conds.append(Cond('%s: shape %s, expected %s' % (label, g.shape, w.shape),
                                       'bool', False))
                return
        for k in np.ndindex(*g.shape):
            lab = label if not k else '%s[%s]' % (label, ','.join(map(str, k)))
            self._eq1(lab, A.unnump(g[k]), A.unnump(w[k]), tol)

    def _eq1(self, lab, a, b, tol):
        if isinstance(a, (complex, SymComplex)) or isinstance(b, (complex, SymComplex)):
            if self.sym:
                a, b = SymComplex.lift(a), SymComplex.lift(b)
                self.conds.append(Cond(lab + '.re', 'eq', a.re, b.re, tol))
                self.conds.append(Cond(lab + '.im', 'eq', a.im, b.im, tol))
            else:
                a, b = complex(a), complex(b)
                self.conds.append(Cond(lab + '.re', 'eq', a.real, b.real, tol))
                self.conds.append(Cond(lab + '.im', 'eq', a.imag, b.imag, tol))
            return
        self.conds.append(Cond(lab, 'eq', a, b, tol))

    def le(self, label, a, b, tol=1e-6):
        g, w = np.broadcast_arrays(self._vals(a), self._vals(b))
        for k in np.ndindex(*g.shape):
            lab = label if not k else '%s[%s]' % (label, ','.join(map(str, k)))
            self.conds.append(Cond(lab, 'le', A.unnump(g[k]), A.unnump(w[k]), tol))

    def true(self, label, c):
        if isinstance(c, np.ndarray) and c.ndim:
            for k in np.ndindex(*c.shape):
                self.true('%s[%s]' % (label, ','.join(map(str, k))), A.unnump(A.asobj(c)[k]))
            return
        if not is_sym(c):
            c = bool(c)
        self.conds.append(Cond(label, 'bool', c))

    def raises(self, label, exc, fn, *a, **k):
        """the call must be refused with one of the exception types"""
        try:
            with self.code():
                fn(*a, **k)
        except exc:
            self.true(label, True)
            return
        self.true(label + ' (no error raised)', False)

    def snapshot(self, x):
        """copy of an input array, to state later that it was not modified"""
        return x.copy()

    def unchanged(self, label, x, snap):
        self.eq(label + ' left unmodified', x, snap)


class Ob:
    def __init__(self, name, body, bounds='', max_paths=300, query_ms=20000, time_limit=200,
                 samples=4, tags=(), fork_ms=1500, atoms=False):
        self.name, self.body, self.bounds = name, body, bounds
        self.max_paths, self.query_ms, self.time_limit = max_paths, query_ms, time_limit
        self.samples = samples
        self.fork_ms = fork_ms
        self.atoms = atoms      # quotients become single variables (sums of many ratios)


def missing_name(ex, planted=False):
    """the obligation refers to an internal name that this tree does not have (e.g. a
    helper was renamed or inlined): it says nothing about behaviour"""
    if isinstance(ex, MissingName):
        return True
    if isinstance(ex, ImportError):
        return 'turbustat' in str(ex)
    if isinstance(ex, AttributeError):
        m = str(ex)
        if re.match(r"module 'turbustat[^']*' has no attribute '_?\w+'", m):
            return True
        n = re.search(r"has no attribute '(_\w+)'$", m)
        tb = traceback.extract_tb(ex.__traceback__)
        return bool(n) and bool(tb) and (planted or '/props/' in tb[-1].filename)
    return False


# ------------------------------------------------------------- concrete side
def run_concrete(ob, values, rnd=None):
    I = Inputs('conc', dict(values), rnd=rnd)
    exc = None
    try:
        ob.body(I)
    except AssumeFailed:
        return I, 'assume', None
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as ex:     # noqa
        if missing_name(ex, I.planted):
            return I, 'assume', None
        exc = ex
    return I, ('exc' if exc is not None else 'ok'), exc


def cond_ok_conc(c):
    if c.kind == 'bool':
        return bool(c.a)
    try:
        a, b = c.a, c.b
        if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
            return bool(a) == bool(b)
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return c.a == c.b
    if c.kind == 'eq':
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= c.tol * (1.0 + abs(b))
    # le
    if math.isnan(a) or math.isnan(b):
        return False
    return a <= b + c.tol * (1.0 + abs(b))


def failing(I):
    return [c for c in I.conds if not cond_ok_conc(c)]


def describe(c):
    if c.kind == 'bool':
        return '%s is false' % c.label
    return '%s: got %r, %s %r' % (c.label, c.a, 'expected' if c.kind == 'eq' else 'bound', c.b)


# ------------------------------------------------------------- symbolic side
def _real(x):
    return SymReal.lift(x)


def violation(c, margin):
    """z3/py bool: the condition is violated (by more than margin)"""
    if c.kind == 'bool':
        return bnot(zbool(c.a))
    a, b = c.a, c.b
    if isinstance(a, (bool, np.bool_, SymBool)) and isinstance(b, (bool, np.bool_, SymBool)):
        return zbool(s_xor(a, b))
    if not is_sym(a) and not is_sym(b):
        return not cond_ok_conc(c)
    a, b = _real(a), _real(b)
    if a is None or b is None:
        raise Unsupported('condition on %s / %s' % (type(c.a), type(c.b)))
    n1 = a.n if b.d is None else t_mul(a.n, b.d)
    n2 = b.n if a.d is None else t_mul(b.n, a.d)
    X = t_sub(n1, n2)
    D = None
    if a.d is not None and b.d is not None:
        D = t_mul(a.d, b.d)
    elif a.d is not None:
        D = a.d
    elif b.d is not None:
        D = b.d
    nanmis = bite(a.nan, bnot(b.nan), b.nan)
    if c.kind == 'eq':
        if margin == 0:
            X = som(X)
            diff = bnot(t_cmp('==', X, ZERO))
        else:
            m = rv(margin)
            if D is None:
                diff = zb(bor(t_cmp('<', m, X), t_cmp('<', X, rv(-margin))))
            else:
                diff = z3.Or(z3.And(D > 0, z3.Or(X > m * D, X < -m * D)),
                             z3.And(D < 0, z3.Or(X < m * D, X > -m * D)))
        if a.inf is False and b.inf is False:
            v = diff
        else:
            infmis = bite(a.inf, bnot(b.inf), b.inf)
            ap, bp = a.sgn_pos(), b.sgn_pos()
            sg = bite(ap, bnot(bp), bp)
            v = bor(infmis, band(a.inf, b.inf, sg), band(bnot(a.inf), bnot(b.inf), diff))
        return bor(nanmis, band(bnot(a.nan), bnot(b.nan), v))
    if not is_sym(c.a) and not (float(c.a) > 0) and b.root is not None and b.nan is False \
            and b.inf is False and b.d is None:
        return False
    # le: violated when nan, or a > b + margin
    bb = b + margin if margin else b
    gt = zbool(_real(a) > bb)
    return bor(a.nan, b.nan, gt)


def coef_small(X, eps=1e-12):
    """all coefficients of the (sum-of-monomials) term are below eps"""
    terms = X.children() if z3.is_add(X) else [X]
    for t in terms:
        if is_num(t):
            if abs(frac(t)) > eps:
                return False
            continue
        if z3.is_mul(t) and is_num(t.arg(0)):
            if abs(frac(t.arg(0))) > eps:
                return False
        else:
            return False
    return True


class Result(dict):
    pass


class Decider:
    def __init__(self, ob, seed, prop):
        self.ob = ob
        self.seed = seed
        self.prop = prop
        self.eng = Engine(max_paths=ob.max_paths, time_limit=ob.time_limit, fork_timeout=ob.fork_ms)
        self.eng.ratio_atoms = ob.atoms
        self.vacuous = 0
        self.res = Result(name=ob.name, bounds=ob.bounds, status='held', conditions=0,
                          by_normalisation=0, by_query=0, within_tolerance=0, undecided=0,
                          notes=[], paths=0, validated=0, functions=[], violation=None)
        self.t0 = time.time()
        self.decl = {}
        self.recs = []

    def note(self, s):
        if len(self.res['notes']) < 12 and s not in self.res['notes']:
            self.res['notes'].append(s)

    def left(self):
        return self.ob.time_limit - (time.time() - self.t0)

    # -- models
    def model_values(self, m):
        vals = {}
        for name, d in self.decl.items():
            if d[0] == 'bool':
                v = m.eval(z3.Bool(name), model_completion=True)
                vals[name] = bool(z3.is_true(v))
            else:
                v = m.eval(z3.Real(name), model_completion=True)
                f = model_float(v)
                if d[1] is not None:
                    f = max(f, float(d[1]))
                if d[2] is not None:
                    f = min(f, float(d[2]))
                vals[name] = f
        return vals

    def try_replay(self, vals, why):
        I, st, exc = run_concrete(self.ob, vals)
        if st == 'assume':
            return False
        if st == 'exc':
            self.violate(vals, 'raises %s: %s' % (type(exc).__name__, str(exc)[:300]), why)
            return True
        bad = failing(I)
        if bad:
            self.violate(vals, '; '.join(describe(c) for c in bad[:4]), why)
            return True
        return False

    def violate(self, vals, what, why):
        self.res['status'] = 'violated'
        self.res['violation'] = dict(property=self.prop, obligation=self.ob.name, what=what,
                                     found_by=why, values=vals)

    # -- one path
    def discharge(self, conds):
        eng = self.eng
        pend = []
        for c in conds:
            self.res['conditions'] += 1
            try:
                v = violation(c, 0)
            except Unsupported as ex:
                self.res['undecided'] += 1
                self.note('%s: %s' % (c.label, ex))
                continue
            if v is not False and not isinstance(v, bool):
                v = z3.simplify(v)
                if z3.is_false(v):
                    v = False
            if v is False:
                self.res['by_normalisation'] += 1
                continue
            if c.kind == 'eq' and (self.tiny(c) or self.rational(c)):
                self.res['within_tolerance'] += 1
                continue
            if c.kind == 'eq' and self.split_flags(c):
                self.res['by_normalisation'] += 1
                continue
            pend.append((c, zb(v)))
        if not pend:
            return False
        base = eng.base()
        # all together first
        if len(pend) > 1:
            r = eng.solve(base + [z3.Or(*[v for _, v in pend])], min(self.ob.query_ms, 8000))
            if r == z3.unsat:
                self.res['by_query'] += len(pend)
                return False
        fails = 0
        for c, v in pend:
            if self.left() < 1:
                self.res['undecided'] += 1
                self.note('time limit reached at ' + c.label)
                continue
            q = self.ob.query_ms if fails < 3 else min(3000, self.ob.query_ms)
            r, m = eng.solve(base + [v], q, want_model=True)
            if r == z3.unsat:
                self.res['by_query'] += 1
                continue
            if r == z3.unknown:
                r2 = self.cvc_or_nlsat(base + [v], min(q, int(max(1, self.left()) * 1000)))
                if r2 == z3.unsat:
                    self.res['by_query'] += 1
                    continue
            # not proven exactly: look for a real (robust) counterexample
            got_tol = False
            for margin in (Fraction(1, 10), Fraction(1, 1000), Fraction(1, 1000000)):
                if c.kind == 'bool':
                    if m is not None and self.try_replay(self.model_values(m),
                                                         'solver model of ' + c.label):
                        return True
                    break
                vm = zb(violation(c, margin))
                r, m2 = eng.solve(base + [vm], q, want_model=True)
                if r == z3.sat:
                    if self.try_replay(self.model_values(m2), 'solver model of ' + c.label):
                        return True
                    if self.refine(base + [vm], c):
                        return True
                elif r == z3.unsat and margin <= Fraction(1, 1000000):
                    got_tol = True
            if not got_tol and m is not None:
                if self.try_replay(self.model_values(m), 'solver model of ' + c.label):
                    return True
                if c.kind == 'bool' and self.refine(base + [v], c):
                    return True
            if got_tol:
                self.res['within_tolerance'] += 1
            else:
                fails += 1
                self.res['undecided'] += 1
                self.note('undecided: ' + c.label)
        return False

    def refine(self, forms, c, n=4):
        """more models of the same query (with random input values pinned)"""
        rnd = random.Random(self.seed * 7 + 1)
        names = [k for k, d in self.decl.items() if d[0] == 'real']
        for i in range(n):
            if self.left() < 2 or not names:
                return False
            pins = []
            for k in rnd.sample(names, max(1, len(names) * (i + 1) // (n + 1))):
                d = self.decl[k]
                lo = -4.0 if d[1] is None else float(d[1])
                hi = 4.0 if d[2] is None else float(d[2])
                v = lo + (hi - lo) * rnd.randint(0, 16) / 16.0
                if d[3]:
                    v = float(rnd.randint(math.ceil(lo), math.floor(hi)))
                pins.append(z3.Real(k) == rv(v))
            r, m = self.eng.solve(forms + pins, 4000, want_model=True)
            if r == z3.sat and self.try_replay(self.model_values(m), 'refined solver model'):
                return True
        return False

    def cvc_or_nlsat(self, forms, ms):
        try:
            t = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'qfnra-nlsat')
            return self.eng.solve(forms, ms, tactic=t)
        except z3.Z3Exception:
            return z3.unknown

    def split_flags(self, c, limit=6):
        """case split over the NaN flags occurring in an equation, then normalise"""
        if not (is_sym(c.a) or is_sym(c.b)):
            return False
        a, b = _real(c.a), _real(c.b)
        if a is None or b is None:
            return False
        terms = [t for x in (a, b) for t in (x.n, x.d, x.nan, x.inf)
                 if t is not None and not isinstance(t, bool)]
        flags = {}
        for t in terms:
            for i, v in term_vars(t).items():
                if z3.is_bool(v):
                    flags[i] = v
        if not flags or len(flags) > limit:
            return False
        flags = list(flags.values())
        import itertools
        for bits in itertools.product([False, True], repeat=len(flags)):
            sub = [(f, z3.BoolVal(x)) for f, x in zip(flags, bits)]

            def s(t, boolean=False):
                if t is None or isinstance(t, bool):
                    return t
                r = z3.simplify(z3.substitute(t, *sub))
                if boolean:
                    return True if z3.is_true(r) else False if z3.is_false(r) else r
                return r
            a2 = SymReal(s(a.n), s(a.d), s(a.nan, True), s(a.inf, True))
            b2 = SymReal(s(b.n), s(b.d), s(b.nan, True), s(b.inf, True))
            if a2.nan is True and b2.nan is True:
                continue
            c2 = Cond(c.label, 'eq', a2, b2, c.tol)
            v = violation(c2, 0)
            if v is False or (not isinstance(v, bool) and z3.is_false(z3.simplify(v))):
                continue
            if self.tiny(c2):
                continue
            return False
        return True

    def tiny(self, c):
        if not (is_sym(c.a) or is_sym(c.b)):
            return False
        a, b = _real(c.a), _real(c.b)
        if a is None or b is None or a.d is not None or b.d is not None:
            return False
        if not (a.inf is False and b.inf is False):
            return False
        if a.nan is not b.nan:
            if isinstance(a.nan, bool) or isinstance(b.nan, bool) or not a.nan.eq(b.nan):
                return False
        return coef_small(som(t_sub(a.n, b.n)))

    def rational(self, c):
        """cross-multiplied numerators agree as polynomials"""
        if not (is_sym(c.a) or is_sym(c.b)):
            return False
        a, b = _real(c.a), _real(c.b)
        if a is None or b is None or not (a.inf is False and b.inf is False):
            return False
        if a.nan is not b.nan:
            if isinstance(a.nan, bool) or isinstance(b.nan, bool) or not a.nan.eq(b.nan):
                return False
        l = poly(a.n if b.d is None else t_mul(a.n, b.d))
        if l is None:
            return False
        r = poly(b.n if a.d is None else t_mul(b.n, a.d))
        return coef_close(l, r) or coef_close(pythagoras(l, self.eng), pythagoras(r, self.eng))

    # -- main
    def run(self):
        ob, eng = self.ob, self.eng
        cur = {}

        def go():
            I = Inputs('sym', eng=eng)
            cur['I'] = I
            try:
                ob.body(I)
            finally:
                self.decl.update(I.decl)
                self.planted = I.planted
            return I
        done = False
        try:
            for I, exc in eng.explore(go):
                self.res['paths'] += 1
                if exc is not None:
                    if self.path_exception(exc):
                        done = True
                        break
                    continue
                if len(self.recs) < 40:
                    self.recs.append((list(eng.assume_list) + list(eng.pc), list(I.conds)))
                if self.discharge(I.conds):
                    done = True
                    break
                if self.left() < 0:
                    self.note('time limit reached: remaining paths not explored')
                    self.res['undecided'] += 1
                    break
        except BudgetExceeded as ex:
            self.note('exploration stopped at the %s bound after %d paths'
                      % (ex, self.res['paths']))
            self.res['partial'] = True
        except PathAbort:
            pass
        if not done:
            self.validate()
        if self.res['status'] == 'held':
            if self.res['undecided'] or not self.res['conditions'] or self.res.get('partial') \
                    or (self.recs and self.vacuous >= min(3, len(self.recs))):
                self.res['status'] = 'inconclusive'
        self.res['stats'] = {k: (round(v, 3) if isinstance(v, float) else v)
                             for k, v in eng.stats.items()}
        self.res['wall_s'] = round(time.time() - self.t0, 2)
        return self.res

    def path_exception(self, exc):
        """code (or the symbolic layer) raised on a path"""
        eng = self.eng
        if os.environ.get('SYMX_DEBUG'):
            traceback.print_exception(type(exc), exc, exc.__traceback__)
        if missing_name(exc, getattr(self, 'planted', False)):
            self.res['undecided'] += 1
            self.note('internal name not present: %s' % exc)
            return False
        r, m = eng.solve(eng.base(), 4000, want_model=True)
        if r == z3.unsat:
            return False
        if r == z3.sat:
            if self.try_replay(self.model_values(m),
                               'solver model of the path on which the code raises'):
                return True
        self.res['undecided'] += 1
        tb = traceback.extract_tb(exc.__traceback__)
        where = ''
        for f in reversed(tb):
            if '/turbustat/' in f.filename:
                where = ' at %s:%d' % (f.filename.split('/turbustat/')[-1], f.lineno)
                break
        self.note('not encoded: %s: %s%s' % (type(exc).__name__, str(exc)[:160], where))
        return False

    def validate(self):
        """push inputs through the real code and through the encoding"""
        rnd = random.Random(self.seed)
        eng = self.eng
        todo = []
        for pc, _ in self.recs[:3]:
            r, m = eng.solve(pc, 2000, want_model=True)
            if r == z3.sat:
                todo.append((self.model_values(m), False))
            elif r == z3.unsat:
                self.note('vacuous path')
                self.vacuous += 1
        todo += [(None, True)] * self.ob.samples
        for vals, rand in todo:
            if self.left() < -30:
                break
            if rand:
                for _ in range(60):
                    I, st, exc = run_concrete(self.ob, {}, rnd=rnd)
                    if st != 'assume':
                        break
                else:
                    continue
            else:
                if not self.res['functions']:
                    self.trace_functions(vals)
                I, st, exc = run_concrete(self.ob, vals)
            if st == 'assume':
                continue
            if st == 'exc':
                self.violate(I.values, 'raises %s: %s' % (type(exc).__name__, str(exc)[:300]),
                             'validation run')
                return
            bad = failing(I)
            if bad:
                self.violate(I.values, '; '.join(describe(c) for c in bad[:4]), 'validation run')
                return
            self.compare(I)
        if not self.res['functions']:
            self.trace_functions({})

    def compare(self, I):
        env = dict(I.values)
        ev = NumEval(self.eng, env)
        for pc, conds in self.recs:
            try:
                if not all(ev(zb(p)) for p in pc):
                    continue
            except (Unsupported, ZeroDivisionError, OverflowError):
                continue
            if len(conds) != len(I.conds):
                self.mismatch('different number of conditions on the same path')
                return
            for s, k in zip(conds, I.conds):
                if s.kind == 'bool':
                    continue
                for x, y in ((s.a, k.a), (s.b, k.b)):
                    if not self.close(ev, x, y, s.tol):
                        self.mismatch('%s: encoding gives %r, real code gives %r'
                                      % (s.label, self.num(ev, x), y))
                        return
            self.res['validated'] += 1
            return

    def num(self, ev, x):
        if isinstance(x, SymBool):
            return bool(ev(x.b))
        if isinstance(x, SymReal):
            if ev(zb(x.nan)):
                return math.nan
            n = ev(x.n)
            d = 1.0 if x.d is None else ev(x.d)
            if ev(zb(x.inf)):
                return math.copysign(math.inf, n * d)
            return n / d if d != 0 else math.nan
        return x

    def close(self, ev, x, y, tol):
        x = self.num(ev, x)
        try:
            x, y = float(x), float(y)
        except (TypeError, ValueError):
            return x == y
        if math.isnan(x) or math.isnan(y):
            return math.isnan(x) and math.isnan(y)
        if math.isinf(x) or math.isinf(y):
            return x == y
        return abs(x - y) <= 10 * tol * (1 + abs(y))

    def mismatch(self, s):
        self.res['undecided'] += 1
        self.note('ENCODING MISMATCH ' + s)

    def trace_functions(self, vals):
        seen = set()

        def prof(frame, event, arg):
            if event == 'call':
                fn_ = frame.f_code.co_filename
                if '/turbustat/' in fn_ and not frame.f_code.co_name.startswith('<'):
                    seen.add(fn_.split('/turbustat/')[-1] + ':' + frame.f_code.co_qualname)
        sys.setprofile(prof)
        try:
            run_concrete(self.ob, vals)
        finally:
            sys.setprofile(None)
        self.res['functions'] = sorted(seen)


# ---------------------------------------------------------------- processes
def _child(ob, seed, prop, wfd, hard):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (9 << 30, 9 << 30))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(20000)
    random.seed(seed)
    np.random.seed(seed)
    try:
        res = Decider(ob, seed, prop).run()
    except MemoryError:
        res = Result(name=ob.name, status='inconclusive', notes=['memory limit'])
    except BaseException as ex:      # noqa
        res = Result(name=ob.name, status='inconclusive',
                     notes=['machinery: %s: %s' % (type(ex).__name__, str(ex)[:300]),
                            traceback.format_exc()[-800:]])
    data = json.dumps(res, default=str).encode()
    with os.fdopen(wfd, 'wb') as f:
        f.write(data)
    os._exit(0)


def run_all(obs, seed, prop, jobs=8, verbose=False, budget=None, known=None, after=120):
    """fork one process per obligation; `budget` bounds the whole run, and once a violation has
    been found the remaining obligations get `after` seconds"""
    import select
    end = time.time() + budget if budget else None
    found = False
    pend = list(obs)
    live = {}
    results = {}
    sys.stdout.flush()
    while pend or live:
        if end and time.time() > end:
            why = 'not finished %s' % ('after another obligation was violated' if found else 'within the time budget of the run')
            for fd, (ob, pid, t, buf) in list(live.items()):
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                results[ob.name] = dict(name=ob.name, status='inconclusive', bounds=ob.bounds, notes=[why], wall_s=time.time() - t)
            for ob in pend:
                results[ob.name] = dict(name=ob.name, status='inconclusive', bounds=ob.bounds, notes=[why], wall_s=0.0)
            break
        while pend and len(live) < jobs:
            ob = pend.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                for fd in list(live):
                    os.close(fd)
                _child(ob, seed, prop, w, ob.time_limit + 60)
            os.close(w)
            live[r] = [ob, pid, time.time(), b'']
        rd, _, _ = select.select(list(live), [], [], 0.5)
        for fd in rd:
            chunk = os.read(fd, 1 << 16)
            if chunk:
                live[fd][3] += chunk
                continue
            ob, pid, t, buf = live.pop(fd)
            os.close(fd)
            os.waitpid(pid, 0)
            try:
                res = json.loads(buf.decode())
            except ValueError:
                res = dict(name=ob.name, status='inconclusive', notes=['process died'])
            results[ob.name] = res
            if res.get('violation') and budget and not found:
                k = (known or {}).get(ob.name)
                if not (k and re.search(k['match'], res['violation']['what'])):
                    found = True
                    end = min(end, time.time() + after)
            if verbose:
                show(res)
        for fd in list(live):
            ob, pid, t, buf = live[fd]
            if time.time() - t > ob.time_limit + 60:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                live.pop(fd)
                results[ob.name] = dict(name=ob.name, status='inconclusive', bounds=ob.bounds,
                                        notes=['hard time limit'], wall_s=time.time() - t)
                if verbose:
                    show(results[ob.name])
    return [results[o.name] for o in obs]


def show(r):
    st = r.get('stats', {})
    print('  [%-12s] %-46s paths=%s cond=%s (norm %s, smt %s, tol %s, open %s) val=%s q=%s %.1fs %s'
          % (r['status'], r['name'][:46], r.get('paths'), r.get('conditions'),
             r.get('by_normalisation'), r.get('by_query'), r.get('within_tolerance'),
             r.get('undecided'), r.get('validated'), st.get('queries'), r.get('wall_s') or 0,
             ' | '.join(r.get('notes', []))[:400]))
    if r.get('violation'):
        print('      ', r['violation']['what'][:300], '<-', r['violation']['found_by'])
    sys.stdout.flush()


ASSUMPTIONS = [
    'floating point is modelled by mathematical reals extended with NaN/inf; rounding is outside '
    'the bounds (counterexamples are replayed in real floating point)',
    'numpy/scipy/astropy primitives behave as the symbolic layer /verif/symx models them; the '
    'layer is validated on every run by pushing the same inputs through the real code',
    'sizes, value ranges and parameter settings are those listed per obligation',
]


def load_prop(pid):
    sys.path.insert(0, VERIF)
    d = os.path.join(VERIF, 'props')
    for f in sorted(os.listdir(d)):
        if f.startswith(pid + '_') and f.endswith('.py'):
            return importlib.import_module('props.' + f[:-3])
    raise SystemExit('no property ' + pid)


def uniq(obs):
    seen = {}
    for o in obs:
        seen[o.name] = seen.get(o.name, 0) + 1
        if seen[o.name] > 1:
            o.name += '#%d' % seen[o.name]
    return obs


def main(pid, tier, only=None, verbose=True):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = load_prop(pid)
    known = load_known(pid)
    for m in getattr(mod, 'MODULES', ['turbustat.statistics']):
        importlib.import_module(m)
    obs = uniq(mod.obligations(tier))
    if only:
        obs = [o for o in obs if only in o.name]
    print('property %s (%s): %d obligations, tier %s' % (pid, mod.TITLE, len(obs), tier))
    res = run_all(obs, seed, pid, jobs=int(os.environ.get('VERIF_JOBS', '8')), verbose=verbose,
                  budget=600 if tier == 'quick' else None, known=known)
    t_replay = time.time()
    viol, knownhits = [], []
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    for r in res:
        v = r.get('violation')
        if not v:
            continue
        k = known.get(r['name'])
        if k and re.search(k['match'], v['what']):
            knownhits.append((r['name'], k['what']))
            continue
        path = os.path.join(VERIF, 'replays', '%s-%s.json' % (pid, r['name'].replace('/', '_')
                                                              .replace(' ', '_')))
        v['tier'] = tier
        with open(path, 'w') as f:
            json.dump(v, f, indent=1, default=str)
        # replay in a fresh process on the unpatched code
        if viol and time.time() - t_replay > 60:
            r.setdefault('notes', []).append('not replayed in a fresh process: others were')
            r['status'], r['violation'] = 'inconclusive', None
            continue
        try:
            p = subprocess.run([sys.executable, os.path.join(VERIF, 'replay.py'), path],
                               capture_output=True, text=True, timeout=120)
        except subprocess.TimeoutExpired:
            p = subprocess.CompletedProcess([], 2, '', 'time limit')
        if p.returncode == 1:
            viol.append((r, path))
        else:
            r['status'] = 'inconclusive'
            r.setdefault('notes', []).append('counterexample did not replay in a fresh process: '
                                             + (p.stdout + p.stderr)[-200:])
            r['violation'] = None
    held = [r for r in res if r['status'] == 'held']
    inc = [r for r in res if r['status'] == 'inconclusive']
    if not only:
        write_evidence(pid, mod, tier, seed, obs, res, viol, knownhits, time.time() - t0)
    for n, k in knownhits:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    for r in inc:
        print('INCONCLUSIVE obligation=%s %s' % (r['name'], ' | '.join(r.get('notes', []))[:300]))
    print('%d held, %d inconclusive, %d violated, %d known, %.1f s'
          % (len(held), len(inc), len(viol), len(knownhits), time.time() - t0))
    if viol:
        for r, path in viol:
            print('  %s: %s' % (r['name'], r['violation']['what'][:400]))
        for r, path in viol:
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if not held and not knownhits:
        print('no obligation was decided')
        return 3
    return 0


def load_known(pid):
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
    if not os.path.exists(p):
        return {}
    d = json.load(open(p))
    return {k['obligation']: k for k in d.get('findings', []) if k['property'] == pid}


def write_evidence(pid, mod, tier, seed, obs, res, viol, knownhits, wall):
    tot = lambda k: sum((r.get(k) or 0) for r in res)
    stat = lambda k: sum((r.get('stats', {}).get(k) or 0) for r in res)
    funcs = sorted({f for r in res for f in r.get('functions', [])})
    ev = dict(
        property=pid, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            technique='symbolic execution of the current source with an SMT solver (z3 %s)'
                      % z3.get_version_string(),
            functions_encoded=funcs,
            obligations=[dict(name=r['name'], bounds=r.get('bounds') or '', status=r['status'],
                              paths=r.get('paths'), conditions=r.get('conditions'),
                              by_normalisation=r.get('by_normalisation'),
                              by_query=r.get('by_query'),
                              within_tolerance=r.get('within_tolerance'),
                              undecided=r.get('undecided'),
                              partial=bool(r.get('partial')),
                              encoding_validated_runs=r.get('validated'),
                              wall_s=r.get('wall_s'), notes=r.get('notes')) for r in res],
            obligations_held=sum(r['status'] == 'held' for r in res),
            obligations_inconclusive=sum(r['status'] == 'inconclusive' for r in res),
            paths_explored=tot('paths'), conditions=tot('conditions'),
            queries_discharged=int(stat('queries')), queries_unsat=int(stat('unsat')),
            queries_sat=int(stat('sat')), queries_unknown=int(stat('unknown')),
            solver_time_s=round(stat('solver_s'), 2),
            encoding_validation_runs=tot('validated'),
            outside_bounds=getattr(mod, 'OUTSIDE', 'larger sizes, other parameter values, '
                                   'floating-point rounding'),
        ),
        wall_s=round(wall, 2), assumptions=ASSUMPTIONS + list(getattr(mod, 'ASSUMPTIONS', [])),
        violations=[dict(obligation=r['name'], what=r['violation']['what'], replay=p)
                    for r, p in viol])
    if knownhits:
        ev['coverage']['known_findings'] = [k for _, k in knownhits]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


def replay(path):
    d = json.load(open(path))
    mod = load_prop(d['property'])
    ob = [o for o in uniq(mod.obligations(d.get('tier', 'quick'))) if o.name == d['obligation']]
    if not ob:
        print('obligation not found')
        return 2
    vals = d['values']
    np.random.seed(1)
    I, st, exc = run_concrete(ob[0], vals)
    print('property %s, obligation %s' % (d['property'], d['obligation']))
    print('inputs: %s' % json.dumps({k: v for k, v in vals.items() if not k.endswith('?nan') or v}))
    if st == 'assume':
        print('inputs violate the precondition')
        return 0
    if st == 'exc':
        traceback.print_exception(type(exc), exc, exc.__traceback__)
        print('VIOLATED: raises %s: %s' % (type(exc).__name__, exc))
        return 1
    bad = failing(I)
    for c in bad[:20]:
        print('VIOLATED:', describe(c))
    if not bad:
        print('all %d conditions hold' % len(I.conds))
    return 1 if bad else 0
