"""Contract API: one contract text, two interpretations.

SymCtx   - inputs are arbitrary symbolic values, the real source is executed symbolically and every
           `ensures` becomes a proof obligation (all inputs, all sizes).
ConcCtx  - inputs are drawn from a seeded generator (or from a solver counterexample) and the real code is
           run; used to replay refuted obligations, as the bounded stand-in where the engine gives up, and
           as a cross-check of the engine's library contracts.
"""
import copy
import math
import os
import enum
import random
import time
import traceback
import warnings
import numpy as np
import pandas as pd
from fractions import Fraction


class Discard(Exception):
    pass


class Fail(Exception):
    def __init__(self, name, msg):
        self.name, self.msg = name, msg
        Exception.__init__(self, '%s: %s' % (name, msg))


class Skip(Exception):
    """contract not applicable in this mode (e.g. bounded-only part reached symbolically)"""


class Contract:
    def __init__(self, fn, functions=(), mode='both', samples=None, sym_s=None, slow=False, frame=True, name=None):
        self.fn, self.functions, self.mode, self.samples = fn, tuple(functions), mode, samples
        self.name = name or fn.__name__
        self.sym_s = sym_s
        self.slow = slow
        self.frame = frame
        self.doc = (fn.__doc__ or '').strip().split('\n')[0]


def contract(*functions, **kw):
    """decorator registering a contract in its module's CONTRACTS list"""
    def d(fn):
        c = Contract(fn, functions, **kw)
        fn.__globals__.setdefault('CONTRACTS', []).append(c)
        return fn
    return d


class Lemma:
    """a fact about numbers used by contracts: args(cx) -> arguments, pre/post(cx, *args) -> [(name, condition)], proof(cx, *args)"""

    def __init__(self, name, args, pre, post, proof=None, doc=''):
        self.name, self.args, self.pre, self.post, self.proof, self.doc = name, args, pre, post, proof, doc

    def contract(self):
        def fn(cx):
            a = self.args(cx)
            for _, c in self.pre(cx, *a):
                cx.requires(c)
            if self.proof:
                self.proof(cx, *a)
            for n, c in self.post(cx, *a):
                cx.ensure(n, c)
        fn.__name__ = 'lemma_' + self.name
        fn.__doc__ = 'lemma: ' + self.doc
        return Contract(fn, (), frame=False)


# =================================================================== concrete
INTS = float(os.environ.get('PYVC_INTS', '0.08'))     # share of number arrays drawn as integers


class ConcCtx:
    sym = False

    def __init__(self, rng, overrides=None, consts=(), only=None, it=0):
        self.rng = rng
        self.np_rng = np.random.RandomState(rng.randrange(2 ** 31))
        self.ov = overrides or {}
        self.inputs = {}
        self.log = []
        self.consts = consts
        self.depth = []
        self.checked = 0
        self.frame_mode = False
        self.it = it
        self.np = np
        self.hull = []
        self.trail = []
        self.failures = []

    # ---- inputs
    def _ovr(self, name, gen):
        v = self.ov.get(name)
        if v is None:
            v = gen()
        self.inputs[name] = v
        return v

    def size(self, name, lo=1, hi=6):
        def g():
            r = self.rng
            if self.consts and r.random() < 0.08:
                c = [k for k in self.consts if isinstance(k, int) and lo <= k <= max(hi, 64)]
                if c:
                    return max(lo, r.choice(c) + r.choice([-1, 0, 1]))
            if r.random() < 0.05:
                return r.randint(lo, max(hi, lo) * 4)
            if r.random() < 0.15:
                return lo
            return r.randint(lo, hi)
        return int(self._ovr(name, g))

    def integer(self, name, lo=-5, hi=10):
        def g():
            r = self.rng
            if self.consts and r.random() < 0.2:
                c = [int(k) for k in self.consts if lo <= k <= hi and k == int(k)]
                if c:
                    return r.choice(c)
            if r.random() < 0.2:
                return r.choice([lo, hi])
            return r.randint(lo, hi)
        return int(self._ovr(name, g))

    def real(self, name, lo=None, hi=None, pos=False, nonzero=False, special=(), scale=10.0):
        def g():
            r = self.rng
            if special and r.random() < 0.3:
                return r.choice(list(special))
            a = lo if lo is not None else (1e-3 if pos else -scale)
            b = hi if hi is not None else (max(scale, a + scale))
            x = r.random()
            if x < 0.15 and self.consts:
                c = [float(k) for k in self.consts if a <= k <= b]
                if c:
                    v = r.choice(c)
                    if r.random() < 0.3:
                        v = min(b, max(a, v + r.choice([-1, 1]) * 1e-3))
                    if v != 0 or not (nonzero or pos):
                        return float(v)
            if x < 0.25:
                v = r.choice([a, b])
            elif x < 0.4:
                v = float(round(r.uniform(a, b)))
                v = min(b, max(a, v))
            else:
                v = r.uniform(a, b)
            if (nonzero or pos) and v == 0:
                v = r.uniform(a, b) or b
            return float(v)
        v = self._ovr(name, g)
        if INTS and name not in self.ov and float(v).is_integer() and self.rng.random() < 5 * INTS:
            v = int(v)          # a whole number may come as an integer
        if not (type(v) is int and INTS):
            v = float(v)
        if (lo is not None and v < lo) or (hi is not None and v > hi) or (pos and v <= 0) or (nonzero and v == 0):
            raise Discard()
        return v

    def boolean(self, name):
        return bool(self._ovr(name, lambda: self.rng.random() < 0.5))

    def choice(self, name, opts):
        opts = list(opts)
        k = self._ovr(name, lambda: self.rng.randrange(len(opts)))
        self.inputs[name] = k
        return opts[int(k)]

    def _fill(self, shape, lo, hi, scale, nan, inf, style=None):
        r, g = self.rng, self.np_rng
        a = lo if lo is not None else -scale
        b = hi if hi is not None else max(scale, a + scale)
        n = int(np.prod(shape)) if len(shape) else 1
        s = style or r.choice(['u', 'u', 'u', 'n', 'i', 'c', 'z', 'ties', 'ramp', 'e'])
        if s == 'u':
            x = g.uniform(a, b, n)
        elif s == 'n':
            x = np.clip(g.normal((a + b) / 2, (b - a) / 6, n), a, b)
        elif s == 'i':
            x = np.clip(np.round(g.uniform(a, b, n)), a, b)
        elif s == 'c':
            x = np.full(n, g.uniform(a, b))
        elif s == 'z':
            x = g.uniform(a, b, n)
            z = min(max(0.0, a), b)
            x[g.rand(n) < 0.4] = z
        elif s == 'ties':
            v = g.uniform(a, b, max(1, n // 2))
            x = v[g.randint(0, len(v), n)]
        elif s == 'ramp':
            x = np.linspace(a, b, n) if n else np.zeros(0)
            if r.random() < .5:
                x = x[::-1].copy()
        else:
            x = g.uniform(a, b, n)
            x[g.rand(n) < 0.3] = a
            x[g.rand(n) < 0.3] = b
        if self.consts and r.random() < 0.1 and n:
            c = [float(k) for k in self.consts if a <= k <= b]
            if c:
                x[g.randint(0, n)] = r.choice(c)
        if nan and r.random() < 0.7:
            p = r.choice([0.05, 0.3, 0.9])
            x = x.astype(float)
            x[g.rand(n) < p] = np.nan
        if inf and r.random() < 0.4:
            x[g.rand(n) < 0.1] = np.inf
            x[g.rand(n) < 0.1] = -np.inf
        return x.reshape(shape)

    def arr(self, name, shape, lo=None, hi=None, nan=False, inf=False, kind='f', scale=10.0, pos=False, style=None, distinct=False):
        if not isinstance(shape, (tuple, list)):
            shape = (shape,)
        shape = tuple(int(s) for s in shape)

        def g():
            if kind == 'b':
                return self.np_rng.rand(*shape) < self.rng.choice([0.1, 0.5, 0.9])
            x = self._fill(shape, lo if lo is not None else (1e-2 if pos else None), hi, scale, nan, inf, style)
            if kind == 'i':
                x = np.clip(np.round(x), math.ceil(lo) if lo is not None else None, math.floor(hi) if hi is not None else None).astype(int) if (lo is not None or hi is not None) else np.round(x).astype(int)
            if distinct and x.size > 1:
                f = x.reshape(-1)
                if kind == 'i':
                    f[:] = np.argsort(np.argsort(f)) + int(f.min())
                else:
                    f += np.argsort(np.argsort(f)) * 1e-2
            if kind == 'f' and INTS and self.rng.random() < INTS and np.isfinite(x).all():
                y = np.round(x)         # whole numbers of integer type
                if (lo is None or y.min(initial=lo) >= lo) and (hi is None or y.max(initial=hi) <= hi) and (not pos or y.min(initial=1) > 0):
                    x = y.astype(int)
            return x
        v = self._ovr(name, g)
        v = np.array(v)
        if v.shape != shape:
            w = g()
            sl = tuple(slice(0, min(p, q)) for p, q in zip(v.shape, shape))
            if v.ndim == w.ndim:
                w[sl] = v[sl]
            v = w
        if kind == 'f' and v.dtype.kind != 'i':
            v = v.astype(float)
        fin = v[np.isfinite(v)] if kind != 'b' else v
        if kind != 'b' and fin.size and ((lo is not None and fin.min() < lo) or (hi is not None and fin.max() > hi) or (pos and fin.min() <= 0)):
            raise Discard()
        self.inputs[name] = v.copy()
        return v

    def labels(self, name, n):
        n = int(n)

        def g():
            if self.rng.random() < 0.5:
                perm = list(range(n))
                self.rng.shuffle(perm)
                return ['%s%02d' % (name[0], p) for p in perm]
            return ['%s%d' % (name[0], p) for p in range(n)]
        v = self.ov.get(name)
        v = list(v) if v is not None and len(v) == n else g()
        self.inputs[name] = list(v)
        return list(v)

    def perm(self, name, n):
        """a permutation of 0..n-1"""
        n = int(n)
        v = self.ov.get(name)
        if v is None or sorted(v) != list(range(n)):
            v = list(range(n))
            self.rng.shuffle(v)
        self.inputs[name] = list(v)
        return lambda k: v[int(k)]

    def pairs(self, n, f):
        """list of the pairs f(0) .. f(n-1)"""
        return [f(k) for k in range(int(n))]

    def index(self, labels):
        return pd.Index(labels)

    def times(self, name, n, dt=None):
        n = int(n)
        if dt is None:
            v = self._ovr(name, lambda: np.cumsum(self.np_rng.uniform(0.5, 30, n)))
            v = np.asarray(v, float)
            if len(v) != n:
                v = np.cumsum(self.np_rng.uniform(0.5, 30, n))
        else:
            v = np.arange(n) * float(dt)
        ns = np.round(v * 1e9).astype('int64')
        base = pd.Timestamp('2020-06-01 06:00')
        return pd.DatetimeIndex(base + pd.to_timedelta(ns, unit='ns'))

    def series(self, name, n, index=None, **k):
        v = self.arr(name, (n,), **k)
        return pd.Series(v, index=index)

    def frame(self, name, n, cols, index=None, **k):
        m = len(cols)
        v = self.arr(name, (n, m), **k)
        return pd.DataFrame(v, index=index, columns=list(cols))

    # ---- assumptions
    def requires(self, c):
        if not bool(c):
            raise Discard()

    def requires_all(self, n, f):
        for k in range(int(n)):
            if not bool(f(k)):
                raise Discard()

    # ---- calls
    def call(self, fn, *a, **k):
        pre = None
        if self.frame_mode:
            pre = (snap_val((a, k)), glob_state())
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            # in frame mode a silent state that no library code would choose, so that any change shows
            with np.errstate(all='call', call=_quiet) if self.frame_mode else np.errstate(all='ignore'):
                if self.frame_mode:
                    st0 = glob_state()
                try:
                    r = fn(*a, **k)
                    if self.frame_mode:
                        self._variant(fn, a, k)
                    return r
                finally:
                    if self.frame_mode:
                        self.checked += 1
                        d = diff_val(pre[0], (a, k))
                        if d:
                            self.fail('frame', 'argument of %s modified: %s' % (getattr(fn, '__name__', fn), d))
                        d = diff_glob(st0, glob_state())
                        if d and fn is not np.random.set_state and not (d == 'random generator' and getattr(fn, '__name__', '') in DRAWS):
                            self.fail('process-state', '%s changed %s' % (getattr(fn, '__name__', fn), d))

    def _variant(self, fn, a, k):
        """frame mode: the same call with one table, series or list handed over as a plain array (or an array as a list); calls the function does not support in that form are skipped"""
        if not (getattr(fn, '__module__', None) or '').startswith('solarspatialtools') or getattr(fn, '__name__', '') in DRAWS:
            return
        at = [i for i, x in enumerate(a) if isinstance(x, (pd.Series, pd.DataFrame, np.ndarray, list)) and len(x)]
        if not at:
            return
        self._turn = getattr(self, '_turn', -1) + 1
        i = at[self._turn % len(at)]
        x = a[i]
        y = x.tolist() if isinstance(x, np.ndarray) else np.array(x)
        b = a[:i] + (y,) + a[i + 1:]
        pre = snap_val((b, k))
        try:
            fn(*b, **k)
        except Exception:
            return
        d = diff_val(pre, (b, k))
        if d:
            self.fail('frame', 'argument of %s modified: %s (argument %d given as %s)' % (getattr(fn, '__name__', fn), d, i, type(y).__name__))

    def modular(self, *fns, finite=False):
        pass

    def fail(self, name, msg):
        raise Fail(name, msg)

    def raises(self, name, excs, fn, *a, **k):
        self.checked += 1
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                r = fn(*a, **k)
        except excs:
            return
        except Exception as e:
            if self.frame_mode:
                return
            self.fail(name, 'raised %r instead of %s' % (e, excs))
        if not self.frame_mode:
            self.fail(name, 'did not raise %s' % (excs,))

    def forall(self, n, lo=0):
        for k in range(int(lo), int(n)):
            self.depth.append(k)
            try:
                yield k
            finally:
                self.depth.pop()

    # ---- checks
    def eq(self, name, a, b, tol=1e-7, scale=1.0):
        if self.frame_mode:
            return
        self.checked += 1
        self.trail.append((name, tuple(self.depth), a))
        if not close(a, b, tol, scale):
            self.fail(name, 'at %s: got %s, required %s' % (self.depth, show_val(a), show_val(b)))

    def eq_arr(self, name, a, b, tol=1e-7, scale=1.0):
        if self.frame_mode:
            return
        self.checked += 1
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            self.fail(name, 'shape %s, required %s' % (x.shape, y.shape))
        for ix in np.ndindex(*x.shape):
            if not close(x[ix], y[ix], tol, scale):
                self.fail(name, 'at %s: got %s, required %s' % (ix, show_val(x[ix]), show_val(y[ix])))

    def ensure(self, name, c, tol=None):
        if self.frame_mode:
            return
        self.checked += 1
        if not bool(c):
            self.fail(name, 'does not hold at %s' % (self.depth,))

    def lemma(self, name, c, tol=None):
        """intermediate assertion: an obligation of its own, available afterwards"""
        self.ensure(name, c)

    def use(self, lem, *args):
        if self.frame_mode:
            return
        for name, c in list(lem.pre(self, *args)) + list(lem.post(self, *args)):
            self.ensure('%s: %s' % (lem.name, name), c)

    def lemma_eq(self, name, a, b, tol=1e-7):
        self.eq(name, a, b, tol)

    def sum_nonneg(self, name, n, f):
        self.ensure(name, all(f(l) >= -1e-9 for l in range(n)))

    def between_extremes(self, a, i):
        self.ensure('index', 0 <= i < len(a))

    def shifted_sum(self, n, m, s, g):
        a = sum(g(l + s) for l in range(n) if 0 <= l + s < m)
        b = sum(g(i) for i in range(m) if 0 <= i - s < n)
        self.eq('change of variable', a, b)

    def le(self, name, a, b, tol=1e-7):
        if self.frame_mode:
            return
        self.checked += 1
        a, b = float(a), float(b)
        if not a <= b + tol * max(1, abs(a), abs(b)):
            self.fail(name, 'at %s: %r <= %r does not hold' % (self.depth, a, b))

    def is_type(self, name, x, t):
        self.ensure(name, isinstance(x, t))

    # ---- spec helpers
    def at(self, a, *idx):
        idx = tuple(int(i) for i in idx)
        if isinstance(a, (pd.DataFrame, pd.Series)):
            a = a.values
        if isinstance(a, pd.Index):
            return a[idx[0]]
        if isinstance(a, (list, tuple)):
            r = a
            for i in idx:
                r = r[i]
            return r
        return np.asarray(a)[idx]

    def shape(self, a):
        return np.shape(a)

    def len(self, a):
        return len(a)

    def sum(self, n, f):
        return math.fsum(float(f(k)) for k in range(int(n))) if True else 0

    def csum(self, n, f):
        return sum((complex(f(k)) for k in range(int(n))), 0j)

    def max(self, n, f):
        return max(f(k) for k in range(int(n)))

    def min(self, n, f):
        return min(f(k) for k in range(int(n)))

    def all(self, n, f):
        return all(bool(f(k)) for k in range(int(n)))

    def any(self, n, f):
        return any(bool(f(k)) for k in range(int(n)))

    def count(self, n, f):
        return sum(1 for k in range(int(n)) if bool(f(k)))

    def ite(self, c, a, b):
        if not bool(c):
            return b() if callable(b) else b
        return a() if callable(a) else a

    def And(self, *cs):
        return all(bool(c() if callable(c) else c) for c in cs)

    def Or(self, *cs):
        return any(bool(c() if callable(c) else c) for c in cs)

    def Not(self, c):
        return not bool(c)

    def implies(self, a, b):
        return (not bool(a)) or bool(b() if callable(b) else b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def isnan(self, x):
        return bool(pd.isna(x))

    def fin(self, x):
        return bool(np.isfinite(x))

    pi = math.pi

    def sqrt(self, x):
        return math.sqrt(x) if x >= 0 else float('nan')

    def sin(self, x):
        return math.sin(x)

    def cos(self, x):
        return math.cos(x)

    def atan2(self, y, x):
        return math.atan2(y, x)

    def exp(self, x):
        return math.exp(x)

    def floor(self, x):
        return math.floor(x)

    def abs(self, x):
        return abs(x)

    def div(self, a, b):
        """IEEE division"""
        with np.errstate(all='ignore'):
            return float(np.float64(a) / np.float64(b))

    def same(self, a, b):
        """value equality of labels"""
        return a == b

    def branch(self, c):
        return bool(c)


def show_val(v):
    try:
        return repr(v)[:200]
    except Exception:
        return '<%s>' % type(v).__name__


def close(a, b, tol, scale=1.0):
    if isinstance(a, np.generic):
        a = a.item() if a.dtype.kind != 'M' and a.dtype.kind != 'm' else a
    if isinstance(b, np.generic):
        b = b.item() if b.dtype.kind != 'M' and b.dtype.kind != 'm' else b
    if a is None or b is None:
        return a is b
    if isinstance(a, (bool,)) and isinstance(b, bool):
        return a == b
    if isinstance(a, (int, float, complex, bool)) and isinstance(b, (int, float, complex, bool)):
        if a == b:
            return True
        if isinstance(a, complex) or isinstance(b, complex):
            a, b = complex(a), complex(b)
            an = math.isnan(a.real) or math.isnan(a.imag)
            bn = math.isnan(b.real) or math.isnan(b.imag)
        else:
            an, bn = math.isnan(a), math.isnan(b)
        if an or bn:
            return an and bn
        if isinstance(a, float) and math.isinf(a) or isinstance(b, float) and math.isinf(b):
            return a == b
        return abs(a - b) <= tol * max(scale, abs(a), abs(b))
    if isinstance(a, pd.Timedelta) or isinstance(a, pd.Timestamp):
        return a == b
    try:
        r = a == b
        return bool(r) or (pd.isna(a) and pd.isna(b))
    except Exception:
        return False


def snap_val(v):
    if isinstance(v, np.ndarray):
        return ('nd', v.copy(), v.dtype, v.shape)
    if isinstance(v, pd.DataFrame):
        return ('df', v.copy(deep=True))
    if isinstance(v, pd.Series):
        return ('sr', v.copy(deep=True))
    if isinstance(v, pd.Index):
        return ('ix', v.copy())
    if isinstance(v, (list, tuple)):
        return ('seq', type(v), [snap_val(x) for x in v])
    if isinstance(v, dict):
        return ('dict', list(v.keys()), [snap_val(x) for x in v.values()])
    return ('other', v)


def _nd_same(a, b):
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    try:
        return bool(np.array_equal(a, b, equal_nan=True))
    except TypeError:
        return all((x == y) or (x != x and y != y) for x, y in zip(a.reshape(-1), b.reshape(-1)))


def diff_val(s, v, path='args'):
    k = s[0]
    if k == 'nd':
        return None if isinstance(v, np.ndarray) and _nd_same(s[1], v) else path
    if k == 'df':
        o = s[1]
        ok = o.shape == v.shape and list(o.columns) == list(v.columns) and o.index.equals(v.index) and o.equals(v) and o.index.name == v.index.name \
            and list(o.dtypes) == list(v.dtypes)
        return None if ok else path + ' (DataFrame)'
    if k == 'sr':
        o = s[1]
        ok = o.shape == v.shape and o.index.equals(v.index) and o.equals(v) and o.name == v.name and o.dtype == v.dtype
        return None if ok else path + ' (Series)'
    if k == 'ix':
        return None if s[1].equals(v) and s[1].name == v.name else path + ' (Index)'
    if k == 'seq':
        if len(s[2]) != len(v):
            return path + ' (length)'
        for i, (x, y) in enumerate(zip(s[2], v)):
            d = diff_val(x, y, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    if k == 'dict':
        if list(v.keys()) != s[1]:
            return path + ' (dict keys)'
        for n, x in zip(s[1], s[2]):
            d = diff_val(x, v[n], '%s[%r]' % (path, n))
            if d:
                return d
        return None
    return None


def _quiet(*a):
    pass


def _pd_options():
    try:
        from pandas._config import config
        return repr(config._global_config)
    except Exception:
        return tuple(str(pd.get_option(o)) for o in ('mode.copy_on_write', 'display.max_rows', 'display.precision', 'display.max_columns') if _has_opt(o))


def glob_state():
    import os
    return {'numpy error state': tuple(sorted(np.geterr().items())), 'working directory': os.getcwd(),
            'pandas options': _pd_options(), 'numpy print options': str(sorted((k, str(v)) for k, v in np.get_printoptions().items())),
            'warning filters': tuple(str(f) for f in warnings.filters), 'random generator': _rng_state()}


# functions whose documented purpose is to draw from numpy's global generator
DRAWS = {'_random_at_scale', '_stack_random_field', 'cloudfield_timeseries', '_set_state', '_assemble'}


def _rng_state():
    s = np.random.get_state()
    return (s[2], s[1].tobytes(), s[3], s[4])


_opts = {}


def _has_opt(o):
    if o not in _opts:
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                pd.get_option(o)
            _opts[o] = True
        except Exception:
            _opts[o] = False
    return _opts[o]


def diff_glob(a, b):
    for k in a:
        if a[k] != b[k]:
            return k
    return None


# =================================================================== symbolic
class SymCtx:
    sym = True

    def __init__(self, contract, script, opts):
        from . import sym as S, terms as tm, interp as I, smt
        self.S, self.tm, self.I, self.smt = S, tm, I, smt
        self.opts = opts
        self.obls = []
        self.frame_mode = False
        self.inputs = {}
        self.depthv = []
        self.trail = []
        self.np = _NPFacade(self)
        self.stopped = False
        self.pi = S.SNum(tm.PI, kind='f')

    # ---- inputs
    def size(self, name, lo=1, hi=6):
        tm = self.tm
        v = tm.var(name, 'I')
        self.S.st().assume(tm.le(tm.num(lo), v))
        if lo >= 0:
            tm.declare_nonneg(v, lo >= 1)
        self.inputs[name] = ('int', v)
        return self.S.SNum(v, kind='i', py=True)

    def integer(self, name, lo=None, hi=None):
        tm = self.tm
        v = tm.var(name, 'I')
        if lo is not None:
            self.S.st().assume(tm.le(tm.num(lo), v))
        if hi is not None:
            self.S.st().assume(tm.le(v, self.S.term(hi) if isinstance(hi, self.S.Sym) else tm.num(hi)))
        self.inputs[name] = ('int', v)
        return self.S.SNum(v, kind='i', py=True)

    def real(self, name, lo=None, hi=None, pos=False, nonzero=False, special=(), scale=None):
        tm = self.tm
        v = tm.var(name, 'R')
        s = self.S.st()
        if lo is not None:
            s.assume(tm.le(tm.num(lo), v))
            if lo > 0:
                pos = True
        if hi is not None:
            s.assume(tm.le(v, tm.num(hi)))
        if pos:
            s.assume(tm.lt(tm.ZERO, v))
            tm.declare_nonneg(v, True)
        if nonzero:
            s.assume(tm.bnot(tm.eq0(v)))
        self.inputs[name] = ('real', v)
        return self.S.SNum(v, kind='f', py=True)

    def boolean(self, name):
        tm = self.tm
        v = tm.var(name, 'B')
        self.inputs[name] = ('bool', v)
        return self.S.st().decide(v)

    def choice(self, name, opts):
        tm = self.tm
        v = tm.var(name, 'I')
        self.inputs[name] = ('int', v)
        s = self.S.st()
        s.assume(tm.le(tm.ZERO, v))
        s.assume(tm.lt(v, tm.num(len(opts))))
        for i, o in enumerate(opts[:-1]):
            if s.decide(tm.eq(v, tm.num(i))):
                return o
        return list(opts)[-1]

    def arr(self, name, shape, lo=None, hi=None, nan=False, inf=False, kind='f', scale=None, pos=False, style=None, distinct=False):
        tm, S = self.tm, self.S
        if not isinstance(shape, (tuple, list)):
            shape = (shape,)
        shp = tuple(S.dim(s) for s in shape)
        st = S.st()
        ks = [tm.fresh('g') for _ in shp]

        def alls(body):
            for k, n in reversed(list(zip(ks, shp))):
                body = tm.mk_all(n, k, body)
            return body
        if kind == 'b':
            f = lambda idx: S.SBool(tm.app(name, tuple(idx), 'B'))
        else:
            sort = 'I' if kind == 'i' else 'R'

            def f(idx):
                idx = tuple(idx)
                v = S.SNum(tm.app(name, idx, sort), kind=kind)
                if nan:
                    v.nan = tm.app(name + '#nan', idx, 'B')
                if inf:
                    v.pinf = tm.band(tm.bnot(v.nan), tm.app(name + '#pinf', idx, 'B'))
                    v.ninf = tm.band(tm.bnot(v.nan), tm.bnot(v.pinf), tm.app(name + '#ninf', idx, 'B'))
                return v
            e = tm.app(name, tuple(ks), sort)
            if lo is not None:
                st.assume(alls(tm.le(tm.num(lo), e)))
                if lo >= 0:
                    tm.NONNEG_APPS.add(name)
                    if lo > 0:
                        tm.POS_APPS.add(name)
            if hi is not None:
                st.assume(alls(tm.le(e, S.term(hi))))
            if pos:
                st.assume(alls(tm.lt(tm.ZERO, e)))
                tm.NONNEG_APPS.add(name)
                tm.POS_APPS.add(name)
            if distinct:
                k2 = tm.fresh('g')
                st.assume(tm.mk_all(shp[0], ks[0], tm.mk_all(shp[0], k2, tm.bor(tm.eq(ks[0], k2), tm.bnot(tm.eq(e, tm.app(name, (k2,), sort)))))))
        self.inputs[name] = ('arr', name, shp, kind, nan, inf)
        return S.SArr(shp, f, kind)

    def labels(self, name, n):
        tm, S = self.tm, self.S
        n = S.dim(n)
        lab = name + '#lab'
        tm.INJECTIVE.add(lab)
        tm.INVERSE[name + '#pos'] = lab
        self.inputs[name] = ('labels', name, n)

        def pos(label):
            t = S.lab_t(label)
            if t.op == 'lit':
                raise S.Raised(KeyError(t.args[0][2]))
            return tm.app(name + '#pos', (t,), 'I')
        return S.SIndex(n, lambda k: S.SLab(tm.app(lab, (k,), 'L')), 'L', True, key=name, pos=pos)

    def perm(self, name, n):
        self.inputs[name] = ('perm', name, self.S.dim(n))
        return self.S.perm(name + '#perm', self.S.dim(n))

    def pairs(self, n, f):
        return self.S.SList(self.S.dim(n), lambda k: f(self.S.SNum(k, kind='i')))

    def index(self, labels):
        return labels

    def times(self, name, n, dt=None):
        tm, S = self.tm, self.S
        n = S.dim(n)
        if dt is None:
            fn = name + '#t'
            k = tm.fresh('g')
            S.st().assume(tm.mk_all(tm.sub(n, tm.ONE), k, tm.lt(tm.app(fn, (k,)), tm.app(fn, (tm.add(k, tm.ONE),)))))
            self.inputs[name] = ('times', name, n)
            return S.SIndex(n, lambda k: S.STime(tm.app(fn, (k,))), 'dt', True, key=name)
        d = S.term(dt) if not isinstance(dt, float) else tm.num(dt)
        t0 = tm.var(name + '#t0')
        return S.SIndex(n, lambda k: S.STime(tm.add(t0, tm.mul(k, d))), 'dt', True, key=name)

    def series(self, name, n, index=None, **k):
        a = self.arr(name, (n,), **k)
        return self.S.SSeries(a, self.S.cindex(index) if index is not None else self.S.range_index(a.shp[0]))

    def frame(self, name, n, cols, index=None, **k):
        c = self.S.cindex(cols)
        a = self.arr(name, (n, self.S.dimval(c.n)), **k)
        return self.S.SFrame(a, self.S.cindex(index) if index is not None else self.S.range_index(a.shp[0]), c)

    # ---- assumptions
    def requires(self, c):
        self.S.st().assume(self.I.truth_term(c))

    def requires_all(self, n, f):
        n = self.S.dim(n)
        with self.S.over(n, 'rq') as k:
            t = self.I.truth_term(f(self.S.SNum(k, kind='i', py=True)))
        self.S.st().assume(self.tm.mk_all(n, k, t))

    # ---- calls
    def call(self, fn, *a, **k):
        st = self.S.st()
        w0 = len(st.writes)
        ser = self.S.SERIAL[0]
        plain = []
        if self.frame_mode:
            self._mark((a, k), plain)
        try:
            return self.I.call(fn, a, k)
        finally:
            if self.frame_mode:
                self.frame_obl(fn, st.writes[w0:], ser, plain)

    def _mark(self, x, plain, depth=0):
        """inputs of a call: labels and lists must stay as they are"""
        if isinstance(x, (self.S.SSeries, self.S.SFrame, self.S.SList)):
            x.is_input = True
        elif isinstance(x, (list, tuple, dict)) and depth < 4:
            if not isinstance(x, tuple) and depth:
                plain.append((x, x.copy()))
            for y in (x.values() if isinstance(x, dict) else x):
                self._mark(y, plain, depth + (not isinstance(x, tuple) or not depth))

    def modular(self, *fns, finite=False):
        """from here on calls of these functions are used through their contracts (results: functions of each pair's own columns);
        finite: under the precondition that none of the results is missing"""
        from . import models_lib
        for f in fns:
            self.I.SUMMARIES[f] = models_lib.summary_of(f, finite)

    def frame_obl(self, fn, writes, ser, plain=()):
        S, tm = self.S, self.tm
        done = []
        for now, was in plain:
            items = (lambda c: list(c.items())) if isinstance(was, dict) else (lambda c: list(enumerate(c)))
            if len(now) != len(was) or any(p != q or x is not y for (p, x), (q, y) in zip(items(now), items(was))):
                self._obl('frame:%s' % getattr(fn, '__name__', fn), tm.FALSE)
        for (o, f, memo) in writes:
            if any(o is x for x in done):
                continue
            done.append(o)
            if isinstance(o, S.SArr):
                if o.serial > ser or f is None:
                    continue
                ks = [tm.fresh('fr') for _ in o.shp]
                n0 = len(S.st().ctx)
                for k, s in zip(ks, o.shp):
                    S.st().ctx.append(tm.band(tm.le(tm.ZERO, k), tm.lt(k, s)))
                try:
                    self._obl('frame:%s' % getattr(fn, '__name__', fn), S.eq_t(o.get(*ks), f(tuple(ks))))
                finally:
                    del S.st().ctx[n0:]
            elif getattr(o, 'is_input', False):
                self._obl('frame:%s' % getattr(fn, '__name__', fn), tm.FALSE)
        self._obl('frame:%s' % getattr(fn, '__name__', fn), tm.TRUE)

    def raises(self, name, excs, fn, *a, **k):
        try:
            self.I.call(fn, a, k)
        except self.S.Raised as r:
            if not self.frame_mode:
                self._obl(name, self.tm.TRUE if isinstance(r.exc, excs) else self.tm.FALSE)
            return
        if not self.frame_mode:
            self._obl(name, self.tm.FALSE)

    def forall(self, n, lo=0):
        S, tm = self.S, self.tm
        n = S.dim(n)
        lo = S.dim(lo)
        if n.op == 'num' and lo.op == 'num' and n.args[0] <= 4:
            for j in range(int(lo.args[0]), int(n.args[0])):
                self.depthv.append(tm.num(j))
                try:
                    yield S.SNum(tm.num(j), kind='i', py=True)
                finally:
                    self.depthv.pop()
            return
        k = tm.fresh('u')
        c = tm.band(tm.le(lo, k), tm.lt(k, n))
        if lo.op == 'num' and lo.args[0] >= 0:
            c = tm.band(c, tm.le(tm.ZERO, k))
        S.st().ctx.append(c)
        self.depthv.append(k)
        pos = len(S.st().ctx)
        try:
            yield S.SNum(k, kind='i', py=True)
        finally:
            del S.st().ctx[pos - 1:]
            self.depthv.pop()

    # ---- obligations
    def _obl(self, name, goal, trail=None):
        S = self.S
        st = S.st()
        t0 = time.time()
        h = st.hyps()
        r = self.smt.prove(h, goal, self.opts.get('timeout', 4000))
        self.obls.append({'name': name, 'status': r['status'], 'backend': r.get('backend'), 't': time.time() - t0,
                          'model': r.get('model'), 'export': r.get('export'), 'goal': goal, 'hyps': h, 'depthv': list(self.depthv)})

    def eq(self, name, a, b, tol=None, scale=None):
        if self.frame_mode:
            return
        if a is None or b is None or isinstance(a, (enum.Enum, str)) and isinstance(b, (enum.Enum, str)):
            g = self.tm.TRUE if a is b or (a is not None and b is not None and a == b) else self.tm.FALSE
            self._obl(name, g)
            return
        self.trail.append((name, tuple(self.depthv), a))
        self._obl(name, self.S.eq_t(self.S.scalar(a), self.S.scalar(b)))

    def eq_arr(self, name, a, b, tol=None, scale=None):
        if self.frame_mode:
            return
        S, tm = self.S, self.tm
        a, b = S.as_arr(a), S.as_arr(b)
        if a.ndim != b.ndim:
            self._obl(name + ':rank', tm.FALSE)
            return
        for x, y in zip(a.shp, b.shp):
            self._obl(name + ':shape', tm.eq(x, y))

        def rec(d, ks):
            if d == a.ndim:
                self.trail.append((name, tuple(self.depthv), a.get(*ks)))
                self._obl(name, S.eq_t(a.get(*ks), b.get(*ks)))
                return
            for k in self.forall(a.shp[d]):
                rec(d + 1, ks + (S.term(k),))
        rec(0, ())

    def ensure(self, name, c, tol=None):
        if self.frame_mode:
            return
        self._obl(name, self.I.truth_term(c))

    def lemma(self, name, c, tol=None):
        t = self.I.truth_term(c)
        if not self.frame_mode:
            self._obl(name, t)
            if self.obls[-1]['status'] != 'proved':
                return
        self._given(t)

    def lemma_eq(self, name, a, b, tol=None):
        """equality obligation, available afterwards"""
        if self.frame_mode:
            return
        self.eq(name, a, b)
        if self.obls[-1]['status'] == 'proved':
            self._given(self.S.eq_t(self.S.scalar(a), self.S.scalar(b)))

    def _given(self, t):
        """from here on (inside a forall: for the rest of its body) t may be used"""
        st = self.S.st()
        if self.depthv:
            st.ctx.append(t)
            return
        for x in reversed(st.ctx):
            t = self.tm.bor(self.tm.bnot(x), t)
        st.assume_global(t)

    def use(self, lem, *args):
        """apply a lemma: its preconditions are obligations here, its conclusions may be used afterwards (they are proved as a contract of their own)"""
        if self.frame_mode:
            return
        for name, c in lem.pre(self, *args):
            self._obl('%s needs %s' % (lem.name, name), self.I.truth_term(c))
            if self.obls[-1]['status'] != 'proved':
                return
        for name, c in lem.post(self, *args):
            self._given(self.I.truth_term(c))

    def sum_nonneg(self, name, n, f):
        """every term f(l) >= 0 (an obligation), so the sum is (built in)"""
        if self.frame_mode:
            return
        for l in self.forall(n):
            self._obl(name, self.I.truth_term(f(l) >= 0))
        if self.obls[-1]['status'] == 'proved':
            self._given(self.I.truth_term(self.S.lift(self.sum(n, f)) >= 0))

    def between_extremes(self, a, i):
        """0 <= i < len(a) (an obligation), so a[i] lies between the smallest and the largest entry (built in)"""
        if self.frame_mode:
            return
        n = self.S.as_arr(a).shp[0]
        self._obl('index', self.tm.band(self.tm.le(self.tm.ZERO, self.S.term(i)), self.tm.lt(self.S.term(i), n)))
        if self.obls[-1]['status'] == 'proved':
            v = self.at(a, i)
            self._given(self.I.truth_term(v <= self.call(np.max, a)))
            self._given(self.I.truth_term(self.call(np.min, a) <= v))

    def shifted_sum(self, n, m, s, g):
        """change of variable: SUM_{l<n, 0<=l+s<m} g(l+s) = SUM_{i<m, 0<=i-s<n} g(i)  (a fact about finite sums, built in)"""
        one = lambda l: self.ite(self.And(l + s >= 0, l + s < m), lambda: g(l + s), 0.0)
        two = lambda i: self.ite(self.And(i - s >= 0, i - s < n), lambda: g(i), 0.0)
        self._given(self.S.eq_t(self.S.scalar(self.sum(n, one)), self.S.scalar(self.sum(m, two))))

    def le(self, name, a, b, tol=None):
        if self.frame_mode:
            return
        self._obl(name, self.I.truth_term(self.S.lift(a) <= self.S.lift(b)))

    def is_type(self, name, x, t):
        if self.frame_mode:
            return
        c = x._cls if isinstance(x, self.S.Sym) else type(x)
        self._obl(name, self.tm.TRUE if issubclass(c, t) else self.tm.FALSE)

    # ---- spec helpers
    def at(self, a, *idx):
        S = self.S
        idx = tuple(S.term(i) for i in idx)
        if isinstance(a, S.SIndex):
            return a.f(idx[0])
        if isinstance(a, S.SList):
            r = a.f(idx[0])
            return self.at(r, *[S.SNum(i) for i in idx[1:]]) if len(idx) > 1 else r
        if isinstance(a, (list, tuple)):
            r = self.I.load_item(a, S.SNum(idx[0], kind='i'))
            return self.at(r, *[S.SNum(i) for i in idx[1:]]) if len(idx) > 1 else r
        if isinstance(a, (S.SSeries, S.SFrame)):
            a = a.arr
        a = S.as_arr(a)
        if len(idx) != a.ndim:
            raise S.Raised(IndexError('rank %d result indexed with %d indices' % (a.ndim, len(idx))))
        return a.get(*idx)

    def shape(self, a):
        if isinstance(a, (list, tuple)):
            return self.S.as_arr(a).shape
        return a.shape if isinstance(a, (self.S.SArr, self.S.SSeries, self.S.SFrame, self.S.SIndex)) else np.shape(a)

    def len(self, a):
        return self.I.call(len, (a,), {})

    def _body(self, n, f):
        S = self.S
        n = S.dim(n)
        with S.over(n, 'sb') as k:
            v = f(S.SNum(k, kind='i', py=True))
            if isinstance(v, S.SNum) and v.flagged and S.st().implied(self.tm.bnot(v.bad)):
                v = S.SNum(v.t, kind=v.kind)
        return n, k, v

    def sum(self, n, f):
        n, k, v = self._body(n, f)
        v = self.S.lift(v)
        if v.flagged:
            raise self.S.Unsupported('spec sum over special values')
        return self.S.SNum(self.tm.mk_sum(n, k, v.t), kind=v.kind)

    def csum(self, n, f):
        n, k, v = self._body(n, f)
        v = self.S.SCplx.of(v)
        return self.S.SCplx(self.S.SNum(self.tm.mk_sum(n, k, v.re.t)), self.S.SNum(self.tm.mk_sum(n, k, v.im.t)))

    def max(self, n, f):
        n, k, v = self._body(n, f)
        return self.S.SNum(self.tm.mk_ext('max', n, k, self.S.term(v)))

    def min(self, n, f):
        n, k, v = self._body(n, f)
        return self.S.SNum(self.tm.mk_ext('min', n, k, self.S.term(v)))

    def all(self, n, f):
        n, k, v = self._body(n, f)
        return self.S.SBool(self.tm.mk_all(n, k, self.I.truth_term(v)))

    def any(self, n, f):
        n, k, v = self._body(n, f)
        return self.S.SBool(self.tm.bnot(self.tm.mk_all(n, k, self.tm.bnot(self.I.truth_term(v)))))

    def count(self, n, f):
        n, k, v = self._body(n, f)
        return self.S.SNum(self.tm.mk_sum(n, k, self.tm.ind(self.I.truth_term(v))), kind='i')

    def ite(self, c, a, b):
        t = self.I.truth_term(c)
        st = self.S.st()
        if t is self.tm.TRUE or st.implied(t):
            return a() if callable(a) else a
        if t is self.tm.FALSE or st.implied(self.tm.bnot(t)):
            return b() if callable(b) else b
        st.ctx.append(t)
        try:
            x = a() if callable(a) else a
        finally:
            st.ctx.pop()
        st.ctx.append(self.tm.bnot(t))
        try:
            y = b() if callable(b) else b
        finally:
            st.ctx.pop()
        return self.I.merge(t, x, y)

    def _t(self, c):
        return self.I.truth_term(c() if callable(c) else c)

    def And(self, *cs):
        tm = self.tm
        r = tm.TRUE
        st = self.S.st()
        n0 = len(st.ctx)
        try:
            for c in cs:
                t = self._t(c)
                r = tm.band(r, t)
                st.ctx.append(t)
        finally:
            del st.ctx[n0:]
        return self.S.SBool(r)

    def Or(self, *cs):
        return self.S.SBool(self.tm.bor(*[self._t(c) for c in cs]))

    def Not(self, c):
        return self.S.SBool(self.tm.bnot(self._t(c)))

    def implies(self, a, b):
        t = self._t(a)
        st = self.S.st()
        st.ctx.append(t)
        try:
            u = self._t(b)
        finally:
            st.ctx.pop()
        return self.S.SBool(self.tm.bor(self.tm.bnot(t), u))

    def iff(self, a, b):
        return self.S.SBool(self.tm.biff(self._t(a), self._t(b)))

    def isnan(self, x):
        return self.S.SBool(self.S.isnan_t(x))

    def fin(self, x):
        x = self.S.lift(x)
        return self.S.SBool(self.tm.bnot(x.bad))

    def sqrt(self, x):
        return self.S.sqrt(x)

    def sin(self, x):
        return self.S.fun1('sin')(x)

    def cos(self, x):
        return self.S.fun1('cos')(x)

    def exp(self, x):
        return self.S.fun1('exp')(x)

    def atan2(self, y, x):
        from . import models
        return models.atan2(y, x)

    def floor(self, x):
        return self.S.SNum(self.tm.floor(self.S.lift(x).t), kind='i')

    def abs(self, x):
        return abs(x)

    def div(self, a, b):
        a, b = self.S.lift(a), self.S.lift(b)
        a = self.S.SNum(a.t, a.nan, a.pinf, a.ninf, a.kind)
        b = self.S.SNum(b.t, b.nan, b.pinf, b.ninf, b.kind)
        return a / b

    def same(self, a, b):
        return self.S.SBool(self.S.eq_t(self.S.scalar(a), self.S.scalar(b)))

    def branch(self, c):
        return self.S.st().decide(self.I.truth_term(c))


class _NPFacade:
    def __init__(self, cx):
        self._cx = cx

    def __getattr__(self, a):
        f = getattr(np, a)
        if callable(f) and not isinstance(f, type):
            return lambda *x, **k: self._cx.I.call(f, x, k)
        return f
