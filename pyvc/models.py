"""Contracts of the library functions the repository calls (assumed, listed in the evidence).

Each model states what the real library function returns for finite/NaN/inf mathematical values; the
numerical-library ones without a closed form (FFT, Welch, interpolation, projections, ...) are
uninterpreted functions of their arguments with the defining facts stated where they are needed."""
import builtins
import math
import enum
import warnings
import datetime
import numpy as np
import pandas as pd
from fractions import Fraction
from . import terms as tm
from .terms import TRUE, FALSE, ZERO, ONE
from . import sym as S
from .sym import (Sym, SNum, SBool, SArr, SList, SSeries, SFrame, SIndex, SLab, STime, SDelta, SCplx, Unsupported, Raised, st, over,
                  term, dim, dimval, bool_t, scalar, lift, as_arr, map1, mapn, reduce_, sel, isnan_t)
from . import interp as I
from .interp import MODELS, ALWAYS, INLINE, TypeOf


def model(*fns, always=False):
    def d(f):
        for fn in fns:
            MODELS[fn] = f
            if always:
                ALWAYS.add(fn)
        return f
    return d


# ------------------------------------------------------------------ builtins
def _cls_of(x):
    if isinstance(x, Sym):
        return x._cls
    if isinstance(x, I.SFunc):
        import types
        return types.FunctionType
    return type(x)


@model(builtins.isinstance)
def m_isinstance(x, c):
    cs = c if isinstance(c, tuple) else (c,)
    k = _cls_of(x)
    for q in cs:
        q = q.c if isinstance(q, TypeOf) else q
        try:
            if issubclass(k, q):
                return True
        except TypeError as e:
            raise Raised(e)
    return False


@model(builtins.hasattr)
def m_hasattr(x, a):
    if isinstance(x, Sym):
        try:
            I.get_attr(x, a)
            return True
        except Raised as r:
            if isinstance(r.exc, AttributeError):
                return False
            raise
        except Unsupported:
            return hasattr(x._cls, a)
    return hasattr(x, a)


@model(builtins.getattr)
def m_getattr(x, a, *d):
    try:
        return I.get_attr(x, a)
    except Raised as r:
        if d and isinstance(r.exc, AttributeError):
            return d[0]
        raise


@model(builtins.type)
def m_type(x):
    return TypeOf(_cls_of(x)) if isinstance(x, Sym) else type(x)


@model(builtins.callable)
def m_callable(x):
    return isinstance(x, I.SFunc) or not isinstance(x, Sym)


@model(builtins.id)
def m_id(x):
    return id(x)


@model(builtins.len)
def m_len(x):
    if isinstance(x, SArr):
        if not x.shp:
            raise Raised(TypeError('len() of unsized object'))
        return dimval(x.shp[0])
    if isinstance(x, (SSeries, SFrame)):
        return dimval(x.arr.shp[0])
    if isinstance(x, (SIndex, SList)):
        return dimval(x.n)
    if isinstance(x, Sym):
        raise Raised(TypeError('object has no len()'))
    return len(x)


@model(builtins.range)
def m_range(*a):
    if len(a) == 1:
        lo, hi, step = 0, a[0], 1
    else:
        lo, hi, step = a[0], a[1], a[2] if len(a) > 2 else 1
    step = int(step)
    lo, hi = term(lo), term(hi)
    if step == 1:
        n = tm.sub(hi, lo)
    elif step == -1:
        n = tm.sub(lo, hi)
    else:
        raise Unsupported('range step')
    if not st().implied(tm.le(ZERO, n)):
        n = tm.fmax(n, ZERO)
    return SList(n, lambda k: SNum(tm.add(lo, tm.scale(k, step)), kind='i', py=True))


@model(builtins.enumerate)
def m_enumerate(x, start=0):
    it = I.iterate(x)
    if isinstance(it, SList):
        s = term(start)
        return SList(it.n, lambda k: (SNum(tm.add(s, k), kind='i', py=True), it.f(k)))
    return list(enumerate(it, int(start)))


@model(builtins.zip)
def m_zip(*xs, **kw):
    its = [I.iterate(x) for x in xs]
    if any(isinstance(i, SList) for i in its):
        ns = [i.n if isinstance(i, SList) else tm.num(len(i)) for i in its]
        n = ns[0]
        for m in ns[1:]:
            if not S.same_dim(n, m):
                if st().implied(tm.le(n, m)):
                    continue
                if st().implied(tm.le(m, n)):
                    n = m
                else:
                    n = tm.fmin(n, m)
        fs = [i.f if isinstance(i, SList) else (lambda k, i=i: I.load_item(i, SNum(k, kind='i'))) for i in its]
        return SList(n, lambda k: tuple(f(k) for f in fs))
    return list(zip(*its))


@model(builtins.list)
def m_list(x=()):
    it = I.iterate(x)
    return it if isinstance(it, SList) else list(it)


@model(builtins.tuple)
def m_tuple(x=()):
    it = I.iterate(x)
    if isinstance(it, SList):
        r = SList(it.n, it.f)
        r._cls = tuple
        return r
    return tuple(it)


@model(builtins.iter)
def m_iter(x):
    return I.iterate(x)


@model(builtins.reversed)
def m_reversed(x):
    it = I.iterate(x)
    if isinstance(it, SList):
        return SList(it.n, lambda k: it.f(tm.sub(tm.sub(it.n, ONE), k)))
    return list(reversed(it))


@model(builtins.set)
def m_set(x=()):
    raise Unsupported('set of symbolic values')


@model(builtins.dict)
def m_dict(*a, **k):
    if a and isinstance(a[0], S.SDict):
        return a[0].copy()
    if a and not k:
        it = I.iterate(a[0]) if not isinstance(a[0], dict) else a[0]
        if isinstance(it, SList):
            return S.SDict(it)
    return dict(*a, **k)


@model(builtins.sorted)
def m_sorted(x, key=None, reverse=False):
    it = I.iterate(x)
    if isinstance(it, SList):
        return S._sorted(it, key, reverse)
    if len(it) == 2 and key is None:
        a, b = [scalar(i) for i in it]
        lo = sel(tm.le(term(a), term(b)), a, b)
        hi = sel(tm.le(term(a), term(b)), b, a)
        return [hi, lo] if reverse else [lo, hi]
    raise Unsupported('sorted')


@model(builtins.all)
def m_all(x):
    it = I.iterate(x)
    if isinstance(it, SList):
        with over(it.n, 'al') as k:
            t = I.truth_term(it.f(k))
        return SBool(tm.mk_all(it.n, k, t))
    r = TRUE
    for i in it:
        r = tm.band(r, I.truth_term(i))
    return SBool(r) if r not in (TRUE, FALSE) else r is TRUE


@model(builtins.any)
def m_any(x):
    it = I.iterate(x)
    if isinstance(it, SList):
        with over(it.n, 'an') as k:
            t = I.truth_term(it.f(k))
        return SBool(tm.bnot(tm.mk_all(it.n, k, tm.bnot(t))))
    r = FALSE
    for i in it:
        r = tm.bor(r, I.truth_term(i))
    return SBool(r) if r not in (TRUE, FALSE) else r is TRUE


@model(builtins.sum)
def m_sum(x, start=0):
    if isinstance(x, SArr) and x.filt and x.ndim == 1:
        r = reduce_(x, 'sum', 0)
        return r + start if start != 0 else r
    it = I.iterate(x)
    if isinstance(it, SList):
        a = it.arr()
        r = reduce_(a, 'sum', 0)
        return r + start if start != 0 else r
    r = start
    for i in it:
        r = I.binary('add', r, i)
    return r


def _minmax(op):
    def f(*xs, key=None, default=None):
        if key is not None:
            raise Unsupported('min/max key')
        if len(xs) == 1:
            it = I.iterate(xs[0])
            if isinstance(it, SList):
                return reduce_(it.arr(), op, 0)
            xs = it
        r = xs[0]
        for y in xs[1:]:
            a, b = scalar(r), scalar(y)
            # python: max keeps the first unless the later is strictly greater
            c = (b > a) if op == 'max' else (b < a)
            r = sel(bool_t(c), b, a)
        return r
    return f


MODELS[builtins.max] = _minmax('max')
MODELS[builtins.min] = _minmax('min')


@model(builtins.abs)
def m_abs(x):
    return abs(x)


@model(builtins.bool)
def m_bool(x):
    t = I.truth_term(x)
    return SBool(t) if t not in (TRUE, FALSE) else t is TRUE


@model(builtins.int, np.int64, np.int32, np.int16)
def m_int(x=0):
    if isinstance(x, SArr):
        x = x.item()
    if isinstance(x, SBool):
        return x.num()
    if isinstance(x, SLab):
        return SNum(tm.app('int_of_str', (x.t,), 'I'), kind='i', py=True)
    x = lift(x)
    if x is NotImplemented:
        raise Unsupported('int()')
    if x.flagged:
        if not st().implied(tm.bnot(x.bad)):
            if st().decide(x.nan):
                raise Raised(ValueError('cannot convert float NaN to integer'))
            if st().decide(tm.bor(x.pinf, x.ninf)):
                raise Raised(OverflowError('cannot convert float infinity to integer'))
    r = S.coerce_to(SNum(x.t, kind=x.kind), 'i')
    return SNum(r.t, kind='i', py=True)


@model(builtins.float, np.float64)
def m_float(x=0.0):
    if isinstance(x, SArr):
        x = x.item()
    if isinstance(x, SLab):
        return SNum(tm.app('float_of_str', (x.t,), 'R'), kind='f', py=True)
    if isinstance(x, SCplx):
        raise Raised(TypeError('float of complex'))
    x = lift(x)
    if x is NotImplemented:
        raise Unsupported('float()')
    return SNum(x.t, x.nan, x.pinf, x.ninf, 'f', True)


@model(builtins.str, builtins.repr)
def m_str(x=''):
    if isinstance(x, SNum):
        return S.SStr((x.t,))
    return SLab(x.t) if isinstance(x, SLab) else '<sym>'


@model(builtins.print, warnings.warn)
def m_print(*a, **k):
    return None


@model(builtins.round, np.round, np.around)
def m_round(x, nd=0, decimals=0):
    nd = nd or decimals
    if nd:
        raise Unsupported('round to digits')

    def f(v):
        v = lift(v)
        if v.kind == 'i':
            return v
        h = tm.num(Fraction(1, 2))
        fl = tm.floor(tm.add(v.t, h))
        tie = tm.eq(tm.add(v.t, h), fl)
        odd = tm.bnot(tm.eq(tm.scale(tm.floor(tm.scale(fl, Fraction(1, 2))), 2), fl))
        return SNum(tm.ite(tm.band(tie, odd), tm.sub(fl, ONE), fl), v.nan, v.pinf, v.ninf, 'f')
    return map1(f, x)


@model(builtins.slice)
def m_slice(*a):
    if len(a) == 1:
        return slice(None, a[0], None)
    return slice(*a)


@model(builtins.map)
def m_map(f, *xs):
    it = m_zip(*xs)
    if isinstance(it, SList):
        return SList(it.n, lambda k: I.call(f, it.f(k), {}))
    return [I.call(f, t, {}) for t in it]


# ------------------------------------------------------------------ numpy: elementwise
def ew(fn, kind=None):
    def f(x, *a, where=None, out=None, dtype=None, **k):
        if where is not None or out is not None or k:
            raise Unsupported('ufunc options')
        return map1(lambda v: fn(scalar(v)), x, kind)
    return f


def reg(np_fn, fn, kind=None):
    MODELS[np_fn] = ew(fn, kind)


reg(np.sqrt, S.sqrt)
for _n in ('sin', 'cos', 'exp', 'log'):
    if _n == 'exp':
        reg(np.exp, S.cexp)
    else:
        reg(getattr(np, _n), S.fun1(_n))
reg(math.sqrt if False else np.abs, S.sabs)
MODELS[np.absolute] = MODELS[np.abs]
MODELS[np.fabs] = MODELS[np.abs]
RAD = tm.scale(tm.PI, Fraction(1, 180))


def _deg(v):
    v = lift(v)
    return SNum(tm.mul(v.t, RAD), v.nan, v.pinf, v.ninf, 'f')


def _rad2deg(v):
    v = lift(v)
    return SNum(tm.div(v.t, RAD), v.nan, v.pinf, v.ninf, 'f')


reg(np.deg2rad, _deg)
reg(np.radians, _deg)
reg(np.rad2deg, _rad2deg)
reg(np.degrees, _rad2deg)
reg(np.isnan, lambda v: SBool(isnan_t(v)), 'b')
reg(np.isfinite, lambda v: SBool(tm.bnot(v.bad)) if isinstance(v, SNum) else SBool(TRUE), 'b')
reg(np.isinf, lambda v: SBool(tm.bor(v.pinf, v.ninf)) if isinstance(v, SNum) else SBool(FALSE), 'b')
reg(np.square, lambda v: v * v)
reg(np.conj, lambda v: v.conj() if isinstance(v, SCplx) else v)
MODELS[np.conjugate] = MODELS[np.conj]
reg(np.real, lambda v: v.re if isinstance(v, SCplx) else v)
reg(np.imag, lambda v: v.im if isinstance(v, SCplx) else lift(0.0))
reg(np.logical_not, lambda v: SBool(tm.bnot(bool_t(v))), 'b')
reg(np.invert, lambda v: ~v)
reg(np.negative, lambda v: -v)
reg(np.positive, lambda v: v)


def _sign(v):
    v = lift(v)
    return SNum(tm.sub(tm.ind(tm.lt(ZERO, v.t)), tm.ind(tm.lt0(v.t))), v.nan, kind=v.kind) if not (v.pinf is not FALSE or v.ninf is not FALSE) else _uns('sign inf')


def _uns(m):
    raise Unsupported(m)


reg(np.sign, _sign)


def _floor(v):
    v = lift(v)
    return SNum(tm.floor(v.t), v.nan, v.pinf, v.ninf, 'f')


reg(np.floor, _floor)
reg(np.ceil, lambda v: -_floor(-lift(v)))
reg(np.trunc, lambda v: SNum(S.coerce_to(v, 'i').t, kind='f'))


def _angle(v):
    if isinstance(v, SCplx):
        return atan2(v.im, v.re)
    return atan2(lift(0.0), v)


MODELS[np.angle] = lambda x, deg=False: (lambda x: map1(lambda v: _angle(scalar(v)) if not deg else _rad2deg(_angle(scalar(v))), x, 'f'))(_unpd(x))


def _at2(y, x):
    if y is tm.ZERO:
        return tm.mul(tm.ind(tm.lt(x, tm.ZERO)), tm.PI)
    return tm.app('atan2', (y, x))


def atan2(y, x):
    y, x = lift(y), lift(x)
    return SNum(_at2(y.t, x.t), tm.bor(y.nan, x.nan), kind='f') if not (y.flagged or x.flagged) else _flag_atan2(y, x)


def _flag_atan2(y, x):
    inf = tm.bor(y.pinf, y.ninf, x.pinf, x.ninf)
    if inf is not FALSE and not st().implied(tm.bor(y.nan, x.nan, tm.bnot(inf))):
        raise Unsupported('atan2 of infinities' + (tm.show(tm.bor(y.pinf, x.pinf))[:600] if S.DEBUG_ else ''))
    return SNum(_at2(y.t, x.t), tm.bor(y.nan, x.nan), kind='f')


def ew2(fn, kind=None):
    def f(a, b, *r, where=None, out=None, **k):
        if where is not None or out is not None or k or r:
            raise Unsupported('ufunc options')
        return bin_wrap(lambda x, y: fn(scalar(x), scalar(y)), a, b, kind)
    return f


def bin_wrap(fn, a, b, kind=None):
    """binary ufunc on mixtures of scalars / arrays / Series / DataFrames"""
    pa = a if isinstance(a, (SSeries, SFrame)) else S.wrap_pd(a) if isinstance(a, (pd.Series, pd.DataFrame)) else None
    pb = b if isinstance(b, (SSeries, SFrame)) else S.wrap_pd(b) if isinstance(b, (pd.Series, pd.DataFrame)) else None
    if pa is not None or pb is not None:
        if pa is not None and pb is not None:
            if type(pa) is not type(pb) or not S.same_index(pa.index, pb.index):
                raise Unsupported('alignment in ufunc')
        p = pa if pa is not None else pb
        r = mapn(fn, [pa.arr if pa is not None else a, pb.arr if pb is not None else b], kind)
        if isinstance(p, SSeries):
            return SSeries(r, p.index, p.name if pa is None or pb is None or pa.name == pb.name else None)
        return SFrame(r, p.index, p.columns)
    arrs = (SArr, SIndex, SList, list, tuple, np.ndarray)
    if isinstance(a, arrs) or isinstance(b, arrs):
        r = mapn(fn, [a, b], kind)
        return r if r.ndim else r.get()
    return fn(a, b)


MODELS[np.arctan2] = ew2(atan2)
MODELS[np.minimum] = ew2(lambda a, b: _nanprop(a, b, 'min'))
MODELS[np.maximum] = ew2(lambda a, b: _nanprop(a, b, 'max'))


def _nanprop(a, b, op):
    a, b = lift(a), lift(b)
    c = (a <= b) if op == 'min' else (a >= b)
    r = sel(bool_t(c), a, b)
    if a.nan is FALSE and b.nan is FALSE:
        return r
    nan = tm.bor(a.nan, b.nan)
    return SNum(r.t, nan, tm.band(tm.bnot(nan), r.pinf), tm.band(tm.bnot(nan), r.ninf), r.kind)


for _f, _op in ((np.add, 'add'), (np.subtract, 'sub'), (np.multiply, 'mul'), (np.divide, 'div'), (np.true_divide, 'div'), (np.power, 'pow'),
                (np.less, 'lt'), (np.less_equal, 'le'), (np.greater, 'gt'), (np.greater_equal, 'ge'), (np.equal, 'eq'), (np.not_equal, 'ne'),
                (np.mod, 'mod'), (np.floor_divide, 'floordiv'), (np.remainder, 'mod')):
    MODELS[_f] = ew2(S.sc_op(_op))
def _dtk(x):
    x = _unpd(x)
    if isinstance(x, SArr):
        return x.dtype_
    if isinstance(x, np.ndarray):
        return x.dtype.kind
    return 'b' if isinstance(x, (SBool, bool, np.bool_)) else getattr(lift(x), 'kind', 'i')


for _f, _g, _bit in ((np.logical_and, tm.band, False), (np.logical_or, tm.bor, False), (np.bitwise_and, tm.band, True), (np.bitwise_or, tm.bor, True)):
    def _lg(a, b, g=_g, bit=_bit):
        if bit:
            ks = [_dtk(a), _dtk(b)]
            if 'f' in ks:
                raise Raised(TypeError("ufunc 'bitwise' not supported for the input types"))
            if ks != ['b', 'b']:
                raise Unsupported('bitwise operation on integers')

        def fn(x, y):
            return SBool(g(bool_t(x), bool_t(y)))
        return bin_wrap(lambda x, y: fn(scalar(x), scalar(y)), a, b, 'b')
    MODELS[_f] = _lg


@model(np.hypot)
def m_hypot(a, b):
    return bin_wrap(lambda x, y: S.sqrt(scalar(x) * scalar(x) + scalar(y) * scalar(y)), a, b)


@model(np.clip)
def m_clip(x, a_min=None, a_max=None, **k):
    r = x
    if a_min is not None:
        r = MODELS[np.maximum](r, a_min)
    if a_max is not None:
        r = MODELS[np.minimum](r, a_max)
    return r


@model(np.where)
def m_where(c, a=None, b=None):
    if a is None:
        return _nonzero(c)
    r = mapn(lambda p, x, y: sel(bool_t(p), scalar(x), scalar(y)), [_unpd(c), _unpd(a), _unpd(b)])
    return r


def _unpd(x):
    return x.arr if isinstance(x, (SSeries, SFrame)) else x


@model(np.nonzero)
def _nonzero(c):
    c = as_arr(c)
    if c.ndim != 1:
        raise Unsupported('nonzero of n-d array')
    n = c.shp[0]
    snap = c.snapshot()
    r = S.filtered(n, lambda k: bool_t(snap((k,))), lambda k, rest: SNum(k, kind='i'), (), 'i')
    return (r,)


@model(np.isclose)
def m_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        x, y = lift(x), lift(y)
        d = abs(x - y) <= (lift(atol) + lift(rtol) * abs(y))
        return SBool(tm.band(bool_t(d), tm.bnot(tm.bor(x.bad, y.bad)))) if x.flagged or y.flagged else d
    return bin_wrap(lambda x, y: f(scalar(x), scalar(y)), a, b, 'b')


@model(np.allclose)
def m_allclose(a, b, **k):
    r = m_isclose(a, b, **k)
    return reduce_(as_arr(r), 'all', None)


@model(np.nan_to_num)
def m_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(v):
        v = lift(v)
        if v.pinf is not FALSE or v.ninf is not FALSE:
            raise Unsupported('nan_to_num inf')
        return sel(v.nan, lift(nan), SNum(v.t, kind=v.kind))
    return map1(f, x)


# ------------------------------------------------------------------ numpy: construction and shape
def _shape(s):
    if isinstance(s, (int, np.integer, SNum)):
        return (s,)
    if isinstance(s, SArr):
        return tuple(s)
    return tuple(s)


@model(np.array, np.asarray, np.ascontiguousarray, np.asanyarray)
def m_asarray(x, dtype=None, copy=None, **k):
    return as_arr(x, dtype)


@model(np.array, np.copy)
def m_array(x, dtype=None, copy=True, ndmin=0, **k):
    r = as_arr(x, dtype)
    if isinstance(x, (SArr, SSeries, SFrame)):
        r = r.copy()
    while r.ndim < ndmin:
        r = r[None]
    return r


@model(np.atleast_1d)
def m_atleast_1d(x):
    a = as_arr(x)
    return a if a.ndim else S.full((ONE,), a.get())


@model(np.atleast_2d)
def m_atleast_2d(x):
    a = as_arr(x)
    if a.ndim == 0:
        return S.full((ONE, ONE), a.get())
    return a if a.ndim >= 2 else a[None, :]


def _const(v):
    def f(shape, dtype=float, order='C', **k):
        kind = S.dtype_kind(dtype)
        val = S.coerce_to(scalar(v), kind) if kind in 'fibc' else scalar(v)
        return S.full(_shape(shape), val, kind)
    return f


MODELS[np.zeros] = _const(0)
MODELS[np.ones] = _const(1)


@model(np.empty)
def m_empty(shape, dtype=float, **k):
    kind = S.dtype_kind(dtype)
    nm = 'uninit!%d' % S.SERIAL[0]
    S.SERIAL[0] += 1
    sort = {'b': 'B', 'O': 'L'}.get(kind, 'R')
    w = {'b': SBool, 'O': SLab}.get(kind, lambda t: SNum(t, kind=kind))
    if kind == 'c':
        return SArr(_shape(shape), lambda idx: SCplx(SNum(tm.app(nm, idx)), SNum(tm.app(nm + 'i', idx))), 'c')
    return SArr(_shape(shape), lambda idx: w(tm.app(nm, idx, sort)), kind)


@model(np.full)
def m_full(shape, v, dtype=None, **k):
    kind = S.dtype_kind(dtype)
    if isinstance(v, SArr) and v.ndim:
        return m_broadcast_to(v, shape)
    if isinstance(v, SArr):
        v = v.get()
    val = scalar(v)
    if kind and kind in 'fibc':
        val = S.coerce_to(val, kind)
    return S.full(_shape(shape), val, kind)


def _like(v):
    def f(a, dtype=None, **k):
        b = _unpd(a)
        b = as_arr(b)
        kind = S.dtype_kind(dtype) or b.dtype_
        if v is None:
            r = m_empty(b.shape, dtype={'f': float, 'i': int, 'b': bool, 'c': complex}.get(kind, object))
        else:
            r = S.full(b.shp, S.coerce_to(scalar(v), kind) if kind in 'fibc' else scalar(v), kind)
        return r           # a plain array, also for pandas arguments
    return f


MODELS[np.zeros_like] = _like(0)
MODELS[np.ones_like] = _like(1)
MODELS[np.empty_like] = _like(None)


@model(np.full_like)
def m_full_like(a, v, dtype=None, **k):
    b = as_arr(_unpd(a))
    kind = S.dtype_kind(dtype) or b.dtype_
    return S.full(b.shp, S.coerce_to(scalar(v), kind), kind)


@model(np.arange)
def m_arange(*a, dtype=None):
    if len(a) == 1:
        lo, hi, step = 0, a[0], 1
    else:
        lo, hi, step = a[0], a[1], a[2] if len(a) > 2 else 1
    lo, hi, step = lift(lo), lift(hi), lift(step)
    if lo.flagged or hi.flagged or step.flagged:
        raise Unsupported('arange of special values')
    isint = lo.kind == hi.kind == step.kind == 'i'
    d = tm.sub(hi.t, lo.t)
    if tm.numval(step.t) is not None and tm.numval(step.t) == 1 and isint:
        n = d
    else:
        n = tm.neg(tm.floor(tm.neg(tm.div(d, step.t))))
    if not st().implied(tm.le(ZERO, n)):
        n = tm.fmax(n, ZERO)
    k = 'i' if isint else 'f'
    return SArr((n,), lambda idx: SNum(tm.add(lo.t, tm.mul(idx[0], step.t)), kind=k), k)


@model(np.linspace)
def m_linspace(a, b, num=50, endpoint=True, **k):
    n = term(num)
    a, b = lift(a), lift(b)
    den = tm.sub(n, ONE) if endpoint else n
    # a single-point linspace is [a]
    def f(idx):
        t = tm.add(a.t, tm.mul(idx[0], tm.div(tm.sub(b.t, a.t), den)))
        if idx[0] is ZERO:
            t = a.t
        return SNum(t, tm.bor(a.nan, b.nan), kind='f')
    return SArr((n,), f, 'f')


@model(np.concatenate)
def m_concatenate(xs, axis=0, **k):
    xs = I.iterate(xs)
    if isinstance(xs, SList):
        raise Unsupported('concatenate of a symbolic number of arrays')
    if axis is None:
        xs = [as_arr(x).reshape(-1) for x in xs]
        axis = 0
    return S.concat(list(xs), axis)


@model(np.hstack)
def m_hstack(xs):
    xs = [m_atleast_1d(x) for x in I.iterate(xs)]
    return S.concat(xs, 0 if xs[0].ndim == 1 else 1)


@model(np.vstack)
def m_vstack(xs):
    return S.concat([m_atleast_2d(x) for x in I.iterate(xs)], 0)


@model(np.column_stack)
def m_column_stack(xs):
    xs = [as_arr(x) for x in I.iterate(xs)]
    return S.concat([x if x.ndim == 2 else x[:, None] for x in xs], 1)


@model(np.stack)
def m_stack(xs, axis=0):
    it = I.iterate(xs)
    if isinstance(it, SList):
        a = it.arr()
    else:
        a = S.stack([as_arr(x) for x in it])
    ax = int(axis)
    if ax < 0:
        ax += a.ndim
    if ax == 0:
        return a
    order = list(range(1, a.ndim))
    order.insert(ax, 0)
    return a.transpose(order)


@model(np.append)
def m_append(a, v, axis=None):
    a, v = as_arr(a), as_arr(v)
    if axis is None:
        a, v = a.reshape(-1), (v.reshape(-1) if v.ndim else S.full((ONE,), v.get()))
        axis = 0
    return S.concat([a, v], axis)


@model(np.transpose)
def m_transpose(a, axes=None):
    if isinstance(a, SFrame):
        return a.T
    return as_arr(a).transpose(axes)


@model(np.reshape)
def m_reshape(a, shape, order='C', **k):
    return as_arr(a).reshape(_shape(shape), order=order)


@model(np.ravel)
def m_ravel(a, order='C'):
    return as_arr(a).ravel(order)


@model(np.expand_dims)
def m_expand_dims(a, axis):
    a = as_arr(a)
    ax = int(axis)
    if ax < 0:
        ax += a.ndim + 1
    return a[tuple([slice(None)] * ax + [None])]


@model(np.squeeze)
def m_squeeze(a, axis=None):
    a = as_arr(a)
    shp = []
    for d, s in enumerate(a.shp):
        one = s is ONE or (s.op != 'num' and st().implied(tm.eq(s, ONE)))
        if axis is not None and int(axis) % a.ndim != d:
            one = False
        if not one:
            if s.op != 'num' and axis is None:
                if st().decide(tm.eq(s, ONE)):
                    continue
            shp.append(s)
    key = tuple(slice(None) for _ in a.shp)
    r = S.reshape(a, [dimval(s) for s in shp]) if shp else a.reshape(())
    return r


@model(np.shape)
def m_shape(a):
    if isinstance(a, (SArr, SSeries, SFrame, SIndex)):
        return a.shape
    return as_arr(a).shape


@model(np.size)
def m_size(a, axis=None):
    a = as_arr(a)
    return dimval(a.shp[int(axis)]) if axis is not None else a.size


@model(np.ndim)
def m_ndim(a):
    return as_arr(a).ndim


@model(np.repeat)
def m_repeat(a, reps, axis=None):
    a = as_arr(a)
    r = term(reps)
    if axis is None:
        a = a.reshape(-1) if a.ndim != 1 else a
        axis = 0
    ax = int(axis) % a.ndim
    snap = a.snapshot()
    single = a.shp[ax] is ONE or S.st().implied(tm.eq(a.shp[ax], ONE))
    shp = a.shp[:ax] + (r if single else tm.mul(a.shp[ax], r),) + a.shp[ax + 1:]

    def f(idx):
        q = ZERO if single else S.divmod_terms(idx[ax], r)[0]
        return snap(idx[:ax] + (q,) + idx[ax + 1:])
    return SArr(shp, f, a.dtype_)


@model(np.tile)
def m_tile(a, reps):
    a = as_arr(a)
    reps = [term(x) for x in _shape(reps)]
    while len(reps) < a.ndim:
        reps.insert(0, ONE)
    while a.ndim < len(reps):
        a = a[None]
    snap = a.snapshot()
    shp = tuple(tm.mul(x, r) for x, r in zip(a.shp, reps))

    def f(idx):
        out = []
        for i, s, r in zip(idx, a.shp, reps):
            out.append(i if r is ONE else ZERO if s is ONE else S.divmod_terms(i, s)[1])
        return snap(tuple(out))
    return SArr(shp, f, a.dtype_)


@model(np.broadcast_to)
def m_broadcast_to(a, shape):
    a = as_arr(a)
    shp = tuple(dim(s) for s in _shape(shape))
    S.bshape(a.shp, shp)
    snap = a.snapshot()
    return SArr(shp, lambda idx: snap(S.bidx(a.shp, idx)), a.dtype_)


@model(np.broadcast_arrays)
def m_broadcast_arrays(*xs):
    xs = [as_arr(x) for x in xs]
    shp = S.bshape(*[x.shp for x in xs])
    return [m_broadcast_to(x, [dimval(s) for s in shp]) for x in xs]


@model(np.meshgrid)
def m_meshgrid(x, y, indexing='xy', **k):
    x, y = as_arr(x), as_arr(y)
    xs, ys = x.snapshot(), y.snapshot()
    if indexing == 'xy':
        shp = (y.shp[0], x.shp[0])
        return [SArr(shp, lambda i: xs((i[1],)), x.dtype_), SArr(shp, lambda i: ys((i[0],)), y.dtype_)]
    shp = (x.shp[0], y.shp[0])
    return [SArr(shp, lambda i: xs((i[0],)), x.dtype_), SArr(shp, lambda i: ys((i[1],)), y.dtype_)]


@model(np.flip)
def m_flip(a, axis=None):
    a = as_arr(a)
    axes = range(a.ndim) if axis is None else [int(axis) % a.ndim]
    snap = a.snapshot()
    return SArr(a.shp, lambda idx: snap(tuple(tm.sub(tm.sub(s, ONE), i) if d in axes else i for d, (i, s) in enumerate(zip(idx, a.shp)))), a.dtype_)


@model(np.diff)
def m_diff(a, n=1, axis=-1, **k):
    if n != 1 or k:
        raise Unsupported('diff options')
    if isinstance(a, SIndex) and a.kind == 'dt':
        raise Unsupported('np.diff of times')
    a = as_arr(a)
    ax = int(axis) % a.ndim
    snap = a.snapshot()
    shp = a.shp[:ax] + (tm.sub(a.shp[ax], ONE),) + a.shp[ax + 1:]

    def f(idx):
        return scalar(snap(idx[:ax] + (tm.add(idx[ax], ONE),) + idx[ax + 1:])) - scalar(snap(idx))
    return SArr(shp, f, a.dtype_ if a.dtype_ != 'dt' else 'td')


@model(np.roll)
def m_roll(a, shift, axis=None):
    a = as_arr(a)
    if axis is None and a.ndim != 1:
        raise Unsupported('roll')
    ax = 0 if axis is None else int(axis) % a.ndim
    s = term(shift)
    n = a.shp[ax]
    snap = a.snapshot()
    if st().implied(tm.band(tm.le(ZERO, s), tm.lt(s, n))):
        m = s
    elif st().implied(tm.band(tm.lt(s, ZERO), tm.lt(ZERO, tm.add(s, n)))):
        m = tm.add(s, n)
    else:
        m = tm.app('imod', (s, n), 'I')

    def f(idx):
        i = idx[ax]
        j = tm.sub(i, m)
        j = tm.ite(tm.lt0(j), tm.add(j, n), j)
        return snap(idx[:ax] + (j,) + idx[ax + 1:])
    return SArr(a.shp, f, a.dtype_)


@model(np.pad)
def m_pad(a, width, mode='constant', constant_values=0, **k):
    a = as_arr(a)
    if mode != 'constant' or a.ndim != 1:
        raise Unsupported('pad')
    w = width
    if isinstance(w, (list, tuple)) and len(w) == 1:
        w = w[0]
    lo, hi = (w if isinstance(w, (list, tuple)) else (w, w))
    lo, hi = term(lo), term(hi)
    c = S.coerce_to(scalar(constant_values), a.dtype_)
    return S.concat([S.full((lo,), c), a, S.full((hi,), c)], 0)


@model(np.matmul, np.dot)
def m_matmul(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim == 0 or b.ndim == 0:
        return S.binop('mul', a, b)
    n = a.shp[-1]
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported('matmul rank')
    if not S.same_dim(n, b.shp[0]):
        raise Raised(ValueError('matmul: mismatch in its core dimension'))
    fa, fb = a.snapshot(), b.snapshot()

    def f(idx):
        i = idx[:a.ndim - 1]
        j = idx[a.ndim - 1:]
        with over(n, 'mm') as k:
            v = scalar(fa(i + (k,))) * scalar(fb((k,) + j))
        if isinstance(v, SCplx):
            return SCplx(SNum(tm.mk_sum(n, k, term(v.re))), SNum(tm.mk_sum(n, k, term(v.im))))
        if v.flagged:
            raise Unsupported('matmul special values')
        return SNum(tm.mk_sum(n, k, v.t))
    shp = a.shp[:-1] + b.shp[1:]
    r = SArr(shp, f, S.join_kind(a.dtype_, b.dtype_))
    return r if shp else r.get()


@model(np.outer)
def m_outer(a, b):
    a, b = as_arr(a).reshape(-1), as_arr(b).reshape(-1)
    return a[:, None] * b[None, :]


def _ufunc_outer(fn):
    def f(a, b):
        a, b = as_arr(_unpd(a)), as_arr(_unpd(b))
        if a.ndim != 1 or b.ndim != 1:
            raise Unsupported('outer of tables')
        return MODELS[fn](a[:, None], b[None, :])
    return f


for _f in (np.add, np.subtract, np.multiply, np.divide):
    MODELS[_f.outer] = _ufunc_outer(_f)


# ------------------------------------------------------------------ numpy: reductions
def red(op, skipna=False, **kw):
    def f(a, axis=None, keepdims=False, out=None, dtype=None, ddof=0, where=None, **k):
        if where is not None:
            raise Unsupported('where=')
        if k and any(v is not np._NoValue for v in k.values()):
            raise Unsupported('reduction options %r' % list(k))
        if skipna and isinstance(a, (SSeries, SFrame)):
            a = a.arr                       # numpy's nan-functions return plain arrays
        if isinstance(a, SSeries) and op in ('sum', 'mean', 'max', 'min', 'std', 'var'):
            return reduce_(a.arr, op, 0, skipna='pd', ddof=ddof) if axis in (None, 0) else _uns('axis')
        if isinstance(a, SFrame):
            if axis is None:
                # np.mean(df) etc dispatches to the DataFrame method with axis=None (over all elements) or numpy array reduction
                return reduce_(a.arr, op, None, skipna=True if op in ('sum', 'mean', 'max', 'min', 'std', 'var') else skipna, ddof=ddof)
            if op in ('any', 'all'):
                r = reduce_(a.arr, op, axis)
            else:
                r = reduce_(a.arr, op, axis, skipna='pd', ddof=ddof)
            return SSeries(r, a.columns if int(axis) == 0 else a.index)
        a = as_arr(a)
        return reduce_(a, op, axis, keepdims=bool(keepdims), ddof=ddof, skipna=skipna)
    return f


for _f, _op in ((np.sum, 'sum'), (np.mean, 'mean'), (np.std, 'std'), (np.var, 'var'), (np.max, 'max'), (np.min, 'min'), (np.amax, 'max'),
                (np.amin, 'min'), (np.argmax, 'argmax'), (np.argmin, 'argmin'), (np.any, 'any'), (np.all, 'all')):
    MODELS[_f] = red(_op)
for _f, _op in ((np.nansum, 'sum'), (np.nanmean, 'mean'), (np.nanstd, 'std'), (np.nanvar, 'var'), (np.nanmax, 'max'), (np.nanmin, 'min')):
    MODELS[_f] = red(_op, skipna=True)


@model(np.count_nonzero)
def m_count_nonzero(a, axis=None):
    a = as_arr(a)
    return reduce_(map1(lambda v: SNum(tm.ind(bool_t(v)), kind='i'), a, 'i'), 'sum', axis)


@model(np.average)
def m_average(a, axis=None, weights=None):
    if weights is not None:
        raise Unsupported('weighted average')
    return MODELS[np.mean](a, axis)


def _quantile(scale_):
    def f(a, q, axis=None, **k):
        a = as_arr(_unpd(a))
        method = k.get('method', 'linear')
        if method != 'linear':
            raise Unsupported('quantile method')
        qt = lift(q) if not isinstance(q, (list, tuple, SArr, np.ndarray)) else None
        if qt is None:
            qa = as_arr(q)
            if a.ndim != 1 and axis is not None:
                raise Unsupported('quantile axis')
            qs = qa.snapshot()
            return SArr(qa.shp, lambda idx: reduce_(a, 'quantile', axis, q=scalar(qs(idx)) * lift(scale_)), 'f')
        return reduce_(a, 'quantile', axis, q=qt * lift(scale_))
    return f


MODELS[np.quantile] = _quantile(1)
MODELS[np.percentile] = _quantile(Fraction(1, 100))


def _nanquantile(scale_):
    def f(a, q, axis=None, **k):
        a = as_arr(_unpd(a))
        return reduce_(a, 'quantile', axis, q=lift(q) * lift(scale_), skipna=True)
    return f


MODELS[np.nanquantile] = _nanquantile(1)
MODELS[np.nanpercentile] = _nanquantile(Fraction(1, 100))
MODELS[np.median] = lambda a, axis=None, **k: reduce_(as_arr(_unpd(a)), 'quantile', axis, q=Fraction(1, 2))
MODELS[np.nanmedian] = lambda a, axis=None, **k: reduce_(as_arr(_unpd(a)), 'quantile', axis, q=Fraction(1, 2), skipna=True)


@model(np.argsort)
def m_argsort(a, axis=-1, **k):
    a = as_arr(a)
    if a.ndim != 1:
        raise Unsupported('argsort n-d')
    return S._argsort(a)


@model(np.cumsum)
def m_cumsum(a, axis=None, **k):
    a = as_arr(a)
    if a.ndim != 1:
        raise Unsupported('cumsum n-d')
    snap = a.snapshot()

    def f(idx):
        k = tm.fresh('cs')
        n = tm.add(idx[0], ONE)
        st().ctx.append(tm.band(tm.le(ZERO, k), tm.lt(k, n), tm.lt(k, a.shp[0])))
        try:
            v = lift(snap((k,)))
        finally:
            st().ctx.pop()
        if v.flagged:
            raise Unsupported('cumsum special')
        return SNum(tm.mk_sum(n, k, v.t), kind=v.kind)
    return SArr(a.shp, f, a.dtype_)


# ------------------------------------------------------------------ numpy: misc
@model(np.errstate, np.seterr, always=True)
def m_errstate(*a, **k):
    return None


@model(np.array_equal)
def m_array_equal(a, b, **k):
    a, b = as_arr(a), as_arr(b)
    if a.ndim != b.ndim or any(not S.same_dim(x, y) for x, y in zip(a.shp, b.shp)):
        return False
    return reduce_(S.binop('eq', a, b), 'all', None)


@model(np.interp)
def m_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported('interp period')
    xp, fp = as_arr(xp), as_arr(fp)
    n = xp.shp[0]
    with over(n, 'ip') as k:
        xl = tm.lam(k, term(xp.get(k)))
        fl = tm.lam(k, term(fp.get(k)))
    nanl = left is not None and isnan_t(scalar(left)) is TRUE
    nanr = right is not None and isnan_t(scalar(right)) is TRUE
    lf = ZERO if nanl else term(left) if left is not None else tm.inst(fl, ZERO)
    rt = ZERO if nanr else term(right) if right is not None else tm.inst(fl, tm.sub(n, ONE))
    lo, hi = tm.inst(xl, ZERO), tm.inst(xl, tm.sub(n, ONE))

    def f(v):
        # piecewise linear inside the range of the knots, left/right outside (NaN as given)
        v = lift(v)
        below, above = tm.lt(v.t, lo), tm.lt(hi, v.t)
        if st().implied(tm.bnot(below)):
            below = FALSE
        if st().implied(tm.bnot(above)):
            above = FALSE
        r = tm.ite(below, ZERO if nanl else lf, tm.ite(above, ZERO if nanr else rt, tm.app('interp1', (n, xl, fl, v.t))))
        nan = tm.bor(v.nan, tm.band(below, TRUE if nanl else FALSE), tm.band(above, TRUE if nanr else FALSE))
        return SNum(tm.mul(r, tm.ind(tm.bnot(nan))) if nan is not FALSE else r, nan, kind='f')
    return map1(lambda v: f(scalar(v)), x, 'f')


# ------------------------------------------------------------------ pandas
@model(pd.isna, pd.isnull)
def m_isna(x):
    if isinstance(x, (SSeries, SFrame)):
        return x.isna()
    return map1(lambda v: SBool(isnan_t(v)), x, 'b')


@model(pd.notna, pd.notnull)
def m_notna(x):
    if isinstance(x, (SSeries, SFrame)):
        return map1(lambda v: SBool(tm.bnot(isnan_t(v))), x, 'b')
    return map1(lambda v: SBool(tm.bnot(isnan_t(v))), x, 'b')


@model(pd.Series)
def m_Series(data=None, index=None, name=None, dtype=None, **k):
    if isinstance(data, SSeries):
        if index is None:
            return SSeries(data.arr, data.index, name if name is not None else data.name)
        if S.same_index(S.cindex(index), data.index):
            return SSeries(data.arr, S.cindex(index), name if name is not None else data.name)
        raise Unsupported('Series reindex')
    if isinstance(data, dict):
        return SSeries(as_arr(list(data.values())), S.cindex(list(data.keys())), name)
    a = as_arr(data, dtype)
    if a.ndim == 0:
        ix = S.cindex(index)
        return SSeries(S.full((ix.n,), a.get()), ix, name)
    if a.ndim != 1:
        raise Raised(ValueError('Data must be 1-dimensional'))
    ix = S.range_index(a.shp[0]) if index is None else S.cindex(index)
    if not S.same_dim(ix.n, a.shp[0]):
        raise Raised(ValueError('Length of values does not match length of index'))
    return SSeries(a, ix, name)


@model(pd.DataFrame)
def m_DataFrame(data=None, index=None, columns=None, dtype=None, **k):
    if isinstance(data, (SFrame, SSeries)):
        if index is not None and not S.same_index(S.cindex(index), data.index):
            raise Unsupported('DataFrame(table, other index)')
        if columns is not None and isinstance(data, SFrame) and not S.same_index(S.cindex(columns), data.columns):
            raise Unsupported('DataFrame(table, other columns)')
        if columns is not None and isinstance(data, SSeries) and data.name is not None and not (isinstance(columns, list) and columns == [data.name]):
            raise Unsupported('DataFrame(series, other name)')
    if isinstance(data, SFrame):
        return SFrame(data.arr, data.index, data.columns)
    if isinstance(data, SSeries):
        return SFrame(data.arr.reshape(-1, 1), data.index, S.cindex(columns) if columns is not None else S.cindex([data.name if data.name is not None else 0]))
    if isinstance(data, dict):
        cols = list(data.keys())
        vals = []
        ix = None
        n = None
        for v in data.values():
            if isinstance(v, SSeries):
                ix = v.index if ix is None else ix
                if not S.same_index(ix, v.index):
                    raise Unsupported('frame of misaligned series')
                vals.append(v.arr)
            else:
                vals.append(as_arr(v))
        for v in vals:
            if v.ndim:
                n = v.shp[0]
        if index is not None:
            if ix is not None and not S.same_index(S.cindex(index), ix):
                raise Unsupported('frame of series under another index')
            ix = S.cindex(index)
        if ix is not None:
            n = ix.n
        if any(v.ndim and not S.same_dim(v.shp[0], n) for v in vals):
            if any(v.ndim and S.st().implied(tm.eq(v.shp[0], n)) is not True and not S.st().implied(tm.bnot(tm.eq(v.shp[0], n))) for v in vals):
                raise Unsupported('column lengths')
            raise Raised(ValueError('All arrays must be of the same length'))
        vals = [v if v.ndim else S.full((n,), v.get()) for v in vals]
        for v in vals:
            if v.filt:
                raise Unsupported('frame of filtered columns')
        return SFrame(S.as_cols(vals), S.range_index(n) if ix is None else ix, S.cindex(cols))
    if data is None:
        r = S.cindex(index)
        c = S.cindex(columns)
        return SFrame(S.full((r.n, c.n), float('nan'), 'f'), r, c)
    a = as_arr(data)
    if a.ndim == 0:
        r, c = S.cindex(index), S.cindex(columns)
        return SFrame(S.full((r.n, c.n), a.get()), r, c)
    if a.ndim == 1:
        a = a.reshape(-1, 1)
    ix = S.range_index(a.shp[0]) if index is None else S.cindex(index)
    cx = S.range_index(a.shp[1]) if columns is None else S.cindex(columns)
    if not S.same_dim(ix.n, a.shp[0]) or not S.same_dim(cx.n, a.shp[1]):
        raise Raised(ValueError('Shape of passed values does not match indices'))
    return SFrame(a, ix, cx)


@model(pd.Index)
def m_Index(x, **k):
    return S.cindex(as_arr(x) if not isinstance(x, (SIndex, list)) else x)


@model(pd.concat)
def m_concat(objs, axis=0, **k):
    objs = I.iterate(objs)
    if isinstance(objs, SList):
        raise Unsupported('concat of a symbolic number of frames')
    objs = [o if isinstance(o, Sym) else S.wrap_pd(o) for o in objs]
    if axis in (1, 'columns'):
        if all(isinstance(o, SSeries) for o in objs):
            if any(not S.same_index(objs[0].index, o.index) for o in objs[1:]):
                raise Unsupported('concat alignment')
            return SFrame(S.as_cols([o.arr for o in objs]), objs[0].index, S.cindex([o.name if o.name is not None else i for i, o in enumerate(objs)]))
        raise Unsupported('concat axis 1')
    if all(isinstance(o, SSeries) for o in objs):
        a = S.concat([o.arr for o in objs])
        ia = S.concat([o.index.arr() for o in objs])
        return SSeries(a, SIndex(ia.shp[0], lambda k: ia.get(k), objs[0].index.kind, False))
    raise Unsupported('concat of frames')


_UNITS = {'s': 1, 'sec': 1, 'second': 1, 'seconds': 1, 'ms': Fraction(1, 1000), 'us': Fraction(1, 10 ** 6), 'ns': Fraction(1, 10 ** 9),
          'm': 60, 'min': 60, 'minutes': 60, 'h': 3600, 'hours': 3600, 'd': 86400, 'D': 86400, 'days': 86400}


@model(pd.to_timedelta, pd.Timedelta, datetime.timedelta)
def m_timedelta(x=None, unit=None, **k):
    if isinstance(x, SDelta):
        return x
    if isinstance(x, S.SRule):
        return SDelta(x.t)
    tot = ZERO
    if x is not None:
        x = lift(x)
        if x.flagged and not st().implied(tm.bnot(x.bad)):
            raise Unsupported('Timedelta of a special value')
        tot = tm.scale(x.t, _UNITS[unit or 'ns'])
    for kk, v in k.items():
        tot = tm.add(tot, tm.scale(lift(v).t, {'seconds': 1, 'minutes': 60, 'hours': 3600, 'days': 86400, 'milliseconds': Fraction(1, 1000), 'microseconds': Fraction(1, 10 ** 6)}[kk]))
    return SDelta(tot)


import scipy.stats  # noqa
import scipy.signal  # noqa
import scipy.interpolate  # noqa
import scipy.optimize  # noqa
