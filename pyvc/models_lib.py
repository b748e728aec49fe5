"""Contracts of the third-party numerical libraries (pyproj, scipy, pvlib, ...): uninterpreted functions of
their arguments plus the defining facts stated here.  All of them are assumptions, listed in the evidence."""
import builtins
import itertools
import math
import numpy as np
import pandas as pd
import pyproj
import scipy.stats
import scipy.optimize as _so
from . import terms as tm
from .terms import TRUE, FALSE, ZERO, ONE
from . import sym as S
from .sym import (Sym, SNum, SBool, SArr, SList, SSeries, SFrame, SIndex, SLab, STime, SDelta, SCplx, Unsupported, Raised, st, over,
                  term, dim, dimval, bool_t, scalar, lift, as_arr, map1, mapn, reduce_, sel, isnan_t)
from . import interp as I
from .models import model, _unpd
from .interp import MODELS

ASSUMED = {}


def note_assumption(what):
    I.TRACE['models'][what] = 1


def assumed(what):
    def d(f):
        ASSUMED[f.__name__] = what
        return f
    return d


# ------------------------------------------------------------------ pyproj
class SProj:
    """Proj(...)(lon, lat) = (easting, northing); inverse=True is its inverse; a southern UTM zone adds
    the false northing of 10 000 km and changes nothing else."""
    _pyvc = True

    def __init__(self, kw):
        kw = dict(kw)
        for k in ('ellipsis', 'preserve_units'):
            kw.pop(k, None)
        self.south = bool_t(kw.pop('south', False))
        self.num, fixed = [], []
        for k in sorted(kw):
            v = kw[k]
            if isinstance(v, (SNum, int, float)) and not isinstance(v, bool):
                self.num.append((k, term(v)))
            else:
                fixed.append((k, v))
        if kw.get('units') == 'm':
            fixed.remove(('units', 'm'))
        self.key = 'proj' + repr(fixed) + ','.join(k for k, _ in self.num)
        if self.south is not FALSE and kw.get('proj') != 'utm':
            raise Unsupported('south flag outside utm')

    def __call__(self, x, y, inverse=False, **kw):
        if kw:
            raise Unsupported('Proj call options')
        x, y = _unpd(x), _unpd(y)
        if isinstance(x, SArr) or isinstance(y, SArr):
            e = mapn(lambda a, b: self.one(a, b, inverse)[0], [as_arr(x), as_arr(y)], 'f')
            n = mapn(lambda a, b: self.one(a, b, inverse)[1], [as_arr(x), as_arr(y)], 'f')
            return e, n
        return self.one(x, y, inverse)

    def one(self, x, y, inverse):
        x, y = lift(x), lift(y)
        bad = tm.bor(x.bad, y.bad)
        ps = tuple(t for _, t in self.num)
        off = tm.mul(tm.num(10000000), tm.ind(self.south))
        if not inverse:
            e = tm.app(self.key + '#E', ps + (x.t, y.t), 'R')
            n = tm.add(tm.app(self.key + '#N', ps + (x.t, y.t), 'R'), off)
            return SNum(e, nan=bad), SNum(n, nan=bad)
        n = tm.sub(y.t, off)
        e = x.t
        if e.op == 'app' and n.op == 'app' and e.args[0] == self.key + '#E' and n.args[0] == self.key + '#N' and e.args[1:] == n.args[1:] and e.args[1:1 + len(ps)] == ps:
            return SNum(e.args[-2], nan=bad), SNum(e.args[-1], nan=bad)
        return SNum(tm.app(self.key + '#lon', ps + (e, n), 'R'), nan=bad), SNum(tm.app(self.key + '#lat', ps + (e, n), 'R'), nan=bad)


@model(pyproj.Proj, always=True)
def m_Proj(*a, **kw):
    if a:
        raise Unsupported('Proj from a string')
    return SProj(kw)


# ------------------------------------------------------------------ pvlib: pure python, interpreted like repository code
import pvlib  # noqa
I.INLINE.add(pvlib.irradiance.clearsky_index)


# ------------------------------------------------------------------ scipy.signal / FFT
from scipy import signal as _sg  # noqa
import scipy.fft as _sfft  # noqa
import scipy.interpolate as _si  # noqa


def _num(x):
    """finite value; special values are not supported inside whole-signal operations"""
    if isinstance(x, SCplx):
        return x
    v = lift(x)
    if v.flagged:
        raise Unsupported('special values inside a signal operation' + (' ' + tm.show(tm.bor(v.nan, v.pinf, v.ninf))[:6000] if __import__('os').environ.get('PYVC_DEBUG') else ''))
    return v


def _row(a, lead, k):
    return _num(scalar(a((*lead, k))))


def _lastaxis(a, axis):
    ax = int(axis) % a.ndim
    if ax == a.ndim - 1:
        return a, lambda r: r
    if a.ndim == 2 and ax == 0:
        return a.T, lambda r: r.T
    raise Unsupported('axis')


@model(_sg.correlation_lags, always=True)
def m_corr_lags(n1, n2, mode='full'):
    if mode != 'full':
        raise Unsupported('correlation_lags mode')
    n1, n2 = term(n1), term(n2)
    return SArr((tm.sub(tm.add(n1, n2), ONE),), lambda idx: SNum(tm.add(tm.sub(idx[0], n2), ONE), kind='i'), 'i')


@model(_sg.choose_conv_method)
def m_choose(*a, **k):
    return 'auto'


def cut_sum(n, l, body):
    """SUM_{l<n} body, cut at a threshold [l >= m] (0 <= m <= n) occurring in the body (zero padding drops out)"""
    for a in tm.atoms(body):
        if a.op != 'ind' or l not in a.fv or a.args[0].op != 'lt0':
            continue
        p = a.args[0].args[0]
        d = tm.pdict(p).get(((l, 1),))
        if d is None or d not in (1, -1):
            continue
        rest = tm.sub(p, tm.scale(l, d))
        if l in rest.fv or any(x.op in ('var', 'app') and (x.op == 'app' or '!' in x.args[0]) for x in tm.atoms(rest)):
            continue
        # d = -1: [l > rest] = [l >= rest + 1];   d = 1: [l < -rest]
        m = tm.add(rest, ONE) if d == -1 else tm.neg(rest)
        if not st().implied(tm.band(tm.le(ZERO, m), tm.le(m, n))):
            continue
        hi = S.tm.subst(replace_ind(body, a, ONE if d == -1 else ZERO), {l: tm.add(l, m)})
        lo = replace_ind(body, a, ZERO if d == -1 else ONE)
        return tm.add(cut_sum(m, l, lo), cut_sum(tm.sub(n, m), l, hi) if hi is not ZERO else ZERO)
    return tm.mk_sum(n, l, body)


def replace_ind(t, a, v):
    from . import smt
    return smt.replace(t, {a: v})


def corr_sum(f, g, n1, n2, lag, circ=None):
    """SUM_l f[l + lag] g[l] over the overlap"""
    with over(n2, 'cl') as l:
        i = tm.add(l, lag)
        y = g(l)
        if circ is None:
            c = tm.band(tm.le(ZERO, i), tm.lt(i, n1))
            st().ctx.append(c)
            try:
                x = f(i)
            finally:
                st().ctx.pop()
            body = x * y * SNum(tm.ind(c), kind='i')
        else:
            w = tm.lt(i, circ)
            lo = x_at(f, i, w)
            hi = x_at(f, tm.sub(i, circ), tm.bnot(w))
            body = lo * y + hi * y
    return SNum(cut_sum(n2, l, body.t), kind='f')


def x_at(f, i, c):
    st().ctx.append(c)
    try:
        x = f(i)
    finally:
        st().ctx.pop()
    return x * SNum(tm.ind(c), kind='i')


@model(_sg.correlate)
def m_correlate(a, b, mode='full', method='auto'):
    if mode != 'full':
        raise Unsupported('correlate mode')
    a, b = as_arr(_unpd(a)), as_arr(_unpd(b))
    if a.ndim != 1 or b.ndim != 1 or 'c' in (a.dtype_, b.dtype_):
        raise Unsupported('correlate rank')
    n1, n2 = a.shp[0], b.shp[0]
    fa, fb = a.snapshot(), b.snapshot()
    k0 = tm.fresh('pr')
    st().ctx.append(tm.band(tm.le(ZERO, k0), tm.lt(k0, n1), tm.lt(k0, n2)))
    try:
        _row(fa, (), k0)
        _row(fb, (), k0)
    finally:
        st().ctx.pop()
    return SArr((tm.sub(tm.add(n1, n2), ONE),), lambda idx: corr_sum(lambda i: _row(fa, (), i), lambda i: _row(fb, (), i), n1, n2, tm.add(tm.sub(idx[0], n2), ONE)), 'f')


def _dft(f, n, k, inverse):
    """SUM_l f(l) exp(-+ 2 pi i k l / n)"""
    with over(n, 'ft') as l:
        v = SCplx.of(f(l))
        ph = tm.mul(tm.num(2), tm.PI, k, l, tm.inv(n))
        c, s = SNum(tm.app('cos', (ph,))), SNum(tm.app('sin', (ph,)))
        e = SCplx(c, s if inverse else -s)
        p = v * e
    re, im = tm.mk_sum(n, l, p.re.t), tm.mk_sum(n, l, p.im.t)
    if inverse:
        re, im = tm.div(re, n), tm.div(im, n)
    return SCplx(SNum(re), SNum(im))


def support(f, n, lead):
    """m such that f is zero from position m on (zero padding), else n"""
    k = tm.fresh('sp')
    ld = tuple(tm.fresh('sl') for _ in lead)
    st().ctx.append(tm.band(tm.le(ZERO, k), tm.lt(k, n), *[tm.band(tm.le(ZERO, i), tm.lt(i, d)) for i, d in zip(ld, lead)]))
    try:
        t = _row(f, ld, k).t
    finally:
        st().ctx.pop()
    for a in tm.atoms(t):
        if a.op == 'ind' and k in a.fv and a.args[0].op == 'lt0':
            p = a.args[0].args[0]
            d = tm.pdict(p).get(((k, 1),))
            if d not in (1, -1):
                continue
            rest = tm.sub(p, tm.scale(k, d))
            if k in rest.fv or replace_ind(t, a, ONE if d == -1 else ZERO) is not ZERO:
                continue
            m = tm.add(rest, ONE) if d == -1 else tm.neg(rest)
            if st().implied(tm.band(tm.le(ONE, m), tm.le(m, n))):
                return m
    return n


def _fft(inverse):
    def f(x, n=None, axis=-1, **kw):
        if n is not None or kw:
            raise Unsupported('fft options')
        a0 = as_arr(_unpd(x))
        a, back = _lastaxis(a0, axis)
        fa = a.snapshot()
        nn = a.shp[-1]
        tag = getattr(x.arr if isinstance(x, SSeries) else x, 'spec', None)
        if inverse and tag is not None and tag[0] == 'fft' and tag[2] == int(axis) % a0.ndim:
            # inversion theorem: ifft(c fft(u)) = c u
            u, c = tag[1], SCplx.of(tag[3])
            return back(SArr(a.shp, lambda idx: c * _num(scalar(u(tuple(idx)))), 'c'))
        if inverse and tag is not None and tag[0] == 'xspec' and tag[3] == int(axis) % a0.ndim:
            # correlation theorem: ifft(fft(u) conj(fft(v)))[m] = SUM_l u[(l + m) mod n] v[l]
            u, v = tag[1], tag[2]

            nu, nv = support(u, nn, a.shp[:-1]), support(v, nn, a.shp[:-1])
            lin = st().implied(tm.le(tm.sub(tm.add(nu, nv), ONE), nn))

            def r(idx):
                lead, m = tuple(idx[:-1]), idx[-1]
                if lin:      # enough zero padding: nothing wraps around
                    def at(lag):
                        return corr_sum(lambda i: _row(u, lead, i), lambda i: _row(v, lead, i), nu, nv, lag)
                    return SCplx(at(tm.ite(tm.lt(m, nu), m, tm.sub(m, nn))), 0)
                return SCplx(corr_sum(lambda i: _row(u, lead, i), lambda i: _row(v, lead, i), nn, nn, m, circ=nn), 0)
            return back(SArr(a.shp, r, 'c'))
        r = SArr(a.shp, lambda idx: _dft(lambda l: _row(fa, tuple(idx[:-1]), l), nn, idx[-1], inverse), 'c')
        out = back(r)
        if not inverse and a.dtype_ != 'c':
            out.spec = ('fft', fa, int(axis) % a0.ndim, 1)
        return out
    return f


for _f in (np.fft.fft, _sfft.fft):
    MODELS[_f] = _fft(False)
for _f in (np.fft.ifft, _sfft.ifft):
    MODELS[_f] = _fft(True)

_conj0 = MODELS[np.conj]


@model(np.conj, np.conjugate)
def m_conj(x):
    r = _conj0(x)
    t = getattr(x, 'spec', None)
    if t is not None and t[0] == 'fft' and t[3] == 1:
        r.spec = ('conj',) + t[1:3]
    return r


_binop0 = S.binop


def _binop(op, a, b):
    r = _binop0(op, a, b)
    if op == 'mul' and isinstance(r, SArr):
        ta, tb = getattr(a, 'spec', None), getattr(b, 'spec', None)
        if ta and tb and {ta[0], tb[0]} == {'fft', 'conj'} and ta[2] == tb[2] and all(t[3:] in ((), (1,)) for t in (ta, tb)):
            u, v = (ta, tb) if ta[0] == 'fft' else (tb, ta)
            r.spec = ('xspec', u[1], v[1], u[2])
            return r
    if op in ('mul', 'truediv', 'div') and isinstance(r, SArr):
        for x, y in ((a, b), (b, a)):
            t = getattr(x, 'spec', None)
            if t and t[0] == 'fft' and (op == 'mul' or x is a) and len(x.shp) == len(r.shp) and all(S.same_dim(p, q) for p, q in zip(x.shp, r.shp)):
                c = _constant(y, x.ndim)
                if c is not None:
                    r.spec = t[:3] + (t[3] * c if op == 'mul' else t[3] / c,)
                break
    return r


def _constant(y, nd):
    """the value of an operand that is the same at every position"""
    if not isinstance(y, Sym):
        return y if isinstance(y, (int, float, complex, np.number)) else None
    if isinstance(y, (SNum, SCplx)):
        return y
    if isinstance(y, SArr) and not y.filt:
        ix = tuple(tm.fresh('cn') for _ in y.shp)
        with over_all(ix, y.shp):
            v = scalar(y.get(*ix))
        ts = [v.re.t, v.im.t, v.re.nan, v.im.nan] if isinstance(v, SCplx) else [v.t, v.nan] if isinstance(v, SNum) else None
        if ts is not None and not any(i in t.fv for t in ts for i in ix):
            return v
    return None


class over_all:
    def __init__(self, ix, shp):
        self.c = tm.band(*[tm.band(tm.le(ZERO, i), tm.lt(i, d)) for i, d in zip(ix, shp)]) if ix else TRUE

    def __enter__(self):
        st().ctx.append(self.c)

    def __exit__(self, *a):
        st().ctx.pop()


S.binop = _binop


@model(np.fft.fftfreq, _sfft.fftfreq)
def m_fftfreq(n, d=1.0):
    n, d = term(n), lift(d)
    h = tm.floor(tm.div(tm.sub(n, ONE), tm.num(2)))     # (n-1)//2 nonnegative frequencies after 0

    def f(idx):
        k = idx[0]
        v = tm.ite(tm.le(k, h), k, tm.sub(k, n))
        return SNum(v, kind='f') / (SNum(n, kind='i') * d)
    return SArr((n,), f, 'f')


def _strlit(x):
    if isinstance(x, S.SNum):
        return x.t
    if isinstance(x, Sym):
        raise Unsupported('symbolic window')
    return tm.lit(x if isinstance(x, (str, bool, type(None))) else repr(x))


def _split_const(n, k, t):
    """t = c * core with c independent of k"""
    pd = tm.pdict(t)
    if not pd:
        return ZERO, ONE
    items = list(pd.items())
    common = None
    for m, _c in items:
        s = {(a, e) for a, e in m if k not in a.fv}
        common = s if common is None else common & s
    lead = items[0][1]
    cm = tm.from_pdict({tuple(sorted(common, key=lambda ae: (ae[0].id, ae[1]))): lead}) if common else tm.num(lead)
    core = tm.from_pdict({tuple(x for x in m if x not in common): c / lead for m, c in items})
    return cm, core


def _spectral(name):
    def f(x, y, fs, window, nperseg, noverlap, detrend, scaling, axis, kw):
        if kw:
            raise Unsupported('spectral options')
        a = as_arr(_unpd(x))
        b = as_arr(_unpd(y)) if y is not None else None
        if int(axis) != -1:
            raise Unsupported('spectral axis')
        if nperseg is None:
            raise Unsupported('default segment length')
        n = a.shp[-1]
        np_ = term(nperseg)
        if not st().implied(tm.le(np_, n)):
            raise Unsupported('segment longer than the signal')
        if not st().implied(tm.le(ONE, np_)):
            if st().decide(tm.lt(np_, ONE)):
                raise Raised(ValueError('nperseg must be a positive integer'))
        nov = term(noverlap) if noverlap is not None else tm.floor(tm.div(np_, tm.num(2)))
        if not st().implied(tm.lt(nov, np_)):
            if st().decide(tm.le(np_, nov)):
                raise Raised(ValueError('noverlap must be less than nperseg.'))
        fs = lift(fs)
        nf = tm.add(tm.floor(tm.div(np_, tm.num(2))), ONE)
        freqs = SArr((nf,), lambda idx: SNum(tm.div(tm.mul(idx[0], fs.t), np_), kind='f'), 'f')
        par = (fs.t, np_, nov, _strlit(window), _strlit(detrend), _strlit(scaling))
        fa = a.snapshot()
        fb = b.snapshot() if b is not None else None
        shp = S.bshape(a.shp[:-1] + (ONE,), b.shp[:-1] + (ONE,))[:-1] if b is not None else a.shp[:-1]

        def el(idx):
            lead = tuple(idx[:-1])
            la = S.bidx(a.shp[:-1], lead)

            def lam_of(g, ld):
                with over(n, 'sp') as k:
                    v = _row(g, ld, k)
                c, core = _split_const(n, k, v.t)
                return c, tm.lam(k, core)
            c1, l1 = lam_of(fa, la)
            if b is None:
                return SNum(tm.mul(c1, c1, tm.app('welch', (n, l1) + par + (idx[-1],))), kind='f')
            c2, l2 = lam_of(fb, S.bidx(b.shp[:-1], lead))
            c = tm.mul(c1, c2)
            if l1 is l2:
                return SCplx(SNum(tm.mul(c, tm.app('welch', (n, l1) + par + (idx[-1],)))), 0)
            sgn = 1
            if l1.id > l2.id:
                l1, l2, sgn = l2, l1, -1
            re = tm.app('csd.re', (n, l1, l2) + par + (idx[-1],))
            im = tm.app('csd.im', (n, l1, l2) + par + (idx[-1],))
            return SCplx(SNum(tm.mul(c, re)), SNum(tm.scale(tm.mul(c, im), sgn)))
        return freqs, SArr(tuple(shp) + (nf,), el, 'f' if b is None else 'c')
    return f


tm.NONNEG_APPS.add('welch')


@model(_sg.welch)
def m_welch(x, fs=1.0, window='hann_periodic', nperseg=None, noverlap=None, nfft=None, detrend='constant', return_onesided=True, scaling='density', axis=-1, average='mean', **kw):
    if nfft is not None or average != 'mean' or return_onesided is not True:
        raise Unsupported('welch options')
    return _spectral('welch')(x, None, fs, window, nperseg, noverlap, detrend, scaling, axis, kw)


@model(_sg.csd)
def m_csd(x, y, fs=1.0, window='hann_periodic', nperseg=None, noverlap=None, nfft=None, detrend='constant', return_onesided=True, scaling='density', axis=-1, average='mean', **kw):
    if nfft is not None or average != 'mean' or return_onesided is not True:
        raise Unsupported('csd options')
    return _spectral('csd')(x, y, fs, window, nperseg, noverlap, detrend, scaling, axis, kw)


@model(np.unwrap)
def m_unwrap(p, discont=None, axis=-1, **kw):
    if discont is not None or kw:
        raise Unsupported('unwrap options')
    a = as_arr(_unpd(p))
    ax = int(axis) % a.ndim
    if a.filt:
        if ax != 0:
            raise Unsupported('unwrap across a filtered axis')
        n, mask, base = a.filt

        def fb(i, rest):
            with over(n, 'uw') as k:
                v, mk = _num(scalar(base(k, tuple(rest)))), mask(k)
            w = tm.app('unwrapf', (n, tm.lam(k, mk), tm.lam(k, tm.mul(v.t, tm.ind(mk))), i), 'I')
            return SNum(tm.add(_num(scalar(base(i, tuple(rest)))).t, tm.mul(tm.num(2), tm.PI, w)), kind='f')
        return S.filtered(n, mask, fb, tuple(a.shp[1:]), 'f')
    snap = a.snapshot()
    n = a.shp[ax]

    def f(idx):
        with over(n, 'uw') as k:
            v = _num(scalar(snap(idx[:ax] + (k,) + idx[ax + 1:])))
        # a constant phase has no jumps; the first phase is kept
        w = tm.app('unwrapw', (n, tm.lam(k, v.t), idx[ax]), 'I') if idx[ax] is not ZERO and k in v.t.fv else ZERO
        return SNum(tm.add(_num(scalar(snap(idx))).t, tm.mul(tm.num(2), tm.PI, w)), kind='f')
    return SArr(a.shp, f, 'f')


class SInterp:
    """piecewise linear interpolant through the (distinct, sorted) knots; raises outside their range"""
    _pyvc = True

    def __init__(self, x, y, axis):
        self.x, self.y = as_arr(_unpd(x) if not isinstance(x, SIndex) else x.arr()), as_arr(_unpd(y))
        self.axis = int(axis) % self.y.ndim
        if self.x.filt or self.y.filt:
            raise Unsupported('interp1d of filtered knots')
        if not S.same_dim(self.x.shp[0], self.y.shp[self.axis]):
            raise Raised(ValueError('x and y arrays must be equal in length along interpolation axis.'))

    def __call__(self, q):
        qa = as_arr(_unpd(q) if not isinstance(q, SIndex) else q.arr())
        if qa.ndim != 1:
            raise Unsupported('interpolation points')
        n = self.x.shp[0]
        xs, ys, qs = self.x.snapshot(), self.y.snapshot(), qa.snapshot()
        with over(n, 'kx') as k:
            xv = _num(scalar(xs((k,)))).t
        with over(qa.shp[0], 'kq') as i:
            qi = _num(scalar(qs((i,)))).t
            known = match_knot(xv, k, n, qi) is not None
        if not known:
            x0, x1 = tm.subst(xv, {k: ZERO}), tm.subst(xv, {k: tm.sub(n, ONE)})
            inside = tm.mk_all(qa.shp[0], i, tm.band(tm.le(x0, qi), tm.le(qi, x1)))
            if not st().decide(inside):
                raise Raised(ValueError('A value in x_new is outside the interpolation range.'))
        ax = self.axis

        def f(idx):
            lead = idx[:ax] + idx[ax + 1:]
            qv = _num(scalar(qs((idx[ax],)))).t
            hit = match_knot(xv, k, n, qv)
            if hit is not None:
                return _num(scalar(ys(idx[:ax] + (hit,) + idx[ax + 1:])))
            with over(n, 'ky') as j:
                yv = _num(scalar(ys(idx[:ax] + (j,) + idx[ax + 1:])))
            if isinstance(yv, SCplx):
                raise Unsupported('complex interpolation')
            if j not in yv.t.fv:
                return SNum(yv.t, kind='f')
            return SNum(tm.app('interp1', (n, tm.lam(k, xv), tm.lam(j, yv.t), qv)), kind='f')
        shp = self.y.shp[:ax] + (qa.shp[0],) + self.y.shp[ax + 1:]
        return SArr(shp, f, 'f')


def match_knot(xv, k, n, q):
    """position of the knot equal to q, when it can be read off syntactically"""
    if q.fv and xv.op == 'app' and q.op == 'app' and q.args[0] == xv.args[0] and len(q.args) == len(xv.args):
        if xv.args[-1] is k and xv.args[:-1] == q.args[:-1] and k not in tm.app(xv.args[0], xv.args[1:-1]).fv:
            c = q.args[-1]
            if st().implied(tm.band(tm.le(ZERO, c), tm.lt(c, n))):
                return c
    return None


@model(_si.interp1d)
def m_interp1d(x, y, kind='linear', axis=-1, **kw):
    if kind != 'linear' or kw:
        raise Unsupported('interp1d options')
    return SInterp(x, y, axis)


# ------------------------------------------------------------------ least squares
def _data(a):
    """(n, mask, value) of a one-dimensional data array"""
    a = as_arr(_unpd(a))
    if a.ndim != 1:
        raise Unsupported('least-squares data')
    if a.filt:
        n, mask, base = a.filt
        return n, mask, lambda k: _num(scalar(base(k, ())))
    g = a.snapshot()
    return a.shp[0], (lambda k: TRUE), lambda k: _num(scalar(g((k,))))


@model(_so.curve_fit)
def m_curve_fit(f, xdata, ydata, *a, **kw):
    """least squares for a model that is affine in its one parameter: the normal equation's solution"""
    if a or kw:
        raise Unsupported('curve_fit options')
    p = tm.fresh('par', 'R')
    r0, r1, rp = [I.call(f, [_unpd(xdata), v], {}) for v in (0.0, 1.0, SNum(p, kind='f'))]
    n, mask, y = _data(ydata)
    _, _, f0 = _data(r0)
    _, _, f1 = _data(r1)
    _, _, fp = _data(rp)
    with over(n, 'cf') as k:
        m = mask(k)
        a0, a1, ap, yv = f0(k).t, f1(k).t, fp(k).t, y(k).t
    if tm.sub(ap, tm.add(a0, tm.mul(p, tm.sub(a1, a0)))) is not ZERO:
        raise Unsupported('curve_fit of a nonlinear model')
    i, slope, off = tm.ind(m), tm.sub(a1, a0), tm.sub(yv, a0)
    cnt = tm.mk_sum(n, k, i)
    if st().decide(tm.le(cnt, ZERO)):
        raise Raised(ValueError('`ydata` must not be empty!'))
    aa, ab = tm.mk_sum(n, k, tm.mul(i, slope, slope)), tm.mk_sum(n, k, tm.mul(i, slope, off))
    v = SNum(tm.ite(tm.eq(aa, ZERO), ONE, tm.div(ab, aa)), kind='f')
    return SArr((ONE,), lambda idx: v, 'f'), None


def _lsq_joint(func, g, args):
    """several unknowns, residuals affine in all of them together: a point satisfying the normal equations"""
    m = int(tm.numval(g.shp[0]))
    unit = [S.as_arr([1.0 if i == j else 0.0 for i in range(m)]) for j in range(m)]
    ps = [tm.fresh('par', 'R') for _ in range(m)]
    run = lambda q: _data(I.call(func, [q] + list(args), {}))
    n, mask, r0 = run(S.as_arr([0.0] * m))
    rs = [run(u)[2] for u in unit]
    rp = run(S.as_arr([SNum(p, kind='f') for p in ps]))[2]
    with over(n, 'lq') as k:
        mk, a0, ap = mask(k), r0(k).t, rp(k).t
        d = [tm.sub(r(k).t, a0) for r in rs]
    if tm.sub(ap, tm.add(a0, *[tm.mul(p, x) for p, x in zip(ps, d)])) is not ZERO:
        raise Unsupported('leastsq of nonlinear residuals')
    for x in d:
        S.st().assume_global(tm.eq(tm.mk_sum(n, k, tm.mul(tm.ind(mk), x, ap)), ZERO))
    return S.as_arr([SNum(p, kind='f') for p in ps]), 1


@model(_so.leastsq)
def m_leastsq(func, x0, args=(), **kw):
    """one affine residual per unknown: its zero (the first guess where the residual does not depend on the unknown)"""
    if kw:
        raise Unsupported('leastsq options')
    g = as_arr(_unpd(x0)).reshape(-1) if as_arr(_unpd(x0)).ndim != 1 else as_arr(_unpd(x0))
    m = g.shp[0]
    args = tuple(args) if isinstance(args, (tuple, list)) else (args,)
    if tm.numval(m) is not None and tm.numval(m) > 1:
        return _lsq_joint(func, g, args)
    nm = 'lsq%d' % tm.fresh('ls').id
    ps = SArr((m,), lambda idx: SNum(tm.app(nm, tuple(idx)), kind='f'), 'f')
    rs = [as_arr(_unpd(I.call(func, [q] + list(args), {}))) for q in (S.full((m,), SNum(ZERO)), S.full((m,), SNum(ONE)), ps)]
    r0, r1, rp = [r.snapshot() for r in rs]
    if any(r.ndim != 1 or r.filt for r in rs):
        raise Unsupported('leastsq residual')
    with over(m, 'lq') as j:
        a0, a1, ap = [_num(scalar(r((j,)))).t for r in (r0, r1, rp)]
    dev = tm.sub(ap, tm.add(a0, tm.mul(tm.app(nm, (j,)), tm.sub(a1, a0))))
    if dev is not ZERO and not st().implied(tm.eq(dev, ZERO)):
        if S.DEBUG_:
            print('DEV', tm.show(dev)[:1500])
        raise Unsupported('leastsq of coupled or nonlinear residuals' + (tm.show(a0)[:500] + ' ## ' + tm.show(ap)[:500] if S.DEBUG_ else ''))
    gs = g.snapshot()

    def f(idx):
        b0, b1 = _num(scalar(r0(tuple(idx)))).t, _num(scalar(r1(tuple(idx)))).t
        d = tm.sub(b1, b0)
        return SNum(tm.ite(tm.eq(d, ZERO), _num(scalar(gs(tuple(idx)))).t, tm.neg(tm.div(b0, d))), kind='f')
    return SArr((m,), f, 'f'), 1


# ------------------------------------------------------------------ pairs
import itertools  # noqa
from fractions import Fraction  # noqa


def pair_rank(n, i, j, rep):
    """position of the pair (i, j) in the lexicographic enumeration"""
    half = Fraction(1, 2)
    if rep:
        return tm.add(tm.mul(i, n), tm.scale(tm.mul(i, tm.sub(i, ONE)), -half), tm.sub(j, i))
    return tm.add(tm.mul(i, tm.sub(n, ONE)), tm.scale(tm.mul(i, tm.sub(i, ONE)), -half), tm.sub(tm.sub(j, i), ONE))


def pair_count(n, rep):
    return tm.scale(tm.mul(n, tm.add(n, ONE) if rep else tm.sub(n, ONE)), Fraction(1, 2))


def _combos(x, r, rep):
    it = I.iterate(x)
    if not isinstance(it, SList):
        fn = itertools.combinations_with_replacement if rep else itertools.combinations
        return list(fn(list(it), _num(r)))
    if r != 2:
        raise Unsupported('combinations of more than two')
    note_assumption('itertools.combinations(_with_replacement)(x, 2) enumerates the index pairs i <= j (i < j) in lexicographic order')
    n = it.n
    R = tm.num(1 if rep else 0)

    def f(k):
        i, j = tm.app('comb.i', (n, k, R), 'I'), tm.app('comb.j', (n, k, R), 'I')
        # the enumeration inverts its rank
        vs = [v for v in k.fv if v.sort == 'I']
        for a in vs:
            for b in [v for v in vs] + [tm.add(a, v) for v in vs] + [tm.add(a, v, ONE) for v in vs]:
                if tm.sub(pair_rank(n, a, b, rep), k) is ZERO and S.st().implied(tm.band(tm.le(ZERO, a), tm.le(a, b) if rep else tm.lt(a, b), tm.lt(b, n))):
                    i, j = a, b
        return (it.f(i), it.f(j))
    return SList(pair_count(n, rep), f)


@model(itertools.combinations_with_replacement)
def m_cwr(x, r):
    return _combos(x, r, True)


@model(itertools.combinations)
def m_comb(x, r):
    return _combos(x, r, False)


# ------------------------------------------------------------------ callees used through their contracts
def _delay_summary(fn, finite=False):
    """delays and correlations of each pair depend on that pair's two signals and the options only (proved/checked as G02 and G05)"""
    names = ('peak_corr', 'mean_corr', 'zero_corr')

    def s(args, kwargs):
        if not (len(args) >= 2 and all(isinstance(x, (SFrame, SSeries)) for x in args[:2])):
            return NotImplemented
        A, B = [x.arr if isinstance(x, SFrame) else S.as_cols([x.arr]) for x in args[:2]]
        one = [tm.numval(X.shp[1]) == 1 for X in (A, B)]
        if not (S.same_dim(A.shp[1], B.shp[1]) or any(one)) or not S.same_dim(A.shp[0], B.shp[0]):
            raise Unsupported('tables of different size')
        with over(A.shp[0], 'dt') as k:
            tix = tm.lam(k, term(args[0].index.f(k)))
        note_assumption('%s is used through its contract (results of a pair depend on its own two signals and the options; see G02, G05)' % fn.__name__)
        assumed_names = inspect.signature(fn).bind(*args, **kwargs)
        assumed_names.apply_defaults()
        opts = tuple((k, v) for k, v in assumed_names.arguments.items() if k not in ('ts_in', 'ts_out'))
        olit = tm.lit(str(opts))
        fa, fb = A.snapshot(), B.snapshot()
        n, p = A.shp[0], B.shp[1] if one[0] else A.shp[1]

        def lam(g, k):
            with over(n, 'dl') as j:
                v = scalar(g((j, k)))
            return tm.lam(j, v.t)

        def out(name, nan):
            def f(idx):
                a = (n, lam(fa, ZERO if one[0] else idx[0]), lam(fb, ZERO if one[1] else idx[0]), tix, olit)
                return SNum(tm.app('pair.' + name, a), tm.app('pair.nan.' + name, a, 'B') if nan and not finite else FALSE, kind='f')
            return SArr((p,), f, 'f')
        tf = fn.__name__.endswith('_tf')
        extras = {k: out(k, True) for k in names} if not tf or assumed_names.arguments.get('compute_xcorr') else {}
        if tf:
            extras['mean_coh'] = out('mean_coh', True)
        return out('delay', tf), extras
    return s


import inspect  # noqa


def _qc_summary(fn):
    def s(args, kwargs):
        a = inspect.signature(fn).bind(*args, **kwargs)
        a.apply_defaults()
        a = a.arguments
        from solarspatialtools.cmv import Flag
        note_assumption('%s is used through its contract: a pair with missing correlations, missing or zero delay is never GOOD (C02)' % fn.__name__)
        opts, out = I.call(fn.__globals__['_validate_method_options'], (a['method'], a['options']), {})
        d, pk, mn = [as_arr(a[k]).snapshot() for k in ('delay', 'peak_corr', 'mean_corr')]
        A, B = [as_arr(_unpd(x)) for x in a['sigs']]
        fa, fb, sp = A.snapshot(), B.snapshot(), as_arr(a['spacing']).snapshot()
        pr = as_arr(a['pairs']).snapshot()
        par = tuple(term(opts[k]) for k in sorted(opts))
        nm = 'qc.' + a['method']

        def lam(g, k):
            with over(A.shp[0], 'qc') as j:
                v = scalar(g((j, k)))
            return tm.lam(j, v.t)

        def f(idx):
            x, p_, m_, s_ = [lift(scalar(g(idx))) for g in (d, pk, mn, sp)]
            bad = tm.bor(x.bad, tm.eq0(x.t), p_.nan, m_.nan)
            same = S.eq_t(pr((idx[0], ZERO)), pr((idx[0], ONE)))
            args_ = (A.shp[0], lam(fa, idx[0]), lam(fb, idx[0]), x.t, p_.t, m_.t, s_.t, tm.ind(same)) + par
            return sel(bad, SLab(tm.lit(Flag.NOLAG)), SLab(tm.app(nm, args_, 'L')))
        return SArr(as_arr(a['delay']).shp, f, 'O'), out
    return s


def _lam1(n, g):
    """the values of a one-dimensional signal as terms (real and imaginary part for complex ones)"""
    with over(n, 'sg') as k:
        v = scalar(g(k))
    if isinstance(v, SCplx):
        return (tm.lam(k, lift(v.re).t), tm.lam(k, lift(v.im).t))
    v = lift(v)
    return (tm.lam(k, v.t),)


def _cols(x):
    """columns of a series or table: ([column element functions], number of rows)"""
    a = as_arr(_unpd(x))
    g = a.snapshot()
    if a.ndim == 1:
        return [lambda k: g((k,))], a.shp[0]
    m = tm.numval(a.shp[1])
    if m is None:
        raise Unsupported('table of symbolic width')
    return [lambda k, j=j: g((k, tm.num(j))) for j in range(int(m))], a.shp[0]


def _index_lam(x):
    with over(x.index.n, 'ti') as k:
        return tm.lam(k, term(x.index.f(k)))


def _corr_summary(fn):
    def s(args, kwargs):
        b = inspect.signature(fn).bind(*args, **kwargs)
        b.apply_defaults()
        x, y, sc = b.args
        if not isinstance(sc, str) or sc.lower() not in ('energy', 'coeff', 'unbiased_energy', 'unbiased_coeff', 'none'):
            return NotImplemented
        (fx,), n1 = _cols(x)
        (fy,), n2 = _cols(y)
        note_assumption('correlation is used through its contract: one finite value per lag, determined by the two signals and the scaling; lags run from 1-n to n-1 (G01)')
        par = (n1, n2) + _lam1(n1, fx) + _lam1(n2, fy) + (tm.lit(sc),)
        shp = (tm.sub(tm.add(n1, n2), ONE),)
        c = SArr(shp, lambda idx: SNum(tm.app('correlation', par + tuple(idx), 'R'), kind='f'), 'f')
        return c, SArr(shp, lambda idx: SNum(tm.sub(idx[0], tm.sub(n2, ONE)), kind='i'), 'i')
    return s


def _tf_summary(fn):
    def s(args, kwargs):
        b = inspect.signature(fn).bind(*args, **kwargs)
        b.apply_defaults()
        a = b.arguments
        x, y = args[:2]
        if not all(isinstance(v, (SFrame, SSeries)) for v in (x, y)):
            return NotImplemented
        cx, n = _cols(x)
        cy, _ = _cols(y)
        if len(cx) != len(cy) and 1 not in (len(cx), len(cy)):
            return NotImplemented
        note_assumption('averaged_tf is used through its contract: per pair, determined by the two signals, their times and the options; increasing frequencies from zero; coherence between 0 and 1; finite where the spectra are positive (G03)')
        m = max(len(cx), len(cy))
        opts = tuple(term(lift(scalar(a[k]))) if not (a[k] is None or isinstance(a[k], str)) else tm.lit(str(a[k])) for k in ('navgs', 'overlap', 'window', 'detrend'))
        tix = _index_lam(x)
        nf = tm.app('tf.count', (n,) + opts, 'I')
        st().assume(tm.le(ONE, nf))
        fq = lambda k: tm.app('tf.freq', (n, tix) + opts + (k,), 'R')
        st().assume(tm.eq0(fq(ZERO)))
        k = tm.fresh('tf')
        st().ctx.append(tm.mk_all(tm.sub(nf, ONE), k, tm.lt(fq(k), fq(tm.add(k, ONE)))))
        pars = [(n, tix) + _lam1(n, cx[j if len(cx) > 1 else 0]) + _lam1(n, cy[j if len(cy) > 1 else 0]) + opts for j in range(m)]
        from . import smt
        smt.AXIOMS['tf.coh'] = _unit

        def pick(idx, mk):
            j = tm.numval(idx[1])
            if j is not None:
                return mk(pars[int(j)] + (idx[0],))
            v = mk(pars[m - 1] + (idx[0],))
            for q in reversed(range(m - 1)):
                v = sel(tm.eq0(tm.sub(idx[1], tm.num(q))), mk(pars[q] + (idx[0],)), v)
            return v
        tf = SArr((nf, tm.num(m)), lambda idx: pick(idx, lambda p: SCplx(SNum(tm.app('tf.re', p, 'R'), kind='f'), SNum(tm.app('tf.im', p, 'R'), kind='f'))), 'c')
        coh = SArr((nf, tm.num(m)), lambda idx: pick(idx, lambda p: SNum(tm.app('tf.coh', p, 'R'), kind='f')), 'f')
        ix = S.cindex(SArr((nf,), lambda idx: SNum(fq(idx[0]), kind='f'), 'f'))
        cols = ['pair%d' % j for j in range(m)]
        return SFrame(tf, ix, S.cindex(cols)), SFrame(coh, ix, S.cindex(cols))
    return s


def _tf_delay_summary(fn):
    def s(args, kwargs):
        b = inspect.signature(fn).bind(*args, **kwargs)
        b.apply_defaults()
        tf, coh, cl, fl, method = b.args
        if method not in ('fit', 'multi') or not isinstance(tf, (SFrame, SSeries)):
            return NotImplemented
        ct, n = _cols(tf)
        cc, _ = _cols(coh)
        m = len(ct)
        if method == 'fit' and m > 1 or len(cc) != m:
            return NotImplemented
        note_assumption('tf_delay is used through its contract: one delay per column (never missing with the joint fit of finite transfer functions), determined by that column, its coherence, the frequencies and the limits; in use are the coherent frequencies below the limit (G05.fitted, G05.averaged)')
        ix = tf.index
        lim = tuple(tm.lit('none') if v is None else term(lift(scalar(v))) for v in (cl, fl)) + (tm.lit(method),)
        fqs = _index_lam(tf)
        pars = [(n, fqs) + _lam1(n, ct[j]) + _lam1(n, cc[j]) + lim for j in range(m)]
        val = [SNum(tm.app('tfd', p, 'R'), tm.app('tfd.nan', p, 'B') if method == 'fit' else FALSE, kind='f') for p in pars]

        def used(idx):
            j = tm.numval(idx[1])
            c = cc[int(j)](idx[0]) if j is not None else None
            if c is None:
                c = cc[m - 1](idx[0])
                for q in reversed(range(m - 1)):
                    c = sel(tm.eq0(tm.sub(idx[1], tm.num(q))), cc[q](idx[0]), c)
            t = tm.TRUE
            if cl is not None:
                t = tm.band(t, I.truth_term(lift(scalar(c)) > cl))
            if fl is not None:
                t = tm.band(t, I.truth_term(lift(scalar(ix.f(idx[0]))) < fl))
            return SBool(t)
        mask = SArr((n, tm.num(m)), used, 'b')
        if method == 'fit':
            return val[0], mask

        def dl(idx):
            v = val[m - 1]
            for q in reversed(range(m - 1)):
                v = sel(tm.eq0(tm.sub(idx[0], tm.num(q))), val[q], v)
            return v
        return SArr((tm.num(m),), dl, 'f'), mask
    return s


def summary_of(fn, finite=False):
    if fn.__name__ == '_pairwise_qc':
        return _qc_summary(fn)
    if fn.__name__ == 'correlation':
        return _corr_summary(fn)
    if fn.__name__ == 'averaged_tf':
        return _tf_summary(fn)
    if fn.__name__ == 'tf_delay':
        return _tf_delay_summary(fn)
    if fn.__name__ in ('compute_delays', 'compute_delays_tf'):
        return _delay_summary(fn, finite)
    raise Unsupported('no contract summary for %s' % fn.__name__)


import types as _types  # noqa


@model(_so.minimize_scalar, always=True)
def m_minimize_scalar(fun, *a, args=(), **kw):
    """some finite minimiser; which one is not specified"""
    note_assumption('scipy.optimize.minimize_scalar returns a finite number')
    return _types.SimpleNamespace(x=SNum(tm.fresh('opt', 'R'), kind='f'), fun=SNum(tm.fresh('optv', 'R'), kind='f'), success=True)


@model(scipy.stats.linregress)
def m_linregress(x, y=None, **kw):
    note_assumption('scipy.stats.linregress returns five numbers')
    return tuple(SNum(tm.fresh('lr', 'R'), kind='f') for _ in range(5))


# ------------------------------------------------------------------ optimal assignment
@model(scipy.optimize.linear_sum_assignment)
def m_lsa(C, maximize=False):
    """square cost matrix: rows in order, columns a permutation that no other permutation undercuts"""
    C = S.as_arr(C)
    if C.ndim != 2:
        raise Unsupported('assignment')
    n, m = C.shp
    snap = C.snapshot()
    if not S.same_dim(n, m) and not S.st().implied(tm.le(n, m)):
        raise Unsupported('assignment with more rows than columns')
    i, j = tm.fresh('r'), tm.fresh('c')
    n0 = len(S.st().ctx)
    for k, d in ((i, n), (j, m)):
        S.st().ctx.append(tm.band(tm.le(ZERO, k), tm.lt(k, d)))
    try:
        v = scalar(snap((i, j)))
    finally:
        del S.st().ctx[n0:]
    if v.flagged:
        raise Raised(ValueError('matrix contains invalid numeric entries'))
    note_assumption('scipy linear_sum_assignment: a one-to-one choice of columns of least total cost (greatest with maximize)')
    known = [p for p in tm.PERMS if tm.PERM_N[p] is m]
    name = 'lsa#%d.%d.%d' % (n.id, tm.lam(i, tm.lam(j, v.t)).id, bool(maximize))
    p = S.perm(name, m)          # the columns of the first n rows; the rest takes what is left
    square = S.same_dim(n, m)

    def total(perm, form):
        k = tm.fresh('s')
        at = lambda a, b: tm.subst(v.t, {i: a, j: b})
        return tm.mk_sum(n, k, at(k, tm.app(perm, (k,), 'I')) if form == 0 else at(tm.app(tm.PERMS[perm], (k,), 'I'), k))
    st = S.st()
    if square:
        st.assume(tm.eq(total(name, 0), total(name, 1)))
    for q in known:
        for form in (0, 1) if square else (0,):
            st.assume(tm.le(total(q, form), total(name, form)) if maximize else tm.le(total(name, form), total(q, form)))
    return SArr((n,), lambda idx: SNum(idx[0], kind='i'), 'i'), SArr((n,), lambda idx: p(idx[0]), 'i')


@model(_so.shgo, always=True)
def m_shgo(fun, bounds, *a, **kw):
    """some point within the bounds"""
    note_assumption('scipy.optimize.shgo returns a point within the bounds')
    out = []
    for lo, hi in bounds:
        x = SNum(tm.fresh('opt', 'R'), kind='f')
        S.st().assume(tm.le(_num(scalar(lo)).t, x.t))
        S.st().assume(tm.le(x.t, _num(scalar(hi)).t))
        out.append(x)
    return _types.SimpleNamespace(x=S.as_arr(out), success=True)


# ------------------------------------------------------------------ random numbers, normal law, Gaussian mixtures
class SRng:
    """numpy Generator: the j-th draw is an unspecified function of the seed, j and the requested law"""

    def __init__(self, seed):
        self.seed = tm.fresh('seed', 'R') if seed is None else term(lift(scalar(seed)))
        self.j = 0

    def _draw(self, kind, size, par, lo=None):
        note_assumption('numpy random draws: unspecified values determined by seed, position in the stream and requested law')
        shp = () if size is None else tuple(S.dim(x) for x in (size if isinstance(size, (tuple, list)) else (size,)))
        pre = (self.seed, tm.num(self.j)) + tuple(par)
        self.j += 1
        return shp, lambda idx, nm='rng.' + kind: SNum(tm.app(nm, pre + tuple(idx), 'R'), kind='f')

    def multivariate_normal(self, mean, cov, size=None, **kw):
        C, M = S.as_arr(cov), S.as_arr(mean)
        par = [C.shp[0], _lam_arr(M), _lam_arr(C)]
        n = (size,) if not isinstance(size, (tuple, list)) else tuple(size)
        if size is None:
            n = ()
        shp, f = self._draw('mvn', n + (S.dimval(C.shp[0]),), par)
        return SArr(shp, f, 'f')
    multivariate_normal._pyvc = True

    def _simple(kind):
        def f(self, *a, size=None, **kw):
            if kw or any(not isinstance(scalar(x), (SNum, int, float)) for x in a):
                raise Unsupported('random draw arguments')
            shp, g = self._draw(kind, size, [term(lift(scalar(x))) for x in a])
            return SArr(shp, g, 'f') if shp else g(())
        f._pyvc = True
        return f
    normal, uniform = _simple('normal'), _simple('uniform')


def _lam_arr(a):
    """the array as a function term"""
    ks = [tm.fresh('l') for _ in a.shp]
    n0 = len(S.st().ctx)
    for k, d in zip(ks, a.shp):
        S.st().ctx.append(tm.band(tm.le(ZERO, k), tm.lt(k, d)))
    try:
        v = _num(scalar(a.get(*ks)))
    finally:
        del S.st().ctx[n0:]
    t = v.t
    for k in reversed(ks):
        t = tm.lam(k, t)
    return t


@model(np.random.default_rng, always=True)
def m_default_rng(seed=None):
    return SRng(seed)


@model(scipy.stats.norm.cdf)
def m_norm_cdf(x, loc=0, scale=1):
    if not (loc == 0 and scale == 1):
        raise Unsupported('norm.cdf with parameters')
    note_assumption('scipy.stats.norm.cdf: an increasing function into [0, 1]')
    tm.NONNEG_APPS.add('ncdf')
    from . import smt
    smt.AXIOMS['ncdf'] = lambda ex, t, z: [tm.le(ZERO, t), tm.le(t, ONE)]
    return S.map1(lambda v: SNum(tm.app('ncdf', (_num(v).t,), 'R'), kind='f'), x)


class SGMM:
    """sklearn GaussianMixture used as a density: log of the weighted sum of one-dimensional normal densities"""

    def score_samples(self, X):
        note_assumption('sklearn GaussianMixture.score_samples: log of the weighted sum of the component densities given by means_ and precisions_cholesky_')
        X = S.as_arr(X)
        if X.ndim != 2 or X.shp[1] is not ONE:
            raise Unsupported('mixture of several variables')
        w, mu, pc = [S.as_arr(a).snapshot() for a in (self.weights_, self.means_, self.precisions_cholesky_)]
        n = S.as_arr(self.weights_).shp[0]
        if n.op != 'num':
            raise Unsupported('symbolic number of components')
        x = X.snapshot()

        def f(idx):
            r = SNum(ZERO, kind='f')
            v = lift(scalar(x((idx[0], ZERO))))
            for k in range(int(n.args[0])):
                kk = tm.num(k)
                p = lift(scalar(pc((kk, ZERO, ZERO))))
                z = (v - lift(scalar(mu((kk, ZERO))))) * p
                e = S.SNum(tm.app('exp', (_num(z * z * Fraction(-1, 2)).t,), 'R'), kind='f')
                r = r + lift(scalar(w((kk,)))) * p * e * SNum(tm.inv(tm.sqrt(tm.scale(tm.PI, 2))), kind='f')
            r = _num(r)
            if not S.st().implied(tm.lt(ZERO, r.t)):
                raise Unsupported('density not provably positive')
            return SNum(tm.app('logpos', (r.t,), 'R'), kind='f')
        return SArr((X.shp[0],), f, 'f')
    score_samples._pyvc = True


import sklearn.mixture as _skm  # noqa
from sklearn.mixture import _gaussian_mixture as _skg  # noqa


@model(_skm.GaussianMixture, always=True)
def m_gmm(n_components=1, covariance_type='full', **kw):
    if covariance_type != 'full':
        raise Unsupported('covariance type')
    return SGMM()


@model(_skg._compute_precision_cholesky)
def m_precchol(cov, kind):
    c = S.as_arr(cov)
    if kind != 'full' or c.ndim != 3 or c.shp[1] is not ONE or c.shp[2] is not ONE:
        raise Unsupported('covariance of several variables')
    s = c.snapshot()
    def f(idx):
        v = _num(scalar(s(idx)))
        if not S.st().implied(tm.lt(ZERO, v.t)):
            raise Unsupported('variance not provably positive')
        return SNum(tm.inv(tm.sqrt(v.t)), kind='f')
    return SArr(c.shp, f, 'f')



def _flatten(x):
    """terms of a nested parameter table, in a fixed order"""
    if isinstance(x, dict):
        return [t for k in sorted(x) for t in [tm.lit(k)] + _flatten(x[k])]
    if isinstance(x, (list, tuple)):
        return [t for v in x for t in _flatten(v)]
    if isinstance(x, np.ndarray):
        return [tm.lit((str(x.dtype), x.shape, x.tobytes()))]
    if isinstance(x, SArr):
        return list(x.shp) + [_lam_arr(x)]
    if isinstance(x, S.SIndex):
        with S.over(x.n, 'l') as k:
            return [x.n, tm.lam(k, x.f(k).t)]
    if x is None or isinstance(x, (str, bool)):
        return [tm.lit(x)]
    v = scalar(x)
    if isinstance(v, SNum):
        return [_num(v).t, tm.lit(v.kind)] if v.flagged is False else [_num(v).t]
    return [tm.lit(v)]


def _gmm_summary(fn):
    def s(args, kwargs):
        a = inspect.signature(fn).bind(*args, **kwargs).arguments
        par = tuple(_flatten([a['csi'], a['meanCSI'], a['params']]))
        note_assumption('_solar_gmm is used through its contract: density, distribution and decay are determined by the grid, the mean and the parameters, the decay is at least 1e-5 (K01)')
        n = S.as_arr(a['csi']).shp[0]
        k = tm.app('gmm.k', par, 'R')
        S.st().assume(tm.le(tm.num(Fraction(1, 10 ** 5)), k))
        mk = lambda nm: SArr((n,), lambda idx: SNum(tm.app(nm, par + tuple(idx), 'R'), kind='f'), 'f')
        return mk('gmm.pdf'), mk('gmm.cdf'), SNum(k, kind='f')
    return s


def _inv_summary(fn):
    def s(args, kwargs):
        a = inspect.signature(fn).bind(*args, **kwargs).arguments
        par = tuple(_flatten([a['x'], a['cdf']]))
        note_assumption('_inverse_sample is used through its contract: element by element, a function of the tabulated distribution and the sample (K02)')
        return S.map1(lambda v: SNum(tm.app('invsample', par + (_num(v).t,), 'R'), kind='f'), a['r'])
    return s


def _downscale_summary(fn):
    def s(args, kwargs):
        b = inspect.signature(fn).bind(*args, **kwargs)
        b.apply_defaults()
        a = b.arguments
        par = tuple(_flatten([a[k] for k in a]))
        note_assumption('downscale is used through its contract in the multi-hour case: a times-by-sites field determined by its arguments (K03.layout, K03.scaled)')
        return SArr((a['times'].n, S.as_arr(a['e_pos']).shp[0]), lambda idx: SNum(tm.app('downscale', par + tuple(idx), 'R'), kind='f'), 'f')
    return s


def _meet_summary(fn):
    def s(args, kwargs):
        A, B = [S.as_arr(x).snapshot() for x in args]
        n = S.as_arr(args[0]).shp[0]
        note_assumption('compute_intersection is used through its contract: row by row, a function of the two vectors (S05)')

        def f(idx):
            v = [scalar(M((idx[0], tm.num(j)))) for M in (A, B) for j in (0, 1)]
            bad = tm.bor(*[lift(x).bad for x in v])
            a = tuple(lift(x).t for x in v)
            bad = tm.bor(bad, tm.app('meet.bad', a, 'B'))
            return SNum(tm.mul(tm.ite(tm.eq0(idx[1]), tm.app('meet.x', a), tm.app('meet.y', a)), tm.ind(tm.bnot(bad))), bad, kind='f')
        return SArr((n, tm.num(2)), f, 'f')
    return s


def _det_par(bound):
    """the arguments as terms"""
    par, tag = [], ''
    for k, v in bound.items():
        if v is None or isinstance(v, (bool, str)):
            tag += '|%s=%r' % (k, v)
        elif isinstance(v, dict):
            p2, t2 = _det_par(v)
            par += p2
            tag += t2
        elif isinstance(v, (SArr, SSeries, SFrame, SList, SIndex, tuple, list, np.ndarray)):
            a = as_arr(_unpd(v))
            par += list(a.shp) + list(_flatten([a]))
        elif isinstance(v, (int, float, np.number)):
            tag += '|%s=%r' % (k, float(v))
        else:
            par.append(term(lift(scalar(v))))
    return par, tag


def _plant_summary(fn):
    sig = inspect.signature(fn)

    def s(args, kwargs):
        b = sig.bind(*args, **kwargs)
        b.apply_defaults()
        b.arguments['centers'] = as_arr(_unpd(b.arguments['centers'])).flatten()
        par, tag = _det_par(b.arguments)
        note_assumption('get_1d_plant is used through its contract: plant and axis are determined by the site positions and options (G07.square, triangle, gaussian)')
        n = tm.app('plant.n' + tag, tuple(par), 'I')
        st().assume(tm.le(tm.num(2), n))
        mk = lambda nm: SArr((n,), lambda idx: SNum(tm.app(nm + tag, tuple(par) + tuple(idx), 'R'), kind='f'), 'f')
        return mk('plant.p'), mk('plant.x')
    return s


def _cam_summary(fn):
    sig = inspect.signature(fn)

    def s(args, kwargs):
        b = sig.bind(*args, **kwargs)
        b.apply_defaults()
        par, tag = _det_par(b.arguments)
        note_assumption('plant1d_to_camfilter is used through its contract: one complex gain per frequency, determined by plant, axis and speed (G07.advection)')
        n = as_arr(b.arguments['plant']).shp[0]
        mk = lambda nm, idx: SNum(tm.app(nm, tuple(par) + tuple(idx), 'R'), kind='f')
        ix = S.cindex(SArr((n,), lambda idx: mk('cam.f', idx), 'f'))
        return SSeries(SArr((n,), lambda idx: SCplx(mk('cam.re', idx), mk('cam.im', idx)), 'c'), ix)
    return s


def _pol_summary(fn):
    def s(rho, phi):
        r, a = lift(scalar(rho)), lift(scalar(phi))
        note_assumption('pol2rect is used through its contract: two coordinates determined by length and angle (S03)')
        bad = tm.bor(r.bad, a.bad)
        return tuple(SNum(tm.app(nm, (r.t, a.t), 'R'), bad, kind='f') for nm in ('pol.x', 'pol.y'))
    return lambda args, kwargs: s(*args, **kwargs)


def _cmv_summary(fn):
    sig = inspect.signature(fn)

    def s(args, kwargs):
        b = sig.bind(*args, **kwargs)
        b.apply_defaults()
        a = dict(b.arguments)
        ts, pos = a.pop('timeseries'), a.pop('positions')
        if not isinstance(ts, SFrame) or not isinstance(pos, SFrame):
            raise Unsupported('cloud motion of other containers')
        par, tag = _det_par(a)
        for d in (ts, pos):
            par += _flatten(d.arr) + _flatten(d.columns) + _flatten(d.index)
        note_assumption('compute_cmv is used through its contract: speed (not negative), direction and pair table are determined by records, positions and options (C01-C04)')
        v = tm.app('cmv.v' + tag, tuple(par), 'R')
        tm.NONNEG_APPS.add('cmv.v' + tag)
        return SNum(v, kind='f'), SNum(tm.app('cmv.a' + tag, tuple(par), 'R'), kind='f'), None
    return s


_old_summary_of = summary_of


def summary_of(fn, finite=False):
    if fn.__name__ == 'pol2rect':
        return _pol_summary(fn)
    if fn.__name__ == 'compute_cmv':
        return _cmv_summary(fn)
    if fn.__name__ == 'get_1d_plant':
        return _plant_summary(fn)
    if fn.__name__ == 'plant1d_to_camfilter':
        return _cam_summary(fn)
    if fn.__name__ == '_solar_gmm':
        return _gmm_summary(fn)
    if fn.__name__ == '_inverse_sample':
        return _inv_summary(fn)
    if fn.__name__ == 'compute_intersection':
        return _meet_summary(fn)
    if fn.__name__ == 'downscale':
        return _downscale_summary(fn)
    if fn.__name__ == '_random_at_scale':
        return _at_scale_summary(fn)
    if fn.__name__ in _FIELD_RESULTS:
        return _field_summary(fn)
    return _old_summary_of(fn, finite)


@model(np.unique)
def m_unique(a, return_index=False, return_inverse=False, return_counts=False, **kw):
    a = S.as_arr(a)
    if a.ndim != 1 or return_inverse or return_counts or kw:
        raise Unsupported('np.unique')
    n = a.shp[0]
    k = tm.fresh('u')
    S.st().ctx.append(tm.band(tm.le(ZERO, k), tm.lt(tm.add(k, ONE), n)))
    try:
        inc = S.st().implied(tm.lt(_num(scalar(a.get(k))).t, _num(scalar(a.get(tm.add(k, ONE)))).t))
    finally:
        S.st().ctx.pop()
    if not inc:
        raise Unsupported('np.unique of values not known to increase')
    s = a.snapshot()
    u = SArr((n,), lambda idx: s(idx), a.dtype_)
    return (u, SArr((n,), lambda idx: SNum(idx[0], kind='i'), 'i')) if return_index else u


# ------------------------------------------------------------------ random grids and their interpolation
def _draws(tag):
    """a fresh family of unspecified values, different in every iteration of the enclosing loops"""
    s = st()
    s.ndraw = getattr(s, 'ndraw', 0) + 1
    return '%s!%d' % (tag, s.ndraw), tuple(I.LOOPVARS)


def _unit(ex, t, *a):
    return [tm.le(ZERO, t), tm.le(t, ONE)]


def settled(t):
    """t with the indicators that the current hypotheses decide replaced by their values"""
    from . import smt
    for a in [a for a in tm.atoms(t) if a.op == 'ind' and not any(v.op == 'bv' for v in a.fv)]:
        if st().implied(a.args[0]):
            t = smt._assign_ind(t, a, 1)
        elif st().implied(tm.bnot(a.args[0])):
            t = smt._assign_ind(t, a, 0)
    return t


@model(np.random.rand, always=True)
def m_rand(*shape):
    note_assumption('numpy.random.rand: unspecified values between 0 and 1')
    from . import smt
    name, pre = _draws('rand')
    smt.AXIOMS[name] = _unit
    tm.NONNEG_APPS.add(name)
    shp = tuple(settled(dim(scalar(x))) for x in shape)
    f = lambda idx: SNum(tm.app(name, pre + tuple(idx), 'R'), kind='f')
    return SArr(shp, f, 'f') if shp else f(())


class SRGI:
    """linear interpolation on a rectangular grid: exact at the knots, never outside the range of the tabulated values"""
    _pyvc = True

    def __init__(self, pts, values):
        self.pts = [as_arr(_unpd(p)) for p in pts]
        self.v = as_arr(_unpd(values))
        if self.v.ndim != len(self.pts):
            raise Unsupported('interpolator dimensions')
        for p, d in zip(self.pts, self.v.shp):
            if not S.same_dim(p.shp[0], d):
                raise Raised(ValueError('points and values of different lengths'))
        note_assumption('RegularGridInterpolator: exact at the knots, otherwise within the range of the tabulated values')

    def __call__(self, xi, **kw):
        if kw or not isinstance(xi, (tuple, list)) or len(xi) != len(self.pts):
            raise Unsupported('interpolation points')
        qs = [as_arr(_unpd(x)) for x in xi]
        shp = S.bshape(*[q.shp for q in qs])
        qf = [q.snapshot() for q in qs]
        vf = self.v.snapshot()
        knots = []
        for p in self.pts:
            g = p.snapshot()
            with over(p.shp[0], 'kx') as k:
                knots.append((k, p.shp[0], _num(scalar(g((k,)))).t, g))
        lo, hi = term(reduce_(self.v, 'min')), term(reduce_(self.v, 'max'))

        def f(idx):
            pos, q = [], []
            for (k, n, kt, g), h, a in zip(knots, qf, qs):
                x = _num(scalar(h(S.bidx(a.shp, idx)))).t
                first, last = _num(scalar(g((ZERO,)))).t, _num(scalar(g((tm.sub(n, ONE),)))).t
                if not st().implied(tm.band(tm.le(first, x), tm.le(x, last))):
                    raise Unsupported('interpolation outside the grid')
                hit = match_knot(kt, k, n, x)
                if hit is None:
                    for c in sorted(x.fv, key=lambda v: v.id):
                        if c.sort == 'I' and tm.subst(kt, {k: c}) is x and st().implied(tm.band(tm.le(ZERO, c), tm.lt(c, n))):
                            hit = c
                pos.append(hit)
                q.append(x)
            if all(h is not None for h in pos):
                return vf(tuple(pos))
            w = tm.app('rgi', (lo, hi, _lam_arr(self.v)) + tuple(tm.lam(k, kt) for k, n, kt, g in knots) + tuple(q), 'R')
            return SNum(w, kind='f')
        return SArr(shp, f, 'f')


def _rgi_range(ex, t, lo, hi, *rest):
    return [tm.le(lo, t), tm.le(t, hi)]


@model(_si.RegularGridInterpolator)
def m_rgi(points, values, method='linear', **kw):
    if method != 'linear' or kw:
        raise Unsupported('interpolator options')
    from . import smt
    smt.AXIOMS['rgi'] = _rgi_range
    return SRGI(points, values)


def _at_scale_summary(fn):
    def s(args, kwargs):
        from . import smt
        a = inspect.signature(fn).bind(*args, **kwargs).arguments
        note_assumption('_random_at_scale is used through its contract: a field of the requested size with values between 0 and 1 (L01.at_scale)')
        out = []
        for kind, size in (('base', a['rand_size']), ('scaled', a['final_size'])):
            name, pre = _draws(kind)
            smt.AXIOMS[name] = _unit
            tm.NONNEG_APPS.add(name)
            shp = tuple(dim(scalar(x)) for x in I.iterate(size))
            if kind == 'base':
                one = tm.ONE
                shp = tuple(tm.ite(tm.le(x, one), tm.num(2), x) for x in shp)
            out.append(SArr(shp, lambda idx, name=name, pre=pre: SNum(tm.app(name, pre + tuple(idx), 'R'), kind='f'), 'f'))
        return tuple(out)
    return s


# ------------------------------------------------------------------ image filters
import scipy.ndimage as _ndi  # noqa: E402


def _reflect(i, d, n, reach):
    """row or column d away from i (|d| <= reach <= n) under the 'reflect' boundary rule (edge cells repeated)"""
    j = tm.add(i, tm.num(d))
    if d == 0:
        return i
    if d < 0:
        return tm.ite(tm.lt(j, ZERO), ZERO if reach == 1 else tm.sub(tm.num(-1), j), j)
    last = tm.sub(n, ONE)
    return tm.ite(tm.lt(last, j), last if reach == 1 else tm.sub(tm.add(last, n), j), j)


def _float2d(a):
    a = as_arr(_unpd(a))
    if a.ndim != 2 or a.filt or a.dtype_ != 'f':
        raise Unsupported('image filter input %s %s %s' % (a.ndim, a.dtype_, bool(a.filt)))
    return a


@model(_ndi.sobel)
def m_sobel(a, axis=-1, **kw):
    if kw:
        raise Unsupported('sobel options')
    a = _float2d(a)
    ax = int(axis) % 2
    g = a.snapshot()
    note_assumption('scipy.ndimage.sobel: central difference along the axis, (1, 2, 1) across it, edge cells repeated outside')

    def f(idx):
        def at(d):
            return _num(scalar(g(tuple(_reflect(i, o, n, 1) for i, o, n in zip(idx, d, a.shp)))))
        tot = None
        for along, s in ((1, 1), (-1, -1)):
            for across, wt in ((-1, 1), (0, 2), (1, 1)):
                d = (along, across) if ax == 0 else (across, along)
                v = at(d) * (s * wt)
                tot = v if tot is None else tot + v
        return SNum(tot.t, tot.nan, tot.pinf, tot.ninf, 'f')
    return SArr(a.shp, f, 'f')


@model(_ndi.uniform_filter)
def m_uniform(a, size=3, **kw):
    if kw:
        raise Unsupported('uniform_filter options')
    a = _float2d(a)
    s = tm.numval(term(lift(scalar(size))))
    if s is None or s.denominator != 1 or not 1 <= s <= 6:
        raise Unsupported('uniform_filter size')
    s = int(s)
    offs = range(-(s // 2), s - s // 2)
    reach = max(abs(o) for o in offs)
    if not all(st().implied(tm.le(tm.num(reach), n)) for n in a.shp):
        raise Unsupported('uniform_filter window larger than the image')
    S.box_cells(a, force=True)
    g = a.snapshot()
    note_assumption('scipy.ndimage.uniform_filter: mean over the size x size window, reflected at the boundary')

    def f(idx):
        tot = None
        for o in offs:
            for p in offs:
                pos = tuple(_reflect(i, d, n, reach) for i, d, n in zip(idx, (o, p), a.shp))
                v = _num(scalar(g(pos)))
                tot = v if tot is None else tot + v
        return tot * lift(Fraction(1, s * s))
    return SArr(a.shp, f, 'f')


_FIELD_RESULTS = {'_stack_random_field': ('draw',), '_calc_clear_mask': ('mask',), '_find_edges': ('pos', 'bool'), '_scale_field_lave': ('real',), '_scale_field_basic': ('real',)}


def _field_summary(fn):
    """results determined by all arguments (options included) and, for random fields, by the position in the stream of draws"""
    sig = inspect.signature(fn)

    def s(args, kwargs):
        b = sig.bind(*args, **kwargs)
        b.apply_defaults()
        a = dict(b.arguments)
        a.pop('plot', None)
        par, tag = [], fn.__name__
        for k in a:
            v = a[k]
            if isinstance(v, (SArr, SSeries, SFrame)):
                par += list(_flatten([v]))
            elif isinstance(v, (tuple, list)):
                par += [term(lift(scalar(x))) for x in v]
            elif v is None or isinstance(v, (bool, str)):
                tag += '|%s=%r' % (k, v)
            else:
                par.append(term(lift(scalar(v))))
        note_assumption('%s is used through its contract: determined by its arguments (L01, L02, L03)' % fn.__name__)
        if 'size' in a and fn.__name__ == '_stack_random_field':
            shp = tuple(dim(scalar(x)) for x in I.iterate(a['size']))
        else:
            shp = as_arr(next(iter(a.values()))).shp
        out = []
        for j, kind in enumerate(_FIELD_RESULTS[fn.__name__]):
            name, pre = '%s.%d' % (tag, j), tuple(par)
            if kind == 'draw':
                name, extra = _draws(name)
                pre += extra
            if kind in ('bool', 'mask'):
                f = lambda idx, name=name, pre=pre: SBool(tm.app(name, pre + tuple(idx), 'B'))
                if kind == 'mask':
                    f = lambda idx, f=f: SNum(tm.ind(f(idx).t), kind='f')
                out.append(SArr(shp, f, 'b' if kind == 'bool' else 'f'))
            else:
                if kind in ('pos', 'draw'):
                    tm.NONNEG_APPS.add(name)
                out.append(SArr(shp, lambda idx, name=name, pre=pre: SNum(tm.app(name, pre + tuple(idx), 'R'), kind='f'), 'f'))
        return tuple(out) if len(out) > 1 else out[0]
    return s


@model(np.random.get_state, always=True)
def m_get_state(*a):
    return ('rng', getattr(st(), 'ndraw', 0))


@model(np.random.set_state, always=True)
def m_set_state(s):
    if not (isinstance(s, tuple) and s[0] == 'rng'):
        raise Unsupported('random state')
    st().ndraw = s[1]


@model(pvlib.scaling._compute_wavelet)
def m_wavelet(clearsky_index, dt=None):
    if dt is not None or not isinstance(clearsky_index, SSeries):
        raise Unsupported('wavelet input')
    note_assumption('pvlib _compute_wavelet: one row of values per time scale, determined by the record')
    a = clearsky_index.arr() if callable(getattr(clearsky_index, 'arr', None)) else as_arr(_unpd(clearsky_index))
    par = tuple(_flatten([a]))
    J = tm.app('wave.scales', par, 'I')
    st().assume(tm.le(tm.num(2), J))
    w = SArr((J, a.shp[0]), lambda idx: SNum(tm.app('wave', par + tuple(idx), 'R'), kind='f'), 'f')
    return w, SList(J, lambda k: SNum(tm.app('wave.tm', par + (k,), 'R'), kind='f'))
