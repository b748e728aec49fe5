"""G04: interpolating and applying transfer functions."""
import numpy as np
import pandas as pd
from pyvc.ctx import contract
from solarspatialtools import signalproc


def _freqs(cx, n, lo=0.001):
    f = cx.arr('f', n, lo, 2, distinct=True)
    if not cx.sym:
        f = np.sort(f)
    cx.requires_all(n - 1, lambda k: cx.at(f, k) < cx.at(f, k + 1))
    return f


def _cplx(cx, name, shape):
    re, im = cx.arr(name + '.re', shape), cx.arr(name + '.im', shape)
    return re + 1j * im


def _mk(v, f):
    return pd.Series(v, index=f)


def _mkdf(v, f, c):
    return pd.DataFrame(v, index=f, columns=c)


@contract(signalproc.interp_tf)
def at_knots(cx):
    """at the frequencies of the transfer function the interpolation returns its values"""
    n = cx.size('n', 2, 8)
    f = _freqs(cx, n)
    k = cx.choice('kind', ['series', 'table'])
    v = _cplx(cx, 'h', n if k == 'series' else (n, 2))
    tf = cx.call(_mk, v, f) if k == 'series' else cx.call(_mkdf, v, f, ['a', 'b'])
    q = f[::-1] if cx.choice('order', ['reversed', 'same']) == 'reversed' else f
    r = cx.call(signalproc.interp_tf, q, tf)
    cx.eq('rows', cx.len(r), n)
    for i in cx.forall(n):
        cx.eq('frequency', cx.at(r.index, i), cx.at(q, i))
    rev = not (q is f)
    for i in cx.forall(n):
        s = n - 1 - i if rev else i
        for j in range(1 if k == 'series' else 2):
            a, b = (cx.at(r, i), cx.at(v, s)) if k == 'series' else (cx.at(r, i, j), cx.at(v, s, j))
            cx.eq('real part', a.real, b.real)
            cx.eq('imaginary part', a.imag, b.imag)


@contract(signalproc.interp_tf)
def between_knots(cx):
    """between them magnitude and unwrapped phase are interpolated linearly, separately; labels are kept"""
    n, m = cx.size('n', 2, 8), cx.size('m', 1, 6)
    f = _freqs(cx, n)
    q = cx.arr('q', m, 0, 2)
    if not cx.sym:
        q = np.clip(q, f[0], f[-1])
    cx.requires_all(m, lambda i: cx.And(cx.at(f, 0) <= cx.at(q, i), cx.at(q, i) <= cx.at(f, n - 1)))
    k = cx.choice('kind', ['series', 'table'])
    v = _cplx(cx, 'h', n if k == 'series' else (n, 2))
    tf = cx.call(_mk, v, f) if k == 'series' else cx.call(_mkdf, v, f, ['a', 'b'])
    r = cx.call(signalproc.interp_tf, q, tf)
    if k == 'table':
        cx.ensure('columns', list(r.columns) == ['a', 'b'])
    for i in cx.forall(m):
        cx.eq('frequency', cx.at(r.index, i), cx.at(q, i))
    for j in range(1 if k == 'series' else 2):
        vj = v if k == 'series' else v[:, j]
        mag = cx.call(np.interp, q, f, cx.call(np.abs, vj))
        ph = cx.call(np.interp, q, f, cx.call(np.unwrap, cx.call(np.angle, vj)))
        for i in cx.forall(m):
            a = cx.at(r, i) if k == 'series' else cx.at(r, i, j)
            cx.eq('real part', a.real, cx.at(mag, i) * cx.cos(cx.at(ph, i)))
            cx.eq('imaginary part', a.imag, cx.at(mag, i) * cx.sin(cx.at(ph, i)))


@contract(signalproc.interp_tf)
def any_order(cx):
    """the order in which the transfer function lists its frequencies does not matter"""
    n, m = cx.size('n', 2, 10), cx.size('m', 1, 8)
    f = _freqs(cx, n)
    k = cx.choice('kind', ['series', 'table'])
    v = _cplx(cx, 'h', n if k == 'series' else (n, 2))
    p = cx.perm('p', n)
    o = cx.call(np.array, cx.pairs(n, p))
    q = cx.arr('q', m, 0, 2)
    if not cx.sym:
        q = np.clip(q, f[0], f[-1])
    cx.requires_all(m, lambda i: cx.And(cx.at(f, 0) <= cx.at(q, i), cx.at(q, i) <= cx.at(f, n - 1)))
    mk = lambda v, f: cx.call(_mk, v, f) if k == 'series' else cx.call(_mkdf, v, f, ['a', 'b'])
    a = cx.call(signalproc.interp_tf, q, mk(v, f))
    b = cx.call(signalproc.interp_tf, q, mk(v[o], f[o]))
    for i in cx.forall(m):
        for j in range(1 if k == 'series' else 2):
            u, w = (cx.at(a, i), cx.at(b, i)) if k == 'series' else (cx.at(a, i, j), cx.at(b, i, j))
            cx.eq('real part', u.real, w.real)
            cx.eq('imaginary part', u.imag, w.imag)


@contract(signalproc.interp_tf)
def outside(cx):
    """frequencies outside the range of the transfer function are rejected"""
    n = cx.size('n', 2, 10)
    f = _freqs(cx, n)
    v = _cplx(cx, 'h', n)
    d = cx.real('d', 0.001, 1)
    cx.requires(d > 0)
    where = cx.choice('where', ['above', 'below'])
    q = cx.at(f, n - 1) + d if where == 'above' else cx.at(f, 0) - d
    cx.raises(where, ValueError, signalproc.interp_tf, cx.call(np.array, [cx.at(f, 0), q]), cx.call(_mk, v, f))


def _signal(cx, name='x', lo=2, hi=24):
    n = cx.size('n', lo, hi)
    ts = cx.times('t', n, cx.choice('dt', [1, 10, 0.5]))
    return n, ts, cx.series(name, n, index=ts)


@contract(signalproc.apply_filter)
def constant_gain(cx):
    """a filter that is g at every frequency multiplies the signal by g and keeps its times"""
    n, ts, x = _signal(cx)
    g = cx.real('g', -5, 5)
    dt = (cx.at(ts, 1) - cx.at(ts, 0)).total_seconds()
    flt = cx.call(_mk, cx.call(np.array, [g, g, g]), cx.call(np.array, [-1 / dt, 0 * dt, 1 / dt]))
    r = cx.call(signalproc.apply_filter, x, flt)
    cx.eq('length', cx.len(r), n)
    for i in cx.forall(n):
        cx.eq('time', cx.at(r.index, i), cx.at(ts, i))
        cx.eq('signal', cx.at(r, i), g * cx.at(x, i))


@contract(signalproc.apply_filter)
def frequency_domain(cx):
    """the output's spectrum is the signal's spectrum times the filter interpolated at the signal's frequencies"""
    n, ts, x = _signal(cx)
    dt = (cx.at(ts, 1) - cx.at(ts, 0)).total_seconds()
    m = cx.size('m', 2, 6)
    f = _freqs(cx, m, -2)
    if not cx.sym:
        f[0], f[-1] = -1 / dt, 1 / dt
        f = np.sort(f)
    cx.requires(cx.And(cx.at(f, 0) <= -1 / dt, cx.at(f, m - 1) >= 1 / dt))
    flt = cx.call(_mk, _cplx(cx, 'h', m), f)
    r = cx.call(signalproc.apply_filter, x, flt)
    H = cx.call(signalproc.interp_tf, cx.call(np.fft.fftfreq, n, dt), flt)
    want = cx.call(np.real, cx.call(np.fft.ifft, cx.call(np.fft.fft, x.values) * H.values))
    cx.eq('length', cx.len(r), n)
    for i in cx.forall(n):
        cx.eq('time', cx.at(r.index, i), cx.at(ts, i))
        cx.eq('signal', cx.at(r, i), cx.at(want, i), tol=1e-7)


def _hermitian(cx, n, dt):
    """a real filter: one complex gain per frequency with H(-f) = conj(H(f))"""
    fv = np.fft.fftfreq(n, dt)
    h = _cplx(cx, 'h', n)
    H = np.array([h[abs(int(round(v * n * dt)))] if v >= 0 else np.conj(h[abs(int(round(v * n * dt)))]) for v in fv])
    H[0] = H[0].real
    if n % 2 == 0:
        H[n // 2] = H[n // 2].real
    o = np.argsort(fv)
    return fv, H, pd.Series(H[o], index=fv[o])


@contract(signalproc.apply_filter, mode='bounded')
def convolution(cx):
    """the output is the circular convolution of the signal with the filter's impulse response"""
    n, ts, x = _signal(cx)
    dt = (ts[1] - ts[0]).total_seconds()
    fv, H, flt = _hermitian(cx, n, dt)
    cx.requires(np.min(np.abs(H)) > 1e-3)
    # neighbouring phases exactly pi apart are unwrapped either way, which does not matter at the knots
    r = cx.call(signalproc.apply_filter, x, flt)
    imp = np.array([np.real(np.sum(H * np.exp(2j * np.pi * fv * k * dt))) / n for k in range(n)])
    want = np.array([np.sum([x.values[(i - k) % n] * imp[k] for k in range(n)]) for i in range(n)])
    cx.ensure('times', r.index.equals(ts))
    cx.eq_arr('signal', r.values, want, tol=1e-6)


@contract(signalproc.apply_filter, mode='bounded')
def pure_delay(cx):
    """a filter exp(-2 pi i f d) delays the signal by d (circularly), a positive d moving it to later times"""
    n, ts, x = _signal(cx, lo=5, hi=31)
    cx.requires(n % 2 == 1)
    dt = (ts[1] - ts[0]).total_seconds()
    k = cx.integer('k', -2, 2)
    f = np.sort(np.fft.fftfreq(n, dt))
    cx.ensure('phase steps', True)
    r = cx.call(signalproc.apply_filter, x, pd.Series(np.exp(-2j * np.pi * f * k * dt), index=f))
    cx.eq_arr('signal', r.values, np.roll(x.values, k), tol=1e-6)


@contract(signalproc.apply_filter)
def too_narrow(cx):
    """a filter that does not reach the signal's highest frequency is rejected"""
    n, ts, x = _signal(cx, lo=4)
    g = cx.real('g', -5, 5)
    dt = (cx.at(ts, 1) - cx.at(ts, 0)).total_seconds()
    f = cx.call(np.fft.fftfreq, n, dt)
    cx.lemma('reaches', cx.at(f, (n - 1) // 2) > 1 / (8 * dt))
    cx.between_extremes(f, (n - 1) // 2)
    cx.raises('narrow', ValueError, signalproc.apply_filter, x, cx.call(_mk, cx.call(np.array, [g, g, g]), cx.call(np.array, [-1 / (8 * dt), 0 * dt, 1 / (8 * dt)])))
