"""G05: delays from transfer-function phase."""
import numpy as np
import pandas as pd
from pyvc.ctx import contract
from solarspatialtools import signalproc
from props.G04 import _freqs, _cplx, _mk, _mkdf

ASSUMPTIONS = ['scipy.optimize.curve_fit / leastsq return the least-squares solution of an affine one-parameter model / the zero of independent affine residuals']


@contract(signalproc.apply_delay)
def pure_phase(cx):
    """applying a delay d multiplies the transfer function by exp(-2 pi i f d)"""
    n = cx.size('n')
    f = _freqs(cx, n)
    v = _cplx(cx, 'h', n)
    d = cx.real('d')
    r = cx.call(signalproc.apply_delay, cx.call(_mk, v, f), d)
    cx.eq('count', cx.len(r), n)
    for k in cx.forall(n):
        c, s = cx.cos(2 * cx.pi * cx.at(f, k) * d), cx.sin(2 * cx.pi * cx.at(f, k) * d)
        a, b = cx.at(r, k), cx.at(v, k)
        cx.eq('real part', a.real, b.real * c + b.imag * s)
        cx.eq('imaginary part', a.imag, b.imag * c - b.real * s)


@contract(signalproc.apply_delay)
def undone(cx):
    """delays add up: d followed by -d gives the original back, and the magnitude never changes"""
    n = cx.size('n')
    f = _freqs(cx, n)
    v = _cplx(cx, 'h', n)
    d, e = cx.real('d'), cx.real('e')
    tf = cx.call(_mk, v, f)
    r = cx.call(_mk, cx.call(signalproc.apply_delay, tf, d), f)
    b = cx.call(signalproc.apply_delay, r, -d)
    c = cx.call(signalproc.apply_delay, r, e)
    g = cx.call(signalproc.apply_delay, tf, d + e)
    for k in cx.forall(n):
        cx.eq('back', cx.at(b, k).real, cx.at(v, k).real)
        cx.eq('back', cx.at(b, k).imag, cx.at(v, k).imag)
        cx.eq('sum', cx.at(c, k).real, cx.at(g, k).real)
        cx.eq('sum', cx.at(c, k).imag, cx.at(g, k).imag)
        p, q = cx.at(c, k), cx.at(v, k)
        cx.eq('magnitude', p.real * p.real + p.imag * p.imag, q.real * q.real + q.imag * q.imag)


def _case(cx, n, m=None):
    """transfer function, coherence, limits; -> what is used at (k, j)"""
    f = _freqs(cx, n)
    shp = n if m is None else (n, m)
    v, c = _cplx(cx, 'h', shp), cx.arr('c', shp, 0, 1)
    if m is None:
        tf, coh = cx.call(_mk, v, f), cx.call(_mk, c, f)
    else:
        cols = cx.labels('p', m)
        tf, coh = cx.call(_mkdf, v, f, cols), cx.call(_mkdf, c, f, cols)
    lim = cx.choice('limits', ['both', 'coherence', 'frequency', 'none'])
    cl = cx.real('coh_limit', 0, 1) if lim in ('both', 'coherence') else None
    fl = cx.real('freq_limit', 0, 2) if lim in ('both', 'frequency') else None

    def used(k, j=None):
        a = cx.at(c, k) > cl if j is None and cl is not None else cx.at(c, k, j) > cl if cl is not None else True
        return cx.And(a, cx.at(f, k) < fl if fl is not None else True)
    return f, v, tf, coh, cl, fl, used


@contract(signalproc.tf_delay)
def fitted(cx):
    """'fit': the delay of the least-squares line through zero of the unwrapped phases in use"""
    n = cx.size('n', 2, 8)
    f, v, tf, coh, cl, fl, used = _case(cx, n)
    cx.requires(cx.any(n, lambda k: used(k)))
    d, ix = cx.call(signalproc.tf_delay, tf, coh, cl, fl, 'fit')
    ph = cx.call(np.unwrap, cx.call(np.angle, v[ix[:, 0]]))
    fu = f[ix[:, 0]]
    for k in cx.forall(n):
        cx.ensure('in use', cx.iff(cx.at(ix, k, 0), used(k)))
    cx.eq('delay', d, -cx.call(np.sum, fu * ph) / (2 * cx.pi * cx.call(np.sum, fu * fu)), tol=1e-5)


@contract(signalproc.tf_delay)
def averaged(cx):
    """'multi': for every column the delay for which the phase errors in use cancel"""
    n, m = cx.size('n', 2, 8), cx.size('m', 1, 3)
    f, v, tf, coh, cl, fl, used = _case(cx, n, m)
    cx.requires(cx.at(f, 0) < fl if fl is not None else True)
    d, ix = cx.call(signalproc.tf_delay, tf, coh, cl, fl, 'multi')
    cx.eq('count', cx.len(d), m)
    for j in cx.forall(m):
        sel = f < fl if fl is not None else cx.call(np.ones, n, dtype=bool)
        ph = cx.call(np.unwrap, cx.call(np.angle, v[:, j][sel]))
        fu = f[sel]
        w = (coh.values[:, j][sel] > cl) * 1.0 if cl is not None else fu * 0.0 + 1.0
        den = cx.call(np.sum, fu * w)
        cx.requires(cx.abs(den) > (0 if cx.sym else 1e-3))
        cx.eq('delay', cx.at(d, j), -cx.div(cx.call(np.sum, ph * w), 2 * cx.pi * den), tol=1e-5)
        for k in cx.forall(n):
            cx.ensure('in use', cx.iff(cx.at(ix, k, j), used(k, j)))


@contract(signalproc.tf_delay)
def group_delay(cx):
    """'diff': the mean over the frequencies in use of the negative phase slope (the last slope repeated)"""
    n = cx.size('n', 2, 8)
    f, v, tf, coh, cl, fl, used = _case(cx, n)
    cx.requires(cx.any(n, lambda k: used(k)))
    d, ix = cx.call(signalproc.tf_delay, tf, coh, cl, fl, 'diff')
    ph = cx.call(np.unwrap, cx.call(np.angle, v))

    def slope(k):
        i = cx.ite(k < n - 1, k, n - 2)
        return -(cx.at(ph, i + 1) - cx.at(ph, i)) / (cx.at(f, i + 1) - cx.at(f, i)) / (2 * cx.pi)
    cnt = cx.sum(n, lambda k: cx.ite(used(k), 1.0, 0.0))
    cx.eq('delay', d, cx.sum(n, lambda k: cx.ite(used(k), lambda: slope(k), 0.0)) / cnt, tol=1e-5)
    for k in cx.forall(n):
        cx.ensure('in use', cx.iff(cx.at(ix, k, 0), used(k)))


@contract(signalproc.tf_delay, mode='bounded')
def recovered(cx):
    """a pure delay is recovered by every method, whatever the gain"""
    n = cx.size('n', 6, 24)
    df = cx.real('df', 1e-3, 0.05)
    f = np.arange(n) * df
    d = cx.real('d', -0.45, 0.45) / df
    v = cx.arr('g', n, 0.1, 5) * np.exp(-2j * np.pi * f * d)
    tf, coh = pd.Series(v, index=f), pd.Series(np.ones(n), index=f)
    lim = df * (n - 1.5)
    for method in ('fit', 'multi', 'diff'):
        r, ix = cx.call(signalproc.tf_delay, tf, coh, 0.6, lim, method)
        cx.eq(method, float(np.ravel(r)[0]), d, tol=1e-5)
        cx.eq('in use', int(np.sum(ix)), n - 1)


@contract(signalproc.tf_delay)
def limits(cx):
    """nothing coherent: the fit gives NaN; the one-column methods reject tables; unknown methods are rejected"""
    n = cx.size('n', 2, 8)
    f = _freqs(cx, n)
    v, c = _cplx(cx, 'h', (n, 2)), cx.arr('c', (n, 2), 0, 0.5)
    tf, coh = cx.call(_mkdf, v, f, ['a', 'b']), cx.call(_mkdf, c, f, ['a', 'b'])
    d, ix = cx.call(signalproc.tf_delay, tf['a'], coh['a'], 0.6, None, 'fit')
    cx.ensure('missing', cx.isnan(d))
    for m in ('fit', 'diff'):
        cx.raises('table', ValueError, signalproc.tf_delay, tf, coh, 0.6, 0.02, m)
    cx.raises('method', ValueError, signalproc.tf_delay, tf, coh, 0.6, 0.02, 'bogus')


def _step(cx, ts):
    return (cx.at(ts, 1) - cx.at(ts, 0)).total_seconds()


def _pairs(cx, n, kinds):
    ts = cx.times('t', n)
    kind = cx.choice('kind', kinds)
    x = cx.frame('x', n, ['a', 'b'], index=ts) if kind in ('pairs', 'one output') else cx.series('x', n, index=ts)
    y = cx.frame('y', n, ['u', 'v'], index=ts) if kind in ('pairs', 'one input') else cx.series('y', n, index=ts)
    return kind, ts, x, y, 1 if kind == 'series' else 2


def _col(a, j):
    return a.iloc[:, j] if len(a.shape) == 2 else a


def _fd(cx, x, y, *opts):
    """transfer function and coherence of the pairs, with positive spectra everywhere"""
    if not cx.sym:         # what the contract of averaged_tf requires for finite results
        for a in (x, y):
            p = cx.call(signalproc.averaged_psd, a, 2, *opts)
            cx.requires_all(cx.shape(p)[1], lambda j: cx.all(cx.len(p), lambda k: cx.at(p, k, j) > 1e-6))
    tf, coh = cx.call(signalproc.averaged_tf, x, y, 2, *opts)
    return tf, coh, cx.len(tf)


@contract(signalproc.compute_delays_tf)
def per_pair_multi(cx):
    """the delay of every pair is the phase delay of its averaged transfer function; the mean coherence is taken below the frequency limit"""
    n = cx.size('n', 12, 40)
    kind, ts, x, y, m = _pairs(cx, n, ['pairs', 'one input', 'one output', 'series'])
    cx.modular(signalproc.averaged_tf, signalproc.tf_delay)
    tf, coh, nf = _fd(cx, x, y, 0.5, 'hann', None)
    fl = cx.real('freq_limit', 0, 0.2)
    cx.requires(fl > 0)
    d, ex = cx.call(signalproc.compute_delays_tf, x, y, 2, 0.5, fl, 'multi', 0.5, 'hann')
    e, ix = cx.call(signalproc.tf_delay, tf, coh, 0.5, fl, 'multi')
    cx.eq('count', cx.len(d), m)
    fx = tf.index
    cnt = cx.sum(nf, lambda k: cx.ite(cx.at(fx, k) < fl, 1.0, 0.0))
    for j in range(m):
        cx.eq('delay', cx.at(d, j), cx.at(e, j))
        tot = cx.sum(nf, lambda k: cx.ite(cx.at(fx, k) < fl, lambda: cx.at(coh, k, j), 0.0))
        cx.eq('mean coherence', cx.at(ex['mean_coh'], j), cx.div(tot, cnt))
        for k in cx.forall(nf):
            cx.ensure('in use', cx.iff(cx.at(ex['ix'], k, j), cx.And(cx.at(coh, k, j) > 0.5, cx.at(fx, k) < fl)))


@contract(signalproc.compute_delays_tf)
def per_pair_fit(cx):
    """the same with the line fit, pair by pair"""
    n = cx.size('n', 16, 60)
    kind, ts, x, y, m = _pairs(cx, n, ['pairs', 'one input', 'one output', 'series'])
    cx.modular(signalproc.averaged_tf, signalproc.tf_delay)
    tf, coh, nf = _fd(cx, x, y, 0.5, 'hamming', None)
    d, ex = cx.call(signalproc.compute_delays_tf, x, y, 2, 0.3, 0.05, 'fit')
    cx.eq('count', cx.len(d), m)
    for j in range(m):
        e, ix = cx.call(signalproc.tf_delay, tf.iloc[:, j], coh.iloc[:, j], 0.3, 0.05, 'fit')
        cx.eq('delay', cx.at(d, j), e, tol=1e-5)
        for k in cx.forall(nf):
            cx.ensure('in use', cx.iff(cx.at(ex['ix'], k, j), cx.at(ix, k, 0)))


@contract(signalproc.compute_delays_tf)
def defaults(cx):
    """the defaults: five averages of half-overlapping Hamming windows, coherence above 0.6, below 0.02 Hz, joint fit, no correlations"""
    n = cx.size('n', 30, 60)
    kind, ts, x, y, m = _pairs(cx, n, ['pairs', 'series'])
    cx.modular(signalproc.averaged_tf, signalproc.tf_delay)
    d, ex = cx.call(signalproc.compute_delays_tf, x, y)
    e, ey = cx.call(signalproc.compute_delays_tf, x, y, 5, 0.6, 0.02, 'multi', 0.5, 'hamming', False)
    for j in range(m):
        cx.eq('delays', cx.at(d, j), cx.at(e, j))
        cx.eq('coherence', cx.at(ex['mean_coh'], j), cx.at(ey['mean_coh'], j))
    cx.ensure('no correlations unless asked for', set(ex) == {'mean_coh', 'ix'})


@contract(signalproc.compute_delays_tf)
def correlations(cx):
    """on request: mean and zero-lag correlation coefficient of each pair, and the correlation at the estimated delay"""
    n = cx.size('n', 12, 40)
    kind, ts, x, y, m = _pairs(cx, n, ['pairs', 'one input', 'one output', 'series'])
    if not cx.sym:         # what the contract of correlation requires for finite results
        for a in (x, y):
            cx.requires(np.min(np.std(np.asarray(a), axis=0)) > 1e-2)
    cx.modular(signalproc.averaged_tf, signalproc.tf_delay, signalproc.correlation)
    d, ex = cx.call(signalproc.compute_delays_tf, x, y, 2, compute_xcorr=True)
    for j in range(m):
        c, lag = cx.call(signalproc.correlation, _col(x, j), _col(y, j), 'coeff')
        lag = lag * _step(cx, ts)
        cx.eq('mean', cx.at(ex['mean_corr'], j), cx.call(np.mean, c))
        cx.eq('zero lag', cx.at(ex['zero_corr'], j), cx.at(c, n - 1))
        q = -cx.at(d, j)
        inside = cx.And(cx.at(lag, 0) <= q, q <= cx.at(lag, 2 * n - 2))
        cx.ensure('outside', cx.iff(cx.isnan(cx.at(ex['peak_corr'], j)), cx.Not(inside)))
        if cx.branch(inside):
            cx.eq('at the delay', cx.at(ex['peak_corr'], j), cx.call(np.interp, q, lag, c))


@contract(signalproc.compute_delays_tf, mode='bounded')
def shifted_copy(cx):
    """an output that repeats the input d later has delay d, and coherence near one"""
    n, k = 600, cx.integer('k', -6, 6)
    dt = cx.choice('dt', [1, 10, 0.5])
    r = np.random.RandomState(cx.integer('seed', 0, 9999))
    w = np.cumsum(r.randn(n + 40))
    ts = pd.date_range('2021-03-01', periods=n, freq=pd.Timedelta(dt, unit='s'))
    x, y = pd.Series(w[20:20 + n], index=ts), pd.Series(w[20 - k:20 - k + n], index=ts)
    for method in ('multi', 'fit'):
        d, ex = cx.call(signalproc.compute_delays_tf, x, y, 4, 0.5, 0.02 / dt, method)
        cx.ensure('delay', abs(d[0] - k * dt) <= 0.7 * abs(k) * dt + 1e-9)
    d, ex = cx.call(signalproc.compute_delays_tf, pd.DataFrame({'a': x, 'b': y}), pd.DataFrame({'u': y, 'v': x}), 4, 0.5, 0.02 / dt)
    cx.ensure('pairing', d[0] * k >= -0.1 * dt * abs(k) and d[1] * k <= 0.1 * dt * abs(k))


@contract(signalproc.compute_delays_tf)
def mismatched(cx):
    """tables of different width and unknown methods are rejected"""
    n = cx.size('n', 12, 20)
    ts = cx.times('t', n)
    x, y = cx.frame('x', n, ['a', 'b'], index=ts), cx.frame('y', n, ['u', 'v', 'w'], index=ts)
    cx.raises('width', ValueError, signalproc.compute_delays_tf, x, y, 2)
    cx.raises('method', ValueError, signalproc.compute_delays_tf, x, y[['u', 'v']], 2, 0.5, 0.1, cx.choice('method', ['diff', 'bogus']))
