"""G02: time-domain delays: the lag of the correlation peak."""
import numpy as np
import pandas as pd
from pyvc.ctx import contract
from solarspatialtools import signalproc


def _mean(cx, a, n):
    return cx.sum(n, lambda k: cx.at(a, k)) / n


def _var(cx, a, n):
    mu = _mean(cx, a, n)
    return cx.sum(n, lambda k: (cx.at(a, k) - mu) * (cx.at(a, k) - mu)) / n


def _step(cx, ts):
    return (cx.at(ts, 1) - cx.at(ts, 0)).total_seconds()


@contract(signalproc.xcorr_delay)
def peak_lag(cx):
    """delay = -(lag of the largest correlation) x sampling period, reported with that correlation; the earliest lag wins ties"""
    n = cx.size('n', 2, 8)
    ts = cx.times('t', n)
    a, b = cx.series('a', n, index=ts), cx.series('b', n, index=ts)
    sc = cx.choice('scaling', ['coeff', 'none'])
    if sc == 'coeff':
        cx.requires(_var(cx, a, n) > (0 if cx.sym else 1e-3))
        cx.requires(_var(cx, b, n) > (0 if cx.sym else 1e-3))
    d, peak = cx.call(signalproc.xcorr_delay, a, b, sc)
    c, lag = cx.call(signalproc.correlation, a, b, sc)
    q = cx.call(np.argmax, c)
    cx.eq('delay', d, -cx.at(lag, q) * _step(cx, ts))
    cx.eq('peak', peak, cx.at(c, q))
    for k in cx.forall(2 * n - 1):
        cx.le('largest', cx.at(c, k), peak)


@contract(signalproc.xcorr_delay)
def default_scaling(cx):
    """the default scaling is the correlation coefficient"""
    n = cx.size('n', 2, 8)
    ts = cx.times('t', n)
    a, b = cx.series('a', n, index=ts), cx.series('b', n, index=ts)
    cx.requires(_var(cx, a, n) > (0 if cx.sym else 1e-3))
    cx.requires(_var(cx, b, n) > (0 if cx.sym else 1e-3))
    d, peak = cx.call(signalproc.xcorr_delay, a, b)
    e, peak2 = cx.call(signalproc.xcorr_delay, a, b, scaling='coeff')
    cx.eq('delay', d, e)
    cx.eq('peak', peak, peak2)


@contract(signalproc.xcorr_delay)
def other_scalings(cx):
    """the same for the remaining scalings, against the contract of correlation"""
    n = cx.size('n', 2, 8)
    ts = cx.times('t', n)
    a, b = cx.series('a', n, index=ts), cx.series('b', n, index=ts)
    sc = cx.choice('scaling', ['energy', 'unbiased_coeff', 'unbiased_energy', 'NONE', 'Coeff'])
    cx.modular(signalproc.correlation)
    cx.requires(_var(cx, a, n) > (0 if cx.sym else 1e-3))
    cx.requires(_var(cx, b, n) > (0 if cx.sym else 1e-3))
    d, peak = cx.call(signalproc.xcorr_delay, a, b, sc)
    c, lag = cx.call(signalproc.correlation, a, b, sc)
    q = cx.call(np.argmax, c)
    cx.eq('delay', d, -cx.at(lag, q) * _step(cx, ts))
    cx.eq('peak', peak, cx.at(c, q))
    for k in cx.forall(2 * n - 1):
        cx.le('largest', cx.at(c, k), peak)


def _tables(cx):
    n, m = cx.size('n', 2, 8), cx.size('m', 1, 3)
    ts = cx.times('t', n)
    return n, m, ts, cx.frame('a', n, cx.labels('ca', m), index=ts), cx.frame('b', n, cx.labels('cb', m), index=ts)


def _pairs(cx, mode, sc, peaks=True):
    n, m, ts, a, b = _tables(cx)
    r, ex = cx.call(signalproc.compute_delays, a, b, mode, sc)
    dt = _step(cx, ts)
    cx.eq('count', cx.len(r), m)
    for key in ('peak_corr', 'mean_corr', 'zero_corr'):
        cx.eq('one value per pair', len(cx.shape(ex[key])), 1)
        cx.eq('one value per pair', cx.shape(ex[key])[0], m)
    for j in cx.forall(m):
        x, y = a.iloc[:, j], b.iloc[:, j]
        if sc == 'coeff':
            cx.requires(_var(cx, x, n) > (0 if cx.sym else 1e-3))
            cx.requires(_var(cx, y, n) > (0 if cx.sym else 1e-3))
        c, lag = cx.call(signalproc.correlation, x, y, sc)
        peak = cx.at(ex['peak_corr'], j)
        cx.eq('zero', cx.at(ex['zero_corr'], j), cx.at(c, n - 1), tol=1e-6)
        neg = cx.sum(n - 1, lambda k: cx.at(c, k))
        tot = neg + cx.sum(n, lambda k: cx.at(c, n - 1 + k)) if mode == 'fft' else cx.sum(2 * n - 1, lambda k: cx.at(c, k))
        cx.eq('mean', cx.at(ex['mean_corr'], j), tot / (2 * n - 1), tol=1e-6)

        def at(k):     # every lag once; for the FFT mode in the order 0, 1, .., n-1, 1-n, .., -1
            return cx.ite(k < n, k + n - 1, k - n) if mode == 'fft' else k
        d = cx.at(r, j)
        uncorrelated = peak < 1e-10
        cx.requires(cx.Or(cx.sym, lambda: cx.abs(peak - 1e-10) > 1e-9))
        cx.ensure('uncorrelated', cx.implies(uncorrelated, lambda: d == 0))
        if not peaks:
            continue
        for k in cx.forall(2 * n - 1):
            cx.le('largest', cx.at(c, at(k)), peak, tol=1e-6)
        cx.ensure('attained', cx.any(2 * n - 1, lambda k: cx.And(
            lambda: cx.Or(uncorrelated, lambda: d == -cx.at(lag, at(k)) * dt),
            lambda: cx.abs(cx.at(c, at(k)) - peak) <= (0 if cx.sym else 1e-6 * (1 + abs(peak))))))


@contract(signalproc.compute_delays)
def loop_coeff(cx):
    """pair by pair: delay of the peak, peak, mean and zero-lag correlation coefficient"""
    _pairs(cx, 'loop', 'coeff')


@contract(signalproc.compute_delays)
def loop_none(cx):
    """the same without scaling"""
    _pairs(cx, 'loop', 'none')


@contract(signalproc.compute_delays)
def fft_coeff(cx):
    """the FFT mode: one delay, mean and zero-lag coefficient per pair"""
    _pairs(cx, 'fft', 'coeff', peaks=False)


@contract(signalproc.compute_delays)
def fft_none(cx):
    """the FFT mode without scaling"""
    _pairs(cx, 'fft', 'none', peaks=False)


@contract(signalproc.compute_delays, mode='bounded')
def fft_peaks(cx):
    """the FFT mode reports the same peaks, means and delays as the correlation of each pair"""
    _pairs(cx, 'fft', cx.choice('scaling', ['coeff', 'none']))


@contract(signalproc.compute_delays)
def defaults(cx):
    """the default is the loop over pairs with correlation coefficients"""
    n, m, ts, a, b = _tables(cx)
    for j in cx.forall(m):
        cx.requires(_var(cx, a.iloc[:, j], n) > (0 if cx.sym else 1e-3))
        cx.requires(_var(cx, b.iloc[:, j], n) > (0 if cx.sym else 1e-3))
        r, ex = cx.call(signalproc.compute_delays, a, b)
        q, ey = cx.call(signalproc.compute_delays, a, b, mode='loop', scaling='coeff')
        cx.eq('delay', cx.at(r, j), cx.at(q, j))
        cx.eq('peak', cx.at(ex['peak_corr'], j), cx.at(ey['peak_corr'], j))


@contract(signalproc.compute_delays)
def rejected(cx):
    """unknown modes and scalings are rejected"""
    n, m, ts, a, b = _tables(cx)
    cx.raises('mode', ValueError, signalproc.compute_delays, a, b, cx.choice('mode', ['bogus', 'FFT', '']), 'none')
    cx.raises('scaling', ValueError, signalproc.compute_delays, a, b, 'loop', cx.choice('scaling', ['bogus', 'energy', 'unbiased_coeff']))


@contract(signalproc.xcorr_delay, signalproc.compute_delays, mode='bounded')
def shifted_copy(cx):
    """a signal that arrives d samples later at the output has delay +d periods with peak near one, in every mode"""
    d, n = cx.integer('d', -4, 4), cx.size('n', 30, 60)
    dt = cx.choice('dt', [1, 10, 0.5])
    x = cx.arr('x', n + 10)
    cx.requires(np.std(x) > 0.5)
    pulse = np.zeros(n + 10)
    pulse[15:n - 5] = x[15:n - 5]
    cx.requires(np.std(pulse) > 0.2)
    ts = pd.date_range('2021-03-01', periods=n, freq=pd.Timedelta(dt, unit='s'))
    a, b = pd.Series(pulse[5:5 + n], index=ts), pd.Series(pulse[5 - d:5 - d + n], index=ts)
    r, peak = cx.call(signalproc.xcorr_delay, a, b, 'none')
    cx.eq('delay', r, d * dt)
    for mode in ('loop', 'fft'):
        r, ex = cx.call(signalproc.compute_delays, pd.DataFrame({'p': a, 'q': b}), pd.DataFrame({'p': b, 'q': a}), mode, 'none')
        cx.eq('delay', float(r[0]), d * dt)
        cx.eq('reverse delay', float(r[1]), -d * dt)
