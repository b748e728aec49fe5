"""G01: cross-correlation lags, scalings and the FFT variant."""
import numpy as np
import pandas as pd
from pyvc.ctx import contract
from props import lemmas
from solarspatialtools import signalproc


def _pair(cx, n, m=None, container=None):
    """two signals, as arrays or as labelled series"""
    m = n if m is None else m
    if container is None:
        container = cx.choice('container', ['array', 'series'])
    if container == 'array':
        return cx.arr('a', n), cx.arr('b', m)
    return cx.series('a', n, index=cx.times('ta', n, 1)), cx.series('b', m, index=cx.times('tb', m, 1))


def _xc(cx, a, b, n, m, lag, ma=0.0, mb=0.0):
    """SUM_l (a[l + lag] - ma) (b[l] - mb) over the overlap of the two signals"""
    def term(l):
        i = l + lag
        return cx.ite(cx.And(i >= 0, i < n), lambda: (cx.at(a, i) - ma) * (cx.at(b, l) - mb), 0.0)
    return cx.sum(m, term)


def _mean(cx, a, n):
    return cx.sum(n, lambda k: cx.at(a, k)) / n


def _var(cx, a, n, mu):
    return cx.sum(n, lambda k: (cx.at(a, k) - mu) * (cx.at(a, k) - mu)) / n


@contract(signalproc.correlation)
def lags(cx):
    """one value per lag from 1 - len(estimation) to len(baseline) - 1, in increasing order, for every scaling"""
    n = cx.size('n')
    sc = cx.choice('scaling', ['none', 'coeff', 'energy', 'unbiased_coeff', 'unbiased_energy'])
    m = cx.size('m') if sc == 'none' else n
    a, b = _pair(cx, n, m)
    c, lag = cx.call(signalproc.correlation, a, b, sc)
    cx.eq('lag count', cx.len(lag), n + m - 1)
    cx.eq('value count', cx.len(c), n + m - 1)
    for k in cx.forall(n + m - 1):
        cx.eq('lag', cx.at(lag, k), k - (m - 1))


@contract(signalproc.correlation)
def unscaled(cx):
    """without scaling the value at a lag is the sum of products of the samples that far apart"""
    n, m = cx.size('n'), cx.size('m')
    a, b = _pair(cx, n, m)
    c, lag = cx.call(signalproc.correlation, a, b, cx.choice('how', ['none', 'None', 'NONE']))
    for k in cx.forall(n + m - 1):
        cx.eq('value', cx.at(c, k), _xc(cx, a, b, n, m, k - (m - 1)))


@contract(signalproc.correlation)
def coefficient(cx):
    """the default is the correlation coefficient: means removed, divided by n sigma_a sigma_b; names are case-insensitive"""
    n = cx.size('n', 2, 7)
    a, b = _pair(cx, n)
    ma, mb = _mean(cx, a, n), _mean(cx, b, n)
    va, vb = _var(cx, a, n, ma), _var(cx, b, n, mb)
    cx.requires(va > (0 if cx.sym else 1e-3))
    cx.requires(vb > (0 if cx.sym else 1e-3))
    how = cx.choice('how', ['default', 'coeff', 'COEFF'])
    c, lag = cx.call(signalproc.correlation, a, b) if how == 'default' else cx.call(signalproc.correlation, a, b, how)
    for k in cx.forall(2 * n - 1):
        cx.eq('value', cx.at(c, k), cx.div(_xc(cx, a, b, n, n, k - (n - 1), ma, mb), n * cx.sqrt(va) * cx.sqrt(vb)))


@contract(signalproc.correlation)
def unbiased(cx):
    """the unbiased forms divide the plain form by the share of samples that overlap at the lag"""
    n = cx.size('n', 2, 7)
    a, b = _pair(cx, n)
    kind = cx.choice('kind', ['coeff', 'energy'])
    if kind == 'coeff':
        for x in (a, b):
            mu = _mean(cx, x, n)
            cx.requires(_var(cx, x, n, mu) > (0 if cx.sym else 1e-3))
    else:
        cx.requires(cx.sum(n, lambda k: cx.at(a, k) * cx.at(a, k)) > (0 if cx.sym else 1e-3))
    p, _ = cx.call(signalproc.correlation, a, b, kind)
    u, _ = cx.call(signalproc.correlation, a, b, 'unbiased_' + kind if cx.choice('case', [0, 1]) == 0 else 'Unbiased_' + kind.upper())
    for k in cx.forall(2 * n - 1):
        cx.eq('value', cx.at(u, k) * (n - cx.abs(k - (n - 1))), cx.at(p, k) * n)


@contract(signalproc.correlation)
def energy(cx):
    """energy scaling divides by the energy of the baseline: its own zero-lag correlation, the largest autocorrelation"""
    n = cx.size('n', 1, 7)
    a, b = _pair(cx, n)
    e = cx.sum(n, lambda k: cx.at(a, k) * cx.at(a, k))
    cx.requires(e > (0 if cx.sym else 1e-3))
    c, lag = cx.call(signalproc.correlation, a, b, cx.choice('how', ['energy', 'Energy']))
    auto = cx.max(2 * n - 1, lambda q: _xc(cx, a, a, n, n, q - (n - 1))) if cx.sym else e
    for k in cx.forall(2 * n - 1):
        cx.eq('value', cx.at(c, k), cx.div(_xc(cx, a, b, n, n, k - (n - 1)), auto))


@contract(signalproc.correlation)
def scale_free(cx):
    """offset and (positive) scale of either signal do not change the coefficients; a signal with itself has coefficient 1 at lag 0"""
    n = cx.size('n', 2, 9)
    a, b = cx.arr('a', n), cx.arr('b', n)
    va, vb = _var(cx, a, n, _mean(cx, a, n)), _var(cx, b, n, _mean(cx, b, n))
    cx.requires(va > (0 if cx.sym else 1e-3))
    cx.requires(vb > (0 if cx.sym else 1e-3))
    c, lag = cx.call(signalproc.correlation, a, b)
    s, _ = cx.call(signalproc.correlation, a, a)
    cx.eq('itself', cx.at(s, n - 1), 1)
    p, q, u, v = cx.real('p', 0.2, 5), cx.real('q', 0.2, 5), cx.real('u', -9, 9), cx.real('v', -9, 9)
    cx.requires(p > 0)
    cx.requires(q > 0)
    d, _ = cx.call(signalproc.correlation, a * p + u, b * q + v)
    for k in cx.forall(2 * n - 1):
        cx.eq('affine', cx.at(c, k), cx.at(d, k))


@contract(signalproc.correlation)
def reversed_roles(cx):
    """exchanging the signals gives the coefficients in reverse order of lag"""
    n = cx.size('n', 2, 9)
    a, b = cx.arr('a', n), cx.arr('b', n)
    ma, mb = _mean(cx, a, n), _mean(cx, b, n)
    cx.requires(_var(cx, a, n, ma) > (0 if cx.sym else 1e-3))
    cx.requires(_var(cx, b, n, mb) > (0 if cx.sym else 1e-3))
    c, lag = cx.call(signalproc.correlation, a, b)
    d, _ = cx.call(signalproc.correlation, b, a)
    for k in cx.forall(2 * n - 1):
        s = k - (n - 1)
        cx.shifted_sum(n, n, s, lambda i: (cx.at(a, i) - ma) * (cx.at(b, i - s) - mb))
        cx.eq('reversed', cx.at(c, k), cx.at(d, 2 * n - 2 - k))


@contract(signalproc.correlation)
def exchange(cx):
    """exchanging the two signals reverses the lags"""
    n, m = cx.size('n'), cx.size('m')
    a, b = cx.arr('a', n), cx.arr('b', m)
    c, lag = cx.call(signalproc.correlation, a, b, 'none')
    d, lad = cx.call(signalproc.correlation, b, a, 'none')
    for k in cx.forall(n + m - 1):
        cx.eq('lag', cx.at(lag, k), -cx.at(lad, n + m - 2 - k))


@contract(signalproc.correlation, signalproc._fftcorrelate)
def rejected(cx):
    """an unknown scaling is rejected"""
    n = cx.size('n')
    a, b = cx.arr('a', n), cx.arr('b', n)
    sc = cx.choice('scaling', ['bogus', '', 'unbiased', 'None '])
    cx.raises('scaling', ValueError, signalproc.correlation, a, b, sc)
    cx.raises('fft scaling', ValueError, signalproc._fftcorrelate, a, b, sc)


@contract(signalproc._fftcorrelate)
def fft_matches(cx):
    """the FFT variant gives the same values at the same lags, column by column for tables"""
    n, m = cx.size('n', 2, 7), cx.size('m', 1, 3)
    sc = cx.choice('scaling', ['none', 'coeff'])
    kind = cx.choice('container', ['array', 'frame'])
    if kind == 'array':
        a, b = cx.arr('a', n), cx.arr('b', n)
        cols = [(0, a, b)]
    else:
        a = cx.frame('a', n, cx.labels('ca', m), index=cx.times('t', n, 1))
        b = cx.frame('b', n, cx.labels('cb', m), index=cx.times('t', n, 1))
        cols = [(j, a.iloc[:, j], b.iloc[:, j]) for j in cx.forall(m)]
    for j, x, y in cols:
        if sc == 'coeff':
            for q in (x, y):
                mu = _mean(cx, q, n)
                cx.requires(_var(cx, q, n, mu) > (0 if cx.sym else 1e-3))
        c, lag = cx.call(signalproc._fftcorrelate, a, b, sc)
        d, lad = cx.call(signalproc.correlation, x, y, sc)
        cx.eq('pairs', cx.shape(c)[0], 1 if kind == 'array' else m)
        cx.eq('lag count', cx.shape(c)[1], 2 * n - 1)
        for k in cx.forall(2 * n - 1):
            cx.eq('lag', cx.at(lag, k), cx.at(lad, k))
            cx.eq('value', cx.at(c, j, k), cx.at(d, k), tol=1e-6)


@contract(signalproc.correlation)
def within_one(cx):
    """correlation coefficients lie between -1 and 1"""
    n = cx.size('n', 2, 9)
    a, b = cx.arr('a', n), cx.arr('b', n)
    ma, mb = _mean(cx, a, n), _mean(cx, b, n)
    va, vb = _var(cx, a, n, ma), _var(cx, b, n, mb)
    cx.requires(va > (0 if cx.sym else 1e-3))
    cx.requires(vb > (0 if cx.sym else 1e-3))
    c, lag = cx.call(signalproc.correlation, a, b)
    for k in cx.forall(2 * n - 1):
        s = k - (n - 1)
        cx.use(lemmas.cauchy_lag, n, lambda i: cx.at(a, i) - ma, lambda i: cx.at(b, i) - mb, s)
        cx.use(lemmas.quotient, _xc(cx, a, b, n, n, s, ma, mb), n * cx.sqrt(va) * cx.sqrt(vb))
        cx.ensure('at most one', cx.at(c, k) <= (1 if cx.sym else 1 + 1e-9))
        cx.ensure('at least minus one', cx.at(c, k) >= (-1 if cx.sym else -1 - 1e-9))


CONTRACTS += [l.contract() for l in (lemmas.cauchy_lag, lemmas.amgm, lemmas.quotient)]
