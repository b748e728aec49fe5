"""G03: averaged spectra, transfer functions and coherence."""
import numpy as np
import pandas as pd
import scipy.signal
from pyvc.ctx import contract
from solarspatialtools import signalproc

ASSUMPTIONS = ['scipy.signal.welch and csd are one bilinear Welch estimate of the windowed, detrended segments, csd(x, x) = welch(x), and satisfy |csd(x, y)|^2 <= welch(x) welch(y)']


def _step(cx, ts):
    return (cx.at(ts, 1) - cx.at(ts, 0)).total_seconds()


def _seg(cx, n, navgs, overlap):
    """segment length and overlap: the record cut in navgs segments, overlapping by the requested fraction"""
    seg = n // navgs
    cx.requires(seg >= 1 if cx.sym else seg >= 4)
    nov = cx.floor(seg * overlap)
    cx.requires(nov < seg)
    return seg, nov


OPTS = [('hann', 'constant'), ('boxcar', False)]


@contract(signalproc.averaged_psd)
def psd_columns(cx):
    """every column's spectrum is the Welch estimate of that column, over n // navgs samples per segment"""
    n, m = cx.size('n', 8, 40), cx.size('m', 1, 3)
    navgs = cx.integer('navgs', 1, 5)
    ov = cx.real('overlap', 0, 0.9)
    cx.requires(cx.And(navgs >= 1, ov >= 0, ov < 1))
    seg, nov = _seg(cx, n, navgs, ov)
    ts = cx.times('t', n)
    cols = cx.labels('c', m)
    x = cx.frame('x', n, cols, index=ts)
    w, d = cx.choice('opts', OPTS)
    sc = cx.choice('scaling', ['density', 'spectrum'])
    r = cx.call(signalproc.averaged_psd, x, navgs, ov, w, d, sc)
    fs = 1 / _step(cx, ts)
    nf = seg // 2 + 1
    cx.eq('frequencies', cx.shape(r)[0], nf)
    cx.eq('columns', cx.shape(r)[1], m)
    for k in cx.forall(nf):
        cx.eq('frequency', cx.at(r.index, k), k * fs / seg)
    for j in cx.forall(m):
        cx.eq('name', cx.at(r.columns, j), cx.at(cols, j))
        f, p = cx.call(scipy.signal.welch, x.iloc[:, j].values, fs=fs, window=w, nperseg=seg, noverlap=nov, detrend=d, scaling=sc)
        for k in cx.forall(nf):
            cx.eq('spectrum', cx.at(r.iloc[:, j], k), cx.at(p, k))


@contract(signalproc.averaged_psd)
def psd_defaults(cx):
    """defaults: half-overlapping Hamming windows, linear detrending, density; series behave like one column"""
    n, navgs = cx.size('n', 8, 40), cx.integer('navgs', 1, 4)
    cx.requires(navgs >= 1)
    seg, nov = _seg(cx, n, navgs, 0.5)
    ts = cx.times('t', n)
    x = cx.series('x', n, index=ts)
    sc = cx.choice('scaling', [None, 'spectrum'])
    r = cx.call(signalproc.averaged_psd, x, navgs) if sc is None else cx.call(signalproc.averaged_psd, x, navgs, scaling=sc)
    f, p = cx.call(scipy.signal.welch, x.values, fs=1 / _step(cx, ts), window='hamming', nperseg=seg, noverlap=nov, detrend='linear', scaling=sc or 'density')
    cx.eq('columns', cx.shape(r)[1], 1)
    for k in cx.forall(seg // 2 + 1):
        cx.eq('frequency', cx.at(r.index, k), cx.at(f, k))
        cx.eq('spectrum', cx.at(r, k, 0), cx.at(p, k))


def _tables(cx, n, kind, m):
    ts = cx.times('t', n)
    ci, co = cx.labels('ci', m), cx.labels('co', m)
    if kind == 'pairs':
        return ts, cx.frame('x', n, ci, index=ts), cx.frame('y', n, co, index=ts)
    if kind == 'one input':
        return ts, cx.series('x', n, index=ts), cx.frame('y', n, co, index=ts)
    if kind == 'one output':
        return ts, cx.frame('x', n, ci, index=ts), cx.series('y', n, index=ts)
    return ts, cx.series('x', n, index=ts), cx.series('y', n, index=ts)


def _col(a, j):
    return (a.iloc[:, j] if len(a.shape) == 2 else a).values


@contract(signalproc.averaged_tf)
def transfer_function(cx):
    """TF = Pxy / Pxx and coherence = |Pxy|^2 / (Pxx Pyy) for each pair; a single input or output is paired with all"""
    n = cx.size('n', 8, 40)
    navgs = cx.integer('navgs', 1, 4)
    ov = cx.real('overlap', 0, 0.9)
    cx.requires(cx.And(navgs >= 1, ov >= 0, ov < 1))
    seg, nov = _seg(cx, n, navgs, ov)
    kind = cx.choice('kind', ['pairs', 'one input', 'one output', 'series'])
    m = cx.choice('m', [1, 2]) if kind != 'series' else 1
    ts, x, y = _tables(cx, n, kind, m)
    w, d = cx.choice('opts', OPTS)
    tf, coh = cx.call(signalproc.averaged_tf, x, y, navgs, ov, w, d)
    fs = 1 / _step(cx, ts)
    nf = seg // 2 + 1
    for r in (tf, coh):
        cx.eq('frequencies', cx.shape(r)[0], nf)
        cx.eq('columns', cx.shape(r)[1], m)
    for k in cx.forall(nf):
        cx.eq('frequency', cx.at(tf.index, k), k * fs / seg)
        cx.eq('frequency', cx.at(coh.index, k), k * fs / seg)
    for j in range(m):
        xj, yj = _col(x, j), _col(y, j)
        f, pxx = cx.call(scipy.signal.welch, xj, fs=fs, window=w, nperseg=seg, noverlap=nov, detrend=d)
        f, pyy = cx.call(scipy.signal.welch, yj, fs=fs, window=w, nperseg=seg, noverlap=nov, detrend=d)
        f, pxy = cx.call(scipy.signal.csd, xj, yj, fs=fs, window=w, nperseg=seg, noverlap=nov, detrend=d)
        for k in cx.forall(nf):
            cx.requires(cx.And(cx.at(pxx, k) > (0 if cx.sym else 1e-6), cx.at(pyy, k) > (0 if cx.sym else 1e-6)))
            v = cx.at(pxy, k)
            cx.eq('real part', cx.at(tf, k, j).real, v.real / cx.at(pxx, k), tol=1e-6)
            cx.eq('imaginary part', cx.at(tf, k, j).imag, v.imag / cx.at(pxx, k), tol=1e-6)
            c = cx.at(coh, k, j)
            cx.eq('coherence', c, (v.real * v.real + v.imag * v.imag) / (cx.at(pxx, k) * cx.at(pyy, k)), tol=1e-6)
            cx.le('between zero and one', 0, c)
            cx.le('between zero and one', c, 1, tol=1e-6)


@contract(signalproc.averaged_tf)
def names(cx):
    """columns are named input_output, in order"""
    n = cx.size('n', 16, 40)
    ts = cx.times('t', n)
    kind = cx.choice('kind', ['pairs', 'one input', 'one output'])
    ci = ['a', 'b', 'c'] if kind != 'one input' else ['s']
    co = ['u', 'v', 'w'] if kind != 'one output' else ['s']
    tf, coh = cx.call(signalproc.averaged_tf, cx.frame('x', n, ci, index=ts), cx.frame('y', n, co, index=ts), 2)
    want = {'pairs': ['a_u', 'b_v', 'c_w'], 'one input': ['s_u', 's_v', 's_w'], 'one output': ['a_s', 'b_s', 'c_s']}[kind]
    for r in (tf, coh):
        cx.eq('count', cx.len(r.columns), 3)
        for j in range(3):
            cx.ensure('name', r.columns[j] == want[j])


@contract(signalproc.averaged_tf)
def scaled_copy(cx):
    """an output that is c times the input has transfer function c and coherence one"""
    n = cx.size('n', 8, 40)
    c = cx.real('c')
    cx.requires(cx.abs(c) > (0 if cx.sym else 1e-2))
    seg, nov = _seg(cx, n, 2, 0.5)
    ts = cx.times('t', n)
    x = cx.series('x', n, index=ts)
    tf, coh = cx.call(signalproc.averaged_tf, x, x * c, 2)
    f, pxx = cx.call(scipy.signal.welch, x.values, fs=1 / _step(cx, ts), window='hamming', nperseg=seg, noverlap=nov, detrend='linear')
    for k in cx.forall(seg // 2 + 1):
        cx.requires(cx.at(pxx, k) > (0 if cx.sym else 1e-6))
        cx.eq('transfer function', cx.at(tf, k, 0).real, c, tol=1e-6)
        cx.eq('transfer function', cx.at(tf, k, 0).imag, 0, tol=1e-6)
        cx.eq('coherence', cx.at(coh, k, 0), 1, tol=1e-6)


@contract(signalproc.averaged_tf)
def rejected(cx):
    """plain arrays and tables whose widths do not match are rejected"""
    n = cx.size('n', 8, 20)
    ts = cx.times('t', n)
    x, y = cx.frame('x', n, ['a', 'b'], index=ts), cx.frame('y', n, ['u', 'v', 'w'], index=ts)
    cx.raises('widths', ValueError, signalproc.averaged_tf, x, y, 2)
    cx.raises('array', ValueError, signalproc.averaged_tf, x, y.values, 2)
