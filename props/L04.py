"""L04: statistics taken from a clear-sky index record, and records read back from a cloud field."""
import numpy as np
import pandas as pd
import pvlib
from pyvc.ctx import contract
from solarspatialtools.stats import variability_score
from solarspatialtools.synthirrad import cloudfield as cf


@contract(cf.get_positional_ts)
def positional(cx):
    """the record at a position is the field's line through that position, one sample per second from the moment the cloud pattern there arrives"""
    n, m, T = cx.size('n', 1, 40), cx.size('m', 1, 12), cx.integer('T', 0, 12)
    f = cx.arr('f', (n, m), 0, 1)
    px, py, v = cx.real('px', 0, 60), cx.real('py', 0, 60), cx.real('v', 2, 30)
    i0, j0 = cx.floor(px / v), cx.floor(py / v)
    cx.requires(cx.And(i0 + T < n, j0 < m))
    r = cx.call(cf.get_positional_ts, (px, py), f, v, T)
    cx.eq('length', cx.len(r), T + 1)
    for k in cx.forall(T + 1):
        cx.eq('sample', cx.at(r, k), cx.at(f, i0 + k, j0))


@contract(cf.get_timeseries_stats)
def statistics(cx):
    """mean, maximum, one-percent quantile, clear share and variability score are those of the record; there is one weight per wavelet scale, numbered from one, by its share of the energy"""
    n = cx.size('n', 2, 40)
    kt = cx.series('kt', n, lo=0.05, hi=1.4)
    thr = cx.real('thr', 0.3, 1.2)
    waves, scl = cx.call(pvlib.scaling._compute_wavelet, kt)
    J = cx.len(scl)
    en = lambda j: cx.sum(n, lambda k: cx.at(waves, j, k) * cx.at(waves, j, k))
    tot = cx.sum(J - 1, en)
    cx.requires(tot > 1e-9)
    cx.requires(cx.any(J - 1, lambda j: cx.any(n, lambda k: cx.Not(cx.at(waves, j, k) == 0))))
    mean, p1, top, clear, vs, w, sc = cx.call(cf.get_timeseries_stats, kt, thr)
    cx.eq('mean', mean * n, cx.sum(n, lambda k: cx.at(kt, k)), tol=1e-9)
    cx.eq('maximum', top, cx.max(n, lambda k: cx.at(kt, k)))
    cx.eq('percentile', p1, cx.call(np.quantile, kt, 0.01))
    cx.eq('clear share', clear * n, cx.count(n, lambda k: cx.at(kt, k) > thr), tol=1e-9)
    cx.eq('score', vs, cx.call(variability_score, kt) * 10000)
    cx.eq('scales', cx.len(sc), J - 1)
    cx.eq('weights', cx.len(w), J - 1)
    for j in cx.forall(J - 1):
        cx.eq('numbered', cx.at(sc, j), j + 1)
        cx.eq('energy', cx.at(w, j) * tot, en(j), tol=1e-9)


def _get_state():
    return np.random.get_state()


def _set_state(s):
    np.random.set_state(s)


def _assemble(w, scales, size, clear, ktmean, ktmax, kt1, how, smoothing):
    f = cf._stack_random_field(w, scales, size)
    g = cf._stack_random_field(w, scales, size)
    mask = cf._calc_clear_mask(g, clear)
    strength, wide = cf._find_edges(mask, smoothing)
    if how == 'original':
        return mask, cf._scale_field_lave(f, mask, strength, ktmean, ktmax, kt1)
    return mask, cf._scale_field_basic(f, mask, wide, ktmean, ktmax, kt1)


@contract(cf.cloudfield_timeseries)
def assembled(cx):
    """the assembled field is one random field scaled over the clear mask of another and the mask's edges (the widened edges for 'basic'), to the statistics asked for"""
    n, m, K = cx.size('n', 4, 20), cx.size('m', 4, 20), cx.size('K', 1, 4)
    w, scales = cx.arr('w', K, 0.1, 1), cx.arr('scales', K, 1, 4, kind='i')
    clear, kt1 = cx.real('clear', 0.05, 0.6), cx.real('kt1', 0.02, 0.2)
    ktmean, ktmax = cx.real('ktmean', 0.3, 0.9), cx.real('ktmax', 1, 1.3)
    how = cx.choice('how', ['original', 'basic'])
    smoothing = cx.choice('smoothing', [2, 3])
    cx.modular(cf._stack_random_field, cf._calc_clear_mask, cf._find_edges, cf._scale_field_lave, cf._scale_field_basic)
    if not cx.sym:
        np.random.seed(cx.integer('seed', 0, 10 ** 6))
        scales[0] = 1          # a layer of single cells: no ties
    s = cx.call(_get_state)
    r = cx.call(cf.cloudfield_timeseries, w, scales, (n, m), clear, ktmean, ktmax, kt1, scaling=how, edgesmoothing=smoothing)
    cx.call(_set_state, s)
    mask, want = cx.call(_assemble, w, scales, (n, m), clear, ktmean, ktmax, kt1, how, smoothing)
    for got, size in zip(cx.shape(r), (n, m)):
        cx.eq('size', got, size)
    for i in cx.forall(n):
        for j in cx.forall(m):
            a, b = cx.at(r, i, j), cx.at(want, i, j)
            cx.eq('assembly', a, b) if cx.sym or b == b else cx.ensure('assembly', a != a)


@contract(cf.cloudfield_timeseries)
def unknown_scaling(cx):
    """a scaling method that does not exist is refused"""
    n, m = cx.size('n', 3, 8), cx.size('m', 3, 8)
    how = cx.choice('how', ['Lave', '', None, 'BASIC'])
    w = cx.arr('w', 1, 0.5, 1)
    cx.modular(cf._stack_random_field, cf._calc_clear_mask, cf._find_edges)
    cx.raises('refused', ValueError, cf.cloudfield_timeseries, w, cx.arr('s', 1, 1, 1, kind='i'), (n, m), 0.5, 0.6, 1.2, 0.1, scaling=how)
