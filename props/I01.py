"""I01: clear-sky index."""
import numpy as np
import pandas as pd
from pyvc.ctx import contract
from solarspatialtools import irradiance


def _value(cx, g, c, cap):
    """the required index for one sample: ratio clipped to [0, cap]; 0 where it is not finite; NaN where an input is missing"""
    def ratio():
        q = cx.div(g, c)
        return cx.ite(q < 0, 0.0, lambda: cx.ite(q > cap, cap, q))
    return cx.ite(cx.Or(cx.isnan(g), cx.isnan(c)), float('nan'), lambda: cx.ite(c == 0, 0.0, ratio))


def _inputs(cx, n):
    return dict(lo=-20, hi=1500, nan=True)


@contract(irradiance.clearsky_index)
def series(cx):
    """labelled series: ratio clipped to [0, cap], 0 where it is not finite, missing inputs stay missing, labels kept"""
    n = cx.size('n')
    ts = cx.times('t', n)
    g = cx.series('g', n, index=ts, lo=-20, hi=1500, nan=True)
    c = cx.series('c', n, index=ts, lo=0, hi=1200, nan=True)
    cap = cx.real('cap', 0.1, 5)
    r = cx.call(irradiance.clearsky_index, g, c, cap)
    cx.is_type('series', r, pd.Series)
    for i in cx.forall(n):
        cx.eq('index', cx.at(r.index, i), cx.at(ts, i))
        cx.eq('clear-sky index', cx.at(r, i), _value(cx, cx.at(g, i), cx.at(c, i), cap))


@contract(irradiance.clearsky_index)
def default_cap(cx):
    """the default cap is 2"""
    n = cx.size('n')
    ts = cx.times('t', n)
    g = cx.series('g', n, index=ts, lo=-20, hi=1500, nan=True)
    c = cx.series('c', n, index=ts, lo=0, hi=1200, nan=True)
    r = cx.call(irradiance.clearsky_index, g, c)
    m = cx.size('m', 1, 3)
    f = cx.frame('f', n, cx.labels('col', m), index=ts, lo=-20, hi=1500, nan=True)
    rf = cx.call(irradiance.clearsky_index, f, c)
    for i in cx.forall(n):
        cx.eq('series', cx.at(r, i), _value(cx, cx.at(g, i), cx.at(c, i), 2.0))
        for j in cx.forall(m):
            cx.eq('table', cx.at(rf, i, j), _value(cx, cx.at(f, i, j), cx.at(c, i), 2.0))


@contract(irradiance.clearsky_index)
def table(cx):
    """tables: every column is divided by the same clear-sky series with the same cap, labels and order kept"""
    n, m = cx.size('n'), cx.size('m', 1, 4)
    ts, cols = cx.times('t', n), cx.labels('col', m)
    g = cx.frame('g', n, cols, index=ts, lo=-20, hi=1500, nan=True)
    c = cx.series('c', n, index=ts, lo=0, hi=1200, nan=True)
    cap = cx.real('cap', 0.1, 5)
    r = cx.call(irradiance.clearsky_index, g, c, cap)
    cx.is_type('table', r, pd.DataFrame)
    cx.eq('rows', cx.shape(r)[0], n)
    cx.eq('columns', cx.shape(r)[1], m)
    for i in cx.forall(n):
        cx.eq('index', cx.at(r.index, i), cx.at(ts, i))
        for j in cx.forall(m):
            cx.eq('column label', cx.at(r.columns, j), cx.at(g.columns, j))
            cx.eq('clear-sky index', cx.at(r, i, j), _value(cx, cx.at(g, i, j), cx.at(c, i), cap))


@contract(irradiance.clearsky_index)
def table_by_array(cx):
    """a table against a plain clear-sky array"""
    n, m = cx.size('n'), cx.size('m', 1, 4)
    ts, cols = cx.times('t', n), cx.labels('col', m)
    g = cx.frame('g', n, cols, index=ts, lo=-20, hi=1500, nan=True)
    c = cx.arr('c', n, lo=0, hi=1200, nan=True)
    cap = cx.real('cap', 0.1, 5)
    r = cx.call(irradiance.clearsky_index, g, c, cap)
    for i in cx.forall(n):
        for j in cx.forall(m):
            cx.eq('clear-sky index', cx.at(r, i, j), _value(cx, cx.at(g, i, j), cx.at(c, i), cap))


@contract(irradiance.clearsky_index)
def arrays(cx):
    """plain arrays are handled element by element and stay arrays"""
    n = cx.size('n')
    g, c = cx.arr('g', n, lo=-20, hi=1500, nan=True), cx.arr('c', n, lo=0, hi=1200, nan=True)
    cap = cx.real('cap', 0.1, 5)
    r = cx.call(irradiance.clearsky_index, g, c, cap)
    cx.is_type('array', r, np.ndarray)
    for i in cx.forall(n):
        cx.eq('clear-sky index', cx.at(r, i), _value(cx, cx.at(g, i), cx.at(c, i), cap))


@contract(irradiance.clearsky_index)
def scale_free(cx):
    """scaling both irradiances by the same positive factor changes nothing; a clear sky has index one"""
    n = cx.size('n')
    ts = cx.times('t', n)
    g = cx.series('g', n, index=ts, lo=-20, hi=1500)
    c = cx.series('c', n, index=ts, lo=1, hi=1200)
    k = cx.real('k', 0.1, 10)
    r, s = cx.call(irradiance.clearsky_index, g, c), cx.call(irradiance.clearsky_index, g * k, c * k)
    u = cx.call(irradiance.clearsky_index, c, c)
    for i in cx.forall(n):
        cx.eq('scale', cx.at(r, i), cx.at(s, i))
        cx.eq('clear sky', cx.at(u, i), 1.0)
