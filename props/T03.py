"""T03: variability index."""
import numpy as np
import pandas as pd
from pyvc.ctx import contract
from solarspatialtools import stats
from T02 import _step, _bins


def _pair(cx, n, k='series'):
    ts = cx.times('t', n)
    if k == 'series':
        return cx.series('g', n, index=ts, lo=0, hi=1500), cx.series('c', n, index=ts, lo=0, hi=1500)
    cols = cx.labels('col', cx.size('m', 1, 3))
    return cx.frame('g', n, cols, index=ts, lo=0, hi=1500), cx.frame('c', n, cols, index=ts, lo=0, hi=1500)


@contract(stats.variability_index)
def definition(cx):
    """ratio of the polyline lengths of the two traces, time measured in minutes per sampling period"""
    n = cx.size('n', 2, 10)
    g, c = _pair(cx, n)
    norm = cx.boolean('norm')
    r = cx.call(stats.variability_index, g, c, norm=norm)
    dt = cx.call(_step, g) / 60
    length = lambda s: cx.sum(n, lambda i: cx.ite(i >= 1, lambda: cx.sqrt((cx.at(s, i) - cx.at(s, i - 1)) * (cx.at(s, i) - cx.at(s, i - 1)) + dt * dt), 0.0))
    v = cx.div(length(g), length(c))
    cx.eq('ratio', r, v * cx.sqrt(dt) if norm else v)


@contract(stats.variability_index)
def columns(cx):
    """frames are handled column by column"""
    n = cx.size('n', 2, 8)
    g, c = _pair(cx, n, 'frame')
    m = cx.shape(g)[1]
    r = cx.call(stats.variability_index, g, c)
    dt = cx.call(_step, g) / 60
    for j in cx.forall(m):
        length = lambda s: cx.sum(n, lambda i: cx.ite(i >= 1, lambda: cx.sqrt((cx.at(s, i, j) - cx.at(s, i - 1, j)) * (cx.at(s, i, j) - cx.at(s, i - 1, j)) + dt * dt), 0.0))
        cx.eq('ratio', cx.at(r, j), cx.div(length(g), length(c)))


@contract(stats.variability_index)
def laws(cx):
    """one for identical traces, reciprocal when the traces swap, unchanged by offsets"""
    n = cx.size('n', 2, 10)
    g, c = _pair(cx, n)
    cx.requires(cx.call(_step, g) > 0)
    dt = cx.call(_step, g) / 60
    length = lambda s: cx.sum(n, lambda i: cx.ite(i >= 1, lambda: cx.sqrt((cx.at(s, i) - cx.at(s, i - 1)) * (cx.at(s, i) - cx.at(s, i - 1)) + dt * dt), 0.0))
    cx.lemma('length of the trace', length(g) > 0)
    cx.lemma('length of the clear trace', length(c) > 0)
    cx.eq('identical', cx.call(stats.variability_index, g, g), 1.0)
    v, w = cx.call(stats.variability_index, g, c), cx.call(stats.variability_index, c, g)
    cx.eq('reciprocal', v * w, 1.0)
    cx.ensure('nonnegative', v >= 0)
    o = cx.real('o')
    cx.eq('offset', cx.call(stats.variability_index, g + o, c + o), v, tol=1e-6)


@contract(stats.variability_index)
def averaged(cx):
    """averaging both traces over windows of tau sampling periods first"""
    n, tau = cx.size('n', 4, 12), cx.integer('tau', 2, 4)
    g, c = _pair(cx, n)
    norm = cx.boolean('norm')
    w = cx.call(_step, g) * tau
    r = cx.call(stats.variability_index, g, c, tau, norm)
    gb, cb = cx.call(_bins, g, w), cx.call(_bins, c, w)
    cx.eq('averaged', r, cx.call(stats.variability_index, gb, cb, 1, norm), tol=1e-6)


@contract(stats.variability_index)
def type_check(cx):
    """anything but a pandas object is rejected"""
    n = cx.size('n', 2)
    a = cx.arr('a', n)
    s = cx.series('s', n, index=cx.times('t', n))
    cx.raises('array', TypeError, stats.variability_index, a, s)
