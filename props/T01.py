"""T01: error metrics."""
import numpy as np
import pandas as pd
from pyvc.ctx import contract
from solarspatialtools import stats


def _pair(cx, n):
    k = cx.choice('kind', ['array', 'series'])
    if k == 'array':
        return k, cx.arr('base', n, kind=cx.choice('number type', 'fi')), cx.arr('est', n, kind=cx.choice('number type of the estimate', 'fi'))
    ts = cx.times('t', n)
    return k, cx.series('base', n, index=ts, kind=cx.choice('number type', 'fi')), cx.series('est', n, index=ts)


@contract(stats.mse, stats.rmse, stats.mae, stats.mbe, stats.squared_error, stats.absolute_error, stats.bias_error)
def definitions(cx):
    """bias = mean(est - base), mae = mean |.|, mse = mean (.)^2, rmse = sqrt(mse)"""
    n = cx.size('n')
    k, b, e = _pair(cx, n)
    d = lambda i: cx.at(e, i) - cx.at(b, i)
    cx.eq('mbe', cx.call(stats.mbe, b, e), cx.sum(n, d) / n)
    cx.eq('mae', cx.call(stats.mae, b, e), cx.sum(n, lambda i: cx.abs(d(i))) / n)
    m = cx.sum(n, lambda i: d(i) * d(i)) / n
    cx.eq('mse', cx.call(stats.mse, b, e), m)
    cx.eq('rmse', cx.call(stats.rmse, b, e), cx.sqrt(m))
    be, ae, se = cx.call(stats.bias_error, b, e), cx.call(stats.absolute_error, b, e), cx.call(stats.squared_error, b, e)
    for i in cx.forall(n):
        cx.eq('bias', cx.at(be, i), d(i))
        cx.eq('absolute', cx.at(ae, i), cx.abs(d(i)))
        cx.eq('squared', cx.at(se, i), d(i) * d(i))


@contract(stats.mse, stats.rmse, stats.mae, stats.mbe)
def relations(cx):
    """|mbe| <= mae, mbe is antisymmetric, the others are symmetric and vanish for a perfect estimate"""
    n = cx.size('n')
    b, e = cx.arr('base', n), cx.arr('est', n)
    f = {k: cx.call(getattr(stats, k), b, e) for k in ('mbe', 'mae', 'mse', 'rmse')}
    g = {k: cx.call(getattr(stats, k), e, b) for k in ('mbe', 'mae', 'mse', 'rmse')}
    cx.eq('antisymmetric mbe', f['mbe'], -g['mbe'])
    for k in ('mae', 'mse', 'rmse'):
        cx.eq('symmetric ' + k, f[k], g[k])
        cx.ensure('nonnegative ' + k, f[k] >= 0)
        cx.eq('perfect ' + k, cx.call(getattr(stats, k), b, b), 0.0)
    cx.le('bias below mae', f['mbe'], f['mae'])
    cx.le('minus bias below mae', -f['mbe'], f['mae'])


@contract(stats.rmse, stats.mae)
def scale_and_shift(cx):
    """invariant to a common offset; scaling both inputs by c scales mbe/mae/rmse by c, |c|, |c|"""
    n = cx.size('n')
    b, e = cx.arr('base', n), cx.arr('est', n)
    o, c = cx.real('o'), cx.real('c')
    for k in ('mbe', 'mae', 'mse', 'rmse'):
        fn = getattr(stats, k)
        cx.eq('offset ' + k, cx.call(fn, b + o, e + o), cx.call(fn, b, e), tol=1e-6)
        w = {'mbe': c, 'mae': cx.abs(c), 'mse': c * c, 'rmse': cx.abs(c)}[k]
        cx.eq('scale ' + k, cx.call(fn, b * c, e * c), w * cx.call(fn, b, e), tol=1e-6)
