"""D01: quality control of irradiance records (HOPE tools)."""
import numpy as np
import pandas as pd
from pyvc.ctx import contract
from solarspatialtools.dataio import hope_campaign as hope


@contract(hope.flag_qc)
def flags(cx):
    """exactly the samples whose flag reaches the level become missing; the others, the labels and the inputs stay"""
    n, m = cx.size('n'), cx.size('m', 1, 4)
    ts, cols = cx.times('t', n), cx.labels('col', m)
    d = cx.frame('d', n, cols, index=ts, lo=-200, hi=1500, nan=True)
    f = cx.frame('f', n, cols, index=ts, lo=0, hi=4, kind='int')
    level = cx.integer('level', 0, 5)
    r = cx.call(hope.flag_qc, d, f, level)
    r2 = cx.call(hope.flag_qc, d, f)
    cx.eq('rows', cx.shape(r)[0], n)
    cx.eq('columns', cx.shape(r)[1], m)
    for i in cx.forall(n):
        cx.eq('index', cx.at(r.index, i), cx.at(ts, i))
        for j in cx.forall(m):
            cx.eq('label', cx.at(r.columns, j), cx.at(d.columns, j))
            v = cx.at(d, i, j)
            cx.eq('sample', cx.at(r, i, j), cx.ite(cx.at(f, i, j) >= level, float('nan'), v))
            cx.eq('default level', cx.at(r2, i, j), cx.ite(cx.at(f, i, j) >= 2, float('nan'), v))


@contract(hope.null_qc)
def nulls(cx):
    """exactly the samples below -100 become missing; the others, the labels and the input stay"""
    n, m = cx.size('n'), cx.size('m', 1, 4)
    ts, cols = cx.times('t', n), cx.labels('col', m)
    d = cx.frame('d', n, cols, index=ts, lo=-300, hi=1500, nan=True)
    r = cx.call(hope.null_qc, d)
    cx.eq('rows', cx.shape(r)[0], n)
    cx.eq('columns', cx.shape(r)[1], m)
    for i in cx.forall(n):
        cx.eq('index', cx.at(r.index, i), cx.at(ts, i))
        for j in cx.forall(m):
            v = cx.at(d, i, j)
            cx.eq('label', cx.at(r.columns, j), cx.at(d.columns, j))
            cx.eq('sample', cx.at(r, i, j), cx.ite(v < -100, float('nan'), v))


@contract(hope.interp_nan, mode='bounded')
def gaps(cx):
    """existing samples stay; a gap of at most the limit between two samples is filled on the straight line between them; longer gaps and gaps at either end stay missing"""
    n, m = cx.size('n', 1, 60), cx.size('m', 1, 3)
    limit = cx.size('limit', 1, 8)
    r = np.random.default_rng(cx.integer('seed', 0, 10 ** 6))
    v = r.uniform(-5, 1200, (n, m))
    for j in range(m):
        for _ in range(cx.size('holes', 0, 4)):
            a = int(r.integers(0, n))
            v[a:a + int(r.integers(1, 2 * limit + 3)), j] = np.nan
    d = pd.DataFrame(v, index=pd.date_range('2021-01-01', periods=n, freq='s'), columns=['c%d' % j for j in range(m)])
    dflt = cx.choice('default', [False, True])
    lim = 5 if dflt else limit
    out = cx.call(hope.interp_nan, d) if dflt else cx.call(hope.interp_nan, d, limit)
    cx.ensure('labels', out.index.equals(d.index) and list(out.columns) == list(d.columns))
    for j in range(m):
        ok = [i for i in range(n) if not np.isnan(v[i, j])]
        for i in range(n):
            p = max([k for k in ok if k <= i], default=None)
            q = min([k for k in ok if k >= i], default=None)
            if p is None or q is None:
                want = np.nan
            elif p == q:
                want = v[i, j]
            elif q - p - 1 > lim:
                want = np.nan
            else:
                want = v[p, j] + (v[q, j] - v[p, j]) * (i - p) / (q - p)
            cx.eq('sample', float(out.iloc[i, j]), want)
