"""T04: rolling daily quantile profiles."""
import numpy as np
import pandas as pd
from pyvc.ctx import contract
from solarspatialtools import stats

LEVEL = 'exploration'


def _record(cx):
    days, per = cx.size('days', 2, 6), cx.size('per', 1, 5)
    start = pd.Timestamp('2021-03-01') + pd.Timedelta(days=cx.integer('day0', 0, 40))
    hours = sorted(set(cx.choice('h%d' % k, [0, 3, 6, 7, 12, 18, 23]) for k in range(per)))
    tz = cx.choice('tz', [None, 'UTC', 'Etc/GMT+10'])
    r = np.random.default_rng(cx.integer('seed', 0, 10 ** 6))
    drop = cx.choice('drop', [0.0, 0.3])
    ix = [start + pd.Timedelta(days=d, hours=h) for d in range(days) for j, h in enumerate(hours) if j == 0 or r.uniform() >= drop]
    v = r.uniform(0, 1000, len(ix))
    v[r.uniform(size=len(ix)) < cx.choice('nan', [0.0, 0.2])] = np.nan
    return pd.Series(v, index=pd.DatetimeIndex(ix, tz=tz), name='p'), start, days


@contract(stats.calc_quantile, mode='bounded')
def profile(cx):
    """at each time of each day: the quantile of that time of day over the preceding days, missing before enough days have passed"""
    s, start, days = _record(cx)
    n, q = cx.size('n', 1, 4), cx.real('q', 0, 1)
    kind = cx.choice('kind', ['series', 'frame'])
    out = cx.call(stats.calc_quantile, s if kind == 'series' else s.to_frame(), '%dd' % n, q)
    cx.ensure('labels', out.index.equals(s.index) and list(out.columns) == ['p_quant'])
    day = (s.index.tz_localize(None).normalize() - start).days
    for k in range(len(s)):
        t = s.index[k].time()
        prev = [s.iloc[j] for j in range(len(s)) if s.index[j].time() == t and day[k] - n <= day[j] < day[k]]
        prev = [p for p in prev if not np.isnan(p)]
        want = np.quantile(prev, q) if day[k] >= n and prev else np.nan
        cx.eq('quantile', float(out.iloc[k, 0]), want)


@contract(stats.calc_quantile, mode='bounded', samples=60)
def naming(cx):
    """the column is named after the input; a table of several columns is refused"""
    s, start, days = _record(cx)
    cx.requires(days >= 3)
    cx.eq_arr('unnamed', list(cx.call(stats.calc_quantile, s.rename(None), '1d').columns) == ['quantile'], True)
    cx.ensure('named', list(cx.call(stats.calc_quantile, s.rename('x y'), '1d').columns) == ['x y_quant'])
    cx.raises('several', ValueError, stats.calc_quantile, pd.DataFrame({'a': s, 'b': s}), '1d')
