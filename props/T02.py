"""T02: daily aggregate ramp rate and variability score."""
import numpy as np
import pandas as pd
from pyvc.ctx import contract
from solarspatialtools import stats


def _step(s):
    return np.nanmedian(s.index.diff().total_seconds())


def _bins(s, w):
    return s.resample(pd.Timedelta(w, unit='s')).mean()


def _series(cx, n, nan=False, dt=None):
    return cx.series('x', n, index=cx.times('t', n, dt), nan=nan)


@contract(stats.darr)
def darr_definition(cx):
    """the sum of |x[i] - x[i - tau]| over all increments, missing samples skipped"""
    n, tau = cx.size('n', 1, 8), cx.integer('tau', 1, 4)
    s = _series(cx, n, nan=True)
    r = cx.call(stats.darr, s, tau, moving_avg=False)

    def term(i):
        return cx.ite(i >= tau, lambda: cx.ite(cx.Or(cx.isnan(cx.at(s, i)), cx.isnan(cx.at(s, i - tau))), 0.0, lambda: cx.abs(cx.at(s, i) - cx.at(s, i - tau))), 0.0)
    cx.eq('darr', r, cx.sum(n, term))


@contract(stats.darr)
def darr_columns(cx):
    """a frame is aggregated column by column, the missing samples of one column not touching the others"""
    n = cx.size('n', 1, 8)
    m = cx.size('m', 1, 4)
    f = cx.frame('x', n, cx.labels('col', m), index=cx.times('t', n), nan=True)
    tau = cx.integer('tau', 1, 3)
    r = cx.call(stats.darr, f, tau, moving_avg=False)
    for j in cx.forall(m):
        def term(i):
            return cx.ite(i >= tau, lambda: cx.ite(cx.Or(cx.isnan(cx.at(f, i, j)), cx.isnan(cx.at(f, i - tau, j))), 0.0, lambda: cx.abs(cx.at(f, i, j) - cx.at(f, i - tau, j))), 0.0)
        cx.eq('darr', cx.at(r, j), cx.sum(n, term))


@contract(stats.darr)
def darr_percent(cx):
    """the percent form is 100/1000 of the plain value for every mode"""
    n, tau = cx.size('n', 2, 8), cx.integer('tau', 1, 3)
    s = _series(cx, n, dt=cx.choice('dt', [1, 60, 0.5]))
    ma = cx.boolean('moving')
    cx.eq('percent', cx.call(stats.darr, s, tau, moving_avg=ma, pct=True), cx.call(stats.darr, s, tau, moving_avg=ma, pct=False) * 0.1)


@contract(stats.darr)
def darr_moving_average(cx):
    """with averaging, the metric is that of the series averaged over windows of tau sampling periods"""
    n, tau = cx.size('n', 2, 12), cx.integer('tau', 2, 4)
    s = _series(cx, n)
    w = cx.call(_step, s) * tau
    cx.eq('averaged', cx.call(stats.darr, s, tau), cx.call(stats.darr, cx.call(_bins, s, w), 1, moving_avg=False), tol=1e-6)
    cx.eq('tau 1 needs no averaging', cx.call(stats.darr, s, 1, moving_avg=True), cx.call(stats.darr, s, 1, moving_avg=False))


@contract(stats.darr, stats.variability_score, mode='bounded')
def regular_bins(cx):
    """on a regular series the windows hold exactly tau consecutive samples, also for fractional-second sampling"""
    tau, m = cx.integer('tau', 2, 5), cx.size('m', 2, 5)
    dt = cx.choice('dt', [1, 10, 0.5, 0.25, 2])
    x = cx.arr('x', tau * m, -20, 20, kind='i') * float(tau)
    base = pd.Timestamp('2020-06-01')
    ix = pd.DatetimeIndex([base + pd.Timedelta(seconds=dt * i) for i in range(tau * m)])
    b = x.reshape(m, tau).mean(axis=1)
    s = pd.Series(x, index=ix)
    cx.eq('darr', cx.call(stats.darr, s, tau), float(np.abs(np.diff(b)).sum()))
    bs = pd.Series(b, index=ix[::tau])
    cx.eq('score', cx.call(stats.variability_score, s, tau), cx.call(stats.variability_score, bs, 1))


@contract(stats.darr)
def darr_laws(cx):
    """nonnegative, unchanged by an offset, proportional to the signal, zero for a constant signal"""
    n, tau = cx.size('n', 1, 8), cx.integer('tau', 1, 3)
    s = _series(cx, n)
    a, b = cx.real('a'), cx.real('b')
    r = cx.call(stats.darr, s, tau, moving_avg=False)
    cx.ensure('nonnegative', r >= 0)
    cx.eq('affine', cx.call(stats.darr, s * a + b, tau, moving_avg=False), cx.abs(a) * r, tol=1e-6)
    cx.eq('constant', cx.call(stats.darr, s * 0.0 + b, tau, moving_avg=False), 0.0)


@contract(stats.darr)
def darr_type(cx):
    """anything but a pandas object is rejected"""
    n = cx.size('n')
    a = cx.arr('a', n)
    cx.raises('array', TypeError, stats.darr, a)


@contract(stats.variability_score)
def score_definition(cx):
    """the largest product of a ramp magnitude and the share of ramps above it (ties share their mid-rank)"""
    n = cx.size('n', 2, 8)
    tau = cx.integer('tau', 1, 3)
    cx.requires(tau < n)
    s = _series(cx, n)
    r = cx.call(stats.variability_score, s, tau, moving_avg=False)
    d = lambda i: cx.abs(cx.at(s, i) - cx.at(s, i - tau))
    m = cx.count(n, lambda k: k >= tau)

    def score(i):
        less = cx.count(n, lambda k: cx.And(k >= tau, lambda: d(k) < d(i)))
        leq = cx.count(n, lambda k: cx.And(k >= tau, lambda: d(k) <= d(i)))
        return d(i) * (1 - cx.div((less + leq + 1) / 2, m))
    for i in cx.forall(n, tau):
        cx.le('upper bound', score(i), r)
    cx.ensure('attained', cx.any(n, lambda i: cx.And(i >= tau, lambda: score(i) >= r - (0 if cx.sym else 1e-9))))


@contract(stats.variability_score)
def score_percent(cx):
    """percent form and averaging as for the aggregate ramp rate"""
    n, tau = cx.size('n', 2, 12), cx.integer('tau', 1, 4)
    s = _series(cx, n)
    ma = cx.boolean('moving')
    r = cx.call(stats.variability_score, s, tau, moving_avg=ma)
    cx.eq('percent', cx.call(stats.variability_score, s, tau, moving_avg=ma, pct=True), r * 0.1)
    if ma and tau > 1:
        w = cx.call(_step, s) * tau
        cx.eq('averaged', r, cx.call(stats.variability_score, cx.call(_bins, s, w), 1, moving_avg=False))


@contract(stats.variability_score)
def score_columns(cx):
    """a frame is scored column by column"""
    n, m = cx.size('n', 2, 12), cx.size('m', 1, 3)
    f = cx.frame('x', n, cx.labels('col', m), index=cx.times('t', n), nan=True)
    tau = cx.integer('tau', 1, 3)
    ma = cx.boolean('moving')
    r = cx.call(stats.variability_score, f, tau, moving_avg=ma)
    cx.eq('one per column', cx.len(r), m)
    for j in cx.forall(m):
        cx.eq('score', cx.at(r, j), cx.call(stats.variability_score, f.iloc[:, j], tau, moving_avg=ma))


@contract(stats.variability_score, mode='bounded')
def score_missing(cx):
    """missing samples, and the increments from and to them, are left out; a score without any increment is missing"""
    n = cx.size('n', 2, 12)
    tau = cx.integer('tau', 1, 2)
    s = _series(cx, n, nan=True)
    r = cx.call(stats.variability_score, s, tau, moving_avg=False)
    d = lambda i: cx.abs(cx.at(s, i) - cx.at(s, i - tau))
    ok = lambda i: cx.And(i >= tau, lambda: cx.Not(cx.Or(cx.isnan(cx.at(s, i)), cx.isnan(cx.at(s, i - tau)))))
    m = cx.count(n, ok)
    if cx.branch(cx.Not(cx.any(n, ok))):
        cx.ensure('missing', cx.isnan(r))
        return

    def score(i):
        less = cx.count(n, lambda k: cx.And(ok(k), lambda: d(k) < d(i)))
        leq = cx.count(n, lambda k: cx.And(ok(k), lambda: d(k) <= d(i)))
        return d(i) * (1 - cx.div((less + leq + 1) / 2, m))
    for i in cx.forall(n):
        cx.ensure('upper bound', cx.implies(ok(i), lambda: score(i) <= r + (0 if cx.sym else 1e-9)))
    cx.ensure('attained', cx.any(n, lambda i: cx.And(ok(i), lambda: score(i) >= r - (0 if cx.sym else 1e-9))))
