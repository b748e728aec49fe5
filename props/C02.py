"""C02: quality flags of sensor pairs."""
import numpy as np
from pyvc.ctx import contract
from solarspatialtools import cmv
from solarspatialtools.cmv import Flag


def _pairs(cx):
    """any signals, delays and correlations of p pairs of sites"""
    p = cx.size('p', 1, 6)
    n = cx.size('n', 2, 6)
    first, second = cx.arr('s0', p, 0, 3, kind='i'), cx.arr('s1', p, 0, 3, kind='i')
    pairs = cx.call(np.column_stack, [first, second])
    cols = cx.labels('c', p)
    A, B = cx.frame('A', n, cols, lo=0.01, hi=1.5, nan=True), cx.frame('B', n, cols, lo=0.01, hi=1.5, nan=True)
    spacing = cx.arr('spacing', p, 0, 500)
    delay = cx.arr('delay', p, -100, 100, nan=True)
    peak, mean = cx.arr('peak', p, -1, 1, nan=True), cx.arr('mean', p, -1, 1, nan=True)
    return p, n, (first, second), pairs, A, B, spacing, delay, peak, mean


def _col(cx, X, n, k):
    """maximum, mean and variance of the samples present in column k; None of them if there are none"""
    v = [lambda j: cx.at(X, j, k)]
    ok = lambda j: cx.Not(cx.isnan(cx.at(X, j, k)))
    return v[0], ok


@contract(cmv._pairwise_qc)
def gagne(cx):
    """a pair is good exactly when its sites differ, both signals vary and reach the clear-sky limit, and delay and correlations exist"""
    p, n, (s0, s1), pairs, A, B, spacing, delay, peak, mean = _pairs(cx)
    lim = cx.real('ktlim', 0.1, 1)
    flags, out = cx.call(cmv._pairwise_qc, pairs, spacing, [A, B], delay, peak, mean, 'gagne', {'ktlim': lim})
    cx.eq('count', cx.len(flags), p)
    sa, sb = cx.call(np.nanstd, A, axis=0), cx.call(np.nanstd, B, axis=0)
    ma, mb = cx.call(np.nanmax, A, axis=0), cx.call(np.nanmax, B, axis=0)
    cx.requires_all(p, lambda k: cx.And(cx.Not(cx.isnan(cx.at(ma, k))), cx.Not(cx.isnan(cx.at(mb, k)))))  # no signal is missing altogether
    for k in cx.forall(p):
        f = cx.at(flags, k)
        same = cx.at(s0, k) == cx.at(s1, k)
        flat = cx.Or(cx.at(sa, k) < 0.001, cx.at(sb, k) < 0.001)
        nolag = cx.at(delay, k) == 0
        nocorr = cx.Or(cx.isnan(cx.at(peak, k)), cx.isnan(cx.at(mean, k)))
        dark = cx.Or(cx.at(ma, k) < lim, cx.at(mb, k) < lim)
        cx.ensure('good', cx.iff(f == Flag.GOOD, cx.Not(cx.Or(same, flat, nolag, nocorr, dark))))
        cx.ensure('same_site', cx.implies(f == Flag.SAME, same))
        cx.ensure('no_signal', cx.implies(f == Flag.NOSIGNAL, flat))
        cx.ensure('no_lag', cx.implies(f == Flag.NOLAG, nolag))
        cx.ensure('low_corr', cx.implies(f == Flag.LOWCORR, nocorr))
        cx.ensure('overcast', cx.implies(f == Flag.OVERCAST, dark))
        cx.ensure('named', cx.Or(f == Flag.GOOD, f == Flag.SAME, f == Flag.NOSIGNAL, f == Flag.NOLAG, f == Flag.LOWCORR, f == Flag.OVERCAST))


@contract(cmv._pairwise_qc)
def jamaly(cx):
    """additionally the variability, correlation and velocity limits hold"""
    p, n, (s0, s1), pairs, A, B, spacing, delay, peak, mean = _pairs(cx)
    o = {'ktlim': cx.real('ktlim', 0.1, 1), 'var_s_lim': cx.real('var_s', 0, 0.5), 'mincorr': cx.real('mincorr', -1, 1), 'minvelocity': cx.real('vmin', 0, 5), 'maxvelocity': cx.real('vmax', 3, 80)}
    flags, out = cx.call(cmv._pairwise_qc, pairs, spacing, [A, B], delay, peak, mean, 'jamaly', o)
    cx.eq('count', cx.len(flags), p)
    sa, sb = cx.call(np.nanstd, A, axis=0), cx.call(np.nanstd, B, axis=0)
    ma, mb = cx.call(np.nanmax, A, axis=0), cx.call(np.nanmax, B, axis=0)
    va, vb = cx.call(np.nanmean, A, axis=0), cx.call(np.nanmean, B, axis=0)
    cx.requires_all(p, lambda k: cx.And(cx.Not(cx.isnan(cx.at(ma, k))), cx.Not(cx.isnan(cx.at(mb, k)))))  # no signal is missing altogether
    for k in cx.forall(p):
        f = cx.at(flags, k)
        d, pk, mn = cx.at(delay, k), cx.at(peak, k), cx.at(mean, k)
        same = cx.at(s0, k) == cx.at(s1, k)
        flat = cx.Or(cx.at(sa, k) < 0.001, cx.at(sb, k) < 0.001)
        nolag = d == 0
        dark = cx.Or(cx.at(ma, k) < o['ktlim'], cx.at(mb, k) < o['ktlim'])
        calm = cx.Or(1 - cx.at(va, k) / cx.at(ma, k) < o['var_s_lim'], 1 - cx.at(vb, k) / cx.at(mb, k) < o['var_s_lim'])
        low = cx.Or(cx.isnan(pk), cx.isnan(mn), pk < o['mincorr'], 1 - mn / pk < o['mincorr'])
        v = cx.abs(cx.at(spacing, k) / d)
        slow = cx.Not(cx.And(o['minvelocity'] < v, v < o['maxvelocity']))
        cx.ensure('good', cx.iff(f == Flag.GOOD, cx.Not(cx.Or(same, flat, nolag, dark, calm, low, slow))))
        cx.ensure('same_site', cx.implies(f == Flag.SAME, same))
        cx.ensure('no_signal', cx.implies(f == Flag.NOSIGNAL, flat))
        cx.ensure('no_lag', cx.implies(f == Flag.NOLAG, nolag))
        cx.ensure('overcast', cx.implies(f == Flag.OVERCAST, dark))
        cx.ensure('low_variability', cx.implies(f == Flag.LOWVAR_S, calm))
        cx.ensure('low_corr', cx.implies(f == Flag.LOWCORR, low))
        cx.ensure('velocity', cx.implies(f == Flag.VELLIMIT, slow))
        cx.ensure('named', cx.Or(f == Flag.GOOD, f == Flag.SAME, f == Flag.NOSIGNAL, f == Flag.NOLAG, f == Flag.LOWCORR, f == Flag.OVERCAST, f == Flag.LOWVAR_S, f == Flag.VELLIMIT))
