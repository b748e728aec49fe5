"""C03: the cloud-motion vector."""
import numpy as np
import pandas as pd
from pyvc.ctx import contract
from solarspatialtools import cmv, signalproc, spatial
from solarspatialtools.cmv import Flag


def _setup(cx, method, lo=2, hi=6, **kw):
    """any irradiance table and site table with the same site names"""
    n, m = cx.size('n', 30, 60), cx.size('m', lo, hi)
    cols = cx.labels('s', m)
    t = cx.times('t', n)
    if cx.sym:
        ts = cx.frame('ts', n, cols, index=t, lo=0.1, hi=1.2)
        pos = cx.frame('pos', m, ['E', 'N'], index=cols, lo=-500, hi=500)
    else:
        # a field that drifts over the sites (plus noise), so that some pairs pass the quality control
        r = np.random.default_rng(cx.integer('seed', 0, 10 ** 6))
        pos = pd.DataFrame(r.uniform(-80, 80, (m, 2)), index=cols, columns=['E', 'N'])
        v, a = r.uniform(4, 15), r.uniform(0, 2 * np.pi)
        dt = (t[1] - t[0]).total_seconds()
        f, ph = r.uniform(0.02, 0.2, 5) / dt, r.uniform(0, 6, 5)
        lag = (pos.values @ np.array([np.cos(a), np.sin(a)])) / v * dt
        tt = np.arange(n)[:, None] * dt - lag[None, :]
        x = sum(np.sin(2 * np.pi * q * tt + p) for q, p in zip(f, ph)) * 0.1 + 0.7 + r.normal(0, cx.choice('noise', [0.0, 0.01, 0.3]), (n, m))
        ts = pd.DataFrame(x, index=t, columns=cols)
    cx.modular(signalproc.compute_delays, signalproc.compute_delays_tf, cmv._pairwise_qc)
    spd, ang, out = cx.call(cmv.compute_cmv, ts, pos, method=method, **kw)
    return n, m, ts, pos, spd, ang, out


def _ids(ts):
    return cmv._get_pairs(list(ts.columns), list(ts.columns), True)


def _qc(ts, pos, method):
    """delays, correlations, separations and quality of every pair, by their own contracts"""
    pairs = _ids(ts)
    A, B = ts[pairs[:, 0]], ts[pairs[:, 1]]
    delay, extras = signalproc.compute_delays(A, B, 'loop', scaling='coeff')
    vec = pos.loc[pairs[:, 1]].values - pos.loc[pairs[:, 0]].values
    flags, _ = cmv._pairwise_qc(pairs, spatial.magnitude(vec.T), [A, B], delay, extras['peak_corr'], extras['mean_corr'], method, None)
    return pairs, delay, extras, vec, flags


def _few(flags):
    return np.sum(flags == Flag.GOOD) <= 1


@contract(cmv.compute_cmv)
def normal_form(cx):
    """speed is not negative, the angle is in [0, 2 pi), and both are what is reported with the pairs"""
    n, m, ts, pos, spd, ang, out = _setup(cx, cx.choice('method', ['jamaly', 'gagne']))
    cx.ensure('speed', cx.Not(spd < 0))
    cx.ensure('angle', cx.Or(cx.isnan(ang), cx.And(0 <= ang, ang < 2 * cx.pi)))
    if out.wind_speed is not None:
        cx.eq('reported_speed', out.wind_speed, spd)
        cx.eq('reported_angle', out.wind_angle, ang)
    else:
        cx.eq('no_speed', spd, 0)
        cx.eq('no_angle', ang, 0)
        cx.ensure('flagged', out.flag is Flag.ALLBAD)


@contract(cmv.compute_cmv)
def pairs_reported(cx):
    """lags, correlations, quality and distances reported for every pair are that pair's own"""
    method = cx.choice('method', ['jamaly', 'gagne'])
    n, m, ts, pos, spd, ang, out = _setup(cx, method)
    pairs, delay, extras, vec, flags = cx.call(_qc, ts, pos, method)
    cx.eq_arr('pairs', out.allpairs, pairs)
    if method == 'jamaly':
        cx.eq_arr('quality', out.pair_flag, flags)
    if out.wind_speed is not None:
        cx.eq_arr('lag', out.pair_lag, delay)
        cx.eq_arr('corr', out.corr_lag, extras['peak_corr'])
        cx.eq_arr('raw', out.corr_raw, extras['zero_corr'])
        for k in cx.forall(cx.shape(pairs)[0]):
            d = cx.at(vec, k, 0) * cx.cos(ang) + cx.at(vec, k, 1) * cx.sin(ang)
            cx.eq('distance', cx.at(out.pair_dists, k), d, scale=100.0)


@contract(cmv.compute_cmv)
def all_bad(cx):
    """with at most one good pair there is no estimate, only the flag; otherwise there is one"""
    method = cx.choice('method', ['jamaly', 'gagne'])
    n, m, ts, pos, spd, ang, out = _setup(cx, method)
    bad = cx.call(_few, out.pair_flag)
    if out.wind_speed is None:
        cx.ensure('few', bad)
        cx.ensure('flagged', out.flag is Flag.ALLBAD)
        cx.eq('speed', spd, 0)
        cx.eq('angle', ang, 0)
    else:
        cx.ensure('enough', cx.Not(bad))


def _good(x, flags):
    return x[flags == Flag.GOOD]


@contract(cmv.compute_cmv, mode='bounded')
def least_squares(cx):
    """gagne: the slowness (unit direction over speed) solves the normal equations of lag = separation . slowness over the good pairs"""
    n, m, ts, pos, spd, ang, out = _setup(cx, 'gagne', 5, 6)
    if out.wind_speed is not None:
        cx.requires(cx.And(cx.fin(spd), spd > 0, cx.fin(ang)))
        pairs, delay, extras, vec, flags = cx.call(_qc, ts, pos, 'gagne')
        sx, sy = cx.cos(ang) / spd, cx.sin(ang) / spd
        p = cx.shape(pairs)[0]
        good = lambda k: cx.ite(cx.at(out.pair_flag, k) == Flag.GOOD, 1.0, 0.0)
        res = lambda k: good(k) * (cx.at(delay, k) - cx.at(vec, k, 0) * sx - cx.at(vec, k, 1) * sy)
        cx.eq('east', cx.sum(p, lambda k: res(k) * cx.at(vec, k, 0)), 0, tol=1e-3)
        cx.eq('north', cx.sum(p, lambda k: res(k) * cx.at(vec, k, 1)), 0, tol=1e-3)


def _thr(corr, flags):
    """strictest of 0.99, 0.95, 0.90 that leaves twelve good pairs, else 0.90"""
    for t in (0.99, 0.95):
        if np.sum(_good(corr >= t, flags)) >= 12:
            return t
    return 0.9


def _passing(corr, flags, t):
    return np.sum(_good(corr >= t, flags))


@contract(cmv.compute_cmv)
def correlated_only(cx):
    """gagne: good are the pairs of good quality correlated at least 0.99, or 0.95, or 0.90, whichever first leaves twelve of them"""
    n, m, ts, pos, spd, ang, out = _setup(cx, 'gagne', 5, 6)
    pairs, delay, extras, vec, flags = cx.call(_qc, ts, pos, 'gagne')
    corr = extras['peak_corr']
    t = cx.call(_thr, corr, flags)
    for k in cx.forall(cx.shape(pairs)[0]):
        ok = cx.And(cx.at(flags, k) == Flag.GOOD, cx.at(corr, k) >= t)
        cx.ensure('good', cx.iff(cx.at(out.pair_flag, k) == Flag.GOOD, ok))
    if out.flag is Flag.GOOD:
        cx.ensure('twelve', cx.call(_passing, corr, flags, t) >= 12)
    else:
        cx.ensure('all_bad', out.flag is Flag.ALLBAD)


def _velocities(vec, delay, flags, ang):
    d = spatial.project_vectors(vec, np.array(spatial.pol2rect(1, ang)))
    return _good(d, flags) / _good(delay, flags)


def _velocity(vec, delay, flags, ang):
    return np.nanmedian(_velocities(vec, delay, flags, ang))


def _level(vec, delay, flags, ang, p):
    return np.nanpercentile(_velocities(vec, delay, flags, ang), p)


@contract(cmv.compute_cmv)
def median_speed(cx):
    """jamaly: the speed is the median over the good pairs of distance along the direction over lag; a wide spread is flagged"""
    n, m, ts, pos, spd, ang, out = _setup(cx, 'jamaly', 3, 6)
    if out.wind_speed is not None:
        pairs, delay, extras, vec, flags = cx.call(_qc, ts, pos, 'jamaly')
        cx.eq('speed', spd, cx.call(_velocity, vec, delay, flags, ang))
        o = out.method_data
        cx.requires(spd > 0)
        cx.eq('error', cx.abs(o['error_index']) * spd, cx.abs(o['v60'] - o['v40']))
        cx.ensure('trend', cx.iff(cx.abs(o['error_index']) > 0.4, out.flag is Flag.TREND))
        cx.ensure('good', cx.Or(out.flag is Flag.TREND, out.flag is Flag.GOOD))


@contract(cmv.compute_cmv, mode='bounded')
def spread(cx):
    """jamaly: the error index compares the 40th and 60th percentile of those speeds"""
    n, m, ts, pos, spd, ang, out = _setup(cx, 'jamaly', 3, 6)
    if out.wind_speed is not None:
        pairs, delay, extras, vec, flags = cx.call(_qc, ts, pos, 'jamaly')
        o = out.method_data
        lo, hi = cx.call(_level, vec, delay, flags, ang, 40), cx.call(_level, vec, delay, flags, ang, 60)
        cx.eq('spread', cx.abs(o['v60'] - o['v40']), hi - lo, tol=1e-6)
        cx.eq('error', cx.abs(o['error_index']) * cx.abs(spd), hi - lo, tol=1e-6)
