"""K03: downscaling hourly means to a field of clear-sky indices."""
import numpy as np
import pandas as pd
from pyvc.ctx import contract
from solarspatialtools import spatial
from solarspatialtools.synthirrad import copula

P = copula.DEFAULT_PARAMS


def _site(cx):
    T, N = cx.size('T', 1, 5), cx.size('N', 1, 4)
    e, n = cx.arr('e', N, -500, 500), cx.arr('n', N, -500, 500)
    return T, N, e, n


def _hour(cx, T, k=''):
    t = cx.times('t' + k, T)
    return t, cx.real('spd' + k, 0, 20), cx.real('dir' + k, 0, 6.28), cx.real('mean' + k, 0.1, 1.1)


def _sample(t, e, n, spd, dir, mean, seed):
    csi = np.arange(-2, 2, 0.01)
    pdf, cdf, p = copula._solar_gmm(csi, mean, P)
    D = spatial.spacetime_distances(e, n, t, spd, dir)
    return copula._space_time_copula(1, D, csi, cdf, p, seed)


@contract(copula.downscale)
def layout(cx):
    """entry (time, site) is the copula sample of that site at that time, a negative one replaced by zero on request"""
    T, N, e, n = _site(cx)
    t, spd, dir, mean = _hour(cx, T)
    seed, noneg = cx.integer('seed', 0, 10 ** 6), cx.choice('noneg', [True, False])
    cx.modular(copula._solar_gmm, copula._inverse_sample)
    cm = cx.call(copula.downscale, t, e, n, spd, dir, mean, P, seed, False, noneg)
    s = cx.call(_sample, t, e, n, spd, dir, mean, seed)
    cx.eq('times', cx.shape(cm)[0], T)
    cx.eq('sites', cx.shape(cm)[1], N)
    for i in cx.forall(T):
        for j in cx.forall(N):
            v = cx.at(s, 0, j * T + i)
            cx.eq('value', cx.at(cm, i, j), cx.ite(v < 0, 0.0, v) if noneg else v)


@contract(copula.downscale)
def scaled(cx):
    """scaling multiplies the whole field by one factor, so that its mean is the hour's"""
    T, N, e, n = _site(cx)
    t, spd, dir, mean = _hour(cx, T)
    seed, noneg = cx.integer('seed', 0, 10 ** 6), cx.choice('noneg', [True, False])
    cx.modular(copula._solar_gmm, copula._inverse_sample)
    raw = cx.call(copula.downscale, t, e, n, spd, dir, mean, P, seed, False, noneg)
    m = cx.sum(T, lambda i: cx.sum(N, lambda j: cx.at(raw, i, j))) / (T * N)
    cx.requires(m > 0.01)
    cm = cx.call(copula.downscale, t, e, n, spd, dir, mean, P, seed, True, noneg)
    for i in cx.forall(T):
        for j in cx.forall(N):
            cx.eq('factor', cx.at(cm, i, j) * m, cx.at(raw, i, j) * mean, tol=1e-9)
    cx.eq('mean', cx.sum(T, lambda i: cx.sum(N, lambda j: cx.at(cm, i, j))), T * N * mean, tol=1e-7)


@contract(copula.downscale)
def defaults(cx):
    """by default the field is non-negative and scaled"""
    T, N, e, n = _site(cx)
    t, spd, dir, mean = _hour(cx, T)
    seed = cx.integer('seed', 0, 10 ** 6)
    cx.modular(copula._solar_gmm, copula._inverse_sample)
    a = cx.call(copula.downscale, t, e, n, spd, dir, mean, P, seed)
    b = cx.call(copula.downscale, t, e, n, spd, dir, mean, P, seed, True, True)
    cx.eq_arr('same', a, b)


@contract(copula.downscale_multihour)
def hours(cx):
    """several hours are the concatenation of single ones, each with its own mean, times, cloud speed, direction and parameters where these are listed, a list of one speed or direction being the common one, and the common ones where they are not"""
    T, N, e, n = _site(cx)
    H = cx.choice('H', [1, 2, 3])
    lists = cx.choice('lists', ['none', 'times', 'spd', 'dir', 'params', 'all', 'one'])
    T2 = cx.size('T2', 1, 4)
    hs = [_hour(cx, T2 if k == 1 and lists in ('times', 'all') else T, str(k)) for k in range(H)]
    par = [dict(P, corr_quadr=0.002 + 0.001 * k) for k in range(H)]
    seed = cx.integer('seed', 0, 10 ** 6)
    noneg, scale = cx.choice('flags', [(True, True), (False, False), (True, False), (False, True)])
    cx.modular(copula.downscale)
    many = lambda key: lists in (key, 'all')
    means = [h[3] for h in hs]
    t = [h[0] for h in hs] if many('times') else hs[0][0]
    spd = [h[1] for h in hs] if many('spd') else hs[0][1]
    d = [h[2] for h in hs] if many('dir') else hs[0][2]
    p = par if many('params') else par[0]
    pick = lambda key, v, k: v[k] if many(key) else v
    sep = [cx.call(copula.downscale, pick('times', t, k), e, n, pick('spd', spd, k), pick('dir', d, k), means[k], pick('params', p, k), seed, scale, noneg) for k in range(H)]
    if lists == 'one':                 # a list of one speed and one direction: the common ones
        spd, d = [spd], [d]
    if cx.sym:
        out = cx.call(copula.downscale_multihour, t, e, n, spd, d, means, p, seed, scale, noneg)
    else:
        out = cx.call(copula.downscale_multihour, t, e, n, spd, d, means, p, seed, scale=scale, noneg=noneg)
    cx.eq_arr('hours', out, cx.call(_stack, sep))


def _stack(parts):
    return np.concatenate(parts, axis=0)


@contract(copula.downscale_multihour)
def mismatch(cx):
    """a list whose length is not the number of hours is refused"""
    T, N, e, n = _site(cx)
    H = cx.choice('H', [2, 3])
    k = cx.choice('k', [0, 2, 4])
    which = cx.choice('which', ['times', 'spd', 'dir', 'params', 'kind', 'parkind'])
    t, spd, d, _ = _hour(cx, T)
    cx.requires(k != H)
    many = lambda key, v: [v] * k if which == key else v
    if which == 'kind':
        ts = [[1, 2]] * H
    else:
        ts = many('times', t)
    ps = [1] * H if which == 'parkind' else many('params', P)
    cx.raises('refused', ValueError, copula.downscale_multihour, ts, e, n, many('spd', spd), many('dir', d), [0.5] * H, ps, 1)
