"""S06: distances between space-time points in a frame drifting with the clouds."""
import numpy as np
from pyvc.ctx import contract
from solarspatialtools import spatial


def _point(cx, x, y, ts, cs, cd, i, t, arr):
    s = (cx.at(ts, t) - cx.at(ts, 0)).total_seconds()
    v = cx.at(cs, t) if arr else cs
    d = cx.at(cd, t) if arr else cd
    return cx.at(x, i) - v * s * cx.cos(d), cx.at(y, i) - v * s * cx.sin(d)


@contract(spatial.spacetime_distances)
def drifted_metric(cx):
    """entry (site i, time t; site j, time u) is |(p_i - v s_t) - (p_j - v s_u)|, sites outermost"""
    n, m = cx.size('n', 1, 4), cx.size('m', 1, 4)
    x, y = cx.arr('x', n), cx.arr('y', n)
    ts = cx.times('t', m)
    k = cx.choice('kind', ['scalar', 'array'])
    if k == 'scalar':
        cs, cd = cx.real('cs'), cx.real('cd', -7, 7)
    else:
        cs, cd = cx.arr('cs', m), cx.arr('cd', m, -7, 7)
    D = cx.call(spatial.spacetime_distances, x, y, ts, cs, cd)
    cx.eq('rows', cx.shape(D)[0], n * m)
    cx.eq('columns', cx.shape(D)[1], n * m)
    for i in cx.forall(n):
        for t in cx.forall(m):
            for j in cx.forall(n):
                for u in cx.forall(m):
                    px, py = _point(cx, x, y, ts, cs, cd, i, t, k == 'array')
                    qx, qy = _point(cx, x, y, ts, cs, cd, j, u, k == 'array')
                    d = cx.at(D, i * m + t, j * m + u)
                    cx.eq('distance', d, cx.sqrt((px - qx) * (px - qx) + (py - qy) * (py - qy)), tol=1e-6)


@contract(spatial.spacetime_distances)
def any_times(cx):
    """the times may come in any order; each keeps its place and drift counts from the first listed"""
    n, m = cx.size('n', 1, 3), cx.size('m', 1, 4)
    x, y = cx.arr('x', n), cx.arr('y', n)
    o = cx.call(np.array, cx.pairs(m, cx.perm('p', m)))
    ts = cx.times('t', m)[o]
    cs, cd = cx.real('cs'), cx.real('cd', -7, 7)
    D = cx.call(spatial.spacetime_distances, x, y, ts, cs, cd)
    for i in cx.forall(n):
        for t in cx.forall(m):
            for j in cx.forall(n):
                for u in cx.forall(m):
                    px, py = _point(cx, x, y, ts, cs, cd, i, t, False)
                    qx, qy = _point(cx, x, y, ts, cs, cd, j, u, False)
                    cx.eq('distance', cx.at(D, i * m + t, j * m + u), cx.sqrt((px - qx) * (px - qx) + (py - qy) * (py - qy)), tol=1e-6)


@contract(spatial.spacetime_distances)
def metric_axioms(cx):
    """symmetric, nonnegative, zero on the diagonal"""
    n, m = cx.size('n', 1, 4), cx.size('m', 1, 4)
    x, y = cx.arr('x', n), cx.arr('y', n)
    ts = cx.times('t', m)
    cs, cd = cx.real('cs'), cx.real('cd', -7, 7)
    D = cx.call(spatial.spacetime_distances, x, y, ts, cs, cd)
    for f in cx.forall(n * m):
        cx.eq('diagonal', cx.at(D, f, f), 0.0)
        for g in cx.forall(n * m):
            cx.eq('symmetric', cx.at(D, f, g), cx.at(D, g, f))
            cx.ensure('nonnegative', cx.at(D, f, g) >= 0)


@contract(spatial.spacetime_distances)
def frozen_and_comoving(cx):
    """without motion the distance is spatial only; two sightings of one drifting point coincide"""
    n, m = cx.size('n', 1, 4), cx.size('m', 1, 4)
    x, y = cx.arr('x', n), cx.arr('y', n)
    ts = cx.times('t', m)
    cd = cx.real('cd', -7, 7)
    D = cx.call(spatial.spacetime_distances, x, y, ts, 0.0, cd)
    for i in cx.forall(n):
        for t in cx.forall(m):
            for j in cx.forall(n):
                for u in cx.forall(m):
                    dx, dy = cx.at(x, i) - cx.at(x, j), cx.at(y, i) - cx.at(y, j)
                    cx.eq('still', cx.at(D, i * m + t, j * m + u), cx.sqrt(dx * dx + dy * dy))
