"""S04: relative positions and projection along a direction."""
import numpy as np
import pandas as pd
from pyvc.ctx import contract
from solarspatialtools import spatial


@contract(spatial.compute_vectors)
def relative_positions(cx):
    """row i is (x_i - x_ref, y_i - y_ref) in input order; the reference's own row is zero"""
    n = cx.size('n', 0)
    kind = cx.choice('number type', 'fi')
    x, y = cx.arr('x', n, kind=kind), cx.arr('y', n, kind=kind)
    ref = cx.arr('ref', 2)
    cx.requires(n >= 1)
    v = cx.call(spatial.compute_vectors, x, y, ref)
    cx.is_type('container', v, np.ndarray)
    cx.eq('rows', cx.shape(v)[0], n)
    cx.eq('columns', cx.shape(v)[1], 2)
    for i in cx.forall(n):
        cx.eq('dx', cx.at(v, i, 0), cx.at(x, i) - cx.at(ref, 0))
        cx.eq('dy', cx.at(v, i, 1), cx.at(y, i) - cx.at(ref, 1))


@contract(spatial.compute_vectors)
def relative_positions_frame(cx):
    """the same for labelled positions: labels are kept, a point of the set may be the reference, extra coordinates are ignored"""
    n = cx.size('n', 1)
    m = cx.choice('m', [2, 3])
    labs = cx.labels('site', n)
    df = cx.frame('pos', n, ['E', 'N', 'z'][:m], index=cx.index(labs), kind=cx.choice('number type', 'fi'))
    r = cx.integer('r', 0, 5)
    cx.requires(r < n)
    ref = cx.call(lambda d, k: d.iloc[k], df, r) if not cx.sym else df.iloc[r]
    v = cx.call(spatial.compute_vectors, df['E'], df['N'], ref)
    cx.is_type('container', v, pd.DataFrame)
    cx.eq('rows', cx.shape(v)[0], n)
    cx.eq('columns', cx.shape(v)[1], 2)
    for i in cx.forall(n):
        cx.eq('label', cx.at(v.index, i), cx.at(df.index, i))
        cx.eq('dx', cx.at(v, i, 0), cx.at(df, i, 0) - cx.at(df, r, 0))
        cx.eq('dy', cx.at(v, i, 1), cx.at(df, i, 1) - cx.at(df, r, 1))
    cx.eq('own row', cx.at(v, r, 0), 0.0)


@contract(spatial.compute_vectors)
def antisymmetric(cx):
    """position of i relative to j is minus that of j relative to i, and relative positions add up along a path"""
    x, y = cx.arr('x', 3), cx.arr('y', 3)
    f = lambda r: cx.call(spatial.compute_vectors, x, y, (cx.at(x, r), cx.at(y, r)))
    v0, v1, v2 = f(0), f(1), f(2)
    cx.eq('antisymmetric', cx.at(v0, 1, 0), -cx.at(v1, 0, 0))
    cx.eq('antisymmetric', cx.at(v0, 1, 1), -cx.at(v1, 0, 1))
    cx.eq('additive', cx.at(v0, 2, 0), cx.at(v0, 1, 0) + cx.at(v1, 2, 0))
    cx.eq('additive', cx.at(v0, 2, 1), cx.at(v0, 1, 1) + cx.at(v1, 2, 1))


def _dir(cx):
    k = cx.choice('dkind', ['tuple', 'array'])
    dx, dy = cx.real('dx'), cx.real('dy')
    cx.requires(dx * dx + dy * dy > 1e-6 if not cx.sym else dx * dx + dy * dy > 0)
    return cx.np.array([dx, dy]), dx, dy


@contract(spatial.project_vectors, spatial.unit, spatial.magnitude)
def projection(cx):
    """entry i is the scalar projection v_i . d / |d| (independent of the length of d)"""
    n = cx.size('n')
    v = cx.arr('v', (n, 2), kind=cx.choice('number type', 'fi'))
    d, dx, dy = _dir(cx)
    r = cx.call(spatial.project_vectors, v, d)
    m = cx.sqrt(dx * dx + dy * dy)
    cx.eq('rows', cx.shape(r)[0], n)
    c = cx.real('c', 0.1, 50, pos=True)
    r2 = cx.call(spatial.project_vectors, v, cx.np.array([dx * c, dy * c]))
    for i in cx.forall(n):
        cx.eq('value', cx.at(r, i) * m, cx.at(v, i, 0) * dx + cx.at(v, i, 1) * dy)
        cx.eq('scale free', cx.at(r2, i), cx.at(r, i))


@contract(spatial.project_vectors, spatial.unit, spatial.magnitude)
def projection_frame(cx):
    """labelled vectors: result carries the labels and the projection of the row with that label"""
    n = cx.size('n')
    labs = cx.labels('site', n)
    v = cx.frame('v', n, ['dx', 'dy'], index=cx.index(labs), kind=cx.choice('number type', 'fi'))
    d, dx, dy = _dir(cx)
    r = cx.call(spatial.project_vectors, v, d)
    m = cx.sqrt(dx * dx + dy * dy)
    cx.is_type('container', r, pd.DataFrame)
    cx.eq('rows', cx.shape(r)[0], n)
    cx.eq('columns', cx.shape(r)[1], 1)
    for i in cx.forall(n):
        cx.eq('label', cx.at(r.index, i), cx.at(v.index, i))
        cx.eq('value', cx.at(r, i, 0) * m, cx.at(v, i, 0) * dx + cx.at(v, i, 1) * dy)


@contract(spatial.project_vectors, spatial.rotate_vector)
def projection_rotation(cx):
    """projection of v on the direction at angle t equals the first coordinate of v rotated by -t"""
    x, y, t = cx.real('x'), cx.real('y'), cx.real('t', -7, 7)
    d = cx.np.array([cx.cos(t), cx.sin(t)])
    p = cx.call(spatial.project_vectors, cx.np.array([[x, y]]), d)
    w = cx.call(spatial.rotate_vector, (x, y), -t)
    cx.eq('agree', cx.at(p, 0), cx.at(w, 0))
