"""S03: plane-vector algebra (dot, magnitude, unit, polar conversion, rotation)."""
import numpy as np
import pandas as pd
from pyvc.ctx import contract
from solarspatialtools import spatial


def _vec(cx, name, kind):
    """a plane vector in one of the accepted containers"""
    x, y = cx.real(name + 'x'), cx.real(name + 'y')
    if kind == 'tuple':
        return (x, y), x, y
    if kind == 'list':
        return [x, y], x, y
    if kind == 'array':
        return cx.np.array([x, y]), x, y
    a = cx.arr(name, (2,))
    x, y = cx.at(a, 0), cx.at(a, 1)
    s = cx.call(pd.Series, a, index=['x', 'y'])
    return s, x, y


@contract(spatial.dot)
def dot_scalar(cx):
    """dot of two plane vectors is a_x b_x + a_y b_y, symmetric, and 0 for perpendicular ones"""
    k = cx.choice('kind', ['tuple', 'list', 'array'])
    a, ax, ay = _vec(cx, 'a', k)
    b, bx, by = _vec(cx, 'b', k)
    r = cx.call(spatial.dot, a, b)
    cx.eq('value', r, ax * bx + ay * by)
    cx.eq('symmetric', cx.call(spatial.dot, b, a), r)
    cx.eq('perpendicular', cx.call(spatial.dot, (ax, ay), (-ay, ax)), 0.0)


@contract(spatial.dot)
def dot_rows(cx):
    """dot of stacked components acts elementwise"""
    n = cx.size('n')
    a, b = cx.arr('a', (2, n), kind=cx.choice('number type', 'fi')), cx.arr('b', (2, n))
    r = cx.call(spatial.dot, a, b)
    for i in cx.forall(n):
        cx.eq('value', cx.at(r, i), cx.at(a, 0, i) * cx.at(b, 0, i) + cx.at(a, 1, i) * cx.at(b, 1, i))


@contract(spatial.magnitude)
def magnitude(cx):
    """the magnitude is the Euclidean length for every accepted container"""
    v, x, y = _vec(cx, 'v', cx.choice('kind', ['tuple', 'list', 'array', 'series']))
    r = cx.call(spatial.magnitude, v)
    cx.eq('value', r, cx.sqrt(x * x + y * y))
    cx.ensure('nonnegative', r >= 0)


@contract(spatial.magnitude)
def magnitude_rows(cx):
    """the magnitude of stacked components is computed per column"""
    n = cx.size('n')
    a = cx.arr('a', (2, n), kind=cx.choice('number type', 'fi'))
    r = cx.call(spatial.magnitude, a)
    for i in cx.forall(n):
        cx.eq('value', cx.at(r, i), cx.sqrt(cx.at(a, 0, i) * cx.at(a, 0, i) + cx.at(a, 1, i) * cx.at(a, 1, i)))


@contract(spatial.unit, spatial.magnitude)
def unit(cx):
    """the unit vector is parallel to its argument, has length one and keeps the direction"""
    v, x, y = _vec(cx, 'v', cx.choice('kind', ['array', 'series']))
    cx.requires(x * x + y * y > 0)
    u = cx.call(spatial.unit, v)
    ux, uy = cx.at(u, 0), cx.at(u, 1)
    cx.eq('length one', ux * ux + uy * uy, 1.0)
    m = cx.sqrt(x * x + y * y)
    cx.eq('parallel x', ux * m, x)
    cx.eq('parallel y', uy * m, y)


@contract(spatial.rect2pol, spatial.pol2rect)
def polar_roundtrip(cx):
    """rectangular to polar and back is the identity"""
    x, y = cx.real('x'), cx.real('y')
    r, th = cx.call(spatial.rect2pol, x, y)
    cx.eq('radius', r, cx.sqrt(x * x + y * y))
    cx.ensure('angle range', cx.And(th >= -cx.pi, th <= cx.pi))
    x2, y2 = cx.call(spatial.pol2rect, r, th)
    cx.eq('x', x2, x)
    cx.eq('y', y2, y)


@contract(spatial.rect2pol, spatial.pol2rect)
def polar_arrays(cx):
    """polar conversion acts elementwise on arrays"""
    n = cx.size('n')
    kind = cx.choice('number type', 'fi')
    x, y = cx.arr('x', n, kind=kind), cx.arr('y', n, kind=kind)
    r, th = cx.call(spatial.rect2pol, x, y)
    x2, y2 = cx.call(spatial.pol2rect, r, th)
    for i in cx.forall(n):
        a, b = cx.at(x, i), cx.at(y, i)
        cx.eq('radius', cx.at(r, i), cx.sqrt(a * a + b * b))
        cx.eq('x', cx.at(x2, i), a)
        cx.eq('y', cx.at(y2, i), b)


@contract(spatial.pol2rect)
def pol2rect(cx):
    """polar to rectangular is (r cos t, r sin t)"""
    r, th = cx.real('r'), cx.real('th', -7, 7)
    x, y = cx.call(spatial.pol2rect, r, th)
    cx.eq('x', x, r * cx.cos(th))
    cx.eq('y', y, r * cx.sin(th))


@contract(spatial.rotate_vector)
def rotate_vector(cx):
    """rotation by t is the counter-clockwise isometry, whatever the container, and keeps tuples tuples"""
    k = cx.choice('kind', ['tuple', 'list', 'array'])
    v, x, y = _vec(cx, 'v', k)
    th = cx.real('th', -7, 7)
    w = cx.call(spatial.rotate_vector, v, th)
    if k in ('tuple', 'list'):
        cx.is_type('container', w, tuple)
    wx, wy = cx.at(w, 0), cx.at(w, 1)
    c, s = cx.cos(th), cx.sin(th)
    cx.eq('x', wx, c * x - s * y)
    cx.eq('y', wy, s * x + c * y)
    cx.eq('length kept', wx * wx + wy * wy, x * x + y * y)


@contract(spatial.rotate_vector)
def rotate_many(cx):
    """rotation of a 2xN matrix of column vectors acts per column and by the inverse angle undoes it"""
    n = cx.size('n')
    v = cx.arr('v', (2, n), kind=cx.choice('number type', 'fi'))
    th = cx.real('th', -7, 7)
    w = cx.call(spatial.rotate_vector, v, th)
    u = cx.call(spatial.rotate_vector, w, -th)
    c, s = cx.cos(th), cx.sin(th)
    for i in cx.forall(n):
        x, y = cx.at(v, 0, i), cx.at(v, 1, i)
        cx.eq('x', cx.at(w, 0, i), c * x - s * y)
        cx.eq('y', cx.at(w, 1, i), s * x + c * y)
        cx.eq('undo x', cx.at(u, 0, i), x)
        cx.eq('undo y', cx.at(u, 1, i), y)
