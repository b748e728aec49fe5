"""S05: intersection of the perpendiculars to two displacement vectors."""
import numpy as np
from pyvc.ctx import contract
from solarspatialtools import spatial


@contract(spatial.compute_intersection)
def perpendicular_lines(cx):
    """C.A = |A|^2 and C.B = |B|^2 for every pair of non-parallel rows, of real or whole numbers"""
    n = cx.size('n')
    A, B = cx.arr('A', (n, 2), kind=cx.choice('number type A', 'fi')), cx.arr('B', (n, 2), kind=cx.choice('number type B', 'fi'))
    cr = lambda i: cx.at(B, i, 0) * cx.at(A, i, 1) - cx.at(A, i, 0) * cx.at(B, i, 1)
    cx.requires_all(n, lambda i: cr(i) * cr(i) > (0 if cx.sym else 0.01))
    C = cx.call(spatial.compute_intersection, A, B)
    cx.eq('rows', cx.shape(C)[0], n)
    cx.eq('columns', cx.shape(C)[1], 2)
    for i in cx.forall(n):
        ax, ay, bx, by = cx.at(A, i, 0), cx.at(A, i, 1), cx.at(B, i, 0), cx.at(B, i, 1)
        px, py = cx.at(C, i, 0), cx.at(C, i, 1)
        cx.eq('on the perpendicular of A', px * ax + py * ay, ax * ax + ay * ay, tol=1e-5)
        cx.eq('on the perpendicular of B', px * bx + py * by, bx * bx + by * by, tol=1e-5)


@contract(spatial.compute_intersection)
def recovers_speed(cx):
    """the projections of one vector on two directions determine that vector"""
    wx, wy = cx.real('wx'), cx.real('wy')
    t, u = cx.real('t', -3.2, 3.2), cx.real('u', -3.2, 3.2)
    ct, st_, cu, su = cx.cos(t), cx.sin(t), cx.cos(u), cx.sin(u)
    pa, pb = wx * ct + wy * st_, wx * cu + wy * su
    A = cx.np.array([[pa * ct, pa * st_]])
    B = cx.np.array([[pb * cu, pb * su]])
    cr = pb * cu * pa * st_ - pa * ct * pb * su
    cx.requires(cx.Not(cr == 0) if cx.sym else abs(cr) > 1e-2)
    C = cx.call(spatial.compute_intersection, A, B)
    cx.eq('x', cx.at(C, 0, 0), wx, tol=1e-5)
    cx.eq('y', cx.at(C, 0, 1), wy, tol=1e-5)


@contract(spatial.compute_intersection)
def symmetric(cx):
    """the intersection does not depend on the order of the two vectors"""
    n = cx.size('n')
    A, B = cx.arr('A', (n, 2)), cx.arr('B', (n, 2))
    cr = lambda i: cx.at(B, i, 0) * cx.at(A, i, 1) - cx.at(A, i, 0) * cx.at(B, i, 1)
    cx.requires_all(n, lambda i: cr(i) * cr(i) > (0 if cx.sym else 0.01))
    C, D = cx.call(spatial.compute_intersection, A, B), cx.call(spatial.compute_intersection, B, A)
    for i in cx.forall(n):
        cx.eq('x', cx.at(C, i, 0), cx.at(D, i, 0), tol=1e-5)
        cx.eq('y', cx.at(C, i, 1), cx.at(D, i, 1), tol=1e-5)
