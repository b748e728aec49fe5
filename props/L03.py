"""L03: scaling a cloud field to the statistics of a clear-sky index record."""
import numpy as np
from pyvc.ctx import contract
from solarspatialtools.synthirrad import cloudfield as cf


def _mask(b):
    return b.astype(float)


def _inputs(cx, edge='float'):
    n, m = cx.size('n', 2, 6), cx.size('m', 2, 6)
    field = cx.arr('field', (n, m), 0.01, 1)
    clear = cx.call(_mask, cx.arr('clear', (n, m), kind='b'))
    edge = cx.arr('edge', (n, m), 0, 3)
    return n, m, field, clear, edge


def _lave_clouds(field, clear, kt1, q):
    c = 1 - field * (1 - kt1) / np.quantile(field[clear == 0], q)
    c[c > 1] = 1
    c[c < 0] = 0
    return c


def _top(field, clear, q):
    return np.quantile(field[clear == 0], q)


def _targets(cx):
    return cx.real('ktmean', 0.1, 1.2), cx.real('ktmax', 1, 1.5), cx.real('kt1', 0, 0.9)


def _cloudy(cx, clear, edge, i, j):
    return cx.And(cx.Not(cx.at(clear, i, j) > 0), cx.Not(cx.at(edge, i, j) > 0))


def _sum(cx, n, m, f):
    return cx.sum(n, lambda i: cx.sum(m, lambda j: f(i, j)))


def _setup(cx):
    n, m, field, clear, edge = _inputs(cx)
    ktmean, ktmax, kt1 = _targets(cx)
    q = cx.real('q', 0.5, 1)
    cx.requires(_sum(cx, n, m, lambda i, j: cx.ite(_cloudy(cx, clear, edge, i, j), 1, 0)) >= 1)
    cx.requires(cx.any(n, lambda i: cx.any(m, lambda j: cx.at(clear, i, j) == 0)))
    cx.requires(cx.call(_top, field, clear, q) > 0)
    c = cx.call(_lave_clouds, field, clear, kt1, q)
    lo = cx.min(n, lambda i: cx.min(m, lambda j: cx.at(c, i, j)))
    hi = cx.max(n, lambda i: cx.max(m, lambda j: cx.at(c, i, j)))
    cx.requires(hi - lo > 1e-3)
    cx.requires(_sum(cx, n, m, lambda i, j: cx.ite(_cloudy(cx, clear, edge, i, j), cx.at(c, i, j), 0)) > 1e-3)
    return n, m, field, clear, edge, ktmean, ktmax, kt1, q, c, lo, hi


@contract(cf._scale_field_lave)
def lave_cells(cx):
    """clear cells are exactly 1, edge cells run from 1 to the enhancement maximum, cloudy cells are a common multiple of the darkened field"""
    n, m, field, clear, edge, ktmean, ktmax, kt1, q, c, lo, hi = _setup(cx)
    r = cx.call(cf._scale_field_lave, field, clear, edge, ktmean, ktmax, kt1, q)
    for i in cx.forall(n):
        for j in cx.forall(m):
            v = cx.at(r, i, j)
            cl, ed = cx.at(clear, i, j) > 0, cx.at(edge, i, j) > 0
            cx.ensure('clear', cx.implies(cl, v == 1))
            cx.lemma('above the darkest', cx.at(c, i, j) >= lo)
            cx.lemma('below the brightest', cx.at(c, i, j) <= hi)
            cx.ensure('at least clear', cx.implies(cx.And(cx.Not(cl), ed), v >= 1), tol=1e-9)
            cx.ensure('at most the maximum', cx.implies(cx.And(cx.Not(cl), ed), v <= ktmax), tol=1e-9)


@contract(cf._scale_field_lave)
def lave_mean(cx):
    """the field's mean is the requested one whenever the clear and edge cells leave something for the clouds"""
    n, m, field, clear, edge, ktmean, ktmax, kt1, q, c, lo, hi = _setup(cx)

    def fixed(i, j):
        e = 1 + (cx.at(c, i, j) - lo) / (hi - lo) * (ktmax - 1)
        return cx.ite(cx.at(clear, i, j) > 0, 1, cx.ite(cx.at(edge, i, j) > 0, e, 0))
    if not cx.sym:
        ktmean = (_sum(cx, n, m, fixed) + cx.real('left', 0.05, 5)) / (n * m)
    left = n * m * ktmean - _sum(cx, n, m, fixed)
    have = _sum(cx, n, m, lambda i, j: cx.ite(_cloudy(cx, clear, edge, i, j), cx.at(c, i, j), 0))
    cx.requires(left > 1e-6)
    r = cx.call(cf._scale_field_lave, field, clear, edge, ktmean, ktmax, kt1, q)
    cx.eq('mean', _sum(cx, n, m, lambda i, j: cx.at(r, i, j)), n * m * ktmean, tol=1e-7)
    for i in cx.forall(n):
        for j in cx.forall(m):
            dark = _cloudy(cx, clear, edge, i, j)
            cx.eq('proportional', cx.ite(dark, cx.at(r, i, j) * have, 0), cx.ite(dark, left * cx.at(c, i, j), 0), tol=1e-7)


def _basic_range(field, clear, q):
    return np.quantile(field[clear == 0], 1 - q), np.quantile(field[clear == 0], q)


def _basic_clouds(field, clear, q):
    lo, hi = _basic_range(field, clear, q)
    c = (field - lo) / (hi - lo)
    c[c > 1] = 2 - c[c > 1]
    c[c < 0] = -c[c < 0]
    return c


def _setup_basic(cx):
    n, m, field, clear, edge = _inputs(cx)
    ktmean, ktmax, kt1 = _targets(cx)
    q = cx.real('q', 0.6, 1)
    cx.requires(cx.any(n, lambda i: cx.any(m, lambda j: cx.at(clear, i, j) == 0)))
    lo, hi = cx.call(_basic_range, field, clear, q)
    cx.requires(hi - lo > 1e-3)
    return n, m, field, clear, edge, ktmean, ktmax, kt1, q


@contract(cf._scale_field_basic)
def basic_cells(cx):
    """clear cells are exactly 1 and edge cells carry the enhanced pattern, whether or not the requested mean can be met"""
    n, m, field, clear, edge, ktmean, ktmax, kt1, q = _setup_basic(cx)
    c = cx.call(_basic_clouds, field, clear, q)
    r = cx.call(cf._scale_field_basic, field, clear, edge, ktmean, ktmax, kt1, q)
    for i in cx.forall(n):
        for j in cx.forall(m):
            v = cx.at(r, i, j)
            cl, ed = cx.at(clear, i, j) > 0, cx.at(edge, i, j) > 0
            cx.ensure('clear', cx.implies(cl, v == 1))
            e = cx.And(cx.Not(cl), ed)
            cx.eq('edge', cx.ite(e, v, 0), cx.ite(e, 1 + cx.at(c, i, j) * (ktmax - 1), 0))


@contract(cf._scale_field_basic)
def basic_mean(cx):
    """the field's mean is the requested one whenever the clouds can supply it"""
    n, m, field, clear, edge, ktmean, ktmax, kt1, q = _setup_basic(cx)
    c = cx.call(_basic_clouds, field, clear, q)

    def fixed(i, j):
        return cx.ite(cx.at(clear, i, j) > 0, 1, cx.ite(cx.at(edge, i, j) > 0, 1 + cx.at(c, i, j) * (ktmax - 1), 0))
    cloudy = _sum(cx, n, m, lambda i, j: cx.ite(_cloudy(cx, clear, edge, i, j), 1, 0))
    have = _sum(cx, n, m, lambda i, j: cx.ite(_cloudy(cx, clear, edge, i, j), cx.at(c, i, j), 0))
    if not cx.sym:
        ktmean = (_sum(cx, n, m, fixed) + kt1 * cloudy + cx.real('f', 0.05, 0.95) * have) / (n * m)
    need = n * m * ktmean - _sum(cx, n, m, fixed) - kt1 * cloudy
    cx.requires(cx.And(need > 1e-6, have - need > 1e-6, have - kt1 * cloudy > 1e-6))
    r = cx.call(cf._scale_field_basic, field, clear, edge, ktmean, ktmax, kt1, q)
    cx.eq('mean', _sum(cx, n, m, lambda i, j: cx.at(r, i, j)), n * m * ktmean, tol=1e-7)
