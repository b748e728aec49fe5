"""L02: the clear-sky mask of a cloud field and its edges."""
import numpy as np
from pyvc.ctx import contract
from solarspatialtools.synthirrad import cloudfield as cf


@contract(cf._calc_clear_mask)
def mask_cells(cx):
    """the clear cells are those at or below the field's quantile of the clear fraction"""
    n, m = cx.size('n', 1, 7), cx.size('m', 1, 7)
    x = cx.arr('x', (n, m), 0, 1)
    frac = cx.real('frac', 0.01, 1)
    q = cx.call(np.quantile, x, frac)
    share = cx.sum(n, lambda i: cx.sum(m, lambda j: cx.ite(cx.at(x, i, j) <= q, 1, 0)))
    cx.requires(cx.And(share - frac * n * m <= 1, frac * n * m - share <= 1))
    r = cx.call(cf._calc_clear_mask, x, frac)
    for got, want in zip(cx.shape(r), (n, m)):
        cx.eq('shape', got, want)
    for i in cx.forall(n):
        for j in cx.forall(m):
            cx.eq('cell', cx.at(r, i, j), cx.ite(cx.at(x, i, j) <= q, 1, 0))


@contract(cf._calc_clear_mask)
def mask_none(cx):
    """nothing is clear for a fraction of zero"""
    n, m = cx.size('n', 1, 7), cx.size('m', 1, 7)
    x = cx.arr('x', (n, m), 0, 1)
    r = cx.call(cf._calc_clear_mask, x, cx.choice('zero', [0, 0.0]))
    for i in cx.forall(n):
        for j in cx.forall(m):
            cx.eq('cell', cx.at(r, i, j), 0)


@contract(cf._calc_clear_mask)
def mask_refused(cx):
    """fractions outside [0, 1] are refused"""
    n, m = cx.size('n', 1, 7), cx.size('m', 1, 7)
    x = cx.arr('x', (n, m), 0, 1)
    frac = cx.real('frac', -3, 3)
    cx.requires(cx.Or(frac < 0, frac > 1))
    cx.raises('refused', ValueError, cf._calc_clear_mask, x, frac)


@contract(cf._calc_clear_mask, mode='bounded')
def mask_share(cx):
    """a field of distinct values is masked for every clear fraction, to the nearest cells, on every size of field"""
    n, m = cx.size('n', 1, 12), cx.size('m', 1, 12)
    x = np.random.default_rng(cx.integer('seed', 0, 10 ** 6)).permutation(n * m).reshape(n, m) / 7.0
    frac = cx.real('frac', 0, 1)
    r = cf._calc_clear_mask(x, frac)
    cx.ensure('share', abs(r.sum() - frac * n * m) <= 1 + 1e-9)
    cx.ensure('lowest', (not (r == 0).any()) or (not (r == 1).any()) or x[r == 1].max() < x[r == 0].min())


def _wrap(cx, i, d, n):
    """neighbouring row or column, the border repeated"""
    if d == 0:
        return i
    j = i + d
    return cx.ite(j < 0, 0, j) if d < 0 else cx.ite(n - 1 < j, n - 1, j)


def _mask(b):
    return b.astype(float)


def _grad(cx, x, i, j, n, m):
    def at(di, dj):
        return cx.at(x, _wrap(cx, i, di, n), _wrap(cx, j, dj, m))
    gx = at(1, -1) + 2 * at(1, 0) + at(1, 1) - at(-1, -1) - 2 * at(-1, 0) - at(-1, 1)
    gy = at(-1, 1) + 2 * at(0, 1) + at(1, 1) - at(-1, -1) - 2 * at(0, -1) - at(1, -1)
    return gx, gy


@contract(cf._find_edges)
def edges(cx):
    """the edge strength is the squared gradient of the mask, so it vanishes where a cell and its neighbours agree"""
    n, m = cx.size('n', 1, 8), cx.size('m', 1, 8)
    x = cx.arr('x', (n, m), -2, 2)
    e, s = cx.call(cf._find_edges, x, 1)
    for got, want in zip(cx.shape(e) + cx.shape(s), (n, m, n, m)):
        cx.eq('shape', got, want)
    for i in cx.forall(n):
        for j in cx.forall(m):
            gx, gy = _grad(cx, x, i, j, n, m)
            cx.eq('gradient', cx.at(e, i, j), gx * gx + gy * gy, tol=1e-9)


def _smooth(cx, size):
    n, m = cx.size('n', 2, 8), cx.size('m', 2, 8)
    x = cx.call(_mask, cx.arr('x', (n, m), kind='b'))
    e, s = cx.call(cf._find_edges, x, size)
    offs = range(-(size // 2), size - size // 2)
    for i in cx.forall(n):
        for j in cx.forall(m):
            near = [cx.at(e, _wrap(cx, i, o, n), _wrap(cx, j, p, m)) for o in offs for p in offs]
            cx.ensure('only near edges', cx.implies(cx.And(*[v == 0 for v in near]), cx.Not(cx.at(s, i, j))))
            for v in near:
                cx.ensure('near every edge', cx.implies(v >= 1, cx.at(s, i, j)))


@contract(cf._find_edges)
def smoothed3(cx):
    """with a 3-cell window, the widened edge is exactly where a neighbouring cell has an edge"""
    _smooth(cx, 3)


@contract(cf._find_edges)
def smoothed2(cx):
    """with a 2-cell window, the widened edge is exactly where a cell of the window has an edge"""
    _smooth(cx, 2)


@contract(cf._find_edges, mode='bounded')
def smoothed_wide(cx):
    """the same for wider windows and fields with few clear cells"""
    w = cx.choice('window', [4, 5, 6, 9, 14, 21])
    n, m = cx.size('n', 2, 50), cx.size('m', 2, 50)
    x = np.zeros((n, m))
    for k in range(cx.size('clear', 0, 4)):
        x[cx.integer('row%d' % k, 0, 49) % n, cx.integer('column%d' % k, 0, 49) % m] = 1
    e, s = cx.call(cf._find_edges, x, w)
    wide = np.pad(e > 0, ((w // 2, w - 1 - w // 2),) * 2, mode='symmetric')
    near = np.lib.stride_tricks.sliding_window_view(wide, (w, w)).any(axis=(2, 3))
    cx.ensure('near edges', bool((np.asarray(s) == near).all()))
