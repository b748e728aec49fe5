"""F01: remapping of the entities of a layout and composition of remaps."""
from pyvc.ctx import contract
from solarspatialtools import field


def _table(cx, n):
    lab = cx.labels('s', n)
    cols = ['E', 'N', 'name'] if cx.choice('extra', [False, True]) else ['E', 'N']
    return lab, cols, cx.frame('pos', n, cols, index=cx.index(lab), lo=-500, hi=500, kind=cx.choice('number type', 'fi'))


@contract(field.remap_positions)
def move(cx):
    """each listed entity takes the original row of the one it is mapped to, in the wanted columns; everything else and the input stay"""
    n = cx.size('n', 1, 8)
    m = cx.size('m', 0, 8) if cx.sym else cx.integer('m', 0, n)
    cx.requires(m <= n)
    lab, cols, pos = _table(cx, n)
    s, q = cx.perm('to', n), cx.arr('from', m, 0, n - 1, kind='i')
    remap = cx.pairs(m, lambda k: (cx.at(lab, s(k)), cx.at(lab, cx.at(q, k))))
    only = cx.choice('columns', [None, ['N'], ['N', 'E']])
    out = cx.call(field.remap_positions, pos, remap) if only is None else cx.call(field.remap_positions, pos, remap, only)
    cx.eq('rows', cx.len(out), n)
    for c in cols:
        new, old = cx.call(_col, out, c), cx.call(_col, pos, c)
        for k in cx.forall(m):
            want = cx.at(old, cx.at(q, k)) if only is None or c in only else cx.at(old, s(k))
            cx.eq('moved', cx.at(new, s(k)), want)
        for k in cx.forall(n - m):
            cx.eq('kept', cx.at(new, s(m + k)), cx.at(old, s(m + k)))
    cx.eq_arr('index', cx.call(_index, out), lab)


def _col(d, c):
    return d[c]


def _index(d):
    return list(d.index)


def _maps(cx, n, lab):
    """two rearrangements of all entities, listed in any order"""
    a, b, p, r = [cx.perm(x, n) for x in ('a', 'b', 'p', 'r')]
    at = lambda k: cx.at(lab, k)
    return cx.pairs(n, lambda k: (at(p(k)), at(a(p(k))))), cx.pairs(n, lambda k: (at(r(k)), at(b(r(k))))), a, b


@contract(field.cascade_remap, field.remap_positions)
def composition(cx):
    """applying the cascade of two remaps is applying the first and then the second"""
    n = cx.size('n', 1, 8)
    lab, cols, pos = _table(cx, n)
    r1, r2, a, b = _maps(cx, n, lab)
    both = cx.call(field.cascade_remap, r1, r2)
    cx.eq('entries', cx.len(both), n)
    x = cx.call(field.remap_positions, pos, both)
    y = cx.call(field.remap_positions, cx.call(field.remap_positions, pos, r1), r2)
    for c in cols:
        u, v, o = cx.call(_col, x, c), cx.call(_col, y, c), cx.call(_col, pos, c)
        for k in cx.forall(n):
            cx.eq('same', cx.at(u, k), cx.at(v, k))
            cx.eq('pair', cx.at(u, k), cx.at(o, a(b(k))))


def _first(l):
    return [x[0] for x in l]


@contract(field.cascade_remap)
def ordered(cx):
    """the cascade is listed in order of the entity names"""
    n = cx.size('n', 1, 8)
    lab = cx.labels('s', n)
    r1, r2, a, b = _maps(cx, n, lab)
    f = cx.call(field.cascade_remap, r1, r2)
    cx.eq('once each', cx.len(f), n)
    for k in cx.forall(n - 1):
        cx.ensure('sorted', cx.at(f, k)[0] <= cx.at(f, k + 1)[0])


@contract(field.cascade_remap, field.remap_positions)
def undo(cx):
    """cascading a rearrangement with its inverse changes nothing"""
    n = cx.size('n', 1, 8)
    lab, cols, pos = _table(cx, n)
    r1, r2, a, b = _maps(cx, n, lab)
    back = cx.pairs(n, lambda k: (cx.at(lab, a(k)), cx.at(lab, k)))
    x = cx.call(field.remap_positions, pos, cx.call(field.cascade_remap, r1, back))
    for c in cols:
        u, o = cx.call(_col, x, c), cx.call(_col, pos, c)
        for k in cx.forall(n):
            cx.eq('unchanged', cx.at(u, k), cx.at(o, k))
