"""F02: assignment of predicted to planned positions."""
import numpy as np
import pandas as pd
from pyvc.ctx import contract
from solarspatialtools import field


def _tables(cx, n, cols=('E', 'N')):
    lab = cx.labels('s', n)
    ix = cx.index(lab)
    return lab, cx.frame('plan', n, list(cols), index=ix, lo=-500, hi=500, kind=cx.choice('number type', 'fi')), cx.frame('pred', n, list(cols), index=ix, lo=-500, hi=500)


def _values(d):
    return d.values


@contract(field.assign_positions, field.remap_positions)
def optimal(cx):
    """the remap is a rearrangement of the entities with the least total distance, and the returned table is the plan so rearranged"""
    n = cx.size('n', 1, 6)
    cols = ('E', 'N', 'z') if cx.choice('extra', [False, True]) else ('E', 'N')
    alt = cx.perm('alt', n)
    lab, plan, pred = _tables(cx, n, cols)
    remap, out = cx.call(field.assign_positions, plan, pred)
    A, B, O = cx.call(_values, plan), cx.call(_values, pred), cx.call(_values, out)
    cx.eq('entries', cx.len(remap), n)
    cx.eq_arr('index', cx.call(_index, out), lab)
    d = lambda X, i, j: cx.sqrt((cx.at(X, i, 0) - cx.at(B, j, 0)) ** 2 + (cx.at(X, i, 1) - cx.at(B, j, 1)) ** 2)
    got, other = cx.sum(n, lambda k: d(O, k, k)), cx.sum(n, lambda k: d(A, alt(k), k))
    cx.le('least', got, other, tol=1e-9)
    again = cx.call(field.remap_positions, plan, remap)
    cx.eq_arr('table', cx.call(_values, again), O)


def _index(d):
    return list(d.index)


@contract(field.assign_positions, field.remap_positions)
def rearrangement(cx):
    """every entity appears once on each side, in order of name; the table's rows are the plan's rows of the mapped entities"""
    n = cx.size('n', 1, 8)
    lab, plan, pred = _tables(cx, n)
    remap, out = cx.call(field.assign_positions, plan, pred)
    A, O = cx.call(_values, plan), cx.call(_values, out)
    cx.eq('entries', cx.len(remap), n)
    for k in cx.forall(n - 1):
        cx.ensure('order', cx.at(remap, k)[0] <= cx.at(remap, k + 1)[0])
    for side in (0, 1):
        for k in cx.forall(n):
            for l in cx.forall(n):
                cx.ensure('once', cx.implies(cx.Not(k == l), lambda: cx.Not(cx.at(remap, k)[side] == cx.at(remap, l)[side])))
    for k in cx.forall(n):
        for c in (0, 1):
            cx.eq('row', cx.at(cx.call(_at_name, out, cx.at(remap, k)[0]), c), cx.at(cx.call(_at_name, plan, cx.at(remap, k)[1]), c))


def _at_name(d, name):
    return d.loc[name].values


@contract(field.assign_positions, mode='bounded')
def recovers(cx):
    """a layout whose positions were shuffled (and displaced by less than half the closest spacing) is restored"""
    n = cx.size('n', 2, 8)
    lab, plan, pred = _tables(cx, n)
    p = cx.perm('shuffle', n)
    v = plan.values
    gap = min(np.hypot(*(v[i] - v[j])) for i in range(n) for j in range(i))
    cx.requires(gap > 1e-6)
    r = np.random.default_rng(cx.integer('seed', 0, 10 ** 6))
    ang, rad = r.uniform(0, 2 * np.pi, n), r.uniform(0, 0.2 * gap / n, n)
    pred = pd.DataFrame([v[p(k)] + rad[k] * np.array([np.cos(ang[k]), np.sin(ang[k])]) for k in range(n)], index=lab, columns=['E', 'N'])
    remap, out = cx.call(field.assign_positions, plan, pred)
    want = {lab[k]: lab[p(k)] for k in range(n)}
    cx.ensure('restored', dict(remap) == want)


@contract(field.assign_positions, mode='bounded')
def missing(cx):
    """entities without a prediction stay, the others are assigned among themselves, and missing values in further columns do not matter"""
    n = cx.size('n', 2, 7)
    lab, plan, pred = _tables(cx, n)
    r = np.random.default_rng(cx.integer('seed', 0, 10 ** 6))
    gone = r.random(n) < 0.4
    cx.requires((~gone).any())
    full = pred.copy()
    pred[gone] = np.nan
    half = r.random(n) < 0.5
    pred.loc[half & gone, 'E'] = 1.0
    if cx.choice('further', [False, True]):
        plan['note'] = 1.0
        pred['note'] = np.where(r.random(n) < 0.5, np.nan, 2.0)
    remap, out = cx.call(field.assign_positions, plan, pred)
    rest, _ = cx.call(field.assign_positions, plan[['E', 'N']][~gone], full[~gone])
    want = dict(rest)
    want.update({lab[k]: lab[k] for k in range(n) if gone[k]})
    cx.ensure('assigned', dict(remap) == want)
    cx.ensure('entries', len(remap) == n)
    cx.ensure('listed', [x for x, y in remap] == list(lab) or not gone.any())
    for x, y in remap:
        cx.ensure('row', bool((out.loc[x].values == plan.loc[y].values).all()))
