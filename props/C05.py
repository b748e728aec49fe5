"""C05: choice of a subset of cloud motion vectors."""
import numpy as np
from scipy.optimize import linear_sum_assignment
from pyvc.ctx import contract
from solarspatialtools import cmv


@contract(cmv.optimum_subset)
def distinct(cx):
    """the requested number of different vectors is chosen among those given"""
    n = cx.size('n', 1, 4)
    m = cx.size('m', 1, 8)
    cx.requires(n <= m)
    x, y = cx.arr('x', m, -20, 20), cx.arr('y', m, -20, 20)
    cx.requires_all(m, lambda k: cx.at(x, k) ** 2 + cx.at(y, k) ** 2 > 0.01)
    i = cx.call(cmv.optimum_subset, x, y, n)
    cx.eq('number', cx.len(i), n)
    for a in cx.forall(n):
        cx.ensure('valid', cx.And(0 <= cx.at(i, a), cx.at(i, a) < m))
        for b in cx.forall(n):
            cx.ensure('different', cx.implies(cx.at(i, a) == cx.at(i, b), a == b))


def _cost(x, y, n, a, sub=None):
    ang = np.arange(n) / n * np.pi + a
    v = np.array([x, y]) / np.hypot(x, y)
    v = v if sub is None else v[:, sub]
    d = -np.abs(np.array([np.cos(ang), np.sin(ang)]).T @ v)
    i, j = linear_sum_assignment(d)
    return d[i, j].sum()


@contract(cmv.optimum_subset, mode='bounded', samples=120)
def spread(cx):
    """the directions chosen cover the half turn about as evenly as any choice could"""
    n = cx.size('n', 2, 5)
    m = cx.size('m', 2, 12)
    cx.requires(n <= m)
    x, y = cx.arr('x', m, -20, 20), cx.arr('y', m, -20, 20)
    cx.requires((np.hypot(x, y) > 0.1).all())
    i = cx.call(cmv.optimum_subset, x, y, n)
    grid = np.linspace(0, np.pi / n, 90)
    best = min(_cost(x, y, n, a) for a in grid)
    got = min(_cost(x, y, n, a, np.asarray(i)) for a in grid)
    cx.ensure('near_best', bool(got <= best + 0.06 * n))


@contract(cmv.optimum_subset, mode='bounded', samples=120)
def direction(cx):
    """only directions count: lengths and reversals make no difference"""
    n = cx.size('n', 2, 5)
    m = cx.size('m', 2, 12)
    cx.requires(n <= m)
    x, y = cx.arr('x', m, -20, 20), cx.arr('y', m, -20, 20)
    cx.requires((np.hypot(x, y) > 0.1).all())
    f = np.array([cx.choice('f%d' % k, [1.0, -1.0, 4.0, -0.25]) for k in range(m)])
    cx.eq_arr('same', cx.call(cmv.optimum_subset, x, y, n), cx.call(cmv.optimum_subset, x * f, y * f, n))


@contract(cmv.optimum_subset, mode='bounded', samples=120)
def rosette(cx):
    """an evenly spread set hidden among vectors close to one direction is found"""
    n = cx.size('n', 2, 5)
    e = cx.size('e', 1, 4)
    a0 = cx.real('a0', 0, 6.28)
    r = np.random.default_rng(cx.integer('seed', 0, 10 ** 6))
    ang = np.concatenate([a0 + np.arange(n) / n * np.pi + np.pi * r.integers(0, 2, n), a0 + np.pi / n * 0.5 + r.uniform(-0.05, 0.05, e)])
    o = r.permutation(n + e)
    s = r.uniform(1, 20, n + e)
    x, y = (s * np.cos(ang))[o], (s * np.sin(ang))[o]
    i = np.asarray(cx.call(cmv.optimum_subset, x, y, n))
    cx.ensure('found', set(o[i]) == set(range(n)))
