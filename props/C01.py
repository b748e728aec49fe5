"""C01: which pairs of sites are compared."""
import numpy as np
import itertools
from pyvc.ctx import contract
from solarspatialtools import cmv, signalproc


@contract(cmv._get_pairs)
def every_pair(cx):
    """every unordered pair of sites appears exactly once, in site order, with itself if wanted"""
    n = cx.size('n', 1, 7)
    pts = cx.labels('s', n)
    rep = cx.choice('replacement', [True, False])
    if not rep:
        cx.requires(n >= 2)
    r = cx.call(cmv._get_pairs, cx.call(list, pts), None, rep)
    d = 1 if rep else 0
    cx.eq('count', cx.len(r) * 2, n * (n + 2 * d - 1))
    for i in cx.forall(n):
        for m in cx.forall(n - i - 1 + d):
            j = i + m + 1 - d
            k = (i * n if rep else i * (n - 1)) - cx.div(i * (i - 1), 2) + (j - i) - 1 + d
            k = k if cx.sym else int(k)
            cx.eq('first', cx.at(r, k, 0), cx.at(pts, i))
            cx.eq('second', cx.at(r, k, 1), cx.at(pts, j))


@contract(cmv._get_pairs)
def with_references(cx):
    """given reference sites: exactly the pairs that contain one of them, in the same order"""
    n = cx.size('n', 1, 6)
    pts = cx.labels('s', n)
    must = cx.call(list, pts)[:cx.integer('m', 1, 3)] if False else _refs(cx, pts, n)
    rep = cx.choice('replacement', [True, False])
    if not rep:
        cx.requires(n >= 2)
    allp = cx.call(cmv._get_pairs, cx.call(list, pts), None, rep)
    r = cx.call(cmv._get_pairs, cx.call(list, pts), must, rep)
    m = cx.len(must)
    has = lambda k: cx.Or(cx.any(m, lambda q: cx.at(must, q) == cx.at(allp, k, 0)), cx.any(m, lambda q: cx.at(must, q) == cx.at(allp, k, 1)))
    cx.eq_arr('kept', r, cx.call(_keep, allp, cx.call(_mask, allp, must)))


def _refs(cx, pts, n):
    m = cx.size('m', 1, 3)
    cx.requires(m <= n)
    step = cx.choice('step', ['first', 'last'])
    l = cx.call(list, pts)
    return l[:m] if step == 'first' else l[n - m:]


def _mask(pairs, must):
    return np.array([p[0] in must or p[1] in must for p in pairs])


def _keep(a, m):
    return a[m]


@contract(cmv.compute_cmv, samples=120)
def estimate(cx):
    """the cloud-motion estimate compares those pairs of the listed sites, for one reference (a name is one site, however its letters read), several or none"""
    n, m = 30, cx.size('m', 2, 6)
    cx.requires(m >= 2 if cx.sym else m <= 6)
    if cx.sym:
        cols = cx.labels('s', m)
        ts = cx.frame('ts', n, cols, index=cx.times('t', n), lo=0.1, hi=1.2)
        pos = cx.frame('pos', m, ['E', 'N'], index=cols, lo=-500, hi=500)
        cols = cx.call(list, cols)
    else:
        cols = cx.choice('names', [['s1', 's', 's10', '10', 's101', '1'], [10, 1, 0, 101, 2, 11], ['a', 'b', 'c', 'd', 'e', 'f']])[:m]
        if cx.boolean('turned'):
            cols = cols[::-1]
        ts = cx.frame('ts', n, cols, index=cx.times('t', n), lo=0.1, hi=1.2)
        pos = cx.frame('pos', m, ['E', 'N'], index=cols, lo=-500, hi=500)
    cx.modular(signalproc.compute_delays, signalproc.compute_delays_tf, cmv._pairwise_qc)
    kind = 'one' if cx.sym else cx.choice('kind', ['one', 'list', 'none'])     # none: C03.pairs_reported
    must = None if kind == 'none' else [cx.at(cols, m - 1)] if kind == 'one' else [cx.at(cols, 0), cx.at(cols, m - 1)]
    ref = must[0] if kind == 'one' else must
    spd, ang, out = cx.call(cmv.compute_cmv, ts, pos, reference_id=ref, method='jamaly' if cx.sym else cx.choice('method', ['jamaly', 'gagne']))
    cx.eq_arr('pairs', out.allpairs, cx.call(cmv._get_pairs, cols, must, True))
