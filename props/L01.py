"""L01: wavelet weights and the random field stacked from them."""
import numpy as np
from pyvc.ctx import contract
from solarspatialtools.synthirrad import cloudfield as cf


@contract(cf._calc_vs_weights)
def vs_weights(cx):
    """the weights of a variability score are positive shares of one, larger scales never getting less"""
    n = cx.size('n', 1, 6)
    s = cx.arr('s', n, 0.5, 60)
    vs = cx.real('vs', 1, 170)
    w = cx.call(cf._calc_vs_weights, s, vs)
    cx.eq('size', cx.len(w), n)
    cx.eq('one', cx.sum(n, lambda i: cx.at(w, i)), 1, tol=1e-9)
    for i in cx.forall(n):
        cx.ensure('share', cx.at(w, i) >= 0, tol=1e-9)
        for j in cx.forall(n):
            top = cx.max(n, lambda k: cx.at(s, k))
            cx.lemma('ratio', cx.implies(cx.at(s, i) <= cx.at(s, j), cx.at(s, i) / top <= cx.at(s, j) / top))
            cx.ensure('order', cx.implies(cx.at(s, i) <= cx.at(s, j), cx.at(w, i) <= cx.at(w, j)), tol=1e-9)


@contract(cf._calc_vs_weights)
def vs_invalid(cx):
    """a negative score is refused"""
    n = cx.size('n', 1, 6)
    s = cx.arr('s', n, 0.5, 60)
    vs = cx.real('vs', -20, -1e-6)
    cx.raises('refused', ValueError, cf._calc_vs_weights, s, vs)


@contract(cf._calc_vs_weights, mode='bounded')
def vs_extreme(cx):
    """however small the variability score and large the scales, the weights are finite shares of one, and only the ratios of scales matter"""
    n = cx.size('n', 1, 8)
    s = np.sort(cx.arr('s', n, 1, 5000))
    vs = cx.choice('vs', [0, 0.0, 1e-12, 1e-4, 0.1, 2, 40, 179])
    with np.errstate(all='ignore'):
        w = cf._calc_vs_weights(s, vs)
        w2 = cf._calc_vs_weights(s * 3.5, vs)
    cx.ensure('finite', bool(np.isfinite(w).all()))
    cx.eq('one', float(w.sum()), 1, tol=1e-9)
    cx.ensure('order', bool((np.diff(w) >= -1e-12).all()))
    cx.eq_arr('ratio', w2, w, tol=1e-6)


@contract(cf._calc_wavelet_weights)
def energy(cx):
    """each wavelet mode weighs its share of the mean square"""
    J, n = cx.size('J', 1, 5), cx.size('n', 1, 6)
    x = cx.arr('x', (J, n), -3, 3)
    tot = cx.sum(J, lambda j: cx.sum(n, lambda k: cx.at(x, j, k) * cx.at(x, j, k)))
    cx.requires(tot > 1e-6)
    cx.requires(cx.any(J, lambda j: cx.any(n, lambda k: cx.Not(cx.at(x, j, k) == 0))))
    w = cx.call(cf._calc_wavelet_weights, x)
    cx.eq('size', cx.len(w), J)
    cx.eq('one', cx.sum(J, lambda j: cx.at(w, j)), 1, tol=1e-9)
    for j in cx.forall(J):
        cx.eq('share', cx.at(w, j) * tot, cx.sum(n, lambda k: cx.at(x, j, k) * cx.at(x, j, k)), tol=1e-9)
        cx.ensure('positive', cx.at(w, j) >= 0)


@contract(cf._random_at_scale)
def at_scale(cx):
    """a random grid (at least one cell, a single row or column doubled) is drawn and stretched over the target, staying within the drawn values"""
    a, b = cx.integer('a', 0, 6), cx.integer('b', 0, 6)
    n, m = cx.size('n', 1, 6), cx.size('m', 1, 6)
    base, out = cx.call(cf._random_at_scale, (a, b), (n, m))
    for got, want in zip(cx.shape(base) + cx.shape(out), (cx.ite(a <= 1, 2, a), cx.ite(b <= 1, 2, b), n, m)):
        cx.eq('shape', got, want)
    for i in cx.forall(n):
        for j in cx.forall(m):
            cx.ensure('range', cx.And(cx.at(out, i, j) >= 0, cx.at(out, i, j) <= 1), tol=1e-9)


@contract(cf._random_at_scale)
def same_scale(cx):
    """a grid drawn at the target's own size is not altered"""
    n, m = cx.size('n', 2, 6), cx.size('m', 2, 6)
    base, out = cx.call(cf._random_at_scale, (n, m), (n, m))
    cx.eq_arr('same', out, base)


def _stack_inputs(cx):
    K, n, m = cx.size('K', 1, 4), cx.size('n', 1, 9), cx.size('m', 1, 9)
    scales = cx.arr('scales', K, 1, 6, kind='i')
    w = cx.arr('w', K, 0.01, 1)
    return K, n, m, scales, w


@contract(cf._stack_random_field)
def stacked(cx):
    """the stacked field has the requested size and, its layers lying between 0 and 1, stays between 0 and the sum of the weights"""
    K, n, m, scales, w = _stack_inputs(cx)
    cx.modular(cf._random_at_scale)
    f = cx.call(cf._stack_random_field, w, scales, (n, m))
    for got, want in zip(cx.shape(f), (n, m)):
        cx.eq('shape', got, want)
    tot = cx.sum(K, lambda k: cx.at(w, k))
    for i in cx.forall(n):
        for j in cx.forall(m):
            cx.ensure('nonnegative', cx.at(f, i, j) >= 0)
            cx.ensure('bounded', cx.at(f, i, j) <= tot, tol=1e-9)


@contract(cf._stack_random_field)
def mismatch(cx):
    """a list of weights that does not match the scales is refused"""
    K, n, m, scales, w = _stack_inputs(cx)
    L = cx.size('L', 1, 5)
    v = cx.arr('v', L, 0.01, 1)
    cx.requires(cx.Not(L == K))
    cx.raises('refused', ValueError, cf._stack_random_field, v, scales, (n, m))


@contract(cf._stack_random_field)
def normalized(cx):
    """a normalized field is the same pattern moved and stretched to run from exactly 0 to exactly 1"""
    K, n, m, scales, w = _stack_inputs(cx)
    n, m = n + 1, m + 1
    if not cx.sym:
        np.random.seed(cx.integer('seed', 0, 10 ** 6))
    cx.modular(cf._random_at_scale)
    state = cx.call(np.random.get_state)
    raw = cx.call(cf._stack_random_field, w, scales, (n, m))
    at = lambda i, j: cx.at(raw, i, j)
    hi, lo = cx.max(n, lambda i: cx.max(m, lambda j: at(i, j))), cx.min(n, lambda i: cx.min(m, lambda j: at(i, j)))
    cx.requires(hi - lo > (0 if cx.sym else 1e-6))
    cx.call(np.random.set_state, state)
    f = cx.call(cf._stack_random_field, w, scales, (n, m), normalize=True)
    cx.eq('lowest', cx.min(n, lambda i: cx.min(m, lambda j: cx.at(f, i, j))), 0)
    cx.eq('highest', cx.max(n, lambda i: cx.max(m, lambda j: cx.at(f, i, j))), 1)
    for i in cx.forall(n):
        for j in cx.forall(m):
            cx.eq('same pattern', cx.at(f, i, j), cx.div(at(i, j) - lo, hi - lo), tol=1e-9)


@contract(cf._stack_random_field, mode='bounded')
def layers(cx):
    """a field is the sum over the scales of that scale's layer times its weight, layers being drawn on grids coarser by a factor of two per scale"""
    K, n, m, scales, w = _stack_inputs(cx)
    seed = cx.integer('seed', 0, 10 ** 6)
    np.random.seed(seed)
    raw = cf._stack_random_field(w, scales, (n, m))
    np.random.seed(seed)
    parts = sum(w[k] * cf._random_at_scale((int(n * 2.0 ** (1 - scales[k])), int(m * 2.0 ** (1 - scales[k]))), (n, m))[1] for k in range(K))
    cx.eq_arr('sum of layers', raw, parts, tol=1e-9)
