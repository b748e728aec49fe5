"""K01: the two-component clear-sky index model of an hour."""
import numpy as np
from pyvc.ctx import contract
from solarspatialtools.synthirrad import copula


def _params(cx):
    r = lambda k, lo, hi: cx.real(k, lo, hi)
    p = {'comp': [r('comp0', 0.01, 0.99), r('comp1', 0.1, 12), r('comp2', 0, 1)],
         'mean': [r('mean0', 0, 4), r('mean1', 0, 2), r('mean2', 0, 1)],
         'sdevClear': [r('clear0', 0.05, 0.6), r('clear1', 0.1, 6), r('clear2', 0, 1)],
         'sdevCloud': [r('cloud0', 0.05, 0.6), r('cloud1', 0.1, 6), r('cloud2', 0, 1)],
         'corr_quadr': r('corr', 0, 0.02)}
    return p


def _sig(cx, x, a, c):
    return 1 / (1 + cx.exp(-a * (x - c)))


@contract(copula._process_params, copula._sigmoid, copula._exponential_decay_parameter)
def components(cx):
    """weights are positive and add to one, the mixture keeps the hour's mean, variances are positive, and each parameter is its published formula"""
    p, m = _params(cx), cx.real('mean', 0.01, 1.2)
    mu, w, var, k = cx.call(copula._process_params, m, p)
    cx.eq('number', cx.len(mu) + cx.len(w) + cx.len(var), 6)
    cx.eq('sum', w[0] + w[1], 1)
    cx.ensure('cloudy', cx.And(0 < w[0], w[0] < 1))
    cx.ensure('clear', cx.And(0 < w[1], w[1] < 1))
    cx.eq('mean', w[0] * mu[0] + w[1] * mu[1], m, tol=1e-7)
    cx.eq('share', w[1], p['comp'][0] * _sig(cx, m, p['comp'][1], p['comp'][2]))
    cx.eq('clear_mean', mu[1], p['mean'][0] * w[0] * m + p['mean'][1] * w[1] * (m - p['mean'][2]))
    cx.eq('cloud_spread', var[0], (p['sdevCloud'][0] * _sig(cx, m, p['sdevCloud'][1], p['sdevCloud'][2])) ** 2)
    cx.eq('clear_spread', var[1], (p['sdevClear'][0] * (1 - _sig(cx, m, p['sdevClear'][1], p['sdevClear'][2]))) ** 2)
    cx.ensure('positive', cx.And(var[0] > 0, var[1] > 0))
    q = p['corr_quadr'] * m * (1 - m)
    cx.eq('decay', k, cx.ite(q < 0.00001, 0.00001, q), tol=1e-12)


@contract(copula._exponential_decay_parameter)
def decay_array(cx):
    """an array of means gives the decay of each"""
    n = cx.size('n', 2, 6)
    m, p = cx.arr('mean', n, 0, 1.3, kind=cx.choice('number type', 'fi')), cx.choice('whole', [cx.real('corr', 0, 0.02), 0])
    k = cx.call(copula._exponential_decay_parameter, m, p)
    cx.eq('count', cx.len(k), n)
    for i in cx.forall(n):
        v = p * cx.at(m, i) * (1 - cx.at(m, i))
        cx.eq('element', cx.at(k, i), cx.ite(v < 1e-5, 1e-5, v))


@contract(copula._gmdistribution)
def density(cx):
    """the density is the weighted sum of the normal densities, the distribution its normalised running sum"""
    n = cx.size('n', 1, 8)
    x = cx.arr('x', n, -2, 2, kind=cx.choice('number type', 'fi'))
    mu = [cx.real('mu0', -1, 1), cx.real('mu1', -1, 2)]
    var = [cx.real('var0', 0.01, 0.3), cx.real('var1', 0.01, 0.3)]
    w = [cx.real('w0', 0.01, 0.99), cx.real('w1', 0.01, 0.99)]
    f, F = cx.call(copula._gmdistribution, x, mu, var, w)
    cx.eq('size', cx.len(f), n)
    cx.eq('sizes', cx.len(F), n)

    def want(k):
        t = lambda j: w[j] * cx.exp(-0.5 * (cx.at(x, k) - mu[j]) * (cx.at(x, k) - mu[j]) / var[j]) / cx.sqrt(2 * cx.pi * var[j])
        return t(0) + t(1)
    tot = cx.sum(n, want)
    for k in cx.forall(n):
        cx.eq('density', cx.at(f, k), want(k))
        cx.eq('running_sum', cx.at(F, k) * tot, cx.sum(k + 1, want), tol=1e-7)


@contract(copula._gmdistribution)
def distribution(cx):
    """the distribution does not decrease along the grid, lies above 0 and ends at 1"""
    n = cx.size('n', 1, 8)
    x = cx.arr('x', n, -2, 2, kind=cx.choice('number type', 'fi'))
    mu = [cx.real('mu0', -1, 1), cx.real('mu1', -1, 2)]
    var = [cx.real('var0', 0.01, 0.3), cx.real('var1', 0.01, 0.3)]
    w = [cx.real('w0', 0.01, 0.99), cx.real('w1', 0.01, 0.99)]
    f, F = cx.call(copula._gmdistribution, x, mu, var, w)
    for k in cx.forall(n):
        cx.ensure('positive', cx.at(F, k) > 0)
        cx.ensure('at_most_one', cx.at(F, k) <= 1 + 1e-12)
        cx.ensure('density', cx.at(f, k) > 0)
    for k in cx.forall(n - 1):
        cx.ensure('grows', cx.at(F, k) <= cx.at(F, k + 1))
    cx.eq('ends', cx.at(F, n - 1), 1)
