"""K02: sampling from the tabulated distribution, and the Gaussian copula."""
import numpy as np
from scipy import stats
from pyvc.ctx import contract
from solarspatialtools.synthirrad import copula


def _grid(cx, last_one, name='n'):
    n = cx.size(name, 2, 8)
    x = cx.arr('x', n, -1.9, 1.9)
    if cx.sym:
        F = cx.arr('F', n, 0.001, 0.999)
        cx.requires_all(n - 1, lambda k: cx.And(cx.at(F, k) < cx.at(F, k + 1), cx.at(x, k) < cx.at(x, k + 1)))
    else:
        x = np.sort(x)
        cx.requires((np.diff(x) > 1e-6).all())
        r = np.random.default_rng(cx.integer('seed', 0, 10 ** 6))
        F = np.cumsum(r.uniform(0.05, 1, n))
        F = F / (F[-1] * (1 if last_one else 1.1))
    return n, x, F


@contract(copula._inverse_sample)
def inverse(cx):
    """a probability is mapped back through the table: exactly at its entries, linearly between them, towards -2 and 2 outside"""
    n, x, F = _grid(cx, False)
    m = cx.size('m', 1, 6)
    r = cx.arr('r', m, 0, 1)
    s = cx.call(copula._inverse_sample, x, F, r)
    cx.eq('size', cx.len(s), m)
    for j in cx.forall(m):
        v, p = cx.at(s, j), cx.at(r, j)
        for k in cx.forall(n - 1):
            a, b, u, w = cx.at(F, k), cx.at(F, k + 1), cx.at(x, k), cx.at(x, k + 1)
            inside = cx.And(a <= p, p <= b)
            cx.ensure('linear', cx.implies(inside, _close(cx, (v - u) * (b - a), (p - a) * (w - u))))
        a, u = cx.at(F, 0), cx.at(x, 0)
        cx.ensure('low', cx.implies(p <= a, _close(cx, (v + 2) * a, p * (u + 2))))
        b, w = cx.at(F, n - 1), cx.at(x, n - 1)
        cx.ensure('high', cx.implies(p >= b, _close(cx, (v - w) * (1 - b), (p - b) * (2 - w))))


def _close(cx, a, b):
    return a == b if cx.sym else abs(a - b) <= 1e-9


@contract(copula._inverse_sample, mode='bounded')
def table(cx):
    """any table (with repeated probabilities, ending in 1): entries are met at the first of each run, results increase with probability, a number gives a number and a matrix a matrix"""
    n, x, F = _grid(cx, True)
    r = np.random.default_rng(cx.integer('seed2', 0, 10 ** 6))
    if cx.choice('flat', [False, True]):
        rep = r.integers(1, 3, n)
        F, x = np.repeat(F, rep), np.sort(np.concatenate([x, r.uniform(-1.9, 1.9, int(rep.sum()) - n)]))
    first = np.concatenate([[True], np.diff(F) > 0])
    q = copula._inverse_sample(x, F, F[first][:-1])
    cx.eq_arr('entries', q, x[first][:-1])
    p = np.sort(r.uniform(0, 1, (3, 4)), axis=None).reshape(3, 4)
    s = copula._inverse_sample(x, F, p)
    cx.ensure('shape', s.shape == (3, 4))
    cx.ensure('monotone', bool((np.diff(s.ravel()) >= -1e-12).all()))
    cx.ensure('range', bool((s >= -2).all() and (s <= 2).all()))
    one = copula._inverse_sample(x, F, float(p[1, 2]))
    cx.ensure('number', isinstance(one, float))
    cx.eq('same', one, float(s[1, 2]))


@contract(copula._copularnd_gaussian)
def uniform(cx):
    """each sample is a vector of probabilities, one per row of the matrix, and a seed fixes them"""
    n, d = cx.size('n', 1, 3), cx.size('d', 1, 5)
    cov = _cov(cx, d)
    seed = cx.integer('seed', 0, 10 ** 6)
    u = cx.call(copula._copularnd_gaussian, n, cov, seed)
    v = cx.call(copula._copularnd_gaussian, n, cov, seed)
    cx.eq('samples', cx.shape(u)[0], n)
    cx.eq('variables', cx.shape(u)[1], d)
    for i in cx.forall(n):
        for j in cx.forall(d):
            cx.ensure('probability', cx.And(0 <= cx.at(u, i, j), cx.at(u, i, j) <= 1))
    cx.eq_arr('repeatable', u, v)


def _cov(cx, d):
    if cx.sym:
        return cx.arr('cov', (d, d))
    r = np.random.default_rng(cx.integer('cseed', 0, 10 ** 6))
    x = r.uniform(0, 1, (d, 2))
    return np.exp(-r.uniform(0.2, 3) * np.hypot(*(x[:, None] - x[None]).transpose(2, 0, 1)))


@contract(copula._copularnd_gaussian, mode='bounded', samples=12)
def correlated(cx):
    """the normal scores of the samples have the requested correlations and standard normal margins"""
    d = cx.size('d', 2, 4)
    cov = _cov(cx, d)
    u = copula._copularnd_gaussian(4000, cov, cx.integer('seed', 0, 10 ** 6))
    z = stats.norm.ppf(u)
    cx.ensure('correlation', bool(np.abs(np.corrcoef(z.T) - cov).max() < 0.12))
    cx.ensure('margin', bool(np.abs(z.mean(0)).max() < 0.12 and np.abs(z.std(0) - 1).max() < 0.12))


def _decay(p, D):
    return np.exp(-p * D)


@contract(copula._space_time_copula, copula._copularnd_gaussian)
def space_time(cx):
    """the samples are drawn with correlation exp(-decay * separation) and mapped through the table one by one"""
    n, d = cx.size('n', 1, 3), cx.size('d', 1, 5)
    if cx.sym:
        D = cx.arr('D', (d, d), 0, 10)
        x, F = cx.arr('x', cx.size('g', 2, 5)), None
        F = cx.arr('F', cx.len(x))
        cx.modular(copula._inverse_sample)
    else:
        r = np.random.default_rng(cx.integer('dseed', 0, 10 ** 6))
        q = r.uniform(0, 100, (d, 2))
        D = np.hypot(*(q[:, None] - q[None]).transpose(2, 0, 1))
        x, F = _grid(cx, True, 'g')[1:]
    p, seed = cx.real('p', 0.00001, 0.1), cx.integer('seed', 0, 10 ** 6)
    out = cx.call(copula._space_time_copula, n, D, x, F, p, seed)
    u = cx.call(copula._copularnd_gaussian, n, cx.call(_decay, p, D), seed)
    cx.eq('samples', cx.shape(out)[0], n)
    cx.eq('variables', cx.shape(out)[1], d)
    cx.eq_arr('mapped', out, cx.call(copula._inverse_sample, x, F, u))
