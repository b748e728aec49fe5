"""Facts about numbers that contracts of several properties use; each is proved as a contract of the property that uses it."""
from pyvc.ctx import Lemma


def _slack(cx, x=1.0):
    return 0 if cx.sym else 1e-9 * (1 + abs(x))


def _quot(cx, x, d):
    q = cx.div(x, d)
    return [('at most one', q <= 1 + _slack(cx)), ('at least minus one', q >= -1 - _slack(cx))]


quotient = Lemma('quotient', lambda cx: (cx.real('x', -3, 3), cx.real('d', 0.1, 3)),
                 lambda cx, x, d: [('positive', d > 0), ('above', x <= d + _slack(cx, d)), ('below', -d <= x + _slack(cx, d))],
                 _quot, doc='-d <= x <= d and d > 0 put x / d between -1 and 1')


def _amgm_pre(cx, n, p, q, P, Q, X):
    e = _slack(cx)
    return [('p', p > 0), ('q', q > 0), ('P', P <= n * (q * q) + e), ('Q', Q <= n * (p * p) + e),
            ('plus', p * p * P + 2 * p * q * X + q * q * Q >= -e), ('minus', p * p * P - 2 * p * q * X + q * q * Q >= -e)]


def _amgm_post(cx, n, p, q, P, Q, X):
    e = 0 if cx.sym else 1e-6
    return [('above', X <= n * p * q + e), ('below', -X <= n * p * q + e)]


def _amgm_proof(cx, n, p, q, P, Q, X):
    if not cx.sym:
        return
    cx.lemma('first part', (p * p) * (n * (q * q) - P) >= 0)
    cx.lemma('second part', (q * q) * (n * (p * p) - Q) >= 0)
    cx.lemma('product', p * q > 0)
    cx.lemma('scaled above', (p * q) * (n * p * q - X) >= 0)
    cx.lemma('scaled below', (p * q) * (n * p * q + X) >= 0)


amgm = Lemma('arithmetic_geometric_mean', lambda cx: (cx.real('n', 1, 9), cx.real('p', 0.1, 3), cx.real('q', 0.1, 3), cx.real('P', 0, 9), cx.real('Q', 0, 9), cx.real('X', -3, 3)),
             _amgm_pre, _amgm_post, _amgm_proof, doc='(p u + q v)^2 >= 0 summed over bounds the sum of products by n p q')


def _lag_args(cx):
    n = cx.size('n', 1, 9)
    u, v = cx.arr('u', n), cx.arr('v', n)
    return n, (lambda i: cx.at(u, i)), (lambda i: cx.at(v, i)), cx.integer('s', -9, 9)


def _win(cx, n, s, g):
    return cx.sum(n, lambda l: cx.ite(cx.And(l + s >= 0, l + s < n), lambda: g(l), 0.0))


def _mean_sq(cx, n, u):
    return cx.sum(n, lambda i: u(i) * u(i)) / n


def _lag_pre(cx, n, u, v, s):
    lo = 0 if cx.sym else 1e-3
    return [('first not zero', _mean_sq(cx, n, u) > lo), ('second not zero', _mean_sq(cx, n, v) > lo)]


def _lag_post(cx, n, u, v, s):
    X = _win(cx, n, s, lambda l: u(l + s) * v(l))
    d = n * cx.sqrt(_mean_sq(cx, n, u)) * cx.sqrt(_mean_sq(cx, n, v))
    return [('above', X <= d + _slack(cx, d)), ('below', -d <= X + _slack(cx, d))]


def _lag_proof(cx, n, u, v, s):
    p, q = cx.sqrt(_mean_sq(cx, n, v)), cx.sqrt(_mean_sq(cx, n, u))
    P, Q = _win(cx, n, s, lambda l: u(l + s) * u(l + s)), _win(cx, n, s, lambda l: v(l) * v(l))
    cx.shifted_sum(n, n, s, lambda i: u(i) * u(i))
    cx.lemma('part of the first', cx.sum(n, lambda i: cx.ite(cx.And(i - s >= 0, i - s < n), lambda: u(i) * u(i), 0.0)) <= n * _mean_sq(cx, n, u) + _slack(cx))
    cx.lemma('part of the second', Q <= n * _mean_sq(cx, n, v) + _slack(cx))
    for sg in (1, -1):
        cx.lemma('square', _win(cx, n, s, lambda l: (p * u(l + s) + sg * q * v(l)) * (p * u(l + s) + sg * q * v(l))) >= -_slack(cx))
    cx.use(amgm, n * 1.0, p, q, P, Q, _win(cx, n, s, lambda l: u(l + s) * v(l)))


cauchy_lag = Lemma('cauchy_schwarz_at_a_lag', _lag_args, _lag_pre, _lag_post, _lag_proof,
                   doc='the sum of products of two signals at any lag is at most n times the product of their root mean squares')


def _um_args(cx):
    n = cx.size('n', 1, 9)
    p, t = cx.arr('p', n, 0, 2), cx.arr('t', n, -7, 7)
    return n, (lambda l: cx.at(p, l)), (lambda l: cx.at(t, l))


def _um(cx, n, p, t):
    return cx.sum(n, lambda l: p(l) * cx.cos(t(l))), cx.sum(n, lambda l: p(l) * cx.sin(t(l))), cx.sum(n, p)


def _um_pre(cx, n, p, t):
    return [('weights not negative', cx.all(n, lambda l: p(l) >= 0))]


def _um_post(cx, n, p, t):
    C, S, P = _um(cx, n, p, t)
    return [('length', C * C + S * S <= P * P + _slack(cx, P * P))]


def _um_proof(cx, n, p, t):
    if not cx.sym:
        return
    C, S, P = _um(cx, n, p, t)
    R = cx.sqrt(C * C + S * S)
    cx.sum_nonneg('every direction', n, lambda l: p(l) * (R - C * cx.cos(t(l)) - S * cx.sin(t(l))))
    cx.lemma('root', R <= P)


unit_mean = Lemma('weighted_unit_vectors', _um_args, _um_pre, _um_post, _um_proof, doc='a weighted sum of unit vectors is no longer than the sum of the weights')


def _inside_post(cx, c, s, p):
    x, y = cx.div(c, p), cx.div(s, p)
    return [('unit disc', x * x + y * y <= 1 + _slack(cx))]


unit_disc = Lemma('unit_disc', lambda cx: (cx.real('c', -3, 3), cx.real('s', -3, 3), cx.real('p', 0.1, 5)),
                  lambda cx, c, s, p: [('positive', p > 0), ('length', c * c + s * s <= p * p + _slack(cx, p * p))],
                  _inside_post, doc='a vector no longer than p > 0, divided by p, lies in the unit disc')
