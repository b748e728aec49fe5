"""G07: cloud advection (CAM) and Marcos filters."""
import numpy as np
import pandas as pd
from pyvc.ctx import contract
from props import lemmas
from solarspatialtools import signalproc, spatial


def _axis(cx):
    n = cx.size('n', 2, 24)
    x0, dx = cx.real('x0', -500, 500), cx.real('dx', 1, 50)
    cx.requires(dx > 0)
    x = cx.call(np.array, x0) + cx.call(np.arange, n) * dx
    p = cx.arr('p', n, 0, 3)
    return n, x, p


def _speed(cx):
    v = cx.real('v', 0.1, 30, pos=True)
    return v if cx.choice('direction', [1, -1]) == 1 else -v


@contract(signalproc.plant1d_to_camfilter)
def advection(cx):
    """H(f) is the plant's mean of exp(-2 pi i f x / speed): every part sees the clouds x / speed after the reference"""
    n, x, p = _axis(cx)
    v = _speed(cx)
    tot = cx.sum(n, lambda l: cx.at(p, l))
    cx.requires(tot > (0 if cx.sym else 1e-3))
    cx.lemma('leftmost', cx.call(np.min, x) == cx.at(x, 0))
    H = cx.call(signalproc.plant1d_to_camfilter, p, x, v)
    cx.eq('count', cx.len(H), n)
    dt = cx.div(cx.at(x, 1) - cx.at(x, 0), cx.abs(v))
    f = cx.call(np.fft.fftfreq, n, dt)
    for k in cx.forall(n):
        cx.eq('frequency', cx.at(H.index, k), cx.at(f, k))
        ph = 2 * cx.pi * cx.div(cx.at(f, k), v)
        cx.eq('real part', cx.at(H, k).real, cx.div(cx.sum(n, lambda l: cx.at(p, l) * cx.cos(ph * cx.at(x, l))), tot), tol=1e-6)
        cx.eq('imaginary part', cx.at(H, k).imag, -cx.div(cx.sum(n, lambda l: cx.at(p, l) * cx.sin(ph * cx.at(x, l))), tot), tol=1e-6)


@contract(signalproc.plant1d_to_camfilter)
def unit_gain(cx):
    """the steady component passes unchanged"""
    n, x, p = _axis(cx)
    v = _speed(cx)
    cx.requires(cx.sum(n, lambda l: cx.at(p, l)) > (0 if cx.sym else 1e-3))
    H = cx.call(signalproc.plant1d_to_camfilter, p, x, v)
    cx.eq('frequency', cx.at(H.index, 0), 0)
    cx.eq('real part', cx.at(H, 0).real, 1)
    cx.eq('imaginary part', cx.at(H, 0).imag, 0)


@contract(signalproc.plant1d_to_camfilter)
def passive(cx):
    """no frequency is amplified"""
    n, x, p = _axis(cx)
    v = _speed(cx)
    tot = cx.sum(n, lambda l: cx.at(p, l))
    cx.requires(tot > (0 if cx.sym else 1e-3))
    cx.requires_all(n, lambda l: cx.at(p, l) >= 0)
    cx.lemma('leftmost', cx.call(np.min, x) == cx.at(x, 0))
    H = cx.call(signalproc.plant1d_to_camfilter, p, x, v)
    dt = cx.div(cx.at(x, 1) - cx.at(x, 0), cx.abs(v))
    f = cx.call(np.fft.fftfreq, n, dt)
    for k in cx.forall(n):
        ph = 2 * cx.pi * cx.div(cx.at(f, k), v)
        C, S = cx.sum(n, lambda l: cx.at(p, l) * cx.cos(ph * cx.at(x, l))), cx.sum(n, lambda l: cx.at(p, l) * cx.sin(ph * cx.at(x, l)))
        re, im = cx.at(H, k).real, cx.at(H, k).imag
        cx.lemma_eq('real part', re, cx.div(C, tot), tol=1e-6)
        cx.lemma_eq('imaginary part', im, -cx.div(S, tot), tol=1e-6)
        cx.use(lemmas.unit_mean, n, lambda l: cx.at(p, l), lambda l: ph * cx.at(x, l))
        cx.use(lemmas.unit_disc, C, S, tot)
        cx.ensure('gain', re * re + im * im <= (1 if cx.sym else 1 + 1e-6))


def _plant(cx, shape):
    m = cx.choice('sites', [1, 2, 3])
    c = [cx.real('c%d' % i, -40, 40) for i in range(m)]
    ref = cx.choice('reference', [0, 'real'])
    ref = cx.real('ref', -20, 20) if ref == 'real' else 0
    dx, w = cx.real('dx', 0.5, 5), cx.choice('width', [None, 'real'])
    cx.requires(dx > 0)
    w = cx.real('w', 0.5, 20) if w == 'real' else None
    cx.requires(w > 0 if w is not None else True)
    xm = cx.integer('xmax', 20, 200)
    cx.requires(xm >= 20)
    p, x = cx.call(signalproc.get_1d_plant, c, ref, w, shape, dx, xm)
    return m, c, ref, dx, w if w is not None else dx, xm, p, x


@contract(signalproc.get_1d_plant)
def squares(cx):
    """a square plant is one within half a width of a site, measured from the reference, and zero elsewhere"""
    m, c, ref, dx, w, xm, p, x = _plant(cx, 'square')
    n = cx.len(x)
    cx.eq('length', cx.len(p), n)
    for k in cx.forall(n):
        u = cx.at(x, k)
        cx.eq('axis', u, cx.floor(-xm / 2) + k * dx)
        cx.requires(cx.And(*[cx.Or(cx.sym, lambda i=i: cx.abs(cx.abs(u - (c[i] - ref)) - w / 2) > 1e-6) for i in range(m)]))
        cx.eq('plant', cx.at(p, k), cx.ite(cx.Or(*[cx.And(u >= c[i] - ref - w / 2, u < c[i] - ref + w / 2) for i in range(m)]), 1.0, 0.0))


@contract(signalproc.get_1d_plant)
def triangles(cx):
    """a triangular plant has generation only within half a width of a site, never less than none and rising with distance from the site's left edge"""
    m, c, ref, dx, w, xm, p, x = _plant(cx, cx.choice('name', ['triangle', 'Triangle']))
    n = cx.len(x)
    cx.eq('length', cx.len(p), n)
    for k in cx.forall(n):
        u = cx.at(x, k)
        cx.requires(cx.And(*[cx.Or(cx.sym, lambda i=i: cx.abs(cx.abs(u - (c[i] - ref)) - w / 2) > 1e-6) for i in range(m)]))
        own = [cx.And(u >= c[i] - ref - w / 2, u < c[i] - ref + w / 2) for i in range(m)]
        want = 0.0
        for i in range(m):
            want = cx.ite(own[i], u - (c[i] - ref) + w / 2, want)
        cx.eq('plant', cx.at(p, k), want)


@contract(signalproc.get_1d_plant)
def gaussians(cx):
    """a gaussian plant is the sum of bells with that full width at half maximum"""
    m, c, ref, dx, w, xm, p, x = _plant(cx, 'gaussian')
    n = cx.len(x)
    cx.eq('length', cx.len(p), n)
    s = w / 2.355
    for k in cx.forall(n):
        tot = 0
        for i in range(m):
            d = cx.at(x, k) - (c[i] - ref)
            tot = tot + cx.exp(-d * d / (2 * s * s))
        cx.eq('plant', cx.at(p, k), tot)


@contract(signalproc.get_1d_plant)
def shapes(cx):
    """names of shapes are case-insensitive, unknown ones are rejected; the defaults are unit squares"""
    c = [cx.real('c%d' % i, -40, 40) for i in range(2)]
    cx.raises('shape', ValueError, signalproc.get_1d_plant, c, 0, 2, cx.choice('shape', ['hexagon', '']), 1, 100)
    xm = cx.integer('xmax', 20, 200)
    cx.requires(xm >= 20)
    a, x = cx.call(signalproc.get_1d_plant, c, xmax=xm)
    b, y = cx.call(signalproc.get_1d_plant, c, 0, 1, 'SQUARE', 1, xm)
    for k in cx.forall(cx.len(x)):
        cx.eq('axis', cx.at(x, k), cx.at(y, k))
        cx.eq('default', cx.at(a, k), cx.at(b, k))


def _geo(la, lo, lab):
    return pd.DataFrame({'lat': la, 'lon': lo}, index=lab)


def _flat(E, N, lab):
    return pd.DataFrame({'E': E, 'N': N}, index=lab)


@contract(signalproc.get_camfilter)
def whole_plant(cx):
    """the filter of a plant: sites projected on the cloud direction relative to the reference; a length of the direction does not matter"""
    m = cx.size('m', 1, 5)
    E, N, lab = cx.arr('E', m, -100, 100), cx.arr('N', m, -100, 100), cx.labels('s', m)
    pos = cx.call(_flat, E, N, lab)
    v = cx.real('v', 3, 30, pos=True) * cx.choice('way', [1, -1])
    p, q = cx.real('p', -2, 2), cx.real('q', -2, 2)
    cx.requires(p * p + q * q > (0 if cx.sym else 1e-2))
    i = cx.integer('ref', 0, m - 1)
    cx.requires(cx.And(i >= 0, i < m))
    opts = cx.choice('options', [{'width': 20, 'xmax': 600}, {'width': 35.5, 'xmax': 600, 'shape': 'triangle'}, {'xmax': 500}])
    dx = cx.choice('dx', [5, 7])
    cx.modular(signalproc.get_1d_plant, signalproc.plant1d_to_camfilter)
    ref = pos.iloc[i]
    r = cx.sqrt(p * p + q * q)
    d = (E - cx.at(E, i)) * (p / r) + (N - cx.at(N, i)) * (q / r)
    if not cx.sym:
        w = opts.get('width', dx) / 2
        x = np.arange(-opts['xmax'] // 2, opts['xmax'] // 2, dx)
        cx.requires(np.min(np.abs(np.abs(x[:, None] - d[None, :]) - w)) > 1e-6)
    H = cx.call(signalproc.get_camfilter, pos, v, (p, q), ref, dx, **opts)
    pl, x = cx.call(signalproc.get_1d_plant, d, dx=dx, **opts)
    if not cx.sym:
        cx.requires(np.sum(pl) > 1e-6)
    G = cx.call(signalproc.plant1d_to_camfilter, pl, x, v)
    cx.eq('count', cx.len(H), cx.len(G))
    for k in cx.forall(cx.len(G)):
        cx.eq('frequency', cx.at(H.index, k), cx.at(G.index, k))
        cx.eq('real part', cx.at(H, k).real, cx.at(G, k).real, tol=1e-6)
        cx.eq('imaginary part', cx.at(H, k).imag, cx.at(G, k).imag, tol=1e-6)


@contract(signalproc.get_camfilter)
def geographic(cx):
    """sites given by latitude and longitude are converted to UTM first"""
    m = cx.size('m', 2, 4)
    lat, lon = cx.real('lat', -60, 60) + cx.arr('dlat', m, -1e-3, 1e-3), cx.real('lon', -179, 179) + cx.arr('dlon', m, -1e-3, 1e-3)
    lab = cx.labels('s', m)
    pos = cx.call(_geo, lat, lon, lab)
    z = cx.call(spatial.latlon2utm, lat, lon)
    cx.requires(cx.sym or len(set(z[:, 2])) == 1)
    utm = cx.call(_flat, z[:, 0], z[:, 1], lab)
    cx.modular(signalproc.get_1d_plant, signalproc.plant1d_to_camfilter)
    H = cx.call(signalproc.get_camfilter, pos, 10.0, (1, 2), pos.iloc[0], 5, width=20, xmax=1000)
    G = cx.call(signalproc.get_camfilter, utm, 10.0, (1, 2), utm.iloc[0], 5, width=20, xmax=1000)
    for k in cx.forall(cx.len(G)):
        cx.eq('real part', cx.at(H, k).real, cx.at(G, k).real, tol=1e-6)
        cx.eq('imaginary part', cx.at(H, k).imag, cx.at(G, k).imag, tol=1e-6)


@contract(signalproc.get_marcosfilter)
def marcos(cx):
    """first-order low pass H(f) = 1 / (1 + i f / fc) with fc = 0.02 / sqrt(plant size)"""
    s = cx.real('s', 0.01, 100)
    cx.requires(s > 0)
    n = cx.size('n', 1, 8)
    f = cx.arr('f', n, -1, 1)
    H = cx.call(signalproc.get_marcosfilter, s, f)
    cx.eq('count', cx.len(H), n)
    r = cx.sqrt(s)
    for k in cx.forall(n):
        g = cx.at(f, k) * r * 50
        cx.eq('frequency', cx.at(H.index, k), cx.at(f, k))
        cx.eq('real part', cx.at(H, k).real, 1 / (1 + g * g), tol=1e-5)
        cx.eq('imaginary part', cx.at(H, k).imag, -g / (1 + g * g), tol=1e-5)


def _series(v, f):
    return pd.Series(v, index=f)


@contract(signalproc.cleanfreq)
def cleaned(cx):
    """only the label of the middle frequency is blanked; the signal is returned with its values"""
    n = cx.size('n', 1, 9)
    f, v = cx.call(np.fft.fftfreq, n, 1.0), cx.arr('v', n)
    r = cx.call(signalproc.cleanfreq, cx.call(_series, v, f))
    cx.eq('count', cx.len(r), n)
    for k in cx.forall(n):
        cx.eq('value', cx.at(r, k), cx.at(v, k))
        i = cx.at(r.index, k)
        mid = k == n // 2
        if not cx.sym and mid and i is None:
            continue
        cx.ensure('blank', cx.implies(mid, lambda: cx.isnan(i)))
        cx.ensure('frequency', cx.Or(mid, lambda: i == cx.at(f, k)))


CONTRACTS += [l.contract() for l in (lemmas.unit_mean, lemmas.unit_disc)]
