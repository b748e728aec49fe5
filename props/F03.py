"""F03: predicted positions from two cloud motions."""
import numpy as np
import pandas as pd
from pyvc.ctx import contract
from solarspatialtools import cmv, field, signalproc, spatial


def _reorder(df, pairs):
    return df[[b for a, b in pairs]]


def _col(d, c):
    return d[c].values


def _setup(cx, nmax=5):
    """plan of n sites, two records whose columns list the sites in another order, a reference site and two cloud motions"""
    n, m = cx.size('n', 2, nmax), cx.size('m', 30, 45)
    lab = cx.labels('s', n)
    ix = cx.index(lab)
    extra = cx.choice('extra', [False, True])
    plan = cx.frame('plan', n, ['E', 'N', 'z'] if extra else ['E', 'N'], index=ix, lo=-500, hi=500)
    p = cx.perm('order', n)
    pairs = cx.pairs(n, lambda k: (k, cx.at(lab, p(k))))
    dfs = [cx.call(_reorder, cx.frame('d%d' % i, m, lab, index=cx.times('t%d' % i, m, dt=1.0), lo=0, hi=1), pairs) for i in (0, 1)]
    r = cx.integer('r', 0, 10)
    cx.requires(r < n)
    cld = [(cx.real('u%d' % i, -20, 20), cx.real('v%d' % i, -20, 20)) for i in (0, 1)]
    for u, v in cld:
        cx.requires(u * u + v * v > 1)
    return n, lab, plan, dfs, r, cld


@contract(field.compute_predicted_position)
def table(cx):
    """each site's row holds its own delay, coherence, delay distance, plan distance to the reference and their difference"""
    n, lab, plan, dfs, r, cld = _setup(cx)
    cx.requires(abs(cld[0][0] * cld[1][1] - cld[0][1] * cld[1][0]) > 1)
    cx.modular(signalproc.compute_delays_tf)
    ref = cx.at(lab, r)
    pos, full = cx.call(field.compute_predicted_position, dfs, plan, ref, cld, 'all')
    E, N = cx.call(_col, plan, 'E'), cx.call(_col, plan, 'N')
    for i in (0, 1):
        u, v = cld[i]
        s = cx.sqrt(u * u + v * v)
        t = full[i]
        cx.eq('rows', cx.len(t), n)
        got = {c: cx.call(_col, t, c) for c in ('delay', 'coh', 'delay_dist', 'plan_dist', 'error_dist')}
        for k in cx.forall(n):
            d, x = cx.call(_own, dfs[i], ref, cx.at(lab, k))
            cx.eq('delay', cx.at(got['delay'], k), d)
            cx.eq('coherence', cx.at(got['coh'], k), x)
            cx.eq('delay_dist', cx.at(got['delay_dist'], k), -d * s)
            q = ((cx.at(E, r) - cx.at(E, k)) * u + (cx.at(N, r) - cx.at(N, k)) * v) / s
            cx.eq('plan_dist', cx.at(got['plan_dist'], k), q)
            cx.eq('error_dist', cx.at(got['error_dist'], k), -d * s - q)


def _own(df, ref, k):
    d, e = signalproc.compute_delays_tf(df[ref], df[k])
    return d[0], e['mean_coh'][0]


def _mean(t):
    return np.mean(t['error_dist'])


def _meet(e0, e1, a0, b0, a1, b1):
    return spatial.compute_intersection(np.array([[e0 * a0, e0 * b0]]), np.array([[e1 * a1, e1 * b1]]))


@contract(field.compute_predicted_position)
def intersection(cx):
    """the predicted position is the reference's plan position moved to the intersection point (S05) of the two cloud motion directions, each as long as the mean error of the chosen sites (proved where no delay is missing)"""
    n, lab, plan, dfs, r, cld = _setup(cx)
    (u0, v0), (u1, v1) = cld
    cx.requires(abs(u0 * v1 - v0 * u1) > 1)
    cx.modular(signalproc.compute_delays_tf, spatial.compute_intersection, finite=True)
    ref = cx.at(lab, r)
    pos, full = cx.call(field.compute_predicted_position, dfs, plan, ref, cld, 'all')
    E, N = cx.call(_col, plan, 'E'), cx.call(_col, plan, 'N')
    cx.eq('size', cx.len(pos), 2)
    e0, e1 = cx.call(_mean, full[0]), cx.call(_mean, full[1])
    cx.requires(cx.And(cx.fin(e0), cx.fin(e1)))
    s0, s1 = cx.sqrt(u0 * u0 + v0 * v0), cx.sqrt(u1 * u1 + v1 * v1)
    p = cx.call(_meet, e0, e1, u0 / s0, v0 / s0, u1 / s1, v1 / s1)
    cx.eq('east', cx.at(pos, 0), cx.at(E, r) + cx.at(p, 0, 0), scale=1000.0)
    cx.eq('north', cx.at(pos, 1), cx.at(N, r) + cx.at(p, 0, 1), scale=1000.0)


def _advected(cx):
    """records of a field advected over sites (one of which may be labelled with another place than its own)"""
    n = cx.size('n', 9, 12)
    r = np.random.default_rng(cx.integer('seed', 0, 10 ** 6))
    names = ['s%d' % k for k in r.permutation(n)]
    true = r.uniform(-60, 60, (n, 2))
    plan = pd.DataFrame(true, index=names, columns=['E', 'N'])
    ref = names[int(r.integers(0, n))]
    if cx.choice('moved', [False, True]):
        plan.loc[ref] = plan.loc[ref] + r.uniform(-80, 80, 2)
    dt, m = 1.0, 1800
    a0 = r.uniform(0, 2 * np.pi)
    cld = [(8 * np.cos(a), 8 * np.sin(a)) for a in (a0, a0 + r.uniform(0.9, 2.2))]
    dfs = []
    for i, c in enumerate(cld):
        u = np.array(c) / 8.0
        # a periodic sum of slow waves: exact shifts
        k = np.arange(1, 60)
        ph, am = r.uniform(0, 2 * np.pi, 60 - 1), r.uniform(0.5, 1, 60 - 1)
        t = np.arange(m) * dt
        d = true @ u / 8.0
        v = np.array([(am[:, None] * np.cos(2 * np.pi * k[:, None] * 0.0009 * (t - x)[None] + ph[:, None])).sum(0) for x in d]).T
        o = r.permutation(n)
        dfs.append(pd.DataFrame(v[:, o], index=pd.date_range('2020-01-01 10:00', periods=m, freq='1s'), columns=[names[q] for q in o]))
    return n, names, true, plan, ref, cld, dfs


@contract(field.compute_predicted_position, mode='bounded', samples=30)
def recovers(cx):
    """the place a site truly has is predicted, whatever place the plan claims for it"""
    n, names, true, plan, ref, cld, dfs = _advected(cx)
    mode = cx.choice('mode', ['all', 'coherence', 'global_coherence', 'distance', 'preavg'])
    dm = cx.choice('delay_method', ['multi', 'fit'])
    pos, full = cx.call(field.compute_predicted_position, dfs, plan, ref, cld, mode=mode, delay_method=dm)
    cx.ensure('close', bool(np.abs(pos - true[names.index(ref)]).max() < 6.0))


@contract(field.compute_predicted_position, mode='bounded', samples=40)
def modes(cx):
    """the sites compared are those the mode asks for, and the position follows from their mean errors"""
    n, names, true, plan, ref, cld, dfs = _advected(cx)
    r = np.random.default_rng(cx.integer('noise', 0, 10 ** 6))
    dfs = [d + r.normal(size=d.shape) * r.uniform(0, 4, d.shape[1]) for d in dfs]
    if cx.choice('dead', [False, True]):      # a sensor with a missing sample has no delay and counts for nothing
        dfs[int(r.integers(0, 2))][[k for k in names if k != ref][int(r.integers(0, n - 1))]] = np.nan
    k = cx.integer('k', 3, 6)
    a, every = cx.call(field.compute_predicted_position, dfs, plan, ref, cld, mode='all')
    coh = [e['coh'] for e in every]
    far = np.hypot(plan['E'] - plan['E'][ref], plan['N'] - plan['N'][ref])
    best = lambda c: set(c.sort_values().index[-k:-1])
    u = [np.array(c) / np.hypot(*c) for c in cld]
    for mode in ('all', 'coherence', 'global_coherence', 'distance', 'preavg'):
        pos, full = cx.call(field.compute_predicted_position, dfs, plan, ref, cld, mode=mode, ndownsel=k)
        want = {'all': [set(names)] * 2, 'distance': [set(far.sort_values().index[:k])] * 2, 'global_coherence': [best(coh[0] ** 2 + coh[1] ** 2)] * 2}.get(mode, [best(c) for c in coh])
        e = []
        for i in (0, 1):
            cx.ensure('chosen', set(full[i].index) == want[i])
            cx.eq_arr('rows', full[i].sort_index().values, every[i].loc[sorted(want[i])].values)
            e.append(full[i]['error_dist'].mean())
        want = np.linalg.solve(np.array(u), np.array(e)) + plan.loc[ref].values
        cx.eq_arr('position', pos, want, tol=1e-6, scale=1000.0)
    cx.raises('refused', ValueError, field.compute_predicted_position, dfs, plan, ref, cld, mode='other')


def _motion(df, plan):
    v, a, _ = cmv.compute_cmv(df, plan, method='jamaly')
    return spatial.pol2rect(v, a)


@contract(field.compute_predicted_position, samples=12)
def estimated(cx):
    """without given cloud motions those of the records are used, each record's own, over the planned positions"""
    if cx.sym:
        n, lab, plan, dfs, r, cld = _setup(cx)
        ref = cx.at(lab, r)
    else:
        n, names, true, plan, ref, cld, dfs = _advected(cx)
        dfs = [(d - d.values.min()) / (d.values.max() - d.values.min()) for d in dfs]
    cx.modular(cmv.compute_cmv, signalproc.compute_delays_tf, spatial.pol2rect)
    vec = [cx.call(_motion, d, plan) for d in dfs]
    for u, v in vec:
        cx.requires(u * u + v * v > 0.01)
    cx.requires(abs(vec[0][0] * vec[1][1] - vec[0][1] * vec[1][0]) > 0.01)
    pos, full = cx.call(field.compute_predicted_position, dfs, plan, ref, mode='all')
    want, rows = cx.call(field.compute_predicted_position, dfs, plan, ref, vec, mode='all')
    for c in (0, 1):
        cx.eq('position', cx.at(pos, c), cx.at(want, c), tol=1e-6, scale=1000.0)
    for i in (0, 1):
        for c in ('delay', 'coh', 'delay_dist', 'plan_dist', 'error_dist'):
            a, b = cx.call(_col, full[i], c), cx.call(_col, rows[i], c)
            for k in cx.forall(cx.len(b)):
                cx.eq('rows', cx.at(a, k), cx.at(b, k), tol=1e-6, scale=1000.0)


@contract(field.compute_delays, samples=30)
def wrapper(cx):
    """the delays of the field module are those of the signal module, with half-overlapping Hamming windows, and the mean coherence"""
    n, lab, plan, dfs, r, cld = _setup(cx)
    cx.modular(signalproc.compute_delays_tf)
    ref = cx.at(lab, r)
    d, c = cx.call(field.compute_delays, dfs[0], ref)
    for k in cx.forall(n):
        w, x = cx.call(_own, dfs[0], ref, cx.at(cx.call(_names, dfs[0]), k))
        cx.eq('delay', cx.at(d, k), w)
        cx.eq('coherence', cx.at(c, k), x)


def _names(df):
    return list(df.columns)
