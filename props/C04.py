"""C04: options and method selection of the cloud-motion estimate."""
import numpy as np
from pyvc.ctx import contract
from solarspatialtools import cmv

DEFAULTS = {'jamaly': {'minvelocity': 0, 'maxvelocity': 70, 'var_s_lim': 0.05, 'ktlim': 0.4, 'mincorr': 0.8}, 'gagne': {'ktlim': 0.4}}


def _method(cx):
    return cx.choice('method', ['jamaly', 'gagne'])


def _given(cx, m):
    """any subset of the method's options, with any values"""
    return {k: cx.real(k, -5, 100) for k in DEFAULTS[m] if cx.choice('give.' + k, [False, True])}


@contract(cmv._validate_method_options)
def completed(cx):
    """given options are kept, missing ones get the documented defaults, nothing else appears"""
    m = _method(cx)
    given = _given(cx, m) if cx.choice('pass', [True, False]) else None
    opts, out = cx.call(cmv._validate_method_options, m, given)
    cx.ensure('names', set(opts) == set(DEFAULTS[m]))
    for k in DEFAULTS[m]:
        if given is not None and k in given:
            cx.eq('given', opts[k], given[k])
        else:
            cx.eq('default', opts[k], DEFAULTS[m][k])


@contract(cmv._validate_method_options)
def repeatable(cx):
    """the caller's options are left alone, so the same dictionary gives the same result again, for either method, and results do not share state"""
    m = _method(cx)
    given = _given(cx, m)
    before = dict(given)
    o1, r1 = cx.call(cmv._validate_method_options, m, given)
    cx.ensure('left_alone', set(given) == set(before))
    for k in before:
        cx.eq('value_left', given[k], before[k])
    if set(given) <= {'ktlim'}:
        o, _ = cx.call(cmv._validate_method_options, 'gagne' if m == 'jamaly' else 'jamaly', given)
        cx.ensure('other_method', True)
    o2, r2 = cx.call(cmv._validate_method_options, m, given)
    cx.ensure('same_names', set(o1) == set(o2))
    for k in o1:
        cx.eq('same', o1[k], o2[k])
    cx.ensure('own_results', r1 is not r2)
    r1['probe'] = 1
    cx.ensure('fresh_results', 'probe' not in r2)
    _, r3 = cx.call(cmv._validate_method_options, m, given)
    cx.ensure('still_fresh', 'probe' not in r3 and set(r3) == set(r2))


@contract(cmv._validate_method_options)
def unknown_option(cx):
    """unknown methods and options the method does not have are rejected"""
    m = _method(cx)
    bad = cx.choice('bad', ['nosuch', 'minVelocity', '', 'mincorr2'])
    more = {'ktlim': cx.real('kt')} if cx.boolean('more') else {}
    cx.raises('unknown_option', ValueError, cmv._validate_method_options, m, {**more, bad: cx.real('v')})
    cx.raises('foreign_option', ValueError, cmv._validate_method_options, 'gagne', {**more, 'mincorr': cx.real('v')})
    cx.raises('unknown_method', ValueError, cmv._validate_method_options, cx.choice('m2', ['', 'gagne2', 'jam']), None)


@contract(cmv.compute_cmv)
def unknown_choice(cx):
    """an estimate with an unknown method or delay back end is rejected"""
    n = cx.size('n', 4, 8)
    cols = cx.labels('c', 2)
    ts = cx.frame('ts', n, cols)
    pos = cx.frame('p', 2, ['E', 'N'])
    if cx.choice('which', ['method', 'backend']) == 'method':
        cx.raises('cmv_method', ValueError, cmv.compute_cmv, ts, pos, method=cx.choice('m2', ['', 'gagne2', 'jam']))
    else:
        cx.raises('cmv_backend', ValueError, cmv.compute_cmv, ts, pos, delay_backend=cx.choice('b2', ['', 'fft', 'xcor']))
