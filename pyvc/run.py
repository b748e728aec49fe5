"""Runner: proves every contract of a property, runs the concrete stand-ins / replays, writes the evidence."""
import argparse
import ast
import hashlib
import importlib.util
import itertools
import json
import math
import multiprocessing as mp
import os
import random
import sys
import time
import traceback
import warnings

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault('MPLBACKEND', 'Agg')
for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(_v, '1')
REPO = os.environ.get('PYVC_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'src'))
sys.dont_write_bytecode = True

import numpy as np  # noqa
import pandas as pd  # noqa
warnings.simplefilter('ignore')
from . import ctx as C  # noqa


def load_props(pid):
    path = os.path.join(ROOT, 'props', pid + '.py')
    spec = importlib.util.spec_from_file_location('props_' + pid, path)
    m = importlib.util.module_from_spec(spec)
    sys.path.insert(0, os.path.join(ROOT, 'props'))
    spec.loader.exec_module(m)
    return m


def mine(functions):
    """numeric constants of the source files under contract (candidate boundary values)"""
    files = set()
    for f in functions:
        try:
            files.add(f.__code__.co_filename)
        except AttributeError:
            pass
    out = set()
    for fn in files:
        try:
            for n in ast.walk(ast.parse(open(fn).read())):
                if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                    if abs(n.value) < 1e6:
                        out.add(n.value)
                        out.add(-n.value)
        except (OSError, SyntaxError):
            pass
    return sorted(out)


def sha(functions):
    out = {}
    import inspect
    for f in functions:
        try:
            out['%s.%s' % (f.__module__, f.__qualname__)] = hashlib.sha256(inspect.getsource(f).encode()).hexdigest()[:12]
        except Exception:
            pass
    return out


# ------------------------------------------------------------------ symbolic side
def sym_task(c, opts):
    from . import interp as I
    t_end = time.time() + opts['sym_s']
    out = sym_run(c, opts, t_end)
    if any('store into a concrete array' in u for u in out['unsupported']) and time.time() < t_end:
        # again with arrays allocated inside the code under analysis symbolic from the start
        I.ALLOC[0] = True
        again = sym_run(c, opts, t_end)
        if len(again['unsupported']) <= len(out['unsupported']):
            out = again
    return out


def sym_run(c, opts, t_end):
    from . import sym as S, terms as tm, interp as I, smt, models  # noqa
    from . import models_lib  # noqa
    sys.setrecursionlimit(20000)
    smt.DEADLINE[0] = t_end
    scripts = [[]]
    out = {'contract': c.name, 'obls': [], 'paths': 0, 'unsupported': [], 'vacuous': 0, 'complete': True, 'refuted': []}
    paths = []
    while scripts:
        if time.time() > t_end:
            out['unsupported'].append('time limit (%d s) reached with paths left' % opts['sym_s'])
            out['complete'] = False
            break
        if out['paths'] >= opts.get('max_paths', 160):
            out['unsupported'].append('path limit')
            out['complete'] = False
            break
        script = scripts.pop()
        S.ST[0] = S.State(script)
        I.SUMMARIES.clear()
        cx = C.SymCtx(c, script, opts)
        cx.frame_mode = opts.get('frame', False)
        I.DEPTH[0] = 0
        note = None
        try:
            c.fn(cx)
        except S.PathEnd:
            note = 'infeasible'
        except S.Unsupported as e:
            note = 'unsupported'
            out['unsupported'].append(str(e)[:300] + _where())
        except C.Skip as e:
            note = 'skip'
            out['unsupported'].append('bounded only: %s' % e)
        except S.Raised as r:
            note = 'raised'
            try:
                if opts.get('frame'):
                    pass
                else:
                    cx._obl('no-exception(%s)' % type(r.exc).__name__, tm.FALSE)
            except S.Unsupported:
                pass
            out.setdefault('raised', []).append('%r' % (r.exc,) + ' line %s' % getattr(r, 'line', '?'))
        except RecursionError:
            note = 'unsupported'
            out['unsupported'].append('recursion limit')
        except Exception as e:
            if os.environ.get('PYVC_DEBUG'):
                traceback.print_exc()
            note = 'unsupported'
            out['unsupported'].append('engine: %r' % (e,) + _where())
        st = S.ST[0]
        out['paths'] += 1
        # schedule the untaken sides of the new decisions
        full = st.script[:st.pos] if st.pos < len(st.script) else st.script
        for j in range(len(script), len(full)):
            scripts.append(full[:j] + [not full[j]])
        if note == 'infeasible':
            continue
        # vacuity: the assumptions of this path must not be provably contradictory
        if note is None and (any(o['goal'] is not tm.TRUE for o in cx.obls) or opts.get('frame')):
            v = smt.check(S.st().hyps(), tm.FALSE, 1500, uf=True)[0]
            if v == 'unsat':
                out['vacuous'] += 1
                continue
        for o in cx.obls:
            rec = {'name': o['name'], 'status': o['status'], 'backend': o['backend'], 't': round(o['t'], 3)}
            out['obls'].append(rec)
            if o['status'] == 'refuted':
                try:
                    ov = concretise(cx, o, smt, tm, S)
                except Exception as e:
                    ov = None
                    rec['concretise_error'] = repr(e)[:200]
                rec['has_model'] = ov is not None
                out['refuted'].append({'name': o['name'], 'overrides': ov, 'goal': tm.show(o['goal'])[:1500], 'path': [bool(x) for x in full]})
            elif o['status'] == 'unknown':
                rec['goal'] = tm.show(o['goal'])[:600]
        paths.append((list(st.pc), list(cx.trail), dict(cx.inputs)))
    out['trace'] = {'functions': I.TRACE['functions'], 'models': I.TRACE['models'], 'loops': I.TRACE['loops']}
    out['stats'] = dict(smt.STATS)
    if not opts.get('frame'):
        try:
            out['xcheck'] = xcheck(c, paths, opts, tm)
        except Exception as e:
            out['xcheck'] = {'error': repr(e)[:200]}
            if os.environ.get('PYVC_DEBUG'):
                traceback.print_exc()
    return out


def _where():
    tb = traceback.extract_tb(sys.exc_info()[2])
    return ' [%s]' % ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-2:]))


def concretise(cx, o, smt, tm, S):
    """input values from a solver model, preferring small sizes"""
    sizes = [v[1] for v in cx.inputs.values() if v[0] == 'int']
    m, ex = o['model'], o['export']
    goal = o['goal']
    for cap in (3, 6):
        r, m2, ex2 = smt.check(o['hyps'] + [tm.le(s, tm.num(cap)) for s in sizes], goal, 3000, uf=True)
        if r == 'sat':
            m, ex = m2, ex2
            break
    ov = {}
    for name, v in cx.inputs.items():
        if v[0] in ('int', 'real', 'bool'):
            x = smt.model_value(m, ex, v[1])
            if x is None:
                return None
            if v[0] == 'int' and abs(x) > 5000:
                return None
            ov[name] = x
    for name, v in cx.inputs.items():
        if v[0] == 'arr':
            dims = [smt.model_value(m, ex, d) for d in v[2]]
            if any(d is None or d > 64 or d < 0 for d in dims) or np.prod(dims) > 400:
                return None
            a = np.zeros([int(d) for d in dims], dtype=bool if v[3] == 'b' else float)
            for ix in itertools.product(*[range(int(d)) for d in dims]):
                t = tuple(tm.num(i) for i in ix)
                sort = 'B' if v[3] == 'b' else 'I' if v[3] == 'i' else 'R'
                x = smt.model_value(m, ex, tm.app(v[1], t, sort))
                if v[4] and smt.model_value(m, ex, tm.app(v[1] + '#nan', t, 'B')):
                    x = float('nan')
                if x is not None:
                    a[ix] = x
            ov[name] = a
        elif v[0] == 'times':
            n = smt.model_value(m, ex, v[2])
            if n is None or n > 64:
                return None
            t = [smt.model_value(m, ex, tm.app(name + '#t', (tm.num(i),))) or 0.0 for i in range(int(n))]
            ov[name] = np.array(t) - (t[0] if t else 0)
    return ov


def xcheck(c, paths, opts, tm):
    """run the real code on random inputs and compare with the symbolic results evaluated at them"""
    n_ok = n_bad = 0
    bad = []
    t_end = time.time() + opts.get('xcheck_s', 4)
    consts = []
    for it in range(opts.get('xcheck_n', 12)):
        if time.time() > t_end:
            break
        rng = random.Random('%s/%s/x%d' % (opts['seed'], c.name, it))
        np.random.seed(rng.randrange(2 ** 31))
        cc = C.ConcCtx(rng, None, consts)
        try:
            with warnings.catch_warnings(), np.errstate(all='ignore'):
                warnings.simplefilter('ignore')
                c.fn(cc)
        except Exception:
            continue
        match = None
        amb = False
        for pc, trail, inputs in paths:
            env, fns = bind_inputs(inputs, cc.inputs, tm)
            ok = True
            for p in pc:
                try:
                    if not tm.evaluate(p, env, fns):
                        ok = False
                        break
                except Exception:
                    continue
            if ok:
                if match is not None:
                    amb = True
                match = (trail, env, fns)
        if match is None or amb:
            continue
        trail, env, fns = match
        by = {}
        for nm, dv, val in trail:
            by.setdefault((nm, len(dv)), []).append((dv, val))
        seen = {}
        for nm, dep, val in cc.trail[:400]:
            lst = by.get((nm, len(dep)), [])
            lst = [x for x in lst if all(d.op != 'num' or d.args[0] == i for d, i in zip(x[0], dep))]
            if not lst:
                continue
            k = seen.get((nm, dep), 0)
            seen[(nm, dep)] = k + 1
            dv, sval = lst[k % len(lst)]
            e2 = dict(env)
            for d, i in zip(dv, dep):
                if d.op == 'var':
                    e2[d] = i
            try:
                got = eval_val(sval, e2, fns, tm)
            except Exception:
                continue
            if got is None:
                continue
            if C.close(val, got, 1e-6, 1.0):
                n_ok += 1
            else:
                n_bad += 1
                if len(bad) < 3:
                    bad.append('%s at %s: code %s, engine %s' % (nm, dep, C.show_val(val), C.show_val(got)))
    return {'compared': n_ok + n_bad, 'mismatch': n_bad, 'examples': bad}


def bind_inputs(inputs, vals, tm):
    env, fns = {}, {}
    for name, v in inputs.items():
        if name not in vals and v[0] != 'times':
            continue
        x = vals.get(name)
        if v[0] in ('int', 'real', 'bool'):
            env[v[1]] = x
        elif v[0] == 'arr':
            a = np.asarray(x)

            def g(*i, a=a):
                y = a[tuple(int(k) for k in i)]
                y = y.item()
                return 0.0 if isinstance(y, float) and not math.isfinite(y) else y
            fns[v[1]] = g
            fns[v[1] + '#nan'] = lambda *i, a=a: bool(np.isnan(a[tuple(int(k) for k in i)]))
            fns[v[1] + '#pinf'] = lambda *i, a=a: bool(a[tuple(int(k) for k in i)] == np.inf)
            fns[v[1] + '#ninf'] = lambda *i, a=a: bool(a[tuple(int(k) for k in i)] == -np.inf)
        elif v[0] == 'perm':
            fns[name + '#perm'] = lambda i, x=x: x[int(i)] if 0 <= int(i) < len(x) else int(i)
            fns[name + '#perm#inv'] = lambda i, x=x: x.index(int(i)) if 0 <= int(i) < len(x) else int(i)
        elif v[0] == 'labels':
            fns[name + '#lab'] = lambda i, x=x: x[int(i)]
            fns[name + '#pos'] = lambda l, x=x: x.index(l)
        elif v[0] == 'times' and x is not None:
            fns[name + '#t'] = lambda i, x=x: float(np.round(x[int(i)] * 1e9) / 1e9)
    return env, fns


def eval_val(v, env, fns, tm):
    from . import sym as S
    if isinstance(v, S.SNum):
        if v.nan is not tm.FALSE and tm.evaluate(v.nan, env, fns):
            return float('nan')
        if v.pinf is not tm.FALSE and tm.evaluate(v.pinf, env, fns):
            return float('inf')
        if v.ninf is not tm.FALSE and tm.evaluate(v.ninf, env, fns):
            return float('-inf')
        return tm.evaluate(v.t, env, fns)
    if isinstance(v, S.SBool):
        return bool(tm.evaluate(v.t, env, fns))
    if isinstance(v, S.SCplx):
        return complex(eval_val(v.re, env, fns, tm), eval_val(v.im, env, fns, tm))
    if isinstance(v, S.SLab):
        return tm.evaluate(v.t, env, fns)
    if isinstance(v, (int, float, bool)):
        return v
    return None


# ------------------------------------------------------------------ concrete side
def run_conc(c, rng, ov, consts, frame=False, it=0):
    """-> None | (name, msg, inputs)  ; raises Discard"""
    seed = rng.randrange(2 ** 31)
    np.random.seed(seed)
    random.seed(seed)
    cc = C.ConcCtx(rng, ov, consts, it=it)
    cc.frame_mode = frame
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                c.fn(cc)
    except (C.Discard, C.Skip):
        raise C.Discard()
    except C.Fail as f:
        return (f.name, f.msg, cc.inputs, cc.checked)
    except Exception as e:
        if frame:
            return None if cc.checked else None
        tb = traceback.extract_tb(e.__traceback__)
        loc = '; '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[-4:])
        return ('no-exception', '%s: %s [%s]' % (type(e).__name__, str(e)[:300], loc), cc.inputs, cc.checked)
    return cc.checked


def conc_task(c, opts):
    consts = mine(c.functions)
    t_end = time.time() + opts['conc_s']
    n = disc = checked = 0
    maxn = opts['conc_n'] if c.samples is None else c.samples * opts.get('mult', 1)
    shapes = set()
    sample = None
    it = opts.get('start', 0)
    frame = opts.get('frame', False)
    while n < maxn and time.time() < t_end and disc < 40 * (n + 25):
        key = '%s/%s/%d' % (opts['seed'], c.name, it)
        rng = random.Random(key)
        it += opts.get('stride', 1)
        try:
            r = run_conc(c, rng, None, consts, frame, it=it)
        except C.Discard:
            disc += 1
            continue
        n += 1
        if isinstance(r, tuple):
            return {'contract': c.name, 'n': n, 'discarded': disc, 'checked': checked + r[3],
                    'failure': {'name': r[0], 'msg': r[1], 'key': key, 'inputs': jsonable(r[2])}, 'distinct': len(shapes)}
        checked += r or 0
    return {'contract': c.name, 'n': n, 'discarded': disc, 'checked': checked, 'failure': None}


def replay_task(c, opts):
    """replay a solver counterexample on the real code"""
    consts = mine(c.functions)
    tried = 0
    for i, rf in enumerate(opts['refuted']):
        if rf['overrides'] is None:
            continue
        for v in range(6):
            key = 'replay/%s/%d/%d' % (c.name, i, v)
            rng = random.Random(key)
            try:
                r = run_conc(c, rng, rf['overrides'], consts, opts.get('frame', False))
            except C.Discard:
                continue
            tried += 1
            rf['replayed'] = rf.get('replayed', 0) + 1
            if isinstance(r, tuple):
                return {'tried': tried, 'failure': {'name': r[0], 'msg': r[1], 'key': key, 'overrides': jsonable(rf['overrides']),
                                                    'inputs': jsonable(r[2]), 'from': 'solver counterexample for ' + rf['name']}}
    return {'tried': tried, 'failure': None, 'replayed': [rf.get('replayed', 0) for rf in opts['refuted']]}


def jsonable(d):
    def j(v):
        if isinstance(v, np.ndarray):
            return {'nd': [x if not isinstance(x, float) or math.isfinite(x) else repr(x) for x in v.reshape(-1).tolist()][:5000], 'shape': list(v.shape)}
        if isinstance(v, (np.floating,)):
            return float(v)
        if isinstance(v, (np.integer,)):
            return int(v)
        if isinstance(v, (np.bool_,)):
            return bool(v)
        if isinstance(v, (list, tuple)):
            return [j(x) for x in v]
        if isinstance(v, (int, float, str, bool)) or v is None:
            return v
        return repr(v)[:300]
    return {k: j(v) for k, v in (d or {}).items()}


def unjson(d):
    out = {}
    for k, v in (d or {}).items():
        if isinstance(v, dict) and 'nd' in v:
            out[k] = np.array([float(x) if isinstance(x, str) else x for x in v['nd']]).reshape(v['shape'])
        else:
            out[k] = v
    return out


# ------------------------------------------------------------------ process pool with hard limits
def _child(conn, fn, args):
    try:
        import resource
        lim = 6 * 2 ** 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        dn = os.open(os.devnull, os.O_WRONLY)
        if not os.environ.get('PYVC_DEBUG'):
            os.dup2(dn, 1)
            os.dup2(dn, 2)
        r = fn(*args)
        conn.send(('ok', r))
    except BaseException as e:
        try:
            conn.send(('err', '%r %s' % (e, traceback.format_exc()[-800:])))
        except Exception:
            pass
    finally:
        conn.close()
        os._exit(0)


def pool(tasks, workers=8):
    """tasks: list of (key, fn, args, limit_s) -> {key: ('ok', result)|('err', msg)|('timeout', None)}"""
    res = {}
    queue = list(tasks)
    live = []
    while queue or live:
        while queue and len(live) < workers:
            key, fn, args, lim = queue.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=_child, args=(b, fn, args))
            p.start()
            b.close()
            live.append((key, p, a, time.time() + lim))
        nxt = []
        mp.connection.wait([x[2] for x in live], timeout=0.2)
        for key, p, a, end in live:
            if a.poll():
                try:
                    res[key] = a.recv()
                except EOFError:
                    res[key] = ('err', 'worker died')
                p.join(5)
                if p.is_alive():
                    p.kill()
                a.close()
            elif time.time() > end:
                p.kill()
                p.join(5)
                res[key] = ('timeout', None)
                a.close()
            elif not p.is_alive() and not a.poll():
                res[key] = ('err', 'worker died')
                a.close()
            else:
                nxt.append((key, p, a, end))
        live = nxt
    return res


def load_json(p, d):
    try:
        return json.load(open(p))
    except (OSError, ValueError):
        return d


def known_findings(pid):
    out = []
    try:
        for ln in open(os.path.join(ROOT, 'known_findings.jsonl')):
            ln = ln.strip()
            if ln and not ln.startswith('#') and not ln.startswith('fixed:'):
                d = json.loads(ln)
                if d['property'] == pid:
                    out.append(d)
    except OSError:
        pass
    return out


def main(argv=None):
    import multiprocessing.connection  # noqa
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('--update-baseline', action='store_true')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-conc', action='store_true')
    ap.add_argument('--no-sym', action='store_true')
    a = ap.parse_args(argv)
    t0 = time.time()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = load_props(a.pid)
    contracts = list(mod.CONTRACTS)
    if a.only:
        contracts = [c for c in contracts if a.only in c.name]
    frame = getattr(mod, 'FRAME', False)
    if a.replay:
        return do_replay(a, contracts, frame)
    th = tier == 'thorough'
    opts = {'seed': seed, 'tier': tier, 'timeout': 20000 if th else 5000, 'sym_s': 400 if th else 75, 'conc_s': 90 if th else 10,
            'conc_n': 4000 if th else 300, 'mult': 10 if th else 1, 'frame': frame, 'xcheck_n': 30 if th else 10, 'max_paths': 400 if th else 160}
    from . import sym, smt, models, models_lib  # noqa  (import before fork)
    tasks = []
    for c in contracts:
        o = dict(opts)
        if c.sym_s:
            o['sym_s'] = c.sym_s * (4 if th else 1)
        if c.mode != 'bounded' and not a.no_sym:
            tasks.append((('sym', c.name), sym_task, (c, o), o['sym_s'] + 40))
    for c in contracts:
        if c.mode != 'proof' and not a.no_conc:
            tasks.append((('conc', c.name), conc_task, (c, dict(opts)), opts['conc_s'] + 60))
    res = pool(tasks)
    # replay the solver's counterexamples
    rtasks = []
    base = load_json(os.path.join(ROOT, 'props', 'baseline.json'), {}).get(a.pid, {})
    for c in contracts:
        r = res.get(('sym', c.name))
        if r and base.get(c.name, {}).get('status') == 'proved' and not (r[0] == 'ok' and r[1]['refuted']) and not _proved(r):
            # was proved on the reference tree and is not any more: search longer on the real code
            cr = res.get(('conc', c.name))
            if c.mode != 'proof' and not (cr and cr[0] == 'ok' and cr[1]['failure']) and not a.no_conc:
                o = dict(opts)
                o.update(start=100000, conc_s=opts['conc_s'] * 2, conc_n=opts['conc_n'] * 4, mult=4)
                rtasks.append((('dir', c.name), conc_task, (c, o), o['conc_s'] + 60))
        if r and r[0] == 'ok' and r[1]['refuted']:
            rtasks.append((('rep', c.name), replay_task, (c, {'refuted': r[1]['refuted'], 'frame': frame}), 60))
            # directed search: a longer concrete run of the contract whose obligation failed
            cr = res.get(('conc', c.name))
            if not (cr and cr[0] == 'ok' and cr[1]['failure']) and not a.no_conc:
                o = dict(opts)
                o.update(start=100000, conc_s=opts['conc_s'] * 2, conc_n=opts['conc_n'] * 4, mult=4)
                rtasks.append((('dir', c.name), conc_task, (c, o), o['conc_s'] + 60))
    res.update(pool(rtasks))
    return report(a, mod, contracts, res, tier, seed, t0, frame)


def _proved(r):
    if r[0] != 'ok':
        return False
    r = r[1]
    return bool(r['obls']) and r['complete'] and not r['unsupported'] and all(o['status'] == 'proved' for o in r['obls'])


def report(a, mod, contracts, res, tier, seed, t0, frame):
    pid = a.pid
    base = load_json(os.path.join(ROOT, 'props', 'baseline.json'), {}).get(pid, {})
    viol = []
    undec = []
    ev_contracts = []
    tot = disch = 0
    backends = {}
    funcs, models_used = {}, {}
    solver = {}
    newbase = {}
    evals = 0
    cases = 0
    samples = []
    for c in contracts:
        s = res.get(('sym', c.name))
        k = res.get(('conc', c.name))
        rec = {'contract': c.name, 'states': c.doc, 'functions': [getattr(f, '__qualname__', str(f)) for f in c.functions]}
        status = 'bounded'
        if s is not None:
            if s[0] == 'ok':
                r = s[1]
                no = len(r['obls'])
                nd = sum(1 for o in r['obls'] if o['status'] == 'proved')
                xc = r.get('xcheck') or {}
                xbad = xc.get('mismatch', 0)
                names = {}
                for o in r['obls']:
                    names.setdefault(o['name'], []).append(o['status'])
                for o in r['obls']:
                    if o['status'] == 'proved':
                        backends[o['backend']] = backends.get(o['backend'], 0) + 1
                full = no > 0 and nd == no and r['complete'] and not r['unsupported'] and not xbad
                status = 'proved' if full else 'partial' if nd else 'bounded'
                tot += no
                disch += nd
                if not full:
                    # what is not executed symbolically is one more undischarged obligation
                    tot += len(set(r['unsupported']))
                    undec.append({'contract': c.name, 'unsupported': sorted(set(r['unsupported']))[:6],
                                  'open': sorted({o['name'] for o in r['obls'] if o['status'] != 'proved'})})
                rec.update({'obligations': no, 'discharged': nd, 'paths': r['paths'], 'vacuous_paths': r['vacuous'], 'loops_summarised': r['trace']['loops'],
                            'engine_crosscheck': xc})
                newbase[c.name] = {'status': status, 'proved': sorted(n for n, l in names.items() if all(x == 'proved' for x in l))}
                for q, w in r['trace']['functions'].items():
                    funcs.setdefault(q, set()).add(c.name)
                for q in r['trace']['models']:
                    models_used[q] = models_used.get(q, 0) + 1
                for q, w in r['stats'].items():
                    solver[q] = solver.get(q, 0) + w
                if a.v:
                    print('%-34s %-8s obl %d/%d paths %d xc %s' % (c.name, status, nd, no, r['paths'], {q: xc.get(q) for q in ('compared', 'mismatch')}))
                    for o in r['obls']:
                        if o['status'] != 'proved':
                            print('     ', o['name'], o['status'], o.get('goal', '')[:300])
                    for u in sorted(set(r['unsupported'])):
                        print('      unsupported:', u)
                    for u in sorted(set(r.get('raised', []))):
                        print('      raised:', u)
                    for u in xc.get('examples', []):
                        print('      XCHECK', u)
                    for rf in r['refuted'][:3]:
                        print('      refuted', rf['name'], rf['goal'][:600], '\n        model', str(rf['overrides'])[:300])
            else:
                tot += 1
                undec.append({'contract': c.name, 'unsupported': [s[0] + ': ' + str(s[1])[-300:]]})
                rec['engine'] = s[0]
                if a.v:
                    print('%-34s %s %s' % (c.name, s[0], str(s[1])[-700:]))
        rec['status'] = status
        fail = None
        rp = res.get(('rep', c.name))
        dr = res.get(('dir', c.name))
        if k is not None:
            if k[0] == 'ok':
                rec['bounded_samples'] = k[1]['n']
                rec['bounded_checks'] = k[1]['checked']
                cases += k[1]['n']
                evals += k[1]['checked']
                fail = k[1]['failure']
                if a.v:
                    print('    conc n=%d disc=%d checked=%d %s' % (k[1]['n'], k[1]['discarded'], k[1]['checked'], '' if not fail else 'FAIL %s: %s' % (fail['name'], fail['msg'])))
                if k[1]['n'] == 0 and not frame:
                    rec['bounded_note'] = 'no admissible sample'
            else:
                rec['bounded_note'] = k[0]
                if a.v:
                    print('    conc', k)
        if rp and rp[0] == 'ok' and rp[1]['failure']:
            fail = rp[1]['failure']
        if fail is None and dr and dr[0] == 'ok':
            rec['directed_samples'] = dr[1]['n']
            fail = dr[1]['failure']
        if fail is not None:
            obl = fail['name']
            if s and s[0] == 'ok' and s[1]['refuted']:
                obl = s[1]['refuted'][0]['name']
            viol.append({'contract': c.name, 'obligation': obl, 'failure': fail, 'nfi': False})
        elif s and s[0] == 'ok' and s[1]['refuted']:
            proved0 = set(base.get(c.name, {}).get('proved', []))
            rr = rp[1].get('replayed', []) if rp and rp[0] == 'ok' else []
            for j, rf in enumerate(s[1]['refuted']):
                spurious = j < len(rr) and rr[j] > 0      # the counterexample ran on the real code and satisfied the contract
                if rf['name'] in proved0 and not spurious and base.get(c.name, {}).get('status') == 'proved':
                    viol.append({'contract': c.name, 'obligation': rf['name'], 'nfi': True,
                                 'failure': {'name': rf['name'], 'msg': 'obligation refuted by z3; goal: ' + rf['goal'], 'inputs': jsonable(rf['overrides'])}})
                    break
                rec.setdefault('spurious_refutations', []).append(rf['name'])
        ev_contracts.append(rec)
    # known findings
    kf = known_findings(pid)
    reported = []
    for v in viol:
        hit = None
        for f in kf:
            if f['contract'] == v['contract'] and (f.get('obligation') in (None, v['failure']['name'])) and f.get('match', '') in v['failure']['msg']:
                hit = f
        if hit is None:
            reported.append(v)
    for f in kf:
        print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    if tot == 0 and not a.no_sym:
        print('no obligations generated', file=sys.stderr)
        if any(c.mode != 'bounded' for c in contracts):
            undec.append({'contract': '*', 'unsupported': ['zero obligations']})
    rdir = os.path.join(ROOT, 'replays')
    os.makedirs(rdir, exist_ok=True)
    for v in reported:
        path = os.path.join(rdir, '%s-%s.json' % (pid, v['contract']))
        json.dump({'property': pid, 'contract': v['contract'], 'obligation': v['obligation'], 'no_failing_input': v['nfi'], 'failure': v['failure'],
                   'replay_cmd': './check %s --replay %s' % (pid, path)}, open(path, 'w'), indent=1, default=str)
        print('VIOLATION property=%s replay=%s%s' % (pid, path, ' no-failing-input-found' if v['nfi'] else ''))
        print('  contract %s, obligation %s: %s' % (v['contract'], v['obligation'], v['failure']['msg'][:400]))
    wall = time.time() - t0
    nproved = sum(1 for r in ev_contracts if r['status'] == 'proved')
    level = getattr(mod, 'LEVEL', 'proof')
    cov = {'obligations': tot, 'discharged': disch, 'checker_cmd': './check %s --tier %s' % (pid, tier),
           'trusted_base': sorted('library contract: ' + m for m in models_used) + TRUSTED,
           'contracts': len(contracts), 'contracts_proved': nproved,
           'contracts_bounded_only': [r['contract'] for r in ev_contracts if r['status'] == 'bounded'],
           'contracts_partly_proved': [r['contract'] for r in ev_contracts if r['status'] == 'partial'],
           'functions_executed_symbolically': sorted(funcs), 'discharged_by': backends,
           'solver': {k: round(v, 2) if isinstance(v, float) else v for k, v in solver.items()},
           'undischarged': undec, 'per_contract': ev_contracts,
           'evaluations': cases, 'distinct_nontrivial': cases,
           'rule': 'bounded stand-in and replay: seeded random inputs satisfying the contract precondition on which the real code ran and at least one postcondition was evaluated',
           'samples': [r['contract'] + ': ' + r['states'] for r in ev_contracts][:12], 'postconditions_evaluated': evals,
           'explanation': 'contracts on the real functions; every obligation generated from the current source by symbolic execution of its AST; "bounded" contracts are sampled only and not counted as proved'}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': ASSUMPTIONS + list(getattr(mod, 'ASSUMPTIONS', [])),
          'wall_s': round(wall, 2), 'violations': len(reported)}
    if not a.only:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    if a.update_baseline:
        bp = os.path.join(ROOT, 'props', 'baseline.json')
        b = load_json(bp, {})
        if a.only:
            b.setdefault(pid, {}).update(newbase)
        else:
            b[pid] = newbase
        json.dump(b, open(bp, 'w'), indent=1, sort_keys=True)
    print('%s: %d/%d obligations discharged, %d/%d contracts proved, %d samples, %.1fs%s' % (
        pid, disch, tot, nproved, len(contracts), cases, wall, ', %d undecided' % len(undec) if undec else ''))
    if not reported and not disch and not evals and not a.only:
        print('%s: nothing could be decided (no obligation discharged, no contract executed)' % pid)
        return 2
    return 1 if reported else 0


TRUSTED = ['pyvc engine (AST interpreter, loop summaries, normal forms)', 'z3 5.3', 'cvc5',
           'real arithmetic instead of IEEE double (rounding not modelled; NaN and infinities are)']
ASSUMPTIONS = ['floating point is treated as exact real arithmetic with NaN and infinity flags; signed zeros, overflow and rounding are not modelled',
               'library functions behave as their contracts in pyvc/models*.py (cross-checked against the real libraries on sampled inputs every run)',
               'integers are mathematical; array dtypes are tracked as bool/int/float/complex only',
               'warnings, printing and plotting output are ignored']


def do_replay(a, contracts, frame):
    d = json.load(open(a.replay))
    c = [x for x in contracts if x.name == d['contract']][0]
    f = d['failure']
    ov = unjson(f.get('overrides')) or None
    r = run_conc(c, random.Random(f['key']), ov, mine(c.functions), frame)
    print('replayed %s: %s' % (c.name, r))
    return 1 if isinstance(r, tuple) else 0


if __name__ == '__main__':
    sys.exit(main())
