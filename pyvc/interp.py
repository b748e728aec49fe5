"""AST interpreter of the real source with symbolic values.

Functions of /repo's package are parsed from the source file on every run and executed statement by
statement; library calls go to the contracts in models.py (or to the real library when every argument is
concrete).  Loops and comprehensions over symbolic-length sequences are replaced by their strongest
per-iteration summary (map / indexed store / accumulation), checked inductive: the body is executed once at
a fresh index from a havocked loop state and must not depend on that state outside the recognised pattern.
"""
import ast
import builtins
import contextlib
import functools
import inspect
import types
import warnings
import numpy as np
import pandas as pd
from . import terms as tm
from .terms import TRUE, FALSE, ZERO, ONE
from .sym import *      # noqa
from .sym import Sym, SNum, SBool, SArr, SList, SSeries, SFrame, SIndex, SLab, Unsupported, Raised, st, over, term, dim, bool_t, subst_val
from . import sym as S

import os
PROPS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'props')
PKG = 'solarspatialtools'
MODELS = {}          # real callable -> model
ALLOC = [False]      # new arrays of the code under analysis are symbolic even when everything about them is concrete
ALWAYS = set()       # models used even with concrete arguments
INLINE = set()       # third-party pure-python functions interpreted like repo code
SUMMARIES = {}       # real function -> summary(args, kwargs) -> value or NotImplemented
TRACE = {'functions': {}, 'models': {}, 'loops': 0, 'side': []}
DEPTH = [0]


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Env:
    def __init__(self, glob, parent=None):
        self.vars = {}
        self.glob = glob
        self.parent = parent
        self.nonlocal_ = set()

    def get(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                return e.vars[n]
            e = e.parent
        if n in self.glob:
            return self.glob[n]
        if hasattr(builtins, n):
            return getattr(builtins, n)
        raise Raised(NameError("name '%s' is not defined" % n))

    def set(self, n, v):
        self.vars[n] = v


class SFunc:
    def __init__(self, node, glob, closure, name, owner=None):
        self.node, self.glob, self.closure, self.name, self.owner = node, glob, closure, name, owner
        self.defaults = None

    def __call__(self, *a, **k):
        return call(self, a, k)


_src_cache = {}


def func_ast(fn):
    code = fn.__code__
    key = (code.co_filename, code.co_firstlineno, fn.__qualname__)
    if key in _src_cache:
        return _src_cache[key]
    src = open(code.co_filename).read()
    mk = ('mod', code.co_filename)
    if mk not in _src_cache:
        _src_cache[mk] = ast.parse(src)
    node = None
    for n in ast.walk(_src_cache[mk]):
        if isinstance(n, ast.FunctionDef) and n.name == fn.__name__:
            first = min([n.lineno] + [d.lineno for d in n.decorator_list])
            if first == code.co_firstlineno:
                node = n
        elif isinstance(n, ast.Lambda) and fn.__name__ == '<lambda>' and n.lineno == code.co_firstlineno:
            node = n
    _src_cache[key] = node
    return node


def is_repo_fn(fn):
    return isinstance(fn, types.FunctionType) and (getattr(fn, '__module__', '') or '').split('.')[0] == PKG


def is_spec_fn(fn):
    """reference functions written next to the contracts (interpreted like the code under contract)"""
    return isinstance(fn, types.FunctionType) and os.path.dirname(fn.__code__.co_filename) == PROPS


def has_sym(x, d=0):
    if isinstance(x, Sym) or isinstance(x, SFunc) or isinstance(x, S.Resampler):
        return True
    if d > 4:
        return False
    if isinstance(x, (list, tuple, set)):
        return any(has_sym(i, d + 1) for i in x)
    if isinstance(x, dict):
        return any(has_sym(v, d + 1) or has_sym(k, d + 1) for k, v in x.items())
    if isinstance(x, (types.MethodType,)):
        return has_sym(x.__self__, d + 1)
    if isinstance(x, functools.partial):
        return has_sym(x.args) or has_sym(x.keywords)
    return False


ALLOCATORS = {np.zeros, np.ones, np.full, np.empty}


def call(fn, args, kwargs):
    args = tuple(args)
    if isinstance(fn, SFunc):
        return run_sfunc(fn, args, kwargs)
    if isinstance(fn, functools.partial):
        return call(fn.func, fn.args + args, {**fn.keywords, **kwargs})
    try:
        m = MODELS.get(fn)
    except TypeError:
        m = None
    if m is None and isinstance(fn, np.ufunc) and fn.__name__:
        m = None
    if is_repo_fn(fn):
        s = SUMMARIES.get(fn)
        if s is not None:
            r = s(args, kwargs)
            if r is not NotImplemented:
                return r
        return run_python(fn, args, kwargs)
    if (fn in INLINE if _hashable(fn) else False) or is_spec_fn(fn):
        return run_python(fn, args, kwargs)
    if m is not None and (fn in ALWAYS or has_sym(args) or has_sym(kwargs) or ALLOC[0] and fn in ALLOCATORS):
        TRACE['models'][_fname(fn)] = TRACE['models'].get(_fname(fn), 0) + 1
        return m(*args, **kwargs)
    # methods of symbolic objects and engine callables
    if isinstance(fn, types.MethodType) and isinstance(fn.__self__, (Sym, S.Resampler, S._Loc, S._ILoc)):
        return fn(*args, **kwargs)
    if getattr(fn, '_pyvc', False):
        return fn(*args, **kwargs)
    if isinstance(fn, types.BuiltinMethodType) and isinstance(fn.__self__, (list, dict, set)):
        try:
            return fn(*args, **kwargs)
        except Unsupported:
            raise
        except Raised:
            raise
        except Exception as e:
            if has_sym(args):
                raise Unsupported('%s: %r' % (_fname(fn), e))
            raise Raised(e)
    if isinstance(fn, types.BuiltinMethodType) and isinstance(fn.__self__, str) and has_sym(args):
        return str_method(fn, args, kwargs)
    if has_sym(args) or has_sym(kwargs):
        if isinstance(fn, type) and issubclass(fn, BaseException):
            try:
                return fn(*[a if not isinstance(a, Sym) else '<sym>' for a in args])
            except Exception as e:
                raise Raised(e)
        if isinstance(fn, type) and (getattr(fn, '__module__', '') or '').split('.')[0] == PKG:
            return fn(*args, **kwargs)
        raise Unsupported('no contract for library function %s' % _fname(fn))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return fn(*args, **kwargs)
    except (Unsupported, Raised, S.PathEnd):
        raise
    except Exception as e:
        raise Raised(e)


def str_method(fn, args, kw):
    if fn.__name__ == 'format':
        return '<sym>'
    raise Unsupported('str method with symbolic argument')


def _hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


def _fname(fn):
    return '%s.%s' % (getattr(fn, '__module__', None) or type(getattr(fn, '__self__', None)).__name__, getattr(fn, '__qualname__', getattr(fn, '__name__', repr(fn))))


def run_python(fn, args, kwargs):
    if fn.__code__.co_filename.endswith('_ufunc_config.py') and hasattr(fn, '__wrapped__'):
        fn = fn.__wrapped__                     # @np.errstate(...): warnings only
    node = func_ast(fn)
    if node is None:
        raise Unsupported('source of %s not found' % _fname(fn))
    sf = SFunc(node, fn.__globals__, None, fn.__qualname__)
    sf.pydefaults = fn.__defaults__ or ()
    sf.pykw = fn.__kwdefaults__ or {}
    if fn.__closure__:
        env = Env(fn.__globals__)
        for n, c in zip(fn.__code__.co_freevars, fn.__closure__):
            env.vars[n] = c.cell_contents
        sf.closure = env
    k = fn.__module__ + '.' + fn.__qualname__
    TRACE['functions'][k] = TRACE['functions'].get(k, 0) + 1
    return run_sfunc(sf, args, kwargs)


def bind(sf, args, kwargs, env):
    a = sf.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    vals = {}
    if len(args) > len(pos) and not a.vararg:
        raise Raised(TypeError('%s() takes %d positional arguments but %d were given' % (sf.name, len(pos), len(args))))
    for n, v in zip(pos, args):
        vals[n] = v
    if a.vararg:
        vals[a.vararg.arg] = tuple(args[len(pos):])
    extra = {}
    kwonly = [x.arg for x in a.kwonlyargs]
    for k, v in kwargs.items():
        if k in vals and k in pos:
            raise Raised(TypeError('%s() got multiple values for argument %r' % (sf.name, k)))
        if k in pos or k in kwonly:
            vals[k] = v
        elif a.kwarg:
            extra[k] = v
        else:
            raise Raised(TypeError('%s() got an unexpected keyword argument %r' % (sf.name, k)))
    if a.kwarg:
        vals[a.kwarg.arg] = extra
    d = getattr(sf, 'pydefaults', None)
    if d is None:
        d = sf.defaults or ()
    for n, v in zip(pos[len(pos) - len(d):], d):
        vals.setdefault(n, v)
    for n, v in (getattr(sf, 'pykw', None) or {}).items():
        vals.setdefault(n, v)
    for n in pos + kwonly:
        if n not in vals:
            raise Raised(TypeError('%s() missing a required argument: %r' % (sf.name, n)))
    env.vars.update(vals)


def run_sfunc(sf, args, kwargs):
    env = Env(sf.glob, sf.closure)
    bind(sf, args, kwargs, env)
    DEPTH[0] += 1
    if DEPTH[0] > 40:
        DEPTH[0] -= 1
        raise Unsupported('recursion depth')
    try:
        if isinstance(sf.node, ast.Lambda):
            return ev(sf.node.body, env)
        try:
            block(sf.node.body, env)
        except _Return as r:
            return r.v
        return None
    finally:
        DEPTH[0] -= 1


# ---------------------------------------------------------------- statements
def block(body, env):
    for s in body:
        stmt(s, env)


def stmt(s, env):
    m = _STMT.get(type(s))
    if m is None:
        raise Unsupported('statement %s at line %d' % (type(s).__name__, s.lineno))
    return m(s, env)


def s_expr(s, env):
    ev(s.value, env)


def s_assign(s, env):
    v = ev(s.value, env)
    for t in s.targets:
        assign(t, v, env)


def s_annassign(s, env):
    if s.value is not None:
        assign(s.target, ev(s.value, env), env)


def assign(t, v, env):
    if isinstance(t, ast.Name):
        if t.id in env.nonlocal_:
            e = env.parent
            while e is not None and t.id not in e.vars:
                e = e.parent
            (e.vars if e is not None else env.glob)[t.id] = v
        else:
            env.vars[t.id] = v
    elif isinstance(t, (ast.Tuple, ast.List)):
        items = unpack(v, t.elts)
        for x, y in zip(t.elts, items):
            assign(x.value if isinstance(x, ast.Starred) else x, y, env)
    elif isinstance(t, ast.Subscript):
        o = ev(t.value, env)
        k = subscript_key(t.slice, env)
        store_item(o, k, v)
    elif isinstance(t, ast.Attribute):
        o = ev(t.value, env)
        set_attr(o, t.attr, v)
    else:
        raise Unsupported('assignment target')


def set_attr(o, a, v):
    if isinstance(o, (SSeries, SFrame, SIndex)):
        if a in ('index', 'columns', 'name'):
            if a == 'name':
                o.name = v
            else:
                setattr(o, a, v)
            return
        raise Unsupported('attribute store %s' % a)
    if isinstance(o, Sym):
        raise Unsupported('attribute store on %s' % type(o).__name__)
    try:
        setattr(o, a, v)
    except Exception as e:
        if has_sym(v):
            raise Unsupported(repr(e))
        raise Raised(e)


TRIAL = [0]


class KeyBox(S.Sym):
    """symbolic key stored in a dict by the body of a symbolic loop"""

    def __init__(self, key):
        self.key = key

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o


def store_item(o, k, v):
    if isinstance(o, Sym) or isinstance(o, (S._Loc, S._ILoc)):
        if not hasattr(type(o), '__setitem__'):
            raise Unsupported('item store on %s' % type(o).__name__)
        o[k] = v
        return
    if isinstance(o, np.ndarray) and (has_sym(v) or has_sym(k)):
        raise Unsupported('symbolic store into a concrete array')
    if isinstance(o, (pd.DataFrame, pd.Series)) and (has_sym(v) or has_sym(k)):
        raise Unsupported('symbolic store into a concrete frame')
    if isinstance(o, dict) and isinstance(k, Sym):
        if not TRIAL[0]:
            raise Unsupported('symbolic dict key')
        k = KeyBox(k)
    try:
        o[k] = v
    except Exception as e:
        if has_sym(v) or has_sym(k):
            raise Unsupported('store: %r' % e)
        raise Raised(e)


def unpack(v, elts):
    n = len(elts)
    star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
    if isinstance(v, Sym):
        if isinstance(v, SArr):
            ln = v.shp[0]
        elif isinstance(v, SList):
            ln = v.n
        elif isinstance(v, SSeries):
            ln = v.arr.shp[0]
        elif isinstance(v, SIndex):
            ln = v.n
        else:
            raise Raised(TypeError('cannot unpack non-iterable'))
        if star:
            raise Unsupported('starred unpack of symbolic')
        if ln.op == 'num':
            if int(ln.args[0]) != n:
                raise Raised(ValueError('wrong number of values to unpack'))
        elif not st().decide(tm.eq(ln, tm.num(n))):
            raise Raised(ValueError('wrong number of values to unpack'))
        if isinstance(v, SSeries):
            v = v.arr
        if isinstance(v, SIndex):
            v = v.arr()
        return [v[i] for i in range(n)]
    try:
        items = list(v)
    except TypeError as e:
        raise Raised(e)
    if star:
        i = star[0]
        k = len(items) - (n - 1)
        return items[:i] + [items[i:i + k]] + items[i + k:]
    if len(items) != n:
        raise Raised(ValueError('wrong number of values to unpack (expected %d)' % n))
    return items


def s_augassign(s, env):
    op = _BIN[type(s.op)]
    t = s.target
    if isinstance(t, ast.Name):
        cur = env.get(t.id)
        r = inplace(op, cur, ev(s.value, env))
        assign(t, r, env)
    elif isinstance(t, ast.Subscript):
        o = ev(t.value, env)
        k = subscript_key(t.slice, env)
        cur = load_item(o, k)
        r = inplace(op, cur, ev(s.value, env))
        store_item(o, k, r)
    elif isinstance(t, ast.Attribute):
        o = ev(t.value, env)
        cur = get_attr(o, t.attr)
        set_attr(o, t.attr, inplace(op, cur, ev(s.value, env)))
    else:
        raise Unsupported('augmented assignment')


def inplace(op, a, b):
    if isinstance(a, SArr) and op in ('add', 'sub', 'mul', 'div'):
        return a._ibin(b, op)
    if isinstance(a, SSeries) and op in ('add', 'sub', 'mul', 'div'):
        return a._i(b, op)
    if isinstance(a, SFrame):
        r = binary(op, a, b)
        f = r.arr.snapshot()
        a.arr.store(lambda idx: (TRUE, idx), lambda vi: f(vi))
        return a
    if isinstance(a, np.ndarray) and has_sym(b):
        raise Unsupported('in-place op on concrete array with symbolic value')
    if isinstance(a, list) and op == 'add':
        if isinstance(b, SList):
            raise Unsupported('list += symbolic list')
        a += list(b)
        return a
    if not has_sym(a) and not has_sym(b):
        import operator
        f = {'add': operator.iadd, 'sub': operator.isub, 'mul': operator.imul, 'div': operator.itruediv}.get(op)
        if f is not None:
            try:
                return f(a, b)
            except Exception as e:
                raise Raised(e)
    return binary(op, a, b)


def s_if(s, env):
    c = ev(s.test, env)
    t = truth_term(c)
    if t in (TRUE, FALSE):
        return block(s.body if t is TRUE else s.orelse, env)
    if any(v in st().binders() for v in t.fv):
        if st().implied(t):
            return block(s.body, env)
        if st().implied(tm.bnot(t)):
            return block(s.orelse, env)
        return if_convert(s, t, env)
    if st().decide(t):
        block(s.body, env)
    else:
        block(s.orelse, env)


def if_convert(s, t, env):
    """branch on a loop-dependent condition: run both sides, merge the variables they assign"""
    if any(isinstance(n, (ast.Return, ast.Break, ast.Continue, ast.Raise)) for b in s.body + s.orelse for n in ast.walk(b)):
        raise Unsupported('control flow under a loop-dependent branch')
    base = dict(env.vars)
    w0 = len(st().writes)
    lens = {k: len(v) for k, v in base.items() if isinstance(v, (list, dict, set))}
    res = []
    for cond, body in ((t, s.body), (tm.bnot(t), s.orelse)):
        env.vars = dict(base)
        st().ctx.append(cond)
        try:
            block(body, env)
        finally:
            st().ctx.pop()
        res.append(env.vars)
        for k, n in lens.items():
            l = base[k]
            if len(l) == n:
                continue
            if not isinstance(l, list) or len(l) != n + 1 or isinstance(l[-1], CondItem):
                raise Unsupported('store under a loop-dependent branch')
            l[-1] = CondItem(cond, l[-1])
            lens = dict(lens)
            lens[k] = n + 1
            for k2, v2 in base.items():
                if v2 is l:
                    lens[k2] = n + 1
        if len(st().writes) > w0:
            raise Unsupported('store under a loop-dependent branch')
    a, b = res
    out = dict(base)
    for k in set(a) | set(b):
        if k in a and k in b:
            out[k] = a[k] if a[k] is b[k] else merge(t, a[k], b[k])
    env.vars = out


class CondItem(S.Sym):
    """item appended to a list under a loop-dependent condition"""

    def __init__(self, cond, item):
        self.cond, self.item = cond, item


def merge(t, a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b):
        return type(a)(merge(t, x, y) for x, y in zip(a, b))
    if isinstance(a, (SArr, SSeries, SFrame)) or isinstance(b, (SArr, SSeries, SFrame)):
        raise Unsupported('merge of arrays')
    return S.sel(t, scalar(a), scalar(b))


def truth_term(c):
    if isinstance(c, SBool):
        return c.t
    if isinstance(c, SNum):
        return tm.bor(tm.bnot(tm.eq0(c.t)), c.bad)
    if isinstance(c, SList):
        return tm.bnot(tm.eq0(c.n))
    if isinstance(c, (SLab, S.STime, S.SDelta)):
        return TRUE
    if isinstance(c, Sym):
        return TRUE if bool(c) else FALSE
    if isinstance(c, (pd.DataFrame, pd.Series, np.ndarray)):
        try:
            return TRUE if c else FALSE
        except Exception as e:
            raise Raised(e)
    return TRUE if c else FALSE


def truth(c):
    return st().decide(truth_term(c))


def s_while(s, env):
    for _ in range(64):
        if not truth(ev(s.test, env)):
            block(s.orelse, env)
            return
        try:
            block(s.body, env)
        except _Break:
            return
        except _Continue:
            pass
    raise Unsupported('while loop without a bound')


def s_for(s, env):
    it = ev(s.iter, env)
    seq = iterate(it)
    if isinstance(seq, SList):
        if seq.n.op != 'num' and st().implied(tm.eq0(seq.n)):
            return block(s.orelse, env)
        return sym_for(s, seq, env)
    for x in seq:
        assign(s.target, x, env)
        try:
            block(s.body, env)
        except _Break:
            return
        except _Continue:
            pass
    block(s.orelse, env)


def iterate(it):
    """python list of items, or SList when the length is symbolic"""
    if isinstance(it, SList):
        if it.n.op == 'num':
            return [it.f(tm.num(i)) for i in range(int(it.n.args[0]))]
        return it
    if isinstance(it, SSeries):
        it = it.arr
    if isinstance(it, SIndex):
        it = it.arr()
    if isinstance(it, SFrame):
        return iterate(it.columns)
    if isinstance(it, S.SDict):
        return iterate(it.keys())
    if isinstance(it, SArr):
        if it.filt:
            raise Unsupported('iteration over a filtered array')
        if not it.shp:
            raise Raised(TypeError('iteration over a 0-d array'))
        if it.shp[0].op == 'num':
            return [it[i] for i in range(int(it.shp[0].args[0]))]
        a = it
        return SList(a.shp[0], lambda k: S.getitem(a, (SNum(k),)) if False else _row(a, k))
    if isinstance(it, Sym):
        raise Raised(TypeError('object is not iterable'))
    try:
        return list(it)
    except (Raised, Unsupported):
        raise
    except TypeError as e:
        raise Raised(e)


def _row(a, k):
    if a.ndim == 1:
        return a.get(k)
    return a.view(a.shp[1:], lambda idx: (k,) + tuple(idx), lambda p: (tm.eq(p[0], k), tuple(p[1:])))


def assigned_names(body):
    out = []
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in out:
                out.append(n.id)
    return out


def sym_for(s, seq, env):
    TRACE['loops'] += 1
    if any(isinstance(n, (ast.Return, ast.Break)) for b in s.body for n in ast.walk(b)):
        raise Unsupported('early exit from a symbolic loop at line %d' % s.lineno)
    if any(isinstance(n, ast.Continue) for b in s.body for n in ast.walk(b)):
        raise Unsupported('continue in a symbolic loop at line %d' % s.lineno)
    n = seq.n
    names = assigned_names(s.body) + assigned_names([s.target] if not isinstance(s.target, ast.Name) else [])
    if isinstance(s.target, ast.Name):
        names.append(s.target.id)
    serial0 = S.SERIAL[0]
    # containers visible before the loop
    before = {}
    e = env
    while e is not None:
        for k, v in e.vars.items():
            before.setdefault(k, v)
        e = e.parent
    pre_vars = dict(env.vars)
    lists = {}
    collect_lists(before.values(), lists)

    def trial(carried, havoc):
        """run the body once at a fresh index; returns (i, env vars after, writes)"""
        i = tm.fresh('it')
        w0 = len(st().writes)
        env.vars = dict(pre_vars)
        for k, v in carried.items():
            env.vars[k] = v
        saved = []
        for arr, hf in havoc:
            saved.append((arr, arr._f, arr._memo))
            arr._f, arr._memo = hf, {}
        lcopy = {id_: (list(l) if isinstance(l, list) else dict(l)) for id_, l in lists.items()}
        st().ctx.append(tm.band(tm.le(ZERO, i), tm.lt(i, n)))
        after = None
        TRIAL[0] += 1
        LOOPVARS.append(i)
        try:
            assign(s.target, seq.f(i), env)
            block(s.body, env)
            after = dict(env.vars)
            wr = list(st().writes[w0:])
            finals = [(a, a._f, a._memo) for a in uniq([w[0] for w in wr]) if isinstance(a, SArr)]
            lafter = {id_: (list(l) if isinstance(l, list) else dict(l)) for id_, l in lists.items()}
        finally:
            TRIAL[0] -= 1
            LOOPVARS.pop()
            st().ctx.pop()
            # undo
            for a, f, m in reversed(st().writes[w0:]):
                if f is not None:
                    a._f, a._memo = f, m
                else:
                    if after is not None:
                        raise Unsupported('pandas attribute store inside a symbolic loop')
            del st().writes[w0:]
            for arr, f, m in saved:
                arr._f, arr._memo = f, m
            for id_, l in lists.items():
                l[:] = lcopy[id_] if isinstance(l, list) else []
                if isinstance(l, dict):
                    l.clear()
                    l.update(lcopy[id_])
            env.vars = dict(pre_vars)
        return i, after, finals, lcopy, lafter

    # pass 1: discover what the body changes
    i, after, finals, lb, la = trial({}, [])
    if after is None:
        raise Unsupported('loop body')
    old_arrays = [a for a, f, m in finals if a.serial <= serial0]
    carried = {}
    for k in names:
        if k in pre_vars and reads_before_write(s.body, k):
            v = pre_vars[k]
            if isinstance(v, (SArr, np.ndarray)) and (isinstance(v, np.ndarray) or after.get(k) is v):
                if isinstance(v, np.ndarray):
                    raise Unsupported('loop-carried concrete array')
                continue
            if isinstance(v, (list, dict)):
                continue
            sc = scalar(v) if not isinstance(v, (SArr, SSeries, SFrame, SList)) else None
            if not isinstance(sc, SNum):
                raise Unsupported('loop-carried variable %s' % k)
            carried[k] = SNum(tm.fresh('acc_' + k, 'R'))
    havoc = []
    hnames = {}
    for a in old_arrays:
        hn = 'havoc!%d' % (id(a) % 10 ** 9 + S.SERIAL[0])
        S.SERIAL[0] += 1
        kind = a.dtype_
        if kind not in ('f', 'i', 'b', 'O'):
            raise Unsupported('loop store into %s array' % kind)
        if kind in ('f', 'i'):
            hf = lambda idx, hn=hn: SNum(tm.app(hn, idx, 'R'), kind='f')
        elif kind == 'b':
            hf = lambda idx, hn=hn: SBool(tm.app(hn, idx, 'B'))
        else:
            hf = lambda idx, hn=hn: SLab(tm.app(hn, idx, 'L'))
        hnames[id(a)] = hn
        havoc.append((a, hf))
    # pass 2: inductive step from an arbitrary loop state
    i, after, finals, lb, la = trial(carried, havoc)
    fin = {id(a): f for a, f, m in finals}
    allh = set(hnames.values())
    accs = [c.t for c in carried.values()]

    def depends(v):
        return any(x in v.fv for x in accs) or any(a.op == 'app' and a.args[0] in allh for a in tm.atoms(v))

    new_vars = dict(pre_vars)
    # scalars
    for k in names:
        if k not in after:
            continue
        v = after[k]
        if k in carried:
            acc = carried[k].t
            v = lift(v)
            if v is NotImplemented or v.flagged:
                raise Unsupported('loop accumulator %s' % k)
            delta = tm.sub(v.t, acc)
            if depends(delta):
                raise Unsupported('loop-carried dependence of %s' % k)
            new_vars[k] = lift(pre_vars[k]) + SNum(tm.mk_sum(n, i, delta))
        elif isinstance(v, SArr) and id(v) in hnames or isinstance(v, (list, dict)) and id(v) in lists:
            new_vars[k] = v
        else:
            # value of the last iteration (if any)
            new_vars[k] = _LastIter(v, i, n, pre_vars.get(k, _UNDEF), depends)
    # lists: append-map
    for id_, l in lists.items():
        b, a2 = lb[id_], la[id_]
        if isinstance(l, dict):
            if len(a2) != len(b) or any(a2.get(k) is not b.get(k) for k in b):
                for k in a2:
                    if k in b and a2[k] is not b[k]:
                        raise Unsupported('dict store in a symbolic loop')
                new = [(k.key if isinstance(k, KeyBox) else k, v) for k, v in a2.items() if k not in b]
                if b or len(new) != 1 or any(val_depends(x, depends) for x in new[0]):
                    raise Unsupported('dict store in a symbolic loop')
                kv = new[0]
                replace_list(env, new_vars, l, S.SDict(SList(n, lambda k, kv=kv: tuple(subst_val(x, {i: k}) for x in kv))))
            continue
        if len(a2) == len(b):
            continue
        items = a2[len(b):]
        for it in items:
            if val_depends(it, depends):
                raise Unsupported('appended value depends on loop state')
        if len(items) != 1:
            raise Unsupported('several appends per iteration')
        if b:
            raise Unsupported('append to a non-empty list in a symbolic loop')
        it = items[0]
        if isinstance(it, CondItem):
            sl = S.SFilt(n, lambda k, it=it: tm.subst(it.cond, {i: k}), lambda k, it=it: subst_val(it.item, {i: k}))
        else:
            sl = SList(n, lambda k, it=it: subst_val(it, {i: k}))
        replace_list(env, new_vars, l, sl)
    # arrays
    for a in old_arrays:
        hn = hnames[id(a)]
        ks = [tm.fresh('d') for _ in a.shp]
        n0 = len(st().ctx)
        st().ctx.append(tm.band(tm.le(ZERO, i), tm.lt(i, n)))
        for k, sdim in zip(ks, a.shp):
            st().ctx.append(tm.band(tm.le(ZERO, k), tm.lt(k, sdim)))
        try:
            v = fin[id(a)](tuple(ks)) if id(a) in fin else None
        finally:
            del st().ctx[n0:]
        if v is None:
            continue
        apply_array_summary(a, v, ks, i, n, hn, allh, accs, depends)
    env.vars = new_vars
    block(s.orelse, env)


_UNDEF = object()
LOOPVARS = []           # counters of the symbolic loops being summarised


class _LastIter:
    """lazy value of a variable after the loop (value of the last iteration)"""

    def __init__(self, v, i, n, init, depends):
        self.v, self.i, self.n, self.init, self.depends = v, i, n, init, depends

    def force(self):
        if val_depends(self.v, self.depends):
            raise Unsupported('use of a loop-carried variable after the loop')
        if st().decide(tm.lt(ZERO, self.n)):
            return subst_val(self.v, {self.i: tm.sub(self.n, ONE)})
        if self.init is _UNDEF:
            raise Raised(NameError('loop variable undefined'))
        return self.init


def val_depends(v, depends):
    if isinstance(v, SNum):
        return depends(v.t) or depends(v.nan) or depends(v.pinf) or depends(v.ninf)
    if isinstance(v, (SBool, SLab, S.STime)):
        return depends(v.t)
    if isinstance(v, S.SDelta):
        return depends(v.t)
    if isinstance(v, S.SCplx):
        return val_depends(v.re, depends) or val_depends(v.im, depends)
    if isinstance(v, (list, tuple)):
        return any(val_depends(x, depends) for x in v)
    if isinstance(v, SArr):
        ks = [tm.fresh('d') for _ in v.shp]
        n0 = len(st().ctx)
        for k, s in zip(ks, v.shp):
            st().ctx.append(tm.band(tm.le(ZERO, k), tm.lt(k, s)))
        try:
            return val_depends(v.get(*ks), depends)
        finally:
            del st().ctx[n0:]
    if isinstance(v, SSeries):
        return val_depends(v.arr, depends)
    if isinstance(v, CondItem):
        return depends(v.cond) or val_depends(v.item, depends)
    if isinstance(v, Sym):
        raise Unsupported('loop value %s' % type(v).__name__)
    return False


def apply_array_summary(a, v, ks, i, n, hn, allh, accs, depends):
    """v: element (at ks) after iteration i, from havocked element h = hn(ks)"""
    def only_self(t):
        for x in tm.atoms(t):
            if x.op == 'app' and x.args[0] in allh:
                if x.args[0] != hn or tuple(x.args[1:]) != tuple(ks):
                    raise Unsupported('loop reads other elements of the array it writes')
        if any(x in t.fv for x in accs):
            raise Unsupported('array store depends on a loop accumulator')
    h = tm.app(hn, tuple(ks), {'b': 'B', 'O': 'L'}.get(a.dtype_, 'R'))
    rng = tm.band(*[tm.band(tm.le(ZERO, k), tm.lt(k, d)) for k, d in zip(ks, a.shp)])
    if isinstance(v, (SNum, SBool, SLab)):
        v = _assume_val(v, rng, h)
    if isinstance(v, SNum):
        for t in (v.t, v.nan, v.pinf, v.ninf):
            only_self(t)
        # A + B*h
        A, B = {}, {}
        for m, c in tm.pdict(v.t).items():
            dm = dict(m)
            e = dm.pop(h, 0)
            mm = tuple(sorted(dm.items(), key=lambda p: p[0].id))
            if e == 0:
                A[m] = c
            elif e == 1:
                B[mm] = c
            else:
                raise Unsupported('non-linear loop update')
        A, B = tm.from_pdict(A), tm.from_pdict(B)
        if h in A.fv or any(x is h for x in tm.atoms(A)) or any(x is h for x in tm.atoms(B)):
            raise Unsupported('loop update through a condition on the array itself')
        if B is ONE:
            if v.flagged:
                raise Unsupported('accumulation of special values')
            old = a.snapshot()
            kk = tuple(ks)
            tot = tm.mk_sum(n, i, A)
            a.store(lambda idx: (TRUE, idx), lambda vi: scalar(old(vi)) + SNum(tm.subst(tot, dict(zip(kk, vi)))))
            return
        C = tm.sub(ONE, B)
        if C is ONE:
            c = TRUE
        else:
            c = ind_cond(C)
        val = SNum(A, v.nan, v.pinf, v.ninf, v.kind)        # B = 0 where c holds
    elif isinstance(v, (SBool, SLab)):
        only_self(v.t)
        c, val = cond_of(v, h)
    else:
        raise Unsupported('loop store of %s' % type(v).__name__)
    # which iteration writes element ks last?
    istar = None
    for x in ([c] if c.op != 'and' else c.args):
        if x.op == 'eq0':
            istar = tm.solve(x.args[0], i)
            if istar is not None:
                break
    kk = tuple(ks)
    old = a.snapshot()
    if istar is not None:
        cc = tm.band(tm.le(ZERO, istar), tm.lt(istar, n), tm.subst(c, {i: istar}))
        vv = subst_val(_assume_val(val, c, h), {i: istar})
    else:
        vv = _assume_val(val, c, h)
        bad = [t for t in ([vv.t, vv.nan, vv.pinf, vv.ninf] if isinstance(vv, SNum) else [vv.t]) if i in t.fv]
        if bad:
            raise Unsupported('last-writer of a loop store not determined')
        cc = tm.bnot(tm.mk_all(n, i, tm.bnot(c)))
    for t in ([vv.t, vv.nan, vv.pinf, vv.ninf] if isinstance(vv, SNum) else [vv.t]):
        if any(x is h for x in tm.atoms(t)):
            raise Unsupported('loop store reads its own target')

    def selfn(idx):
        return tm.subst(cc, dict(zip(kk, idx))), idx
    a.store(selfn, lambda vi: subst_val(vv, dict(zip(kk, vi))))


def _assume_val(v, c, h):
    """value under condition c"""
    from . import smt
    hy = smt.flat([c])
    f = lambda t: smt.ind_assume(hy, t)
    if isinstance(v, SNum):
        return SNum(f(v.t), f(v.nan), f(v.pinf), f(v.ninf), v.kind)
    return type(v)(f(v.t))


def ind_cond(C):
    pd_ = tm.pdict(C)
    if len(pd_) == 1:
        (m, c), = pd_.items()
        if c == 1 and m and all(a.op == 'ind' for a, e in m):
            return tm.band(*[a.args[0] for a, e in m])
    # 1 - ind(x)*... etc.: try negation
    pd2 = tm.pdict(tm.sub(ONE, C))
    if len(pd2) == 1:
        (m, c), = pd2.items()
        if c == 1 and m and all(a.op == 'ind' for a, e in m):
            return tm.bnot(tm.band(*[a.args[0] for a, e in m]))
    # common * (sum of exclusive indicators)
    if pd_ and all(m and all(a.op == 'ind' for a, e in m) for m in pd_):
        common = [a for a in {a for m in pd_ for a, e in m} if all(any(a is x for x, e in m) for m in pd_)]
        rest = tm.bor(*[tm.band(*[a.args[0] for a, e in m if a not in common]) for m, c in pd_.items() if c > 0])
        c = tm.band(*[a.args[0] for a in sorted(common, key=lambda a: a.id)], rest)
        if st().implied(tm.eq(C, tm.ite(c, ONE, tm.ZERO))):
            return c
    raise Unsupported("loop store condition: " + tm.show(C)[:600])


def cond_of(v, h):
    if isinstance(v, SLab):
        t = v.t
        if t.op == 'liteL' and t.args[2] is h:
            return t.args[0], SLab(t.args[1])
        if t.op == 'liteL' and t.args[1] is h:
            return tm.bnot(t.args[0]), SLab(t.args[2])
        if not any(x is h for x in tm.atoms(t)):
            return TRUE, v
    else:
        if not any(x is h for x in tm.atoms(v.t)):
            return TRUE, v
    raise Unsupported('loop store form')


def uniq(xs):
    out = []
    for x in xs:
        if not any(x is y for y in out):
            out.append(x)
    return out


def collect_lists(vals, out, d=0):
    for v in vals:
        if isinstance(v, (list, dict)) and id(v) not in out:
            if isinstance(v, dict) and '__builtins__' in v:
                continue
            out[id(v)] = v
            if d < 2:
                collect_lists(v.values() if isinstance(v, dict) else v, out, d + 1)


def replace_list(env, new_vars, l, sl):
    hit = False
    for k, v in list(new_vars.items()):
        if v is l:
            new_vars[k] = sl
            hit = True
    if not hit:
        raise Unsupported('append to a list that is not a local variable')


def reads_before_write(body, name):
    """conservative: is `name` possibly read before being written in one iteration?"""
    for s in body:
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == name:
            return True
        reads = any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load) for n in ast.walk(s))
        if reads:
            return True
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
            return False
        if isinstance(s, (ast.If, ast.For, ast.While, ast.Try, ast.With)):
            if any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(s)):
                return True
        if isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and any(isinstance(x, ast.Name) and x.id == name for x in t.elts):
                    return False
    return True


def s_return(s, env):
    raise _Return(ev(s.value, env) if s.value is not None else None)


def s_raise(s, env):
    if s.exc is None:
        raise Raised(env.vars.get('__exc__') or RuntimeError('re-raise'))
    e = ev(s.exc, env)
    if isinstance(e, type):
        e = e()
    raise Raised(e)


def s_assert(s, env):
    if not truth(ev(s.test, env)):
        raise Raised(AssertionError())


def s_try(s, env):
    try:
        block(s.body, env)
    except Raised as r:
        for h in s.handlers:
            ok = True
            if h.type is not None:
                t = ev(h.type, env)
                ok = isinstance(r.exc, t)
            if ok:
                if h.name:
                    env.vars[h.name] = r.exc
                env.vars['__exc__'] = r.exc
                block(h.body, env)
                break
        else:
            block(s.finalbody, env)
            raise
    else:
        block(s.orelse, env)
    block(s.finalbody, env)


def s_with(s, env):
    for it in s.items:
        v = ev(it.context_expr, env)
        if it.optional_vars is not None:
            if isinstance(v, Sym):
                raise Unsupported('with ... as')
            assign(it.optional_vars, v, env)
    block(s.body, env)


def s_import(s, env):
    import importlib
    if isinstance(s, ast.Import):
        for a in s.names:
            m = importlib.import_module(a.name)
            env.vars[a.asname or a.name.split('.')[0]] = m if a.asname else importlib.import_module(a.name.split('.')[0])
    else:
        m = importlib.import_module(s.module)
        for a in s.names:
            env.vars[a.asname or a.name] = getattr(m, a.name)


def s_funcdef(s, env):
    f = SFunc(s, env.glob, env, s.name)
    f.defaults = [ev(d, env) for d in s.args.defaults]
    env.vars[s.name] = f


def s_pass(s, env):
    pass


def s_break(s, env):
    raise _Break()


def s_continue(s, env):
    raise _Continue()


def s_global(s, env):
    for n in s.names:
        env.nonlocal_.add(n)


def s_delete(s, env):
    for t in s.targets:
        if isinstance(t, ast.Name):
            env.vars.pop(t.id, None)
        else:
            raise Unsupported('del')


_STMT = {ast.Expr: s_expr, ast.Assign: s_assign, ast.AugAssign: s_augassign, ast.If: s_if, ast.For: s_for, ast.While: s_while,
         ast.Return: s_return, ast.Raise: s_raise, ast.Assert: s_assert, ast.Try: s_try, ast.With: s_with, ast.Import: s_import,
         ast.ImportFrom: s_import, ast.FunctionDef: s_funcdef, ast.Pass: s_pass, ast.Break: s_break, ast.Continue: s_continue,
         ast.Global: s_global, ast.Nonlocal: s_global, ast.AnnAssign: s_annassign, ast.Delete: s_delete}

_BIN = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'div', ast.FloorDiv: 'floordiv', ast.Mod: 'mod', ast.Pow: 'pow',
        ast.BitAnd: 'and', ast.BitOr: 'or', ast.BitXor: 'xor', ast.MatMult: 'matmul'}
_CMP = {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge', ast.Eq: 'eq', ast.NotEq: 'ne'}


def binary(op, a, b):
    if op == 'matmul':
        return call(np.matmul, (a, b), {})
    a, b = force(a), force(b)
    f = S._py(op)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and op == 'add':
        return a + b
    if isinstance(a, SList) and isinstance(b, (list, tuple)) and not b:
        return a
    if isinstance(b, SStr if False else S.SStr) or isinstance(a, S.SStr):
        return f(a, b)
    if isinstance(a, str) and op == 'mod' and has_sym(b):
        return '<sym>'
    if isinstance(a, str) and isinstance(b, SLab) and op == 'add':
        return strcat([tm.lit(a), b.t])
    if isinstance(b, str) and isinstance(a, SLab) and op == 'add':
        return strcat([a.t, tm.lit(b)])
    for x, y in ((a, b), (b, a)):
        # a sequence combined with a numpy number is an array
        if isinstance(x, (tuple, list)) and isinstance(y, SNum) and not y.py and (op in ('div', 'sub', 'add', 'pow') or op == 'mul' and y.kind == 'f'):
            return binary(op, S.as_arr(a) if x is a else a, S.as_arr(b) if x is b else b)
    if isinstance(a, np.ndarray) and isinstance(b, Sym):
        return binary(op, S.const_arr(a), b)
    if isinstance(b, np.ndarray) and isinstance(a, Sym) and not isinstance(a, (SSeries, SFrame)):
        return binary(op, a, S.const_arr(b))
    if isinstance(a, (pd.Series, pd.DataFrame)) and isinstance(b, Sym):
        return binary(op, S.wrap_pd(a), b)
    if isinstance(a, pd.Timestamp) and isinstance(b, Sym) or isinstance(a, pd.Timedelta) and isinstance(b, Sym):
        a = S.scalar(a)
    if isinstance(b, pd.Timestamp) and isinstance(a, Sym) or isinstance(b, pd.Timedelta) and isinstance(a, Sym):
        b = S.scalar(b)
    try:
        r = f(a, b)
    except (Unsupported, Raised, S.PathEnd):
        raise
    except TypeError as e:
        if has_sym(a) or has_sym(b):
            raise Unsupported('operator %s on %s, %s: %s' % (op, type(a).__name__, type(b).__name__, e))
        raise Raised(e)
    except Exception as e:
        if has_sym(a) or has_sym(b):
            raise Unsupported(repr(e))
        raise Raised(e)
    return r


def force(v):
    if isinstance(v, _LastIter):
        return v.force()
    return v


# ---------------------------------------------------------------- expressions
def ev(e, env):
    m = _EXPR.get(type(e))
    if m is None:
        raise Unsupported('expression %s at line %d' % (type(e).__name__, e.lineno))
    return m(e, env)


def e_const(e, env):
    return e.value


def e_name(e, env):
    v = env.get(e.id)
    if isinstance(v, _LastIter):
        v = v.force()
        env.vars[e.id] = v
    return v


def e_binop(e, env):
    return binary(_BIN[type(e.op)], ev(e.left, env), ev(e.right, env))


def e_unary(e, env):
    v = ev(e.operand, env)
    if isinstance(e.op, ast.Not):
        if isinstance(v, SBool):
            return SBool(tm.bnot(v.t))
        t = truth_term(v)
        return SBool(tm.bnot(t)) if t not in (TRUE, FALSE) else t is FALSE
    try:
        if isinstance(e.op, ast.USub):
            return -v
        if isinstance(e.op, ast.UAdd):
            return +v
        return ~v
    except (Unsupported, Raised):
        raise
    except Exception as ex:
        if has_sym(v):
            raise Unsupported(repr(ex))
        raise Raised(ex)


def e_boolop(e, env):
    isand = isinstance(e.op, ast.And)
    v = None
    for j, x in enumerate(e.values):
        v = ev(x, env)
        if j == len(e.values) - 1:
            return v
        t = truth_term(v)
        if t not in (TRUE, FALSE) and any(b in st().binders() for b in t.fv) and not st().implied(t) and not st().implied(tm.bnot(t)):
            # loop-dependent: combine symbolically
            rest = ast.BoolOp(op=e.op, values=e.values[j + 1:]) if len(e.values) - j - 1 > 1 else e.values[j + 1]
            st().ctx.append(t if isand else tm.bnot(t))
            try:
                w = truth_term(ev(rest, env))
            finally:
                st().ctx.pop()
            return SBool(tm.band(t, w) if isand else tm.bor(t, w))
        b = st().decide(t)
        if isand and not b or not isand and b:
            return v
    return v


def e_compare(e, env):
    left = ev(e.left, env)
    res = None
    for op, c in zip(e.ops, e.comparators):
        right = ev(c, env)
        r = compare(op, left, right)
        if res is None:
            res = r
        else:
            if isinstance(res, (SBool, bool, np.bool_)) and isinstance(r, (SBool, bool, np.bool_)):
                res = SBool(tm.band(bool_t(res), bool_t(r)))
            else:
                if not truth(res):
                    return res
                res = r
        left = right
    if isinstance(res, SBool) and res.t in (TRUE, FALSE):
        return res.t is TRUE
    return res


def compare(op, a, b):
    if isinstance(op, ast.Is):
        if b is None or a is None:
            return a is b
        return _is(a, b)
    if isinstance(op, ast.IsNot):
        if b is None or a is None:
            return a is not b
        return not _is(a, b)
    if isinstance(op, (ast.In, ast.NotIn)):
        r = contains(b, a)
        if isinstance(op, ast.NotIn):
            r = SBool(tm.bnot(r.t)) if isinstance(r, SBool) else not r
        return r
    o = _CMP[type(op)]
    if isinstance(a, Sym) or isinstance(b, Sym):
        if o in ('eq', 'ne') and (isinstance(a, (str, enum.Enum, type(None))) or isinstance(b, (str, enum.Enum, type(None)))):
            x, y = (a, b) if isinstance(a, Sym) else (b, a)
            if isinstance(x, (SNum, SBool)):
                return o == 'ne'
            if isinstance(x, SArr) and x.dtype_ == 'O' or isinstance(x, (SLab,)):
                pass
        return binary(o, a, b)
    return binary(o, a, b)


def _is(a, b):
    if isinstance(a, TypeOf) or isinstance(b, TypeOf):
        x = a.c if isinstance(a, TypeOf) else a
        y = b.c if isinstance(b, TypeOf) else b
        return x is y
    return a is b


def contains(c, x):
    if isinstance(c, (list, tuple, set)):
        if not isinstance(x, Sym):
            if isinstance(c, set):
                return x in c
            cs = [y for y in c]
            if not any(isinstance(y, Sym) for y in cs):
                try:
                    return x in c
                except Exception as e:
                    raise Raised(e)
        r = FALSE
        for y in c:
            q = compare(ast.Eq(), x, y)
            r = tm.bor(r, bool_t(q))
        return SBool(r) if r not in (TRUE, FALSE) else r is TRUE
    if isinstance(c, dict):
        if isinstance(x, Sym):
            raise Unsupported('symbolic key lookup')
        return x in c
    if isinstance(c, SFrame):
        return contains(c.columns, x)
    if isinstance(c, S.SDict):
        return contains(c.keys(), x)
    if isinstance(c, SSeries):
        return contains(c.index, x)
    if isinstance(c, SIndex):
        conc = getattr(c, 'concrete', None)
        if conc is not None and not isinstance(x, Sym):
            return x in conc
        with over(c.n, 'in') as k:
            t = S.eq_t(c.f(k), x)
        r = tm.bnot(tm.mk_all(c.n, k, tm.bnot(t)))
        return SBool(r)
    if isinstance(c, (SList, SArr)):
        a = c.arr() if isinstance(c, SList) else c
        with over(a.shp[0], 'in') as k:
            t = S.eq_t(a.get(k), x)
        return SBool(tm.bnot(tm.mk_all(a.shp[0], k, tm.bnot(t))))
    if has_sym(x):
        raise Unsupported('membership test')
    try:
        return x in c
    except Exception as e:
        raise Raised(e)


def e_call(e, env):
    # vars() / locals() style introspection is not modelled
    fn = ev(e.func, env)
    args = []
    for a in e.args:
        if isinstance(a, ast.Starred):
            v = ev(a.value, env)
            it = iterate(v)
            if isinstance(it, SList):
                raise Unsupported('star-args of symbolic length')
            args.extend(it)
        else:
            args.append(ev(a, env))
    kw = {}
    for k in e.keywords:
        if k.arg is None:
            d = ev(k.value, env)
            kw.update(d)
        else:
            kw[k.arg] = ev(k.value, env)
    if fn is builtins.vars or fn is builtins.locals:
        raise Unsupported('vars()')
    try:
        return call(fn, args, kw)
    except Raised as r:
        if not hasattr(r, 'line'):
            r.line = e.lineno
        raise


def e_attr(e, env):
    return get_attr(ev(e.value, env), e.attr)


def get_attr(o, a):
    if isinstance(o, TypeOf):
        return getattr(o.c, a)
    if isinstance(o, SFunc):
        raise Unsupported('function attribute')
    if isinstance(o, SFrame) and not hasattr(type(o), a) and a not in o.__dict__:
        conc = getattr(o.columns, 'concrete', None)
        if conc is not None and a in conc and not hasattr(pd.DataFrame, a):
            return o[a]
    if isinstance(o, Sym):
        if hasattr(o, a):
            return getattr(o, a)
        c = o._cls
        if hasattr(c, a):
            raise Unsupported('%s.%s not modelled' % (c.__name__, a))
        raise Raised(AttributeError("'%s' object has no attribute '%s'" % (c.__name__, a)))
    try:
        return getattr(o, a)
    except AttributeError as ex:
        raise Raised(ex)


def subscript_key(s, env):
    if isinstance(s, ast.Tuple):
        return tuple(subscript_key(x, env) for x in s.elts)
    if isinstance(s, ast.Slice):
        f = lambda x: None if x is None else ev(x, env)
        return slice(f(s.lower), f(s.upper), f(s.step))
    return ev(s, env)


def e_subscript(e, env):
    return load_item(ev(e.value, env), subscript_key(e.slice, env))


def load_item(o, k):
    o = force(o)
    if isinstance(o, Sym) or isinstance(o, (S._Loc, S._ILoc)):
        if not hasattr(type(o), '__getitem__'):
            if isinstance(o, (SNum, SBool)):
                raise Raised(IndexError('invalid index to scalar variable.') if not getattr(o, 'py', False) else TypeError('not subscriptable'))
            raise Unsupported('indexing %s' % type(o).__name__)
        return o[k]
    if isinstance(o, np.ndarray) and has_sym(k):
        return S.const_arr(o)[k]
    if isinstance(o, (list, tuple)) and has_sym(k):
        if isinstance(k, slice):
            raise Unsupported('symbolic slice of a list')
        i = S.norm_index(k, tm.num(len(o)))
        r = o[-1]
        for j in range(len(o) - 2, -1, -1):
            r = merge(tm.eq(i, tm.num(j)), o[j], r)
        return r
    if has_sym(k) and isinstance(o, (pd.Series, pd.DataFrame)):
        return S.wrap_pd(o)[k]
    if has_sym(k) and isinstance(o, pd.Index):
        return S.cindex(o)[k]
    if has_sym(k) and isinstance(o, dict):
        raise Unsupported('symbolic dict key')
    try:
        return o[k]
    except (Raised, Unsupported):
        raise
    except Exception as ex:
        raise Raised(ex)


def e_tuple(e, env):
    out = []
    for x in e.elts:
        if isinstance(x, ast.Starred):
            out.extend(iterate(ev(x.value, env)))
        else:
            out.append(ev(x, env))
    return tuple(out) if isinstance(e, ast.Tuple) else out if isinstance(e, ast.List) else set(out)


def e_dict(e, env):
    d = {}
    for k, v in zip(e.keys, e.values):
        if k is None:
            d.update(ev(v, env))
        else:
            kk = ev(k, env)
            if isinstance(kk, Sym):
                raise Unsupported('symbolic dict key')
            d[kk] = ev(v, env)
    return d


def e_ifexp(e, env):
    c = ev(e.test, env)
    t = truth_term(c)
    if t not in (TRUE, FALSE) and any(b in st().binders() for b in t.fv) and not st().implied(t) and not st().implied(tm.bnot(t)):
        st().ctx.append(t)
        try:
            a = ev(e.body, env)
        finally:
            st().ctx.pop()
        st().ctx.append(tm.bnot(t))
        try:
            b = ev(e.orelse, env)
        finally:
            st().ctx.pop()
        return merge(t, a, b)
    return ev(e.body if st().decide(t) else e.orelse, env)


def comp(gens, env, leaf):
    """list comprehension -> python list or SList"""
    g = gens[0]
    seq = iterate(ev(g.iter, env))
    inner = Env(env.glob, env)
    if isinstance(seq, SList):
        if len(gens) > 1:
            raise Unsupported('nested symbolic comprehension')
        k = tm.fresh('c')
        w0 = len(st().writes)
        st().ctx.append(tm.band(tm.le(ZERO, k), tm.lt(k, seq.n)))
        try:
            if st().implied(FALSE):
                pass
            assign(g.target, seq.f(k), inner)
            cond = tm.band(*[truth_term(ev(c, inner)) for c in g.ifs])
            st().ctx.append(cond)
            try:
                v = leaf(inner)
            finally:
                st().ctx.pop()
            keep_all = cond is TRUE or st().implied(cond)
        finally:
            st().ctx.pop()
        if len(st().writes) > w0:
            raise Unsupported('side effects in a comprehension')
        if not keep_all:
            return S.SFilt(seq.n, lambda j: tm.subst(cond, {k: j}), lambda j: subst_val(v, {k: j}))
        return SList(seq.n, lambda j: subst_val(v, {k: j}))
    out = []
    for x in seq:
        assign(g.target, x, inner)
        ok = True
        for c in g.ifs:
            if not truth(ev(c, inner)):
                ok = False
                break
        if not ok:
            continue
        if len(gens) > 1:
            r = comp(gens[1:], inner, leaf)
            if isinstance(r, SList):
                raise Unsupported('nested symbolic comprehension')
            out.extend(r)
        else:
            out.append(leaf(inner))
    return out


def e_listcomp(e, env):
    return comp(e.generators, env, lambda en: ev(e.elt, en))


def e_dictcomp(e, env):
    r = comp(e.generators, env, lambda en: (ev(e.key, en), ev(e.value, en)))
    if isinstance(r, SList):
        return S.SDict(r)
    if any(isinstance(k, Sym) for k, _ in r):
        raise Unsupported('symbolic dict key')
    return dict(r)


def e_lambda(e, env):
    f = SFunc(e, env.glob, env, '<lambda>')
    f.defaults = [ev(d, env) for d in e.args.defaults]
    return f


def strcat(ts):
    """concatenation of labels; adjacent constants are joined"""
    out = []
    for t in ts:
        for u in t.args[1:] if t.op == 'app' and t.args[0] == 'strcat' else (t,):
            if out and all(x.op == 'lit' and isinstance(x.args[0][2], str) for x in (out[-1], u)):
                out[-1] = tm.lit(out[-1].args[0][2] + u.args[0][2])
            else:
                out.append(u)
    if len(out) == 1 and out[0].op == 'lit':
        return SLab(out[0])
    return SLab(tm.app('strcat', tuple(out), 'L'))


def e_joined(e, env):
    parts = []
    for v in e.values:
        if isinstance(v, ast.Constant):
            parts.append(v.value)
        else:
            x = ev(v.value, env)
            if isinstance(x, SLab):
                parts.append(x)
            elif isinstance(x, SNum):
                parts.append(x)
            elif isinstance(x, Sym) or has_sym(x):
                parts.append('<sym>')
            else:
                spec = ev(v.format_spec, env) if v.format_spec else ''
                c = {115: str, 114: repr, 97: ascii}.get(v.conversion, lambda q: q)
                try:
                    parts.append(format(c(x), spec))
                except Exception as ex:
                    raise Raised(ex)
    if all(isinstance(p, str) for p in parts):
        return ''.join(parts)
    if any(isinstance(p, SNum) for p in parts):
        return S.SStr(tuple(p.t if isinstance(p, SNum) else p for p in parts))
    ts = [p.t if isinstance(p, SLab) else tm.lit(p) for p in parts]
    return strcat(ts)


_EXPR = {ast.Constant: e_const, ast.Name: e_name, ast.BinOp: e_binop, ast.UnaryOp: e_unary, ast.BoolOp: e_boolop, ast.Compare: e_compare,
         ast.Call: e_call, ast.Attribute: e_attr, ast.Subscript: e_subscript, ast.Tuple: e_tuple, ast.List: e_tuple, ast.Set: e_tuple,
         ast.Dict: e_dict, ast.IfExp: e_ifexp, ast.ListComp: e_listcomp, ast.GeneratorExp: e_listcomp, ast.DictComp: e_dictcomp,
         ast.Lambda: e_lambda, ast.JoinedStr: e_joined,
         ast.Slice: lambda e, env: subscript_key(e, env)}


class TypeOf:
    """type(x) of a symbolic value"""

    def __init__(self, c):
        self.c = c

    def __eq__(self, o):
        return (o.c if isinstance(o, TypeOf) else o) is self.c

    def __hash__(self):
        return hash(self.c)

    @property
    def __name__(self):
        return self.c.__name__
