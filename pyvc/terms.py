"""Hash-consed term language with a canonical (polynomial / indicator / sum) normal form.

Sorts: 'R' real, 'I' int (integers are reals whose value is integral), 'B' bool, 'L' label (opaque value).
Every numeric term is kept in normal form by the smart constructors below:
    const | atom | poly(sum of coeff * product(atom ** int))
An if-then-else is  b + ind(c) * (a - b)  with  ind(c) ** 2 = ind(c),  so sums over guarded bodies
become linear combinations of canonical SUM atoms.
"""
from fractions import Fraction
import math

_tab = {}
_fresh = [0]


class T:
    __slots__ = ('op', 'args', 'sort', 'id', 'h', 'fv', '_pd')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __bool__(self):
        raise TypeError('truth value of a term')


def _mk(op, args, sort):
    key = (op, sort, tuple((a.id, 0) if isinstance(a, T) else a for a in args))
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.args, t.sort = op, args, sort
    t.id = len(_tab) + 1
    h = 0
    fv = frozenset()
    for a in _subterms(op, args):
        if a.h > h:
            h = a.h
        if a.fv:
            fv = fv | a.fv
    if op == 'lam':
        fv = frozenset(x for x in fv if x is not _bv(args[0], args[2]))
        h = args[0]
    if op in ('var', 'bv'):
        fv = frozenset([t])
    t.h, t.fv = h, fv
    t._pd = None
    _tab[key] = t
    return t


def _subterms(op, args):
    if op == 'poly':
        for mono, _c in args:
            for a, _e in mono:
                yield a
    else:
        for a in args:
            if isinstance(a, T):
                yield a


def children(t):
    return list(_subterms(t.op, t.args))


# poly needs its own key: args are nested tuples containing T
def _mkpoly(items):
    key = ('poly', tuple((tuple((a.id, e) for a, e in m), c) for m, c in items))
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.args = 'poly', items
    isint = True
    h = 0
    fv = frozenset()
    for m, c in items:
        if c.denominator != 1:
            isint = False
        for a, e in m:
            if a.sort != 'I' or e < 0:
                isint = False
            if a.h > h:
                h = a.h
            if a.fv:
                fv = fv | a.fv
    t.sort = 'I' if isint else 'R'
    t.id = len(_tab) + 1
    t.h, t.fv = h, fv
    t._pd = None
    _tab[key] = t
    return t


TRUE = _mk('true', (), 'B')
FALSE = _mk('false', (), 'B')


def num(v):
    if isinstance(v, T):
        return v
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float):
        if math.isnan(v) or math.isinf(v):
            raise ValueError('non finite constant')
        v = Fraction(repr(v)) if abs(v) < 1e15 else Fraction(v)
    else:
        try:
            v = Fraction(v)
        except TypeError:
            v = Fraction(repr(float(v)))
    return _mk('num', (v,), 'I' if v.denominator == 1 else 'R')


ZERO = num(0)
ONE = num(1)


def var(name, sort='R'):
    return _mk('var', (name,), sort)


def fresh(prefix='k', sort='I'):
    _fresh[0] += 1
    return _mk('var', ('%s!%d' % (prefix, _fresh[0]),), sort)


def _bv(level, sort='I'):
    return _mk('bv', (level,), sort)


def lit(v):
    """label constant (python hashable value)"""
    return _mk('lit', (('L', type(v).__name__, v),), 'L')


def is_num(t):
    return t.op == 'num'


def numval(t):
    return t.args[0] if t.op == 'num' else None


# ---------------------------------------------------------------- polynomials
def pdict(t):
    """canonical dict {mono: coeff} of a numeric term"""
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == 'poly':
        if t._pd is None:
            t._pd = dict(t.args)
        return t._pd
    return {((t, 1),): Fraction(1)}


def from_pdict(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    return _mkpoly(tuple(items))


def add(*ts):
    d = {}
    for t in ts:
        for m, c in pdict(t).items():
            v = d.get(m, 0) + c
            if v == 0:
                d.pop(m, None)
            else:
                d[m] = v
    return from_pdict(d)


def scale(t, c):
    c = Fraction(c)
    if c == 0:
        return ZERO
    return from_pdict({m: k * c for m, k in pdict(t).items()})


def neg(t):
    return scale(t, -1)


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


def _mono_mul(m1, m2):
    """product of two monomials -> (dict) polynomial"""
    if not m1:
        return {m2: Fraction(1)}
    if not m2:
        return {m1: Fraction(1)}
    ex = {}
    for a, e in m1:
        ex[a] = ex.get(a, 0) + e
    for a, e in m2:
        ex[a] = ex.get(a, 0) + e
    return _mono_norm(ex)


def _mono_norm(ex):
    extra = []
    expo = []
    out = {}
    for a, e in ex.items():
        if e == 0:
            continue
        if a.op == 'ind':
            if e > 0:
                out[a] = 1
                continue
        elif a.op == 'inv' and e < 0:
            extra.append((a.args[0], -e))
            continue
        elif a.op == 'app':
            f = a.args[0]
            if f == 'sqrt' and abs(e) >= 2:
                q, r = (e // 2, e % 2) if e > 0 else (-((-e) // 2), -((-e) % 2))
                extra.append((a.args[1], q))
                if r:
                    out[a] = r
                continue
            if f == 'abs' and abs(e) >= 2:
                q = e - e % 2 if e > 0 else e + (-e) % 2
                extra.append((a.args[1], q))
                if e - q:
                    out[a] = out.get(a, 0) + e - q
                continue
            if f == 'sin' and e >= 2:
                c = app('cos', (a.args[1],), 'R')
                extra.append((sub(ONE, power(c, 2)), e // 2))
                if e % 2:
                    out[a] = 1
                continue
            if f == 'exp':
                expo.append(scale(a.args[1], e))
                continue
        out[a] = e
    if expo:
        s = add(*expo)
        if s is not ZERO:
            e1 = _mk('app', ('exp', s), 'R')
            out[e1] = out.get(e1, 0) + 1
    mono = tuple(sorted(((a, e) for a, e in out.items()), key=lambda p: p[0].id))
    res = {mono: Fraction(1)}
    if extra:
        t = from_pdict(res)
        for b, e in extra:
            t = mul(t, power(b, e))
        return pdict(t)
    return res


def mul(*ts):
    r = ONE
    for t in ts:
        r = _mul2(r, t)
    return r


def _mul2(a, b):
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a is ZERO or b is ZERO:
        return ZERO
    if a.op == 'num':
        return scale(b, a.args[0])
    if b.op == 'num':
        return scale(a, b.args[0])
    d = {}
    for m1, c1 in pdict(a).items():
        for m2, c2 in pdict(b).items():
            for m, c in _mono_mul(m1, m2).items():
                v = d.get(m, 0) + c * c1 * c2
                if v == 0:
                    d.pop(m, None)
                else:
                    d[m] = v
    return from_pdict(d)


def power(a, e):
    e = int(e)
    if e == 0:
        return ONE
    if e == 1:
        return a
    if e < 0:
        return inv(power(a, -e))
    pd = pdict(a)
    if len(pd) == 1:
        (m, c), = pd.items()
        ex = {x: k * e for x, k in m}
        return scale(from_pdict(_mono_norm(ex)), c ** e)
    r = a
    for _ in range(e - 1):
        r = _mul2(r, a)
    return r


def inv(a):
    """1/a (meaning fixed only where a != 0; callers carry the division-by-zero flag)"""
    if a.op == 'num':
        if a.args[0] == 0:
            return _mk('app', ('inv0',), 'R')
        return num(1 / a.args[0])
    pd = pdict(a)
    if len(pd) == 1:
        (m, c), = pd.items()
        if not any(x.op == 'ind' for x, _ in m):
            ex = {x: -k for x, k in m}
            return scale(from_pdict(_mono_norm(ex)), 1 / c)
    # common monomial factor and leading coefficient pulled out
    lead = a.args[0][1]
    common = None
    for m, c in a.args:
        dm = dict(m)
        if common is None:
            common = dict(dm)
        else:
            common = {x: min(k, dm[x]) for x, k in common.items() if x in dm and (k > 0) == (dm[x] > 0)}
    common = {x: k for x, k in (common or {}).items() if x.op != 'ind' and k > 0}
    if common:
        cm = from_pdict({tuple(sorted(common.items(), key=lambda p: p[0].id)): Fraction(1)})
        rest = from_pdict({_mono_div(m, common): c for m, c in a.args})
        return mul(inv(cm), inv(rest))
    base = scale(a, 1 / lead)
    return scale(_mk('inv', (base,), 'R'), 1 / lead)


def _mono_div(m, common):
    d = dict(m)
    for x, k in common.items():
        d[x] = d[x] - k
    return tuple(sorted(((x, k) for x, k in d.items() if k), key=lambda p: p[0].id))


def div(a, b):
    if a is b and a is not ZERO:
        return ONE
    if b.op == 'poly' and a.op == 'poly' and len(a.args) == len(b.args):
        c = a.args[0][1] / b.args[0][1]
        if a is scale(b, c):
            return num(c)
    return mul(a, inv(b))


# ---------------------------------------------------------------- booleans
def _neg_norm(p):
    """scale by a positive factor so that comparisons are canonical"""
    if p.op == 'num':
        return p
    if p.op == 'poly':
        c = abs(p.args[0][1])
        return p if c == 1 else scale(p, 1 / c)
    return p


def lt0(p):
    if p.op == 'num':
        return TRUE if p.args[0] < 0 else FALSE
    if p.op == 'poly':
        r = _ind_formula(p, lambda v: v < 0)
        if r is not None:
            return r
    pos = _sign(p)
    if pos is not None:
        if pos == 'ge' or pos == 'gt':
            return FALSE
        if pos == 'lt':
            return TRUE
        if pos == 'le' and any(a.op == 'sum' for m, _ in pdict(p).items() for a, _e in m):
            return bnot(eq0(p))
    if p.op == 'ind':
        return FALSE
    if PERMS:
        # f is the identity outside 0..n-1:  f(x) < 0 <=> x < 0,  n-1-f(x) < 0 <=> n-1-x < 0
        if p.op == 'app' and p.args[0] in PERMS:
            return lt0(p.args[1])
        if p.op == 'poly':
            for m, c in p.args:
                if c == -1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app' and m[0][0].args[0] in PERMS:
                    f = m[0][0]
                    if sub(add(p, f), PERM_N[f.args[0]]) is num(-1):
                        return lt0(sub(add(p, f), f.args[1]))
    pd = pdict(p)
    if len(pd) == 1:
        (m, c), = pd.items()
        # c*ind*rest < 0
        inds = [a for a, e in m if a.op == 'ind']
        if inds:
            rest = from_pdict({tuple((a, e) for a, e in m if a.op != 'ind'): c})
            return band(*[a.args[0] for a in inds], lt0(rest))
    elif len(pd) == 2 and () in pd:
        # k + c*ind < 0
        (m, c), = [(m, c) for m, c in pd.items() if m]
        if len(m) == 1 and m[0][0].op == 'ind':
            b = m[0][0].args[0]
            return bor(band(b, lt0(num(pd[()] + c))), band(bnot(b), lt0(num(pd[()]))))
    if len(pd) > 1:
        common = {x: k for x, k in _common(p).items() if k % 2 == 0 or _atom_sign(x, k) == 'gt'}
        if common:
            rest = from_pdict({_mono_div(m, common): c for m, c in pd.items()})
            return band(*[bnot(eq0(x)) for x, k in common.items() if k > 0 and x not in _pos_vars], lt0(rest))
    p = _neg_norm(p)
    if p.sort == 'I':
        # integers: p < 0 ; canonical choice between p<0 and not(-p-1<0)
        q = sub(neg(p), ONE)
        a, b = _lead(p), _lead(q)
        if a < 0:
            return bnot(_mk('lt0', (_neg_norm(q),), 'B'))
    return _mk('lt0', (p,), 'B')


def _lead(p):
    if p.op == 'num':
        return p.args[0]
    if p.op == 'poly':
        for m, c in p.args:
            if m:
                return c
        return p.args[0][1]
    return Fraction(1)


NONNEG_APPS = {'sqrt', 'abs', 'exp', 'sumsq', 'hypot', 'std', 'pow', 'boxp'}
POS_APPS = {'exp', 'pi'}
_nonneg_vars = set()
_pos_vars = set()


def declare_nonneg(t, positive=False):
    _nonneg_vars.add(t)
    if positive:
        _pos_vars.add(t)


def _atom_sign(a, e):
    if a in _pos_vars:
        return 'gt'
    if a in _nonneg_vars and e > 0:
        return 'ge'
    if a.op == 'ind' and e > 0:
        return 'ge'
    if a.op == 'app':
        if a.args[0] in POS_APPS or a.args[0] == 'sqrt' and _sign(a.args[1]) == 'gt':
            return 'gt'
        if a.args[0] in NONNEG_APPS and e > 0:
            return 'ge'
    if a.op == 'sum':
        s = _sign(a.args[1].args[1])
        if s in ('ge', 'gt'):
            return 'ge'
    if e % 2 == 0:
        return 'ge' if e > 0 else 'gt'
    return None


def _sign(p):
    """cheap syntactic sign: 'gt','ge','lt','le' or None"""
    pd = pdict(p)
    res = None
    for m, c in pd.items():
        s = 'gt'
        for a, e in m:
            k = _atom_sign(a, e)
            if k is None:
                return None
            if k == 'ge':
                s = 'ge'
        s = s if c > 0 else {'gt': 'lt', 'ge': 'le'}[s]
        if res is None:
            res = s
        else:
            up = ('gt', 'ge')
            if (res in up) != (s in up):
                return None
            if s in ('gt', 'lt'):
                res = s
    return res


_psd_memo = {}


def psd(p):
    """is p a quadratic form in its atoms that is positive semidefinite (exact rational LDL)?"""
    r = _psd_memo.get(p)
    if r is None:
        r = _psd_memo[p] = _psd(p)
    return r


def _psd(p):
    """a quadratic form in monomials (the halves of the pure squares) with a positive semidefinite Gram matrix (any Gram matrix of p will do)"""
    pd = pdict(p)
    if not 1 < len(pd) <= 160:
        return False
    return _psd_gram(pd) or any(_psd_gram(q) for q in _split_trig(pd))


def _split_trig(pd):
    """the same polynomial with 1 = cos^2 + sin^2 put back next to the factor that accompanies the cosine and sine everywhere"""
    angles = {}
    for m in pd:
        for a, e in m:
            if a.op == 'app' and a.args[0] in ('sin', 'cos') and e == 1:
                angles.setdefault(a.args[1], []).append(m)
    for th, ms in angles.items():
        com = set(a for a, _ in ms[0])
        for m in ms[1:]:
            com &= set(a for a, _ in m)
        for f in com:
            if f.op == 'app' and f.args[0] in ('sin', 'cos') and f.args[1] is th:
                continue
            out = {}
            for m, c in pd.items():
                if any(a is f and e == 2 for a, e in m) and not any(a.op == 'app' and a.args[0] in ('sin', 'cos') and a.args[1] is th for a, e in m):
                    for w in ('sin', 'cos'):
                        x = app(w, (th,))
                        out[tuple(sorted(m + ((x, 2),), key=lambda q: q[0].id))] = c
                else:
                    out[m] = c
            yield out


def _psd_gram(pd):
    vs, ent, prod = [], {}, {}
    for m, c in pd.items():
        if m and all(e % 2 == 0 for _, e in m):
            h = tuple((a, e // 2) for a, e in m)
            ent[(len(vs), len(vs))] = Fraction(c)
            vs.append(h)
    if len(vs) > 24:
        return False
    key = lambda d: tuple(sorted(((a.id, e) for a, e in d.items() if e)))
    for i in range(len(vs)):
        for j in range(i):
            d = dict(vs[i])
            for a, e in vs[j]:
                d[a] = d.get(a, 0) + e
            k = key(d)
            prod.setdefault(k, (j, i))
    for m, c in pd.items():
        if m and all(e % 2 == 0 for _, e in m):
            continue
        ij = prod.get(key(dict(m)))
        if ij is None:
            return False
        ent[ij] = Fraction(c)
    n = len(vs)
    A = [[Fraction(0)] * n for _ in range(n)]
    for (i, j), c in ent.items():
        if i == j:
            A[i][i] += c
        else:
            A[i][j] += c / 2
            A[j][i] += c / 2
    for k in range(n):
        d = A[k][k]
        if d < 0:
            return False
        if d == 0:
            if any(A[k][j] != 0 for j in range(k, n)):
                return False
            continue
        for i in range(k + 1, n):
            q = A[i][k] / d
            if q:
                for j in range(k, n):
                    A[i][j] -= q * A[k][j]
    return True


def _cosum(p):
    """n - #{k < n : c(k)} = 0  <=>  every k satisfies c"""
    pd = pdict(p)
    if len(pd) != 2:
        return None
    for (m, c) in pd.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'sum':
            a = m[0][0]
            if pd.get(((a.args[0], 1),)) == -c and a.args[0] in _nonneg_vars:
                body = a.args[1].args[1]
                bd = pdict(body)
                if len(bd) == 1:
                    (bm, bc), = bd.items()
                    if bc == 1 and all(x.op == 'ind' for x, _ in bm):
                        k = fresh('z', a.args[1].args[2])
                        return mk_all(a.args[0], k, eq0(sub(ONE, inst(a.args[1], k))))
    return None


def _ind_formula(p, test):
    """a condition on a polynomial in at most three indicators with constant coefficients, as a boolean formula"""
    pd = pdict(p)
    inds = {}
    for m in pd:
        for a, e in m:
            if a.op != 'ind':
                return None
            inds[a] = 1
    inds = sorted(inds, key=lambda a: a.id)
    if not inds or len(inds) > 3 or len(pd) == 1:
        return None
    rows = []
    for bits in range(1 << len(inds)):
        v = {a: bits >> i & 1 for i, a in enumerate(inds)}
        rows.append(test(sum(c for m, c in pd.items() if all(v[a] for a, e in m))))
    true = [i for i, r in enumerate(rows) if r]
    false = [i for i, r in enumerate(rows) if not r]

    def row(i):
        return band(*[a.args[0] if i >> j & 1 else bnot(a.args[0]) for j, a in enumerate(inds)])
    if not true:
        return FALSE
    if not false:
        return TRUE
    if len(true) == 1:
        return row(true[0])
    if len(false) == 1:
        return bnot(row(false[0]))
    return None


def eq0(p):
    if p.op == 'num':
        return TRUE if p.args[0] == 0 else FALSE
    if p.op == 'poly':
        r = _ind_formula(p, lambda v: v == 0)
        if r is not None:
            return r
    if p.op == 'ind':
        return bnot(p.args[0])
    if p.op == 'sum' and _sign(p.args[1].args[1]) in ('ge', 'gt'):
        # a sum of nonnegative terms vanishes exactly when every term does
        k = fresh('z', p.args[1].args[2])
        return mk_all(p.args[0], k, eq0(inst(p.args[1], k)))
    r = _cosum(p)
    if r is not None:
        return r
    s = _sign(p)
    if s in ('gt', 'lt'):
        return FALSE
    pd = pdict(p)
    if len(pd) == 1:
        (m, c), = pd.items()
        # product = 0  <=> some positive-power factor = 0 (flags exclude zero denominators)
        outs = []
        for a, e in m:
            if a.op == 'ind':
                outs.append(bnot(a.args[0]))
            elif e > 0:
                if a.op == 'app' and a.args[0] in ('sqrt', 'abs') and a.args[0] == 'abs':
                    outs.append(eq0(a.args[1]))
                elif _sign(a) not in ('gt', 'lt'):
                    outs.append(eq0(a) if a is not p else _mk('eq0', (a,), 'B'))
        if len(outs) == 1 and outs[0].op == 'eq0' and outs[0].args[0] is (m[0][0] if len(m) == 1 else None):
            return outs[0]
        return bor(*outs)
    if len(pd) == 2 and () in pd:
        (m, c), = [(m, c) for m, c in pd.items() if m]
        if len(m) == 1 and m[0][0].op == 'ind' and m[0][1] == 1:
            b = m[0][0].args[0]
            k = pd[()]
            if k + c == 0:
                return b
            if k == 0:
                return bnot(b)
            return FALSE
    if p.op == 'poly':
        common = _common(p)
        if common:
            rest = from_pdict({_mono_div(m, common): c for m, c in pd.items()})
            return bor(*[eq0(x) for x, k in common.items() if k > 0], eq0(rest))
        lead = p.args[0][1]
        if lead != 1:
            p = scale(p, 1 / lead)
        if len(pd) == 2 and PERMS:
            # f(a) - f(b) = 0  <=>  a = b   for a bijection f
            (m1, c1), (m2, c2) = pd.items()
            if c1 == -c2 and len(m1) == 1 and len(m2) == 1 and m1[0][1] == 1 and m2[0][1] == 1:
                a, b = m1[0][0], m2[0][0]
                if a.op == 'app' and b.op == 'app' and a.args[0] == b.args[0] and a.args[0] in PERMS:
                    return eq(a.args[1], b.args[1])
        if p.sort != 'I' and all(a.sort == 'I' and e > 0 for m, _ in p.args for a, e in m):
            # integer combination with fractional normalisation: try to see gcd contradictions
            pass
    return _mk('eq0', (p,), 'B')


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    return bnot(lt0(sub(b, a)))


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == 'B' or b.sort == 'B':
        return biff(a, b)
    if a.sort == 'L' or b.sort == 'L':
        return eqL(a, b)
    return eq0(sub(a, b))


def eqL(a, b):
    if a is b:
        return TRUE
    if a.op == 'lit' and b.op == 'lit':
        return FALSE if a.args != b.args else TRUE
    # injective label functions: lab(i) = lab(j) <=> i = j   (only for declared unique indices)
    if a.op == 'app' and b.op == 'app' and a.args[0] == b.args[0] and a.args[0] in INJECTIVE:
        return band(*[eq(x, y) for x, y in zip(a.args[1:], b.args[1:])])
    if a.op == 'liteL':
        return bor(band(a.args[0], eqL(a.args[1], b)), band(bnot(a.args[0]), eqL(a.args[2], b)))
    if b.op == 'liteL':
        return eqL(b, a)
    if a.id > b.id:
        a, b = b, a
    return _mk('eqL', (a, b), 'B')


INJECTIVE = set()
PERM_N = {}
PERMS = {}     # function name -> name of its inverse (bijections of the integers)
INVERSE = {}   # find-function name -> label function name


def iteL(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    return _mk('liteL', (c, a, b), 'L')


def bnot(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == 'not':
        return b.args[0]
    return _mk('not', (b,), 'B')


def band(*bs):
    out = {}
    for b in bs:
        if b is TRUE:
            continue
        if b is FALSE:
            return FALSE
        if b.op == 'and':
            for x in b.args:
                out[x] = 1
        else:
            out[b] = 1
    for x in list(out):
        if bnot(x) in out:
            return FALSE
    # absorption: x and (x or y)
    for x in list(out):
        if x.op == 'or' and any(y in out for y in x.args):
            del out[x]
    # unit resolution: x and (not x or y) -> x and y
    changed = True
    while changed:
        changed = False
        for x in list(out):
            if x.op == 'or':
                rest = [y for y in x.args if bnot(y) not in out]
                if len(rest) != len(x.args):
                    del out[x]
                    return band(*out, bor(*rest))
            elif x.op == 'not' and x.args[0].op == 'and':
                ys = x.args[0].args
                rest = [y for y in ys if y not in out]
                if len(rest) != len(ys):
                    del out[x]
                    return band(*out, bnot(band(*rest)))
                if any(bnot(y) in out for y in ys):
                    del out[x]
                    changed = True
    if not out:
        return TRUE
    if len(out) == 1:
        return next(iter(out))
    return _mk('and', tuple(sorted(out, key=lambda t: t.id)), 'B')


def bor(*bs):
    # represented as not(and(not ...)) : canonical
    return bnot(band(*[bnot(b) for b in bs]))


def bimp(a, b):
    return bor(bnot(a), b)


def biff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return bnot(b)
    if b is FALSE:
        return bnot(a)
    if a is bnot(b):
        return FALSE
    return band(bor(bnot(a), b), bor(a, bnot(b)))


def bite(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    return bor(band(c, a), band(bnot(c), b))


def ind(b):
    if b is TRUE:
        return ONE
    if b is FALSE:
        return ZERO
    if b.op == 'not':
        return sub(ONE, ind(b.args[0]))
    if b.op == 'and' and _expansion(b) <= 48:
        r = ONE
        for x in b.args:
            r = mul(r, ind(x))
        return r
    return _mk('ind', (b,), 'I')


def _expansion(b):
    """number of monomials of the indicator of b, multiplied out"""
    if b.op == 'not':
        return 1 + _expansion(b.args[0])
    if b.op == 'and':
        r = 1
        for x in b.args:
            r *= _expansion(x)
            if r > 1000:
                break
        return r
    return 1


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a.sort == 'B':
        return bite(c, a, b)
    if a.sort == 'L':
        return iteL(c, a, b)
    i = ind(c)
    return add(b, mul(i, sub(a, b)))


# ---------------------------------------------------------------- functions
def app(name, args=(), sort='R'):
    args = tuple(args)
    if name in INVERSE and len(args) == 1 and args[0].op == 'app' and args[0].args[0] == INVERSE[name]:
        return args[0].args[1]
    f = _SIMP.get(name)
    if f is not None:
        r = f(args)
        if r is not None:
            return r
    return _mk('app', (name,) + args, sort)


def _s_sqrt(args):
    p = args[0]
    if p.op == 'num':
        v = p.args[0]
        if v >= 0:
            a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if a * a == v.numerator and b * b == v.denominator:
                return num(Fraction(a, b))
        return None
    pd = pdict(p)
    if len(pd) == 1:
        (m, c), = pd.items()
        if c > 0 and all(e % 2 == 0 or a.op == 'ind' for a, e in m):
            r = _s_sqrt((num(c),))
            if r is not None:
                for a, e in m:
                    r = mul(r, a if a.op == 'ind' else (absv(a) if (e // 2) % 2 else ONE))
                    if a.op != 'ind' and (e // 2) % 2 == 0:
                        r = mul(r, power(a, e // 2))
                    elif a.op != 'ind' and abs(e // 2) > 1:
                        r = mul(r, power(a, e // 2 - (1 if e > 0 else -1)))
                    if a.op != 'ind' and e < 0 and (e // 2) % 2:
                        r = mul(r, power(absv(a), -2))
                return r
    elif p.op == 'poly':
        # sqrt(x^2k * q) = |x|^k sqrt(q)
        common = {x: (k - k % 2 if k > 0 else k + (-k) % 2) for x, k in _common(p).items()}
        common = {x: k for x, k in common.items() if k}
        if common:
            rest = from_pdict({_mono_div(m, common): c for m, c in pd.items()})
            r = app('sqrt', (rest,))
            for x, k in common.items():
                r = mul(r, power(absv(x), k // 2))
            return r
    return None


def _common(p):
    common = None
    for m, _c in p.args:
        dm = {x: k for x, k in m if x.op != 'ind'}
        if common is None:
            common = dm
        else:
            common = {x: (min(k, dm[x]) if k > 0 else max(k, dm[x])) for x, k in common.items() if x in dm and (k > 0) == (dm[x] > 0)}
        if not common:
            break
    return common or {}


def _s_abs(args):
    p = args[0]
    if p.op == 'num':
        return num(abs(p.args[0]))
    s = _sign(p)
    if s in ('gt', 'ge'):
        return p
    if s in ('lt', 'le'):
        return neg(p)
    if p.op == 'poly' and psd(p):
        return p
    if p.op == 'poly':
        pd = pdict(p)
        if len(pd) == 1:
            (m, c), = pd.items()
            if len(m) == 1 and m[0][1] == 1:
                return scale(app('abs', (m[0][0],), m[0][0].sort), abs(c)) if c != 1 else None
            r = num(abs(c))
            for a, e in m:
                if _atom_sign(a, e) in ('gt', 'ge'):
                    r = mul(r, power(a, e) if a.op != 'ind' else a)
                else:
                    r = mul(r, power(absv(a), e))
            return r
        common = _common(p)
        if common:
            rest = from_pdict({_mono_div(m, common): c for m, c in pd.items()})
            return mul(app('abs', (from_pdict({tuple(sorted(common.items(), key=lambda q: q[0].id)): Fraction(1)}),)), app('abs', (rest,)))
        lead = p.args[0][1]
        if lead < 0:
            return app('abs', (neg(p),), p.sort)
        den = 1
        if lead != 1 and p.sort != 'I':
            return scale(app('abs', (scale(p, 1 / lead),)), lead)
    return None


def absv(p):
    return app('abs', (p,), p.sort)


def _s_floor(args):
    p = args[0]
    if p.sort == 'I':
        return p
    if p.op == 'num':
        return num(math.floor(p.args[0]))
    # pull integer part out
    pd = pdict(p)
    ip, rest = {}, {}
    for m, c in pd.items():
        if c.denominator == 1 and all(a.sort == 'I' and e > 0 for a, e in m):
            ip[m] = c
        elif m == ():
            f = Fraction(math.floor(c))
            if f:
                ip[m] = f
            if c - f:
                rest[m] = c - f
        else:
            rest[m] = c
    if ip:
        return add(from_pdict(ip), app('floor', (from_pdict(rest),), 'I'))
    return None


def _s_odd(name):
    def f(args):
        p = args[0]
        if p is ZERO:
            return ONE if name == 'cos' else ZERO
        if p.op == 'poly' and p.args[0][1] < 0:
            r = app(name, (neg(p),))
            return r if name == 'cos' else neg(r)
        # shift by multiples of pi
        pi = PI
        pd = pdict(p)
        drop = {k: v for k, v in pd.items() if len(k) > 1 and (pi, 1) in k and v.denominator == 1 and v % 2 == 0
                and all(a is pi or (a.sort == 'I' and e > 0) for a, e in k)}
        if drop:                                    # 2 pi times an integer
            return app(name, (sub(p, from_pdict(drop)),))
        for q, v in pd.items():                     # pi k [cond]: the sign flips under the condition (k odd)
            if len(q) == 2 and v.denominator == 1 and (pi, 1) in q and any(a.op == 'ind' for a, e in q):
                i = [a for a, e in q if a.op == 'ind'][0]
                r = app(name, (sub(p, from_pdict({q: v})),))
                return r if v % 2 == 0 else mul(r, sub(ONE, scale(i, 2)))
        m = ((pi, 1),)
        if m in pd and pd[m].denominator == 1 and pd[m] != 0:
            k = int(pd[m])
            rest = sub(p, scale(pi, k))
            r = app(name, (rest,))
            return r if k % 2 == 0 else neg(r)
        if m in pd and (2 * pd[m]).denominator == 1:
            k = pd[m] - Fraction(1, 2)
            rest = sub(p, scale(pi, pd[m]))
            kk = int(k)
            sgn = 1 if kk % 2 == 0 else -1
            # cos(x + pi/2 + k pi) = -(-1)^k sin x ; sin(...) = (-1)^k cos x
            if name == 'cos':
                return scale(app('sin', (rest,)), -sgn)
            return scale(app('cos', (rest,)), sgn)
        return None
    return f


def _s_exp(args):
    if args[0] is ZERO:
        return ONE
    if args[0].op == 'app' and args[0].args[0] == 'logpos':
        return args[0].args[1]
    return None


def _s_log(args):
    if args[0] is ONE:
        return ZERO
    if args[0].op == 'app' and args[0].args[0] == 'exp':
        return args[0].args[1]
    return None


def _s_max2(args):
    a, b = args
    return ite(lt(a, b), b, a)


_SIMP = {'sqrt': _s_sqrt, 'abs': _s_abs, 'floor': _s_floor, 'sin': _s_odd('sin'), 'cos': _s_odd('cos'),
         'exp': _s_exp, 'log': _s_log}
PI = _mk('app', ('pi',), 'R')


def sqrt(p):
    return app('sqrt', (p,), 'R')


def floor(p):
    return app('floor', (p,), 'I')


def fmax(a, b):
    return ite(lt(a, b), b, a)


def fmin(a, b):
    return ite(lt(b, a), b, a)


# ---------------------------------------------------------------- binders
def lam(v, body):
    """abstract variable v (a 'var' term) in body"""
    h = body.h + 1
    b = _bv(h, v.sort)
    return _mk('lam', (h, subst(body, {v: b}), v.sort), body.sort)


def lam_body(l):
    return l.args[1]


def inst(l, t):
    h, body, s = l.args
    return subst(body, {_bv(h, s): t})


def open_lam(l, prefix='k'):
    v = fresh(prefix, l.args[2])
    return v, inst(l, v)


def lam_n(vs, body):
    r = body
    for v in reversed(vs):
        r = lam(v, r)
    return r


def inst_n(l, ts):
    for t in ts:
        l = inst(l, t)
    return l


def subst(t, m):
    memo = {}
    keys = frozenset(m)

    def go(t):
        if not (t.fv & keys):
            return t
        if t in m:
            return m[t]
        r = memo.get(t)
        if r is not None:
            return r
        r = rebuild(t, go)
        memo[t] = r
        return r
    return go(t)


def rebuild(t, go):
    op = t.op
    if op == 'poly':
        acc = {}
        for mono, c in t.args:
            r = num(c)
            for a, e in mono:
                r = mul(r, power(go(a), e) if e > 0 else inv(power(go(a), -e)))
            for mm, cc in pdict(r).items():
                v = acc.get(mm, 0) + cc
                if v == 0:
                    acc.pop(mm, None)
                else:
                    acc[mm] = v
        return from_pdict(acc)
    if op == 'app':
        return app(t.args[0], tuple(go(a) for a in t.args[1:]), t.sort)
    if op == 'ind':
        return ind(go(t.args[0]))
    if op == 'inv':
        return inv(go(t.args[0]))
    if op == 'lt0':
        return lt0(go(t.args[0]))
    if op == 'eq0':
        return eq0(go(t.args[0]))
    if op == 'not':
        return bnot(go(t.args[0]))
    if op == 'and':
        return band(*[go(a) for a in t.args])
    if op == 'eqL':
        return eqL(go(t.args[0]), go(t.args[1]))
    if op == 'liteL':
        return iteL(*[go(a) for a in t.args])
    if op == 'lam':
        v, body = open_lam(t)
        return lam(v, go(body))
    if op == 'sum':
        n = go(t.args[0])
        v, body = open_lam(t.args[1])
        return mk_sum(n, v, go(body))
    if op in ('max', 'min'):
        n = go(t.args[0])
        v, body = open_lam(t.args[1])
        return mk_ext(op, n, v, go(body))
    if op == 'all':
        n = go(t.args[0])
        v, body = open_lam(t.args[1])
        return mk_all(n, v, go(body))
    raise AssertionError(op)


def _ranged(n, v, body):
    """body with the range conditions 0 <= v < n of its index taken as true"""
    if not PERMS or v not in body.fv:
        return body
    m = {}
    for c in (lt0(v), lt0(sub(sub(n, ONE), v))):
        if c.op == 'lt0':
            m[c] = FALSE
        elif c.op == 'not' and c.args[0].op == 'lt0':
            m[c.args[0]] = TRUE
    seen, stack, hit = set(), [body], False
    while stack:
        x = stack.pop()
        if x in m:
            hit = True
            break
        if x in seen or v not in x.fv:
            continue
        seen.add(x)
        stack.extend(children(x))
    if not hit:
        return body
    memo = {}

    def go(t):
        if t in m:
            return m[t]
        if v not in t.fv:
            return t
        r = memo.get(t)
        if r is None:
            r = rebuild(t, go) if children(t) else t
            memo[t] = r
        return r
    return go(body)


def mk_sum(n, v, body):
    """SUM_{v=0}^{n-1} body, canonical"""
    body = _ranged(n, v, body)
    if n.op == 'num':
        k = n.args[0]
        if k <= 0:
            return ZERO
        if k <= 8:
            return add(*[subst(body, {v: num(j)}) for j in range(int(k))])
    out = []
    for m, c in pdict(body).items():
        indep, dep = [], []
        for a, e in m:
            (dep if v in a.fv else indep).append((a, e))
        f = from_pdict({tuple(indep): c})
        if not dep:
            out.append(mul(f, n))
            continue
        # delta rule: ind(v == t)
        hit = None
        for a, e in dep:
            if a.op == 'ind' and a.args[0].op == 'eq0':
                p = a.args[0].args[0]
                cf = pdict(p).get(((v, 1),))
                if cf in (1, -1):
                    t = scale(sub(p, scale(v, cf)), -cf)
                    if v not in t.fv and t.sort == 'I':
                        hit = (a, t)
                        break
        if hit is not None:
            a, t = hit
            rest = from_pdict({tuple(x for x in dep if x[0] is not a): Fraction(1)})
            g = band(le(ZERO, t), lt(t, n))
            out.append(mul(f, ind(g), subst(rest, {v: t})))
            continue
        bt = from_pdict({tuple(dep): Fraction(1)})
        out.append(mul(f, _mk('sum', (n, lam(v, bt)), 'I' if bt.sort == 'I' else 'R')))
    return add(*out) if out else ZERO


def _running(pd, v):
    for m, c in pd.items():
        dep = [(a, e) for a, e in m if v in a.fv]
        if not dep:
            continue
        if len(dep) != 1 or dep[0][1] != 1 or dep[0][0].op != 'sum':
            return False
        a = dep[0][0]
        step = sub(a.args[0], v)
        if v in a.args[1].fv or step.op != 'num':
            return False
        k, f = open_lam(a.args[1])
        rest = from_pdict({tuple(x for x in m if x[0] is not a): c})
        if _sign(rest) not in ('ge', 'gt') or _sign(f) not in ('ge', 'gt'):
            return False
    return True


def mk_ext(op, n, v, body):
    body = _ranged(n, v, body)
    if v not in body.fv:
        return body
    if n.op == 'num' and 1 <= n.args[0] <= 6:
        r = subst(body, {v: ZERO})
        for j in range(1, int(n.args[0])):
            b = subst(body, {v: num(j)})
            r = fmax(r, b) if op == 'max' else fmin(r, b)
        return r
    # running sums of nonnegative terms grow: the maximum is the last, the minimum the first
    pd = pdict(body)
    if n.op != 'num' and _running(pd, v):
        return subst(body, {v: sub(n, ONE) if op == 'max' else ZERO})
    # pull out v-independent additive part and positive constant factor
    dep = {m: c for m, c in pd.items() if any(v in a.fv for a, _ in m)}
    ind_ = {m: c for m, c in pd.items() if m not in dep}
    lead = min(dep.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))[1] if len(dep) == 1 else None
    core = from_pdict(dep)
    s = Fraction(1)
    o = op
    if lead is not None:
        s = lead
        core = scale(core, 1 / s)
        if s < 0:
            o = 'min' if op == 'max' else 'max'
    # a common factor whose sign the hypotheses of the path fix
    out = ONE
    if POSITIVE[0] is not None and dep:
        shared = set.intersection(*[{(a, e) for a, e in m if v not in a.fv} for m in dep])
        for a, e in sorted(shared, key=lambda x: x[0].id):
            f = from_pdict({((a, e),): Fraction(1)})
            sg = POSITIVE[0](a)
            if sg:
                if sg < 0 and e % 2:
                    o = 'min' if o == 'max' else 'max'
                out = mul(out, f)
                core = from_pdict({tuple(x for x in m if x != (a, e)): c for m, c in pdict(core).items()})
    return add(from_pdict(ind_), mul(scale(_mk(o, (n, lam(v, core)), core.sort), s), out))


POSITIVE = [None]


def mk_all(n, v, body):
    body = _ranged(n, v, body)
    """forall 0<=v<n. body"""
    if body is TRUE:
        return TRUE
    if n.op == 'num':
        if n.args[0] <= 0:
            return TRUE
        if n.args[0] <= 8:
            return band(*[subst(body, {v: num(j)}) for j in range(int(n.args[0]))])
    if v not in body.fv:
        return bor(body, le(n, ZERO))
    if body.op == 'and':
        return band(*[mk_all(n, v, b) for b in body.args])
    lit_ = body.args[0] if body.op == 'not' else body
    if lit_.op == 'lt0':
        # linear in v: decided at one end of the range
        p = lit_.args[0]
        ms = [(m, c) for m, c in pdict(p).items() if any(v in a.fv for a, _ in m)]
        if len(ms) == 1 and ms[0][0] == ((v, 1),):
            up = (ms[0][1] > 0) == (body.op == 'lt0')
            end = sub(n, ONE) if up else ZERO
            return bor(le(n, ZERO), subst(body, {v: end}))
    return _mk('all', (n, lam(v, body)), 'B')


# ---------------------------------------------------------------- traversal, printing, evaluation
def atoms(t, seen=None):
    """all subterms (not going under binders' bound occurrences specially)"""
    if seen is None:
        seen = {}
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen[x] = 1
        stack.extend(children(x))
    return seen


def outer_inds(t):
    """the indicator atoms of a term, not looking under binders"""
    out, seen, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        if x in seen or x.op == 'lam':
            continue
        seen.add(x)
        if x.op == 'ind':
            out.append(x)
        stack.extend(children(x))
    return out


def show(t, d=0):
    if d > 12:
        return '...'
    op = t.op
    if op == 'app' and t.args[0] in ('box', 'boxp'):
        return 'box#%d(%s)' % (t.args[1].id, ', '.join(show(a, d + 1) for a in t.args[2:]))
    if op == 'num':
        return str(t.args[0])
    if op == 'var':
        return t.args[0]
    if op == 'bv':
        return 'b%d' % t.args[0]
    if op == 'lit':
        return repr(t.args[0][2])
    if op == 'true' or op == 'false':
        return op
    if op == 'poly':
        parts = []
        for m, c in t.args:
            fs = [show(a, d + 1) + ('' if e == 1 else '^%d' % e) for a, e in m]
            if c != 1 or not fs:
                fs.insert(0, str(c))
            parts.append('*'.join(fs))
        return '(' + ' + '.join(parts) + ')'
    if op == 'app':
        return t.args[0] + '(' + ', '.join(show(a, d + 1) for a in t.args[1:]) + ')'
    if op == 'lt0':
        return '%s < 0' % show(t.args[0], d + 1)
    if op == 'eq0':
        return '%s = 0' % show(t.args[0], d + 1)
    if op == 'lam':
        return '\\b%d. %s' % (t.args[0], show(t.args[1], d + 1))
    if op == 'and':
        return '(' + ' & '.join(show(a, d + 1) for a in t.args) + ')'
    if op == 'not':
        return '~' + show(t.args[0], d + 1)
    if op == 'ind':
        return '[%s]' % show(t.args[0], d + 1)
    return op + '(' + ', '.join(show(a, d + 1) if isinstance(a, T) else str(a) for a in t.args) + ')'


class NoEval(Exception):
    pass


def evaluate(t, env, fns):
    """numeric evaluation; env: {var term: value}; fns: {app name: callable}"""
    memo = {}

    def go(t, e):
        if not any(x.op == 'bv' for x in t.fv):
            if t in memo:
                return memo[t]
            r = ev(t, e)
            memo[t] = r
            return r
        return ev(t, e)

    def ev(t, e):
        op = t.op
        if op == 'num':
            v = t.args[0]
            return int(v) if v.denominator == 1 else _mp.mpf(v.numerator) / v.denominator
        if op == 'var':
            if t in env:
                return _conv(env[t])
            raise NoEval('var ' + t.args[0])
        if op == 'bv':
            return e[t.args[0]]
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op == 'lit':
            return t.args[0][2]
        if op == 'poly':
            s = 0
            for m, c in t.args:
                z = False
                # indicators first (guards)
                r = int(c) if c.denominator == 1 else _mp.mpf(c.numerator) / c.denominator
                for a, ex in m:
                    if a.op == 'ind' and not go(a, e):
                        z = True
                        break
                if z:
                    continue
                for a, ex in m:
                    if a.op == 'ind':
                        continue
                    x = go(a, e)
                    if ex < 0 and x == 0:
                        r = r * 0      # a division by zero is flagged separately; any finite value will do here
                    else:
                        r = r * (x ** ex if ex > 0 else _mp.mpf(x) ** ex)
                s = s + r
            return s
        if op == 'ind':
            return 1 if go(t.args[0], e) else 0
        if op == 'inv':
            x = go(t.args[0], e)
            return _mp.mpf(1) / x if x != 0 else _mp.mpf(0)
        if op == 'lt0':
            x = go(t.args[0], e)
            return x < 0 if isinstance(x, int) else x < -1e-24
        if op == 'eq0':
            x = go(t.args[0], e)
            return abs(x) <= 1e-12 if not isinstance(x, int) else x == 0
        if op == 'not':
            return not go(t.args[0], e)
        if op == 'and':
            return all(go(a, e) for a in t.args)
        if op == 'eqL':
            return go(t.args[0], e) == go(t.args[1], e)
        if op == 'liteL':
            return go(t.args[1], e) if go(t.args[0], e) else go(t.args[2], e)
        if op == 'lam':
            h, body, s = t.args
            return lambda x: go(body, {**e, h: x})
        if op in ('sum', 'max', 'min', 'all'):
            n = int(go(t.args[0], e))
            f = go(t.args[1], e)
            if n > 5000:
                raise NoEval('large')
            vals = (f(j) for j in range(n))
            if op == 'sum':
                return sum(vals)
            if op == 'all':
                return all(vals)
            return max(vals) if op == 'max' else min(vals)
        if op == 'app':
            name = t.args[0]
            f = fns.get(name) or _EVAL.get(name)
            if f is None:
                raise NoEval('app ' + name)
            return _conv(f(*[go(a, e) for a in t.args[1:]]))
        raise NoEval(op)
    r = go(t, {})
    return float(r) if isinstance(r, _mp.mpf) else r


import sys as _sys
if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in _sys.path:
    _sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import mpmath as _mp
_mp.mp.dps = 40
_nan = _mp.mpf('nan')


def _conv(v):
    return _mp.mpf(v) if isinstance(v, float) else v


def _sq(x):
    return _mp.sqrt(x) if x >= 0 else (_mp.mpf(0) if x > -1e-18 else _nan)


def _fl(x):
    r = int(_mp.floor(x))
    # a double computation of a value this close to an integer may land on either side: take the double's answer
    return math.floor(float(x)) if abs(x - round(x)) < 1e-13 else r


def _ev_box(l, *idx):
    for i in idx:
        l = l(i)
    return l


_EVAL = {'box': _ev_box, 'boxp': _ev_box, 'sqrt': _sq, 'abs': abs, 'exp': lambda x: _mp.exp(x) if x < 700 else _mp.inf,
         'log': lambda x: _mp.log(x) if x > 0 else _nan, 'sin': _mp.sin, 'cos': _mp.cos,
         'floor': _fl, 'atan2': lambda y, x: _mp.atan2(y, x), 'pi': lambda: +_mp.pi,
         'pow': lambda a, b: _mp.mpf(a) ** b if a > 0 or b == int(b) else _nan,
         'idiv': lambda a, b: int(a) // int(b) if b else 0, 'imod': lambda a, b: int(a) % int(b) if b else 0,
         'inv0': lambda: _nan}


def declare_perm(f, g, n):
    """f and g are mutually inverse bijections of the integers, permuting 0..n-1 and fixing everything else"""
    PERM_N[f] = PERM_N[g] = n
    PERMS[f], PERMS[g] = g, f
    INVERSE[f], INVERSE[g] = g, f


def solve(p, i):
    """t with (p = 0  <=>  i = t), t free of i; None if not found"""
    if i not in p.fv:
        return None
    pd = pdict(p)
    hit = [(m, c) for m, c in pd.items() if any(i is a or i in a.fv for a, e in m)]
    if len(hit) != 1:
        return None
    m, c = hit[0]
    if len(m) != 1 or m[0][1] != 1 or c not in (1, -1):
        return None
    a = m[0][0]
    rest = scale(sub(p, scale(a, c)), -c)          # a = rest
    if a is i:
        return rest
    if a.op == 'app' and a.args[0] in PERMS:
        return solve(sub(a.args[1], app(PERMS[a.args[0]], (rest,), 'I')), i)
    return None
