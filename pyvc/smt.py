"""Discharging obligations: normal form, then z3 (then cvc5) on a quantifier-free export.

Quantified hypotheses ('all' terms), MAX/MIN terms and function axioms are instantiated here at the index
terms that occur in the query; nothing quantified is handed to the solver.  Unsat of the instantiated query
is therefore a proof; sat may be an artefact of missing instances and is only ever used as a candidate
input that is replayed on the real code.
"""
import sys
import time
from fractions import Fraction
if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3
from . import terms as tm
from .terms import T, TRUE, FALSE

STATS = {'queries': 0, 'z3_unsat': 0, 'z3_sat': 0, 'z3_unknown': 0, 'cvc5_unsat': 0, 'normal_form': 0,
         'solver_s': 0.0, 'denominator': 0, 'lemmas': 0}
DEADLINE = [None]
LabS = None


class Timeout(Exception):
    pass


def _lab():
    return z3.IntSort()


class Export:
    def __init__(self, uf=True, maxinst=150, ints=True):
        self.uf = uf
        self.cache = {}
        self.axioms = []
        self.pending = []
        self.cands = {}
        self.quants = []
        self.done_inst = set()
        self.ninst = 0
        self.maxinst = maxinst
        self.opaque = False
        self.lits = {}
        self.sums = {}
        self.seen = {}

    def sort(self, s):
        return {'R': z3.RealSort(), 'I': z3.IntSort(), 'B': z3.BoolSort(), 'L': z3.IntSort()}[s]

    def const(self, t, name=None):
        return z3.Const('%s#%d' % (name or t.op, t.id), self.sort(t.sort))

    def axiom(self, t):
        if t is not TRUE:
            self.pending.append(t)

    def flush(self):
        out = []
        rounds = 0
        while True:
            while self.pending:
                t = self.pending.pop()
                out.append(self.b(t))
            if not self._instantiate():
                break
            rounds += 1
            if rounds > 6:
                while self.pending:
                    out.append(self.b(self.pending.pop()))
                break
        self.axioms.extend(out)
        return out

    def _instantiate(self):
        n0 = self.ninst
        for q in list(self.quants):
            for c in list(self.cands):
                if self.ninst >= self.maxinst:
                    return self.ninst > n0
                key = (q[1].id, c.id)
                if key in self.done_inst:
                    continue
                self.done_inst.add(key)
                kind, t = q
                n, l = t.args
                if l.args[2] != c.sort:
                    continue
                body = tm.inst(l, c)
                rng = tm.band(tm.le(tm.ZERO, c), tm.lt(c, n))
                if rng is FALSE:
                    continue
                self.ninst += 1
                if kind == 'all':
                    self.axiom(tm.bor(tm.bnot(t), tm.bnot(rng), body))
                elif kind == 'max':
                    self.axiom(tm.bor(tm.bnot(rng), tm.le(body, t)))
                else:
                    self.axiom(tm.bor(tm.bnot(rng), tm.le(t, body)))
        return self.ninst > n0

    # ---- numerics
    def n(self, t, want=None):
        e = self._n(t)
        if want == 'R' and e.sort() == z3.IntSort():
            return z3.ToReal(e)
        return e

    def _n(self, t):
        r = self.cache.get(t)
        if r is None:
            r = self._n0(t)
            self.cache[t] = r
        return r

    def _n0(self, t):
        op = t.op
        if op == 'num':
            v = t.args[0]
            return z3.IntVal(int(v)) if v.denominator == 1 else z3.RealVal(v)
        if op == 'var':
            return z3.Const(t.args[0], self.sort(t.sort))
        if op == 'ind':
            return z3.If(self.b(t.args[0]), z3.IntVal(1), z3.IntVal(0))
        if op == 'poly':
            inds = []
            for m, _c in t.args:
                for a, _e in m:
                    if a.op == 'ind' and a not in inds:
                        inds.append(a)
            if inds:
                if len(inds) <= 5:
                    a = inds[0]
                    p1 = _assign_ind(t, a, 1)
                    p0 = _assign_ind(t, a, 0)
                    x, y = self.n(p1), self.n(p0)
                    if x.sort() != y.sort():
                        x, y = self.n(p1, 'R'), self.n(p0, 'R')
                    return z3.If(self.b(a.args[0]), x, y)
            want = 'R' if t.sort != 'I' else None
            terms = []
            for m, c in t.args:
                fs = []
                if c != 1 or not m:
                    fs.append(z3.RealVal(c) if want else z3.IntVal(int(c)))
                for a, e in m:
                    if e > 0:
                        x = self.n(a, want)
                        fs.extend([x] * e)
                    else:
                        x = self.recip(a)
                        fs.extend([x] * (-e))
                r = fs[0]
                for f in fs[1:]:
                    r = r * f
                terms.append(r)
            r = terms[0]
            for f in terms[1:]:
                r = r + f
            return r
        if op == 'inv':
            c = self.const(t)
            x = self.n(t.args[0], 'R')
            self.axioms.append(z3.Implies(x != 0, c * x == 1))
            return c
        if op in ('max', 'min'):
            c = self.const(t)
            self.cache[t] = c
            self.quants.append((op, t))
            n, l = t.args
            sk = tm.app('arg' + op, (n, l), 'I')
            self.axiom(tm.bor(tm.le(n, tm.ZERO), tm.band(tm.le(tm.ZERO, sk), tm.lt(sk, n), tm.eq(tm.inst(l, sk), t))))
            self.cand(sk)
            return c
        if op == 'sum':
            self.deep(t)
            c = self.const(t)
            self.cache[t] = c
            self.sum_facts(t, c)
            return c
        if op == 'app':
            return self.app(t)
        if op == 'liteL':
            return z3.If(self.b(t.args[0]), self.n(t.args[1]), self.n(t.args[2]))
        if op == 'lit':
            k = t.args[0]
            if k not in self.lits:
                self.lits[k] = z3.IntVal(1000000 + len(self.lits))
            return self.lits[k]
        raise AssertionError('export ' + op)

    def sum_facts(self, t, c):
        """sums of nonnegative terms are nonnegative and grow with their length; lengths a constant apart differ by the extra terms"""
        n, l = t.args
        sg = tm._sign(l.args[1])
        up = sg in ('ge', 'gt')
        if up:
            self.axioms.append(c >= 0)
            if sg == 'gt':
                self.axioms.append(z3.Or(self.n(n) <= 0, c > 0))
        if any(v.op == 'bv' for v in t.fv):
            return
        same = self.sums.setdefault(l, [])
        for m, d in same[:6]:
            diff = tm.sub(n, m)
            if diff.op == 'num' and abs(diff.args[0]) <= 3:
                lo, hi, a, b = (m, n, d, c) if diff.args[0] > 0 else (n, m, c, d)
                ext = [self.n(tm.inst(l, tm.add(lo, tm.num(j))), 'R') for j in range(int(abs(diff.args[0])))]
                x, y = [z3.ToReal(e) if e.sort() == z3.IntSort() else e for e in (a, b)]
                self.axioms.append(z3.Or(self.n(lo) < 0, y == x + z3.Sum(ext)))
            elif up:
                self.axioms.append(z3.Or(self.n(n) > self.n(m), c <= d))
                self.axioms.append(z3.Or(self.n(m) > self.n(n), d <= c))
        same.append((n, c))

    def recip(self, a):
        key = ('recip', a)
        r = self.cache.get(key)
        if r is None:
            x = self.n(a, 'R')
            r = z3.Const('recip#%d' % a.id, z3.RealSort())
            self.axioms.append(z3.Implies(x != 0, r * x == 1))
            self.cache[key] = r
        return r

    def deep(self, t):
        """closed selections occurring under a binder still obey their contracts"""
        if not self.uf:
            return
        for x in tm.atoms(t, None):
            if x.op == 'app' and x not in self.seen and x.args[0] in DEEP and not any(v.op == 'bv' for v in x.fv):
                self.seen[x] = 1
                self.n(x)

    def cand(self, t):
        if t.sort in ('I', 'L') and t not in self.cands and t.op != 'bv' and not any(v.op == 'bv' for v in t.fv):
            self.cands[t] = 1

    def app(self, t):
        name, args = t.args[0], t.args[1:]
        lams = [a for a in args if a.op == 'lam']
        rest = [a for a in args if a.op != 'lam']
        if lams:
            self.deep(t)
        for a in rest:
            self.cand(a)
        if not self.uf or not rest or name in ('sqrt', 'sin', 'cos', 'exp', 'log', 'floor', 'abs'):
            c = self.const(t, name)
        else:
            zs = [self.b(a) if a.sort == 'B' else self.n(a, 'R' if a.sort == 'R' else None) for a in rest]
            fn = name + ''.join('@%d' % l.id for l in lams) + ''.join(a.sort for a in rest)
            # arguments are exported at a uniform sort per position
            f = z3.Function(fn, *[z.sort() for z in zs], self.sort(t.sort))
            c = f(*zs)
        self.cache[t] = c
        if name in tm.NONNEG_APPS and t.sort != 'B':
            self.axioms.append(c >= 0)
        ax = AXIOMS.get(name) if not self.opaque else None
        if ax is not None:
            for a in ax(self, t, *args):
                self.axiom(a)
        return c

    # ---- booleans
    def b(self, t):
        r = self.cache.get(t)
        if r is None:
            r = self._b0(t)
            self.cache[t] = r
        return r

    def _b0(self, t):
        op = t.op
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'not':
            return z3.Not(self.b(t.args[0]))
        if op == 'and':
            return z3.And(*[self.b(a) for a in t.args])
        if op == 'lt0':
            return self.n(t.args[0]) < 0
        if op == 'eq0':
            return self.n(t.args[0]) == 0
        if op == 'eqL':
            return self.n(t.args[0]) == self.n(t.args[1])
        if op == 'var':
            return z3.Bool(t.args[0])
        if op == 'app':
            return self.app(t)
        if op == 'all':
            c = self.const(t)
            self.cache[t] = c
            self.quants.append(('all', t))
            n, l = t.args
            sk = tm.app('sk', (n, l), l.args[2])
            body = tm.inst(l, sk)
            self.axiom(tm.bor(t, tm.band(tm.le(tm.ZERO, sk), tm.lt(sk, n), tm.bnot(body))))
            self.cand(sk)
            return c
        raise AssertionError('export bool ' + op)


def _assign_ind(t, a, v):
    d = {}
    for m, c in t.args:
        if any(x is a for x, _ in m):
            if not v:
                continue
            m = tuple((x, e) for x, e in m if x is not a)
        d[m] = d.get(m, 0) + c
    return tm.from_pdict(d)


def _ax_sqrt(ex, t, p):
    return [tm.bor(tm.lt(p, tm.ZERO), tm.eq0(tm.sub(_raw_sq(ex, t), p))), tm.le(tm.ZERO, t)] if False else _sqrt_raw(ex, t, p)


def _sqrt_raw(ex, t, p):
    c = ex.cache[t]
    x = ex.n(p, 'R')
    ex.axioms.append(z3.Implies(x >= 0, z3.And(c >= 0, c * c == x)))
    ex.axioms.append(c >= 0)
    return []


def _abs_raw(ex, t, p):
    c = ex.cache[t]
    x = ex.n(p)
    if c.sort() != x.sort():
        c, x = (c if c.sort() == z3.RealSort() else z3.ToReal(c)), (x if x.sort() == z3.RealSort() else z3.ToReal(x))
    ex.axioms.append(c == z3.If(x >= 0, x, -x))
    return []


def _floor_raw(ex, t, p):
    c = ex.cache[t]
    x = ex.n(p, 'R')
    ex.axioms.append(z3.And(z3.ToReal(c) <= x, x < z3.ToReal(c) + 1))
    return []


def _trig(ex, t, p):
    other = tm.app('sin' if t.args[0] == 'cos' else 'cos', (p,))
    key = ('trig', p)
    if key in ex.cache:
        return []
    ex.cache[key] = True
    s = ex.n(tm._mk('app', ('sin', p), 'R'))
    c = ex.n(tm._mk('app', ('cos', p), 'R'))
    ex.axioms.append(s * s + c * c == 1)
    ex.axioms.append(z3.And(s <= 1, s >= -1, c <= 1, c >= -1))
    if p.op == 'app' and p.args[0] == 'atan2':
        y, x = p.args[1:]
        r = tm.sqrt(tm.add(tm.power(x, 2), tm.power(y, 2)))
        zr, zx, zy = ex.n(r, 'R'), ex.n(x, 'R'), ex.n(y, 'R')
        ex.axioms.append(z3.And(zr * c == zx, zr * s == zy))
    return []


def _atan2(ex, t, y, x):
    pi = ex.n(tm.PI)
    c = ex.cache[t]
    ex.axioms.append(z3.And(c > -pi, c <= pi))
    return []


def _pi(ex, t):
    c = ex.cache[t]
    ex.axioms.append(z3.And(c > z3.RealVal('3.14159265358979'), c < z3.RealVal('3.14159265358980')))
    return []


def _exp(ex, t, p):
    c = ex.cache[t]
    x = ex.n(p, 'R')
    ex.axioms.append(z3.And(c > 0, z3.Implies(x > 0, c > 1), z3.Implies(x < 0, c < 1), z3.Implies(x == 0, c == 1), c >= 1 + x))
    lst = ex.cache.setdefault(('exps',), [])
    for (c2, x2) in lst:
        ex.axioms.append(z3.And(z3.Implies(x < x2, c < c2), z3.Implies(x2 < x, c2 < c), z3.Implies(x == x2, c == c2)))
    lst.append((c, x))
    return []


def _pow(ex, t, b, e):
    c = ex.cache[t]
    x, y = ex.n(b, 'R'), ex.n(e, 'R')
    ex.axioms.append(z3.Implies(x > 0, c > 0))
    ex.axioms.append(z3.Implies(y == 0, c == 1))
    ex.axioms.append(z3.Implies(y == 1, c == x))
    # increasing in the base for positive exponents
    if not hasattr(ex, 'pows'):
        ex.pows = []
    if all(v.op != 'bv' for v in t.fv):
        for c2, x2, e2 in ex.pows[-6:]:
            if e2 is e:
                ex.axioms.append(z3.Implies(z3.And(y > 0, x > 0, x2 > 0), (x <= x2) == (c <= c2)))
        ex.pows.append((c, x, e))
    return []


def _log(ex, t, p):
    c = ex.cache[t]
    x = ex.n(p, 'R')
    ex.axioms.append(z3.And(z3.Implies(x > 1, c > 0), z3.Implies(z3.And(x > 0, x < 1), c < 0), z3.Implies(x == 1, c == 0)))
    return []


def _idiv(ex, t, a, b):
    c = ex.cache[t]
    x, y = ex.n(a), ex.n(b)
    r = x - c * y
    ex.axioms.append(z3.Implies(y > 0, z3.And(r >= 0, r < y)))
    return []


def _imod(ex, t, a, b):
    c = ex.cache[t]
    q = ex.n(tm.app('idiv', (a, b), 'I'))
    x, y = ex.n(a), ex.n(b)
    ex.axioms.append(c == x - q * y)
    return []


def _quant(ex, t, n, l, q):
    # quantile lies between min and max of the sample
    mx = tm._mk('max', (n, l), l.sort)
    mn = tm._mk('min', (n, l), l.sort)
    return [tm.bor(tm.lt(n, tm.ONE), tm.band(tm.le(t, mx), tm.le(mn, t)))]


def _argext(ex, t, n, l):
    # contract of argmax/argmin: in range, attains the extremum, first such position
    k, body = tm.open_lam(l, 'ax')
    val = tm.inst(l, t)
    up = t.args[0] == 'argmax'
    cond = tm.le(body, val) if up else tm.le(val, body)
    strict = tm.lt(body, val) if up else tm.lt(val, body)
    ex.cand(t)
    return [tm.bor(tm.le(n, tm.ZERO), tm.band(tm.le(tm.ZERO, t), tm.lt(t, n), tm.mk_all(n, k, tm.band(cond, tm.bor(tm.le(t, k), strict)))))]


def _extmask(ex, t, n, lm, lv):
    # extremum of the values lv(k) with mask lm(k)  (lv is zero off the mask)
    k = tm.fresh('ax')
    m, v = tm.inst(lm, k), tm.inst(lv, k)
    up = t.args[0] == 'maxm'
    w = tm.app('arg' + t.args[0], (n, lm, lv), 'I')
    cond = tm.le(v, t) if up else tm.le(t, v)
    ex.cand(w)
    return [tm.mk_all(n, k, tm.bor(tm.bnot(m), cond)),
            tm.bor(tm.mk_all(n, k, tm.bnot(m)), tm.band(tm.le(tm.ZERO, w), tm.lt(w, n), tm.inst(lm, w), tm.eq(tm.inst(lv, w), t)))]


def _select(ex, t, n, l, i):
    # i-th position satisfying the mask
    k = tm.fresh('ax')
    cnt = tm.mk_sum(n, k, tm.ind(tm.inst(l, k)))
    ex.cand(t)
    return [tm.bor(tm.bnot(tm.band(tm.le(tm.ZERO, i), tm.lt(i, cnt))), tm.band(tm.le(tm.ZERO, t), tm.lt(t, n), tm.inst(l, t)))]


def _interp1(ex, t, n, lx, ly, q):
    # linear between neighbouring knots (increasing knots)
    def law(k):
        k1 = tm.add(k, tm.ONE)
        x0, x1, y0, y1 = tm.inst(lx, k), tm.inst(lx, k1), tm.inst(ly, k), tm.inst(ly, k1)
        inside = tm.band(tm.le(x0, q), tm.le(q, x1), tm.lt(x0, x1))
        return tm.bor(tm.bnot(inside), tm.eq(tm.mul(t, tm.sub(x1, x0)), tm.add(tm.mul(y0, tm.sub(x1, q)), tm.mul(y1, tm.sub(q, x0)))))
    k = tm.fresh('ax')
    last = tm.sub(n, tm.ONE)
    out = [tm.mk_all(last, k, law(k))]
    # the knots the goal is about: first and last interval, and (for padded knot lists) the interval after each index
    for c in [tm.ZERO, tm.sub(n, tm.num(2))] + [tm.add(v, tm.ONE) for v in getattr(ex, 'goal_vars', ())]:
        out.append(tm.bor(tm.lt(c, tm.ZERO), tm.le(last, c), law(c)))
    return out


def _csd(ex, t, n, l1, l2, *par):
    # |Pxy|^2 <= Pxx Pyy  (Cauchy-Schwarz over the averaged segments)
    re, im = tm.app('csd.re', (n, l1, l2) + par), tm.app('csd.im', (n, l1, l2) + par)
    a, b = tm.app('welch', (n, l1) + par), tm.app('welch', (n, l2) + par)
    return [tm.le(tm.add(tm.mul(re, re), tm.mul(im, im)), tm.mul(a, b)), tm.le(tm.ZERO, a), tm.le(tm.ZERO, b)]


def _comb(ex, t, n, k, r):
    # index pair number k of the lexicographic enumeration
    from .models_lib import pair_rank, pair_count
    rep = tm.numval(r) == 1
    i, j = tm.app('comb.i', (n, k, r), 'I'), tm.app('comb.j', (n, k, r), 'I')
    ex.cand(i)
    ex.cand(j)
    return [tm.bor(tm.lt(k, tm.ZERO), tm.le(pair_count(n, rep), k),
                   tm.band(tm.le(tm.ZERO, i), tm.le(i, j) if rep else tm.lt(i, j), tm.lt(j, n), tm.eq(pair_rank(n, i, j, rep), k)))]


def _box(ex, t, l, *idx):
    if not hasattr(ex, 'nbox'):
        ex.nbox = {}
    ex.nbox[l] = ex.nbox.get(l, 0) + 1
    if ex.nbox[l] > (2 if t.args[0] == 'boxp' else 8):
        return []
    for i in idx:
        l = tm.inst(l, i)
    return [tm.eq(t, l)]


DEEP = ('argmax', 'argmin', 'select', 'maxm', 'minm', 'argmaxm', 'argminm')
AXIOMS = {'comb.i': _comb, 'comb.j': _comb, 'csd.re': _csd, 'interp1': _interp1, 'sqrt': _sqrt_raw, 'abs': _abs_raw, 'floor': _floor_raw, 'sin': _trig, 'cos': _trig, 'atan2': _atan2,
          'pi': _pi, 'exp': _exp, 'log': _log, 'idiv': _idiv, 'imod': _imod, 'pow': _pow, 'quantile': _quant, 'box': _box, 'boxp': _box,
          'select': _select, 'argmax': _argext, 'argmin': _argext, 'maxm': _extmask, 'minm': _extmask}


def check(hyps, goal, timeout_ms, uf=True, extra=(), lean=False, opaque=False):
    """is hyps |= goal ?  -> ('unsat'|'sat'|'unknown', model|None, export)"""
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        return 'unknown', None, None
    ex = Export(uf=uf, maxinst=0 if opaque else 150)
    ex.opaque = opaque
    ex.goal_vars = () if lean else [v for v in goal.fv if v.op == 'var' and v.sort == 'I']
    fs = [ex.b(h) for h in hyps]
    fs.append(z3.Not(ex.b(goal)))
    for e in extra:
        fs.append(ex.b(e))
    ex.cand(tm.ZERO)
    for v in () if lean else goal.fv:
        if v.op == 'var' and v.sort == 'I':
            ex.cand(v)
    ex.flush()
    s = z3.Solver() if uf else z3.SolverFor('QF_NIRA') if False else z3.Solver()
    s.set('timeout', int(timeout_ms))
    s.add(*ex.axioms)
    s.add(*fs)
    t0 = time.time()
    STATS['queries'] += 1
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS['solver_s'] += time.time() - t0
    if r == z3.unsat:
        return 'unsat', None, ex
    if r == z3.sat:
        return 'sat', s.model(), ex
    ex.smt2 = s
    return 'unknown', None, ex


def cvc5_check(ex, timeout_ms):
    try:
        import cvc5
    except Exception:
        return 'unknown'
    try:
        txt = ex.smt2.to_smt2()
        tmn = cvc5.TermManager()
        slv = cvc5.Solver(tmn)
        slv.setOption('tlimit-per', str(int(timeout_ms)))
        slv.setLogic('ALL')
        parser = cvc5.InputParser(slv)
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
        sm = parser.getSymbolManager()
        t0 = time.time()
        res = None
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(slv, sm)
            if 'unsat' in str(out):
                res = 'unsat'
            elif 'sat' in str(out) and res is None:
                res = 'sat' if str(out).strip() == 'sat' else None
        STATS['solver_s'] += time.time() - t0
        return res or 'unknown'
    except Exception:
        return 'unknown'


def rat_zero(p, hyps, depth=0):
    """p = 0 by clearing denominators (each cleared denominator is proved non-zero under hyps)"""
    for _ in range(12):
        if p is tm.ZERO:
            return True
        dens = {}
        for m, _c in tm.pdict(p).items():
            for a, e in m:
                if a.op == 'inv':
                    dens[a] = max(dens.get(a, 0), e)
                elif e < 0:
                    dens[a] = max(dens.get(a, 0), -e)
        if not dens:
            return False
        a, e = next(iter(dens.items()))
        base = a.args[0] if a.op == 'inv' else a
        if not quick(hyps, tm.bnot(tm.eq0(base))):
            return False
        # multiply monomial-wise
        acc = tm.ZERO
        for m, c in tm.pdict(p).items():
            dm = dict(m)
            if a.op == 'inv':
                k = dm.pop(a, 0)
                mono = tm.from_pdict({tuple(sorted(dm.items(), key=lambda q: q[0].id)): c})
                acc = tm.add(acc, tm.mul(mono, tm.power(base, e - k)))
            else:
                k = dm.pop(a, 0)
                mono = tm.from_pdict({tuple(sorted(dm.items(), key=lambda q: q[0].id)): c})
                acc = tm.add(acc, tm.mul(mono, tm.power(a, k + e) if k + e else tm.ONE))
        p = acc
    return p is tm.ZERO


_patoms = {}


def poly_atoms(t):
    """the arithmetic atoms a condition compares (not looking inside them)"""
    r = _patoms.get(t)
    if r is None:
        if t.op in ('and', 'not', 'lt0', 'eq0', 'ind', 'inv'):
            r = frozenset().union(*[poly_atoms(x) for x in t.args if isinstance(x, T)])
        elif t.op == 'poly':
            r = frozenset().union(*[poly_atoms(a) for m, _c in t.args for a, _e in m])
        elif t.op in ('num', 'true', 'false'):
            r = frozenset()
        else:
            r = frozenset((t,))
        _patoms[t] = r
    return r


def same_atoms(hyps, goal):
    cur = poly_atoms(goal)
    return [h for h in hyps if poly_atoms(h) <= cur]


_quick_memo = {}


def quick(hyps, goal, timeout_ms=1500):
    if goal is TRUE:
        return True
    if goal is FALSE and not hyps:
        return False
    if goal in hyps:
        return True
    key = (tuple(h.id for h in hyps), goal.id)
    if key in _quick_memo:
        return _quick_memo[key]
    light = same_atoms(hyps, goal)
    if light and len(light) < len(hyps):
        r, _m, _e = check(light, goal, 200, uf=False, opaque=True)
        if r == 'unsat':
            _quick_memo[key] = True
            return True
    r, _m, _e = check(hyps, goal, timeout_ms, uf=True)
    _quick_memo[key] = r == 'unsat'
    return r == 'unsat'


def rewrite_with(hyps, t):
    """substitute equalities  var = term  /  atom = const found in hyps into t"""
    m = {}
    for h in hyps:
        if h.op == 'eq0':
            p = h.args[0]
            for mono, c in tm.pdict(p).items():
                if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op in ('var', 'app', 'max', 'min') and c in (1, -1):
                    a = mono[0][0]
                    rhs = tm.scale(tm.sub(p, tm.scale(a, c)), -c)
                    if a not in tm.atoms(rhs) and a not in m:
                        m[a] = rhs
                        break
    if not m:
        return t
    for _ in range(3):
        t2 = replace(t, m)
        if t2 is t:
            break
        t = t2
    return t


def replace(t, m):
    memo = {}

    def go(t):
        if t in m:
            return m[t]
        r = memo.get(t)
        if r is None:
            ch = tm.children(t)
            if not ch:
                r = t
            else:
                r = tm.rebuild(t, go)
            memo[t] = r
        return r
    return go(t)


def ind_assume(hyps, t):
    """replace hypothesis conjuncts by true inside t (normal-form simplification under hypotheses)"""
    m = {}
    for h in hyps:
        if h.op == 'not':
            if h.args[0].op in ('lt0', 'eq0', 'eqL', 'app', 'var', 'all'):
                m[h.args[0]] = FALSE
        elif h.op in ('lt0', 'eq0', 'eqL', 'app', 'var', 'all'):
            m[h] = TRUE
    if not m:
        return t
    return replace(t, m)


def flat(hyps):
    out = []
    for h in hyps:
        if h.op == 'and':
            out.extend(h.args)
        elif h is not TRUE:
            out.append(h)
    return out


def relevant(hyps, goal):
    """cone of influence by shared variables/functions (dropping hypotheses is sound)"""
    def syms(t):
        s = set()
        for a in tm.atoms(t):
            if a.op == 'var':
                s.add(a.args[0])
            elif a.op == 'app' and len(a.args) > 1 and a.args[0] not in AXIOMS:
                s.add(a.args[0])
        return s
    hs = [(h, syms(h)) for h in hyps]
    cur = syms(goal)
    out, rest = [], hs
    changed = True
    while changed:
        changed = False
        nxt = []
        for h, s in rest:
            if s & cur or not s:
                out.append(h)
                if not s <= cur:
                    cur |= s
                    changed = True
            else:
                nxt.append((h, s))
        rest = nxt
    return out


def nested_cond(g):
    """a closed condition guarding something inside a function argument or a binder (worth a case split)"""
    best = {}
    stack = [(x, False) for x in tm.children(g)]
    seen = set()
    while stack:
        x, inside = stack.pop()
        if (x, inside) in seen:
            continue
        seen.add((x, inside))
        if x.op == 'ind' and inside and x.args[0].op in ('lt0', 'eq0', 'not', 'app', 'eqL', 'var'):
            c = x.args[0].args[0] if x.args[0].op == 'not' else x.args[0]
            if not any(v.op == 'bv' for v in c.fv):
                best[c] = best.get(c, 0) + 1
        ins = inside or x.op in ('app', 'ind', 'sum', 'max', 'min', 'all')
        stack.extend((y, ins) for y in tm.children(x))
    if not best:
        return None
    # innermost first: a condition without further conditions inside
    return min(best, key=lambda c: (sum(1 for q in tm.atoms(c) if q.op == 'ind'), -best[c], c.id))


def expand_trig(goal):
    """sines and cosines of sums by the addition theorems"""
    for _ in range(4):
        m = {}
        for a in tm.atoms(goal):
            if a.op == 'app' and a.args[0] in ('sin', 'cos') and a.args[1].op == 'poly':
                pd = tm.pdict(a.args[1])
                if 2 <= len(pd) <= 4:
                    items = list(pd.items())
                    p = tm.from_pdict(dict(items[:1]))
                    q = tm.from_pdict(dict(items[1:]))
                    cp, sp, cq, sq = [tm.app(f, (x,)) for x in (p, q) for f in ('cos', 'sin')]
                    m[a] = tm.sub(tm.mul(cp, cq), tm.mul(sp, sq)) if a.args[0] == 'cos' else tm.add(tm.mul(sp, cq), tm.mul(cp, sq))
        if not m:
            break
        goal = replace(goal, m)
        if goal.op != 'eq0':
            break
    return goal


def drop_factor(hyps, g):
    """f*Q >= 0 follows from Q >= 0 for a factor f known nonnegative (the goal to prove instead, or None)"""
    if not (g.op == 'not' and g.args[0].op == 'lt0'):
        return None
    pd = tm.pdict(g.args[0].args[0])
    if len(pd) < 2:
        return None
    ms = list(pd)
    com = set(ms[0])
    for m in ms[1:]:
        com &= set(m)
    for a, e in com:
        if tm._atom_sign(a, abs(e)) is None or e < 0 and not quick(hyps, tm.bnot(tm.eq0(a))):
            continue
        return tm.bnot(tm.lt0(tm.from_pdict({tuple(x for x in m if x != (a, e)): c for m, c in pd.items()})))
    return None


def prove(hyps, goal, timeout_ms=4000, lemmas=True, depth=0, splits=0):
    """-> dict(status='proved'|'refuted'|'unknown', backend=..., model=...)"""
    if goal is TRUE:
        STATS['normal_form'] += 1
        return {'status': 'proved', 'backend': 'normal-form'}
    hyps = flat(hyps)
    if FALSE in hyps:
        return {'status': 'proved', 'backend': 'normal-form'}
    if goal.op == 'and':
        res = None
        for g in goal.args:
            r = prove(hyps, g, timeout_ms, lemmas, depth)
            if r['status'] != 'proved':
                return r
            res = r if res is None or r['backend'] != 'normal-form' else res
        return res
    if goal.op == 'lt0' and depth < 2:
        # sqrt(q) > 0 follows from q > 0
        ms = list(tm.pdict(goal.args[0]).items())
        if len(ms) == 1 and ms[0][1] < 0 and ms[0][0] and all(a.op == 'app' and a.args[0] == 'sqrt' and e == 1 for a, e in ms[0][0]):
            rs = [prove(hyps, tm.lt(tm.ZERO, a.args[1]), timeout_ms, lemmas, depth + 2) for a, e in ms[0][0]]
            if all(r['status'] == 'proved' for r in rs):
                return rs[-1]
    if goal.op == 'all':
        n, l = goal.args
        k, body = tm.open_lam(l)
        return prove(hyps + [tm.le(tm.ZERO, k), tm.lt(k, n)], body, timeout_ms, lemmas, depth)
    if goal.op == 'not' and goal.args[0].op == 'and':
        # disjunction: assume all but the "best" one false
        parts = list(goal.args[0].args)      # not(p1 & p2 & ..)
        lits = [p for p in parts if (p.args[0] if p.op == 'not' else p).op in ('lt0', 'eq0', 'eqL', 'app', 'var')]
        out = []
        for p in parts:
            out.append(ind_assume([q for q in lits if q is not p and len(tm.atoms(q)) < len(tm.atoms(p))], p))
        if any(p is not q for p, q in zip(parts, out)):
            g2 = tm.bnot(tm.band(*out))
            if g2 is not goal:
                return prove(hyps, g2, timeout_ms, lemmas, depth)
        concl = [p for p in parts if p.op == 'not']
        big = max(parts, key=lambda p: len(tm.atoms(p)))
        if concl and not (big.op == 'lt0' and not any(p.args[0].op in ('eq0', 'all') for p in concl)):
            # p1 & .. -> q   with q from a negated part
            qs = sorted(concl, key=lambda t: 0 if t.args[0].op in ('eq0', 'all') else 1)
            for q in qs[:3]:
                r = prove(hyps + [p for p in parts if p is not q], q.args[0], timeout_ms, lemmas, depth)
                if r['status'] == 'proved' or q.args[0].op != 'eq0':
                    break
            return r
        if big.op == 'lt0':
            return prove(hyps + [p for p in parts if p is not big], tm.bnot(big), timeout_ms, lemmas, depth)
    g2 = ind_assume(hyps, rewrite_with(hyps, goal))
    if g2 is TRUE:
        STATS['normal_form'] += 1
        return {'status': 'proved', 'backend': 'normal-form'}
    if g2 is not goal and g2.op in ('and', 'all', 'not') and depth < 4:
        if g2.op != 'not' or g2.args[0].op == 'and':
            return prove(hyps, g2, timeout_ms, lemmas, depth + 1)
    if g2.op == 'eq0':
        bx = {a: tm.inst_n(a.args[1], a.args[2:]) for a in tm.atoms(g2) if a.op == 'app' and a.args[0] in ('box', 'boxp') and not any(v.op == 'bv' for v in a.fv)}
        if bx and len(bx) <= 4 and replace(g2, bx) is TRUE:
            STATS['normal_form'] += 1
            return {'status': 'proved', 'backend': 'normal-form'}
        if rat_zero(g2.args[0], hyps):
            STATS['denominator'] += 1
            return {'status': 'proved', 'backend': 'normal-form+z3(denominators)'}
        g3 = expand_trig(g2)
        if g3 is not g2 and (g3 is TRUE or rat_zero(g3.args[0], hyps)):
            STATS['normal_form'] += 1
            return {'status': 'proved', 'backend': 'normal-form+angle addition'}
    if splits < 5:
        c = nested_cond(g2)
        if c is not None:
            res = None
            for h in (c, tm.bnot(c)):
                if quick(hyps, tm.bnot(h)):
                    continue
                r = prove(hyps + [h], g2, timeout_ms, lemmas, depth, splits + 1)
                if r['status'] != 'proved':
                    return r
                res = r if res is None or r['backend'] != 'normal-form' else res
            return res or {'status': 'proved', 'backend': 'z3'}
    g3 = drop_factor(hyps, g2)
    if g3 is not None and prove(hyps, g3, timeout_ms // 2, lemmas, depth + 1, splits)['status'] == 'proved':
        return {'status': 'proved', 'backend': 'z3'}
    hr = relevant(hyps, g2)
    fs = ext_instances(g2)
    if fs:
        r, m, ex = check(fs + [h for h in hr if len(tm.atoms(h)) < 40 and not any(a.op == 'all' for a in tm.atoms(h))], g2, timeout_ms // 2, uf=False, opaque=True)
        if r == 'unsat':
            STATS['z3_unsat'] += 1
            return {'status': 'proved', 'backend': 'z3'}
    r, m, ex = check(hr, g2, timeout_ms // 2, uf=False)
    if r == 'unsat':
        STATS['z3_unsat'] += 1
        return {'status': 'proved', 'backend': 'z3'}
    r, m, ex = check(hr, g2, timeout_ms, uf=True, lean=True)
    if r == 'unsat':
        STATS['z3_unsat'] += 1
        return {'status': 'proved', 'backend': 'z3'}
    if ex is not None and (ex.quants or ex.ninst):
        r, m, ex = check(hr, g2, timeout_ms, uf=True)
        if r == 'unsat':
            STATS['z3_unsat'] += 1
            return {'status': 'proved', 'backend': 'z3'}
    # lemmas about sums and higher-order applications
    if lemmas and depth < 3:
        for extra in find_lemmas(hyps, g2, timeout_ms, depth):
            if not extra:
                continue
            STATS['lemmas'] += len(extra)
            g3 = ind_assume(hyps, rewrite_with(list(extra), g2))
            if g3 is TRUE:
                return {'status': 'proved', 'backend': 'normal-form+lemmas'}
            if g3.op == 'eq0' and rat_zero(g3.args[0], hyps):
                return {'status': 'proved', 'backend': 'normal-form+lemmas'}
            r2, m2, ex2 = check(hr + list(extra), g3, timeout_ms, uf=True)
            if r2 == 'unsat':
                STATS['z3_unsat'] += 1
                return {'status': 'proved', 'backend': 'z3+lemmas'}
            r, m, ex, hr = r2, m2, ex2, hr + list(extra)
    if r == 'unknown' and depth == 0 and ex is not None and hasattr(ex, 'smt2'):
        if cvc5_check(ex, timeout_ms) == 'unsat':
            STATS['cvc5_unsat'] += 1
            return {'status': 'proved', 'backend': 'cvc5'}
    if r == 'sat':
        STATS['z3_sat'] += 1
        return {'status': 'refuted', 'backend': 'z3', 'model': m, 'export': ex, 'goal': g2, 'hyps': hyps}
    STATS['z3_unknown'] += 1
    return {'status': 'unknown', 'backend': 'z3', 'goal': g2, 'hyps': hyps}


def ext_instances(goal):
    """bounds of the extremes over two or more axes occurring in the goal by the elements at the goal's index variables"""
    vs = [v for v in goal.fv if v.op == 'var' and v.sort == 'I']
    out = []
    if not vs or len(vs) > 6:
        return out
    for a in tm.atoms(goal):
        if a.op not in ('max', 'min') or any(v.op == 'bv' for v in a.fv):
            continue
        cur = [((), a)]
        deep = 0
        while cur and cur[0][1].op == a.op:
            deep += 1
            cur = [(c + (tm.le(tm.ZERO, v), tm.lt(v, e.args[0])), tm.inst(e.args[1], v)) for c, e in cur for v in vs if v is not e.args[0]]
            if len(cur) > 40:
                return out
        if deep < 2:
            continue
        for c, e in cur:
            out.append(tm.bor(*[tm.bnot(x) for x in c], tm.le(e, a) if a.op == 'max' else tm.le(a, e)))
    return out


def find_lemmas(hyps, goal, timeout_ms, depth):
    """pointwise equality / order of binder bodies occurring in goal and hyps"""
    groups = {}
    for a in tm.atoms(goal):
        if any(v.op == 'bv' for v in a.fv):
            continue
        if a.op in ('sum', 'max', 'min'):
            groups.setdefault((a.op, a.args[0]), []).append(a)
        elif a.op == 'app' and any(isinstance(x, T) and x.op == 'lam' for x in a.args[1:]):
            groups.setdefault((a.args[0], len(a.args)), []).append(a)
    if goal.op == 'eq0':
        g2 = goal
        for _ in range(4):
            g3 = resolve_sums(hyps, g2)
            if g3 is g2:
                break
            g2 = g3
            if g2 is TRUE:
                break
        if g2 is not goal:
            if g2 is TRUE or prove(hyps, g2, timeout_ms, True, depth + 1)['status'] == 'proved':
                yield [goal]
                return
    if goal.op == 'eq0' and sums_vanish(hyps, goal.args[0], timeout_ms, depth):
        yield [goal]
        return
    out = combine_sums(hyps, goal, timeout_ms, depth)
    if out:
        yield list(out)
    k0 = len(out)
    for key, lst in groups.items():
        for a in lst:
            if a.op == 'sum':
                n, l = a.args
                k, body = tm.open_lam(l)
                rng = [tm.le(tm.ZERO, k), tm.lt(k, n)]
                if tm._sign(body) is None:
                    if prove(hyps + rng, tm.le(tm.ZERO, body), timeout_ms // 2, False, depth + 1)['status'] == 'proved':
                        out.append(tm.le(tm.ZERO, a))
                        if prove(hyps + rng, tm.lt(tm.ZERO, body), timeout_ms // 2, False, depth + 1)['status'] == 'proved':
                            out.append(tm.bor(tm.le(n, tm.ZERO), tm.lt(tm.ZERO, a)))
                    elif prove(hyps + rng, tm.le(body, tm.ZERO), timeout_ms // 2, False, depth + 1)['status'] == 'proved':
                        out.append(tm.le(a, tm.ZERO))
        if len(lst) > 6:
            lst = lst[:6]
        for i in range(len(lst)):
            for j in range(i):
                e = _congr(hyps, lst[i], lst[j], timeout_ms, depth)
                if e is not None:
                    out.append(e)
    if len(out) > k0:
        yield out


def resolve_sums(hyps, goal):
    """drop the guards inside sums that are decided over the whole range of the sum"""
    m = {}
    for a in tm.atoms(goal):
        if a.op != 'sum' or any(v.op == 'bv' for v in a.fv):
            continue
        k, body = tm.open_lam(a.args[1])
        rng = [tm.le(tm.ZERO, k), tm.lt(k, a.args[0])]
        dec, cut = {}, None
        for i in tm.atoms(body):
            if i.op == 'ind' and k in i.fv and not any(v.op == 'bv' for v in i.fv) and len(dec) < 8:
                if quick(hyps + rng, i.args[0], 300):
                    dec[i] = tm.ONE
                elif quick(hyps + rng, tm.bnot(i.args[0]), 300):
                    dec[i] = tm.ZERO
                elif cut is None and i.args[0].op == 'lt0':
                    p = i.args[0].args[0]
                    d = tm.pdict(p).get(((k, 1),))
                    if d in (1, -1):
                        rest = tm.sub(p, tm.scale(k, d))
                        at = tm.add(rest, tm.ONE) if d == -1 else tm.neg(rest)
                        if k not in rest.fv and quick(hyps, tm.band(tm.le(tm.ZERO, at), tm.le(at, a.args[0])), 300):
                            cut = (i, d, at)
        if dec:
            m[a] = tm.mk_sum(a.args[0], k, replace(body, dec))
        elif cut is not None:                       # cut the range at the threshold
            i, d, at = cut
            lo = replace(body, {i: tm.ZERO if d == -1 else tm.ONE})
            hi = tm.subst(replace(body, {i: tm.ONE if d == -1 else tm.ZERO}), {k: tm.add(k, at)})
            m[a] = tm.add(tm.mk_sum(at, k, lo), tm.mk_sum(tm.sub(a.args[0], at), k, hi))
    return replace(goal, m) if m else goal


def sums_vanish(hyps, p, timeout_ms, depth):
    """p = SUM_j r_j SUM_{k<n_j} body_j(k) is zero: collected under the longest range and grouped by the constant
    factor r_j, every group vanishes pointwise (a monomial of constants only counts as a sum of its n-th part)"""
    ms = []
    closed = set()
    for m, c in tm.pdict(p).items():
        sm = [a for a, e in m if a.op == 'sum' and e == 1 and not any(v.op == 'bv' for v in a.fv)]
        main = max(sm, key=lambda a: (len(tm.atoms(a)), a.id)) if sm else None
        closed.update(a for a, e in m if a.op == 'sum' and a is not main)
        ms.append([m, c, main])
    rs = set()
    for q in ms:
        if q[2] is not None and q[2] not in closed:
            rs.add(frozenset(x for x in q[0] if x[0] is not q[2]))
    tops = {q[2].args[0] for q in ms if q[2] is not None and q[2] not in closed}
    if not tops or len(tops) > 3:
        return False
    for q in ms:
        if q[2] is not None and q[2] in closed:
            if sum(1 for a, e in q[0] if a.op == 'sum') > 1 or frozenset(x for x in q[0] if x[0] is not q[2]) not in rs:
                q[2] = None
    top = [n for n in tops if all(o is n or quick(hyps, tm.le(o, n)) for o in tops)]
    if not top:
        return False
    n = top[0]
    groups = {}
    k = tm.fresh('k')
    for m, c, a in ms:
        if a is None:
            if not quick(hyps, tm.lt(tm.ZERO, n)):
                return False
            # a monomial of constants: n times its n-th part, when n is a monomial itself
            r = tm.mul(tm.from_pdict({m: Fraction(1)}), tm.inv(n))
            d = tm.pdict(r)
            if len(d) != 1:
                return False
            (m2, c2), = d.items()
            groups.setdefault(frozenset(m2), []).append(tm.num(c * c2))
        else:
            b = tm.inst(a.args[1], k)
            if a.args[0] is not n:
                b = tm.mul(b, tm.ind(tm.lt(k, a.args[0])))
            groups.setdefault(frozenset(x for x in m if x[0] is not a), []).append(tm.scale(b, c))
    rng = [tm.le(tm.ZERO, k), tm.lt(k, n)]
    bodies = [tm.add(*g) for g in groups.values()]
    if any(b is not tm.ZERO and not b.fv - {k} and b.op == 'num' for b in bodies):
        return False
    return all(prove(hyps + rng, tm.eq0(b), timeout_ms // 2, depth < 1, depth + 1)['status'] == 'proved' for b in bodies)


def combine_sums(hyps, goal, timeout_ms, depth):
    """sign of  SUM_j m_j * SUM_k body_j(k)  from the sign of  SUM_j m_j * body_j(k)  at every k (linearity of the sum)"""
    out = []
    seen = set()
    for t in tm.atoms(goal):
        if t.op not in ('lt0', 'eq0') or any(v.op == 'bv' for v in t.fv):
            continue
        p = t.args[0]
        by = {}
        for m, c in tm.pdict(p).items():
            sm = [(a, e) for a, e in m if a.op == 'sum' and e == 1]
            if len(sm) > 1:                       # the others are constant factors
                sm = [max(sm, key=lambda ae: (len(tm.atoms(ae[0])), ae[0].id))]
            if len(sm) == 1:
                by.setdefault(sm[0][0].args[0], []).append((m, c, sm[0][0]))
        # terms without a sum that are a multiple of n count as a constant sum
        jobs = [(n, [(m, c, a, None) for m, c, a in lst]) for n, lst in by.items()]
        if 1 < len(by) <= 3:                      # shorter sums are guarded sums over the longest range
            top = [n for n in by if all(q is n or quick(hyps, tm.le(q, n)) for q in by)]
            if top:
                jobs.insert(0, (top[0], [(m, c, a, None if n is top[0] else n) for n, lst in by.items() for m, c, a in lst]))
        for n, lst in jobs:
            k = tm.fresh('k')
            body = tm.ZERO
            lhs = {}
            for m, c, a, cut in lst:
                rest = tm.from_pdict({tuple(x for x in m if x[0] is not a): c})
                w = tm.mul(rest, tm.inst(a.args[1], k))
                body = tm.add(body, w if cut is None else tm.mul(w, tm.ind(tm.lt(k, cut))))
                lhs[m] = c
            if n.op == "var" and n in tm._nonneg_vars:
                for m, c in tm.pdict(p).items():
                    if m not in lhs and dict(m).get(n, 0) >= 1 and all(a.op != 'sum' for a, _ in m):
                        dm = dict(m)
                        dm[n] -= 1
                        body = tm.add(body, tm.from_pdict({tuple((a, e) for a, e in sorted(dm.items(), key=lambda q: q[0].id) if e): c}))
                        lhs[m] = c
            if len(lhs) < 2:
                continue
            l = tm.from_pdict(lhs)
            if l in seen:
                continue
            seen.add(l)
            rng = [tm.le(tm.ZERO, k), tm.lt(k, n)]

            def holds(g):
                return prove(hyps + rng, g, timeout_ms // 2, depth < 1, depth + 1)['status'] == 'proved'
            if holds(tm.eq0(body)):
                out.append(tm.eq0(l))
                if t is goal and len(lhs) == len(tm.pdict(p)):
                    return out
                continue
            if t is goal and t.op == 'eq0':
                continue
            for sg in (1, -1):
                bd, ls = tm.scale(body, sg), tm.scale(l, sg)
                if not holds(tm.le(tm.ZERO, bd)):
                    continue
                out.append(tm.le(tm.ZERO, ls))
                if holds(tm.lt(tm.ZERO, bd)):
                    out.append(tm.bor(tm.le(n, tm.ZERO), tm.lt(tm.ZERO, ls)))
                    break
                # a sum of nonnegative terms vanishes only when every term does: probe the ends of the range
                for q in (tm.ZERO, tm.ONE, tm.sub(n, tm.ONE)):
                    g = tm.lt(tm.ZERO, tm.subst(bd, {k: q}))
                    if g is not FALSE and prove(hyps + [tm.le(tm.ZERO, q), tm.lt(q, n)], g, timeout_ms // 2, False, depth + 1)['status'] == 'proved':
                        out.append(tm.bor(tm.le(n, q), tm.lt(tm.ZERO, ls)))
                        break
                break
    return out


def _congr(hyps, a, b, timeout_ms, depth):
    if len(a.args) != len(b.args):
        return None
    for x, y in zip(a.args, b.args):
        if x is y or not isinstance(x, T):
            if not isinstance(x, T) and x != y:
                return None
            continue
        if x.op == 'lam' and y.op == 'lam':
            if x.args[2] != y.args[2]:
                return None
            k = tm.fresh('c', x.args[2])
            bx, by = tm.inst(x, k), tm.inst(y, k)
            rng = []
            if k.sort == 'I':
                n = a.args[0] if isinstance(a.args[0], T) else (a.args[1] if isinstance(a.args[1], T) and a.args[1].sort == 'I' else None)
                if n is not None and n.sort == 'I':
                    rng = [tm.le(tm.ZERO, k), tm.lt(k, n)]
            if not _peq(hyps + rng, bx, by, timeout_ms, depth):
                return None
        else:
            if not _peq(hyps, x, y, timeout_ms, depth):
                return None
    return tm.eq(a, b)


def _peq(hyps, x, y, timeout_ms, depth):
    if x is y:
        return True
    if x.sort == 'B' or y.sort == 'B':
        g = tm.biff(x, y)
    elif x.op == 'lam' or y.op == 'lam':
        if x.op != 'lam' or y.op != 'lam':
            return False
        k = tm.fresh('c', x.args[2])
        return _peq(hyps, tm.inst(x, k), tm.inst(y, k), timeout_ms, depth)
    else:
        g = tm.eq(x, y)
    return prove(hyps, g, timeout_ms // 2, True, depth + 1)['status'] == 'proved'


def model_value(m, ex, t):
    """value of a closed term in a model (None when unconstrained)"""
    try:
        e = ex.b(t) if t.sort == 'B' else ex.n(t)
        v = m.eval(e, model_completion=True)
    except Exception:
        return None
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None
