"""Symbolic values: scalars with IEEE special-value flags, arrays as (shape, element function), pandas objects."""
from fractions import Fraction
import math
import numbers
import enum
import datetime
import numpy as np
import pandas as pd
from . import terms as tm
from . import smt
from .terms import T, TRUE, FALSE, ZERO, ONE


class Unsupported(Exception):
    """the construct is outside the modelled subset: the obligation is undecided (never a violation)"""


class Raised(Exception):
    """a Python exception raised by the interpreted program"""

    def __init__(self, exc):
        self.exc = exc
        Exception.__init__(self, repr(exc))


class PathEnd(Exception):
    """path is infeasible / assumption false"""


class State:
    def __init__(self, script=()):
        self.script = list(script)
        self.pos = 0
        self.pc = []          # path condition + preconditions
        self.ctx = []         # index ranges of open binders
        self.assumed = []     # extra engine side assumptions (text)
        self.obls = []
        self.ndec = 0
        self.writes = []      # (array origin) mutation log

    def hyps(self):
        return smt.flat(self.pc + self.ctx)

    def assume(self, t):
        if t is FALSE:
            raise PathEnd()
        if t is not TRUE and t not in self.pc:
            self.pc.append(t)

    def implied(self, t, timeout=1200):
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        h = self.hyps()
        if t in h:
            return True
        t2 = smt.ind_assume(h, smt.rewrite_with(h, t)) if len(h) < 60 else t
        if t2 is TRUE:
            return True
        return smt.quick(tuple(smt.relevant(h, t2)), t2, timeout)

    def implied_index(self, t):
        """is a fact about integer positions implied by the hypotheses about integers alone?"""
        if t is TRUE or t is FALSE:
            return t is TRUE
        h = [x for x in self.hyps() if x.op != 'all' and all(a.sort == 'I' and a.op in ('var', 'app', 'idiv', 'imod') for a in smt.poly_atoms(x))]
        return t in h or smt.quick(tuple(h), t, 1200)

    def decide(self, t):
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if self.implied(t):
            return True
        if self.implied(tm.bnot(t)):
            return False
        if any(v.op == 'var' and v in self.binders() for v in t.fv):
            raise Unsupported('branch on a value that depends on a bound index: %s' % tm.show(t)[:120])
        if self.pos < len(self.script):
            v = self.script[self.pos]
        else:
            v = True
            self.script.append(True)
        self.pos += 1
        self.assume(t if v else tm.bnot(t))
        return v

    def binders(self):
        s = set()
        for c in self.ctx:
            for v in c.fv:
                if v.op == 'var' and '!' in v.args[0]:
                    s.add(v)
        return s


ST = [None]


def _known_sign(a):
    """1 / -1 when a hypothesis of the path says that the atom (or what it inverts) is positive / negative"""
    s = ST[0]
    if s is None or not s.pc:
        return None
    b = a.args[0] if a.op == 'inv' else a
    if tm.lt0(tm.scale(b, -1)) in s.pc:
        return 1
    if tm.lt0(b) in s.pc:
        return -1
    return None


tm.POSITIVE[0] = _known_sign


def st():
    return ST[0]


class over:
    """context manager: fresh index k with 0<=k<n pushed on the context"""

    def __init__(self, n, prefix='k'):
        self.n = n
        self.k = tm.fresh(prefix)

    def __enter__(self):
        st().ctx.append(tm.band(tm.le(ZERO, self.k), tm.lt(self.k, self.n)))
        return self.k

    def __exit__(self, *a):
        st().ctx.pop()


# ------------------------------------------------------------------ scalars
class Sym:
    """base of all symbolic proxies"""
    _cls = object
    __array_ufunc__ = None
    __hash__ = None


class SBool(Sym):
    _cls = np.bool_
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return st().decide(self.t)

    def __and__(self, o):
        if isinstance(o, SArr):
            return NotImplemented
        return SBool(tm.band(self.t, bool_t(o)))
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SArr):
            return NotImplemented
        return SBool(tm.bor(self.t, bool_t(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return SBool(tm.bnot(tm.biff(self.t, bool_t(o))))

    def __invert__(self):
        return SBool(tm.bnot(self.t))

    def num(self):
        return SNum(tm.ind(self.t), kind='i')

    def item(self):
        return self

    def __eq__(self, o):
        if isinstance(o, (SBool, bool, np.bool_)):
            return SBool(tm.biff(self.t, bool_t(o)))
        return self.num() == o

    def __ne__(self, o):
        return ~(self == o)

    def __repr__(self):
        return 'SBool(%s)' % tm.show(self.t)


def bool_t(v):
    if isinstance(v, SBool):
        return v.t
    if isinstance(v, (bool, np.bool_)):
        return TRUE if v else FALSE
    if isinstance(v, T):
        return v
    if isinstance(v, SNum):
        return (v != 0).t
    if isinstance(v, (int, float)):
        return TRUE if v else FALSE
    raise Unsupported('boolean of %r' % (type(v),))


def _arith(name):
    def f(self, o):
        if isinstance(o, Sym) and not isinstance(o, (SNum, SBool)):
            return NotImplemented
        return getattr(self.num(), name)(o)
    return f


for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__truediv__', '__rtruediv__',
           '__lt__', '__le__', '__gt__', '__ge__', '__neg__', '__pow__'):
    if _n == '__neg__':
        SBool.__neg__ = lambda self: -self.num()
    else:
        setattr(SBool, _n, _arith(_n))


class SNum(Sym):
    __slots__ = ('t', 'nan', 'pinf', 'ninf', 'kind', 'py')

    def __init__(self, t, nan=FALSE, pinf=FALSE, ninf=FALSE, kind=None, py=False):
        self.t, self.nan, self.pinf, self.ninf = t, nan, pinf, ninf
        self.kind = kind or ('i' if t.sort == 'I' else 'f')
        self.py = py

    @property
    def _cls(self):
        if self.py:
            return int if self.kind == 'i' else float
        return np.int64 if self.kind == 'i' else np.float64

    @property
    def flagged(self):
        return not (self.nan is FALSE and self.pinf is FALSE and self.ninf is FALSE)

    @property
    def bad(self):
        return tm.bor(self.nan, self.pinf, self.ninf)

    def __repr__(self):
        return 'SNum(%s%s)' % (tm.show(self.t), '' if not self.flagged else ' nan:%s' % tm.show(self.nan))

    def __bool__(self):
        return st().decide(tm.bor(tm.bnot(tm.eq0(self.t)), self.bad))

    def __index__(self):
        if self.t.op == 'num' and self.t.args[0].denominator == 1:
            return int(self.t.args[0])
        raise Unsupported('symbolic value used where a concrete integer is needed: %s' % tm.show(self.t)[:80])

    def __int__(self):
        return self.__index__()

    def __float__(self):
        if self.t.op == 'num' and not self.flagged:
            return float(self.t.args[0])
        raise Unsupported('float() of symbolic')

    # arithmetic
    def __add__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        py = self.py and o.py
        t = tm.add(self.t, o.t)
        if not self.flagged and not o.flagged:
            return SNum(t, kind=_k(self, o), py=py)
        nan = tm.bor(self.nan, o.nan, tm.band(self.pinf, o.ninf), tm.band(self.ninf, o.pinf))
        pinf = tm.band(tm.bnot(nan), tm.bor(self.pinf, o.pinf))
        ninf = tm.band(tm.bnot(nan), tm.bor(self.ninf, o.ninf))
        return SNum(t, nan, pinf, ninf, 'f', py)

    def __radd__(self, o):
        return self.__add__(o)

    def __neg__(self):
        return SNum(tm.neg(self.t), self.nan, self.ninf, self.pinf, self.kind, self.py)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            raise Unsupported('sequence repetition by a symbolic count')
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        py = self.py and o.py
        t = tm.mul(self.t, o.t)
        if not self.flagged and not o.flagged:
            return SNum(t, kind=_k(self, o), py=py)
        ai, bi = tm.bor(self.pinf, self.ninf), tm.bor(o.pinf, o.ninf)
        az = tm.band(tm.bnot(self.bad), tm.eq0(self.t))
        bz = tm.band(tm.bnot(o.bad), tm.eq0(o.t))
        nan = tm.bor(self.nan, o.nan, tm.band(ai, bz), tm.band(bi, az))
        ap, an = self._pos(), self._negv()
        bp, bn = o._pos(), o._negv()
        anyinf = tm.bor(ai, bi)
        pinf = tm.band(tm.bnot(nan), anyinf, tm.bor(tm.band(ap, bp), tm.band(an, bn)))
        ninf = tm.band(tm.bnot(nan), anyinf, tm.bor(tm.band(ap, bn), tm.band(an, bp)))
        return SNum(t, nan, pinf, ninf, 'f', py)

    def _pos(self):
        return tm.bor(self.pinf, tm.band(tm.bnot(self.bad), tm.lt(ZERO, self.t)))

    def _negv(self):
        return tm.bor(self.ninf, tm.band(tm.bnot(self.bad), tm.lt0(self.t)))

    def __rmul__(self, o):
        return self.__mul__(o)

    def __truediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        py = self.py and o.py
        z = tm.band(tm.bnot(o.bad), tm.eq0(o.t))
        if z is not FALSE and st().implied(tm.bnot(z)):
            z = FALSE
        if py and z is not FALSE:
            if st().decide(z):
                raise Raised(ZeroDivisionError('division by zero'))
            z = FALSE
        t = tm.div(self.t, o.t)
        if not self.flagged and not o.flagged and z is FALSE:
            return SNum(t, kind='f', py=py)
        ai, bi = tm.bor(self.pinf, self.ninf), tm.bor(o.pinf, o.ninf)
        if bi is not FALSE:
            t = tm.ite(bi, ZERO, t)
        az = tm.band(tm.bnot(self.bad), tm.eq0(self.t))
        nan = tm.bor(self.nan, o.nan, tm.band(z, az), tm.band(ai, bi))
        # zero denominators are +0.0 (signed zeros not modelled)
        pinf = tm.band(tm.bnot(nan), tm.bor(tm.band(z, self._pos()), tm.band(self.pinf, o._pos()), tm.band(self.ninf, o._negv()),
                                            tm.band(ai, z, self._pos())))
        ninf = tm.band(tm.bnot(nan), tm.bor(tm.band(z, self._negv()), tm.band(self.pinf, o._negv()), tm.band(self.ninf, o._pos())))
        return SNum(t, nan, pinf, ninf, 'f', py)

    def __rtruediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return o / self

    def __floordiv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        if self.flagged or o.flagged:
            inf = tm.bor(self.pinf, self.ninf, o.pinf, o.ninf)
            if inf is not FALSE and not st().implied(tm.bnot(inf)):
                raise Unsupported('floor division of special values')
            r = SNum(self.t, kind=self.kind, py=self.py) // SNum(o.t, kind=o.kind, py=o.py)
            return SNum(r.t, tm.bor(self.nan, o.nan), kind='f', py=r.py)
        z = tm.eq0(o.t)
        if z is not FALSE and not st().implied(tm.bnot(z)):
            if st().decide(z):
                raise Raised(ZeroDivisionError('integer division or modulo by zero'))
        if o.t.op == 'num' and o.t.args[0] != 0:
            t = tm.floor(tm.div(self.t, o.t))
        else:
            t = tm.floor(tm.div(self.t, o.t))
        k = 'i' if self.kind == 'i' and o.kind == 'i' else 'f'
        return SNum(t, kind=k, py=self.py and o.py)

    def __rfloordiv__(self, o):
        return lift(o) // self

    def __mod__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        q = self // o
        r = tm.sub(self.t, tm.mul(q.t, o.t))
        return SNum(r, q.nan, kind=_k(self, o) if q.nan is FALSE else 'f', py=self.py and o.py)

    def __rmod__(self, o):
        return lift(o) % self

    def __pow__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        e = tm.numval(o.t)
        if e is not None and not o.flagged:
            if e.denominator == 1:
                e = int(e)
                if e >= 0:
                    if not self.flagged:
                        return SNum(tm.power(self.t, e), kind=self.kind, py=self.py)
                    if e == 0:
                        return SNum(ONE, kind=self.kind)
                    r = self
                    for _ in range(e - 1):
                        r = r * self
                    return r
                return SNum(ONE, kind='f', py=self.py) / (self ** (-e))
            if e == Fraction(1, 2):
                return sqrt(self)
        if self.flagged or o.flagged:
            raise Unsupported('pow of special values')
        if self.t.op == 'num' and self.t.args[0] == 2 and o.kind == 'i':
            return SNum(tm.app('pow', (self.t, o.t)), kind='f', py=self.py and o.py)
        pos = tm.lt(ZERO, self.t)
        nonneg = tm.le(ZERO, self.t)
        if not st().implied(pos) and not (st().implied(nonneg) and st().implied(tm.lt(ZERO, o.t))):
            raise Unsupported('pow with base not known positive')
        return SNum(tm.app('pow', (self.t, o.t)), kind='f', py=self.py and o.py)

    def __rpow__(self, o):
        return lift(o) ** self

    def __abs__(self):
        return SNum(tm.absv(self.t), self.nan, tm.bor(self.pinf, self.ninf), FALSE, self.kind, self.py)

    # comparison
    def _cmp(self, o, op):
        if isinstance(o, SArr) or isinstance(o, (SSeries, SFrame)):
            return NotImplemented
        o2 = lift(o)
        if o2 is NotImplemented:
            return NotImplemented
        o = o2
        a, b = self, o
        if op == 'lt':
            v = tm.lt(a.t, b.t)
        elif op == 'le':
            v = tm.le(a.t, b.t)
        else:
            v = tm.eq(a.t, b.t)
        if not a.flagged and not b.flagged:
            return SBool(v)
        fin = tm.band(tm.bnot(a.bad), tm.bnot(b.bad))
        ok = tm.band(tm.bnot(a.nan), tm.bnot(b.nan))
        if op == 'lt':
            w = tm.bor(tm.band(a.ninf, tm.bnot(b.ninf)), tm.band(b.pinf, tm.bnot(a.pinf)))
        elif op == 'le':
            w = tm.bor(a.ninf, b.pinf)
        else:
            w = tm.bor(tm.band(a.ninf, b.ninf), tm.band(a.pinf, b.pinf))
        return SBool(tm.band(ok, tm.bor(tm.band(fin, v), w)))

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        o2 = lift(o)
        return NotImplemented if o2 is NotImplemented else o2._cmp(self, 'lt')

    def __ge__(self, o):
        o2 = lift(o)
        return NotImplemented if o2 is NotImplemented else o2._cmp(self, 'le')

    def __eq__(self, o):
        if o is None or isinstance(o, (str, enum.Enum)):
            return False
        return self._cmp(o, 'eq')

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else ~r

    # numpy scalar API
    ndim = 0
    shape = ()
    size = 1

    def item(self):
        return self

    def total_seconds(self):
        raise Unsupported('total_seconds on number')

    def flatten(self):
        return full((ONE,), self)

    def astype(self, *a, **k):
        return self

    def copy(self):
        return self


def _k(a, b):
    return 'i' if a.kind == 'i' and b.kind == 'i' else 'f'


def lift(o):
    if isinstance(o, SNum):
        return o
    if isinstance(o, SBool):
        return o.num()
    if isinstance(o, T):
        return SNum(o)
    if isinstance(o, (bool, np.bool_)):
        return SNum(tm.num(int(o)), kind='i', py=isinstance(o, bool))
    if isinstance(o, (int, np.integer)):
        return SNum(tm.num(int(o)), kind='i', py=isinstance(o, int))
    if isinstance(o, Fraction):
        return SNum(tm.num(o), kind='f', py=True)
    if isinstance(o, (float, np.floating)):
        o2 = float(o)
        py = type(o) is float
        if math.isnan(o2):
            return SNum(ZERO, nan=TRUE, kind='f', py=py)
        if math.isinf(o2):
            return SNum(ZERO, pinf=TRUE if o2 > 0 else FALSE, ninf=TRUE if o2 < 0 else FALSE, kind='f', py=py)
        if o2 == math.pi:
            return SNum(tm.PI, kind='f', py=py)
        for k in (2, 4, 0.5):
            if o2 == math.pi * k:
                return SNum(tm.scale(tm.PI, Fraction(k)), kind='f', py=py)
        return SNum(tm.num(o2), kind='f', py=py)
    if isinstance(o, np.ndarray) and o.ndim == 0 and o.dtype != object:
        return lift(o.item())
    return NotImplemented


def term(v):
    """numeric/bool/label term of a scalar (flags must be absent)"""
    if isinstance(v, T):
        return v
    if isinstance(v, SBool):
        return v.t
    if isinstance(v, SLab):
        return v.t
    if isinstance(v, (SDelta, STime)):
        return v.t
    n = lift(v)
    if n is NotImplemented:
        raise Unsupported('not a scalar: %r' % (type(v),))
    if n.flagged and not st().implied(tm.bnot(n.bad)):
        raise Unsupported('special value where a finite number is needed')
    return n.t


class SCplx(Sym):
    _cls = np.complex128
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = lift(re), lift(im)

    @staticmethod
    def of(o):
        if isinstance(o, SCplx):
            return o
        if isinstance(o, (complex, np.complexfloating)):
            return SCplx(float(o.real), float(o.imag))
        n = lift(o)
        return NotImplemented if n is NotImplemented else SCplx(n, 0)

    def __add__(self, o):
        o = SCplx.of(o)
        return o if o is NotImplemented else SCplx(self.re + o.re, self.im + o.im)
    __radd__ = __add__

    def __neg__(self):
        return SCplx(-self.re, -self.im)

    def __sub__(self, o):
        o = SCplx.of(o)
        return o if o is NotImplemented else SCplx(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        return SCplx.of(o) - self

    def __mul__(self, o):
        o = SCplx.of(o)
        return o if o is NotImplemented else SCplx(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    __rmul__ = __mul__

    def __truediv__(self, o):
        n = lift(o)
        if n is not NotImplemented:
            return SCplx(self.re / n, self.im / n)
        o = SCplx.of(o)
        if o is NotImplemented:
            return o
        d = o.re * o.re + o.im * o.im
        p = self * o.conj()
        return SCplx(p.re / d, p.im / d)

    def __rtruediv__(self, o):
        return SCplx.of(o) / self

    def __pow__(self, k):
        k = int(k)
        r = SCplx(1, 0)
        for _ in range(k):
            r = r * self
        return r

    def conj(self):
        return SCplx(self.re, -self.im)

    def __abs__(self):
        return sqrt(self.re * self.re + self.im * self.im)

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im


def _cplx_dispatch():
    for nm in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__truediv__', '__rtruediv__'):
        orig = getattr(SNum, nm)
        base = nm.replace('r', '', 1) if nm.startswith('__r') else nm

        def f(self, o, orig=orig, nm=nm):
            if isinstance(o, (SCplx, complex, np.complexfloating)) and not isinstance(o, float):
                return getattr(SCplx(self, 0), nm)(SCplx.of(o))
            return orig(self, o)
        setattr(SNum, nm, f)


_cplx_dispatch()


class SLab(Sym):
    """opaque value (label, string, enum member ...)"""
    __slots__ = ('t',)

    @property
    def _cls(self):
        if self.t.op == 'lit':
            return type(self.t.args[0][2])
        return str

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        if isinstance(o, SArr):
            return NotImplemented
        if isinstance(o, SLab):
            return SBool(tm.eqL(self.t, o.t))
        if isinstance(o, (SNum, SBool)):
            return False
        if o is None:
            return False
        return SBool(tm.eqL(self.t, tm.lit(o)))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else ~r

    def __repr__(self):
        return 'SLab(%s)' % tm.show(self.t)

    # names are ordered by an unspecified rank (equal ranks for equal names only: a linear order)
    def _rank(self):
        return lab_rank(self.t)

    def __lt__(self, o):
        return SBool(tm.lt(self._rank(), _lab(o)._rank()))

    def __le__(self, o):
        return SBool(tm.le(self._rank(), _lab(o)._rank()))

    def __gt__(self, o):
        return SBool(tm.lt(_lab(o)._rank(), self._rank()))

    def __ge__(self, o):
        return SBool(tm.le(_lab(o)._rank(), self._rank()))


def lab_rank(t):
    return tm.app('lab.rank', (t,), 'I')


def _lab(o):
    if isinstance(o, SLab):
        return o
    raise Unsupported('ordering of a label and something else')


class STime(Sym):
    """timestamp: seconds since an arbitrary epoch"""
    _cls = pd.Timestamp

    def __init__(self, t):
        self.t = t

    def __sub__(self, o):
        if isinstance(o, STime):
            return SDelta(tm.sub(self.t, o.t))
        if isinstance(o, SDelta):
            return STime(tm.sub(self.t, o.t))
        return NotImplemented

    def __add__(self, o):
        if isinstance(o, SDelta):
            return STime(tm.add(self.t, o.t))
        return NotImplemented

    def __eq__(self, o):
        return SBool(tm.eq(self.t, o.t))

    def __lt__(self, o):
        return SBool(tm.lt(self.t, o.t))


class SDelta(Sym):
    _cls = pd.Timedelta

    def __init__(self, t, nat=FALSE):
        self.t = t
        self.nat = nat

    def total_seconds(self):
        return SNum(self.t, nan=self.nat, kind='f', py=True)

    def __truediv__(self, o):
        if isinstance(o, SDelta):
            return SNum(self.t, kind='f') / SNum(o.t, kind='f')
        return SDelta(tm.div(self.t, term(o)))

    def __eq__(self, o):
        return SBool(tm.eq(self.t, o.t))


# ------------------------------------------------------------------ scalar functions
def sqrt(x):
    if isinstance(x, SCplx):
        raise Unsupported('complex sqrt')
    x = lift(x)
    negc = tm.band(tm.bnot(x.bad), tm.lt0(x.t))
    if negc is not FALSE and (tm.psd(x.t) or st().implied(tm.bnot(negc))):
        negc = FALSE
    nan = tm.bor(x.nan, x.ninf, negc)
    return SNum(tm.sqrt(x.t), nan, tm.band(tm.bnot(nan), x.pinf), FALSE, 'f')


def fun1(name):
    def f(x):
        x = lift(x)
        if x.flagged:
            if name in ('sin', 'cos'):
                return SNum(tm.app(name, (x.t,)), x.bad)
            if name == 'exp':
                return SNum(tm.ite(x.ninf, ZERO, tm.app('exp', (x.t,))), x.nan, x.pinf)
            raise Unsupported(name + ' of special values')
        if name == 'log':
            z = tm.eq0(x.t)
            n = tm.lt0(x.t)
            z = FALSE if z is FALSE or st().implied(tm.bnot(z)) else z
            n = FALSE if n is FALSE or st().implied(tm.bnot(n)) else n
            return SNum(tm.app('log', (x.t,)), n, FALSE, z)
        if name in ('sin', 'cos') and x.t.op == 'app' and x.t.args[0] == 'atan2':
            # the direction of a vector known not to vanish
            b, a = x.t.args[1:]
            r2 = tm.add(tm.power(a, 2), tm.power(b, 2))
            if st().implied(tm.lt(ZERO, r2)):
                return SNum(tm.mul(b if name == 'sin' else a, tm.power(tm.sqrt(r2), -1)), kind='f')
        return SNum(tm.app(name, (x.t,)), kind='f')
    return f


def cexp(x):
    if isinstance(x, (complex,)):
        x = SCplx.of(x)
    if isinstance(x, SCplx):
        m = fun1('exp')(x.re)
        return SCplx(m * fun1('cos')(x.im), m * fun1('sin')(x.im))
    return fun1('exp')(x)


def sabs(x):
    return abs(x) if isinstance(x, (SNum, SCplx)) else abs(lift(x))


def isnan_t(x):
    if isinstance(x, SNum):
        return x.nan
    if isinstance(x, SCplx):
        return tm.bor(x.re.nan, x.im.nan)
    if isinstance(x, (SLab, SBool)):
        return FALSE
    if isinstance(x, SDelta):
        return x.nat
    n = lift(x)
    if n is NotImplemented:
        raise Raised(TypeError('isnan of non-numeric'))
    return n.nan


def sel(c, a, b):
    """if c then a else b on scalars"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if isinstance(a, SBool) or isinstance(a, (bool, np.bool_)):
        if isinstance(b, (SBool, bool, np.bool_)):
            return SBool(tm.bite(c, bool_t(a), bool_t(b)))
    if isinstance(a, (SLab,)) or isinstance(b, SLab) or isinstance(a, enum.Enum) or isinstance(a, str):
        return SLab(tm.iteL(c, lab_t(a), lab_t(b)))
    if isinstance(a, (SCplx, complex)) or isinstance(b, (SCplx, complex)):
        a, b = SCplx.of(a), SCplx.of(b)
        return SCplx(sel(c, a.re, b.re), sel(c, a.im, b.im))
    if isinstance(a, STime):
        return STime(tm.ite(c, a.t, b.t))
    if isinstance(a, SDelta):
        return SDelta(tm.ite(c, a.t, b.t), tm.bite(c, a.nat, b.nat))
    a, b = lift(a), lift(b)
    if a is NotImplemented or b is NotImplemented:
        raise Unsupported('select between unlike values')
    return SNum(tm.ite(c, a.t, b.t), tm.bite(c, a.nan, b.nan), tm.bite(c, a.pinf, b.pinf), tm.bite(c, a.ninf, b.ninf), _k(a, b))


def lab_t(v):
    if isinstance(v, SLab):
        return v.t
    if isinstance(v, T):
        return v
    return tm.lit(v)


def scalar(x):
    """wrap a python/numpy scalar"""
    if isinstance(x, Sym):
        return x
    if isinstance(x, (bool, np.bool_)):
        return SBool(TRUE if x else FALSE)
    if isinstance(x, (complex, np.complexfloating)) and not isinstance(x, float):
        return SCplx.of(x)
    if isinstance(x, pd.Timedelta):
        return SDelta(tm.num(Fraction(x.value, 10 ** 9)))
    if isinstance(x, pd.Timestamp):
        return STime(tm.num(Fraction(x.value, 10 ** 9)))
    n = lift(x)
    if n is NotImplemented:
        return SLab(tm.lit(x))
    return n


def eq_t(a, b):
    """semantic equality of scalars: NaN equals NaN, infinities equal with sign"""
    if isinstance(a, (SBool, bool, np.bool_)) and isinstance(b, (SBool, bool, np.bool_)):
        return tm.biff(bool_t(a), bool_t(b))
    if isinstance(a, (SCplx, complex)) or isinstance(b, (SCplx, complex)):
        a, b = SCplx.of(a), SCplx.of(b)
        return tm.band(eq_t(a.re, b.re), eq_t(a.im, b.im))
    if isinstance(a, SLab) or isinstance(b, SLab):
        return tm.eqL(lab_t(a), lab_t(b))
    if isinstance(a, STime) and isinstance(b, STime):
        return tm.eq(a.t, b.t)
    if isinstance(a, SDelta) and isinstance(b, SDelta):
        return tm.eq(a.t, b.t)
    a2, b2 = lift(a), lift(b)
    if a2 is NotImplemented or b2 is NotImplemented:
        return TRUE if a == b else FALSE
    a, b = a2, b2
    v = tm.eq(a.t, b.t)
    if not a.flagged and not b.flagged:
        return v
    return tm.band(tm.biff(a.nan, b.nan), tm.biff(a.pinf, b.pinf), tm.biff(a.ninf, b.ninf), tm.bor(a.bad, v))


# ------------------------------------------------------------------ arrays
def dim(v):
    if isinstance(v, T):
        return v
    if isinstance(v, SNum):
        return v.t
    return tm.num(int(v))


def same_dim(a, b):
    if a is b:
        return True
    if a.op == 'num' and b.op == 'num':
        return False
    return st().implied(tm.eq(a, b))


SERIAL = [0]


class SArr(Sym):
    """ndarray: shape + element function; views write through to their parent"""
    _cls = np.ndarray

    def __init__(self, shape, f, dtype='f', parent=None, origin=None, filt=None):
        self.shp = tuple(dim(s) for s in shape)
        self._f = f
        self.dtype_ = dtype
        self.parent = parent      # (SArr, inv) ; inv(parent idx)->(cond, my idx)
        self.origin = origin
        self.filt = filt          # (n, maskfn(k)->T, basefn(k, rest)->scalar): axis 0 is a filtered axis
        self._memo = {}
        SERIAL[0] += 1
        self.serial = SERIAL[0]

    # --- reading
    def get(self, *idx):
        if self.parent is None or self.parent == 'copyview':
            key = tuple(i.id for i in idx) + tuple(c.id for c in st().ctx)
            r = self._memo.get(key)
            if r is None:
                r = self._f(idx)
                self._memo[key] = r
            return r
        return self._f(idx)

    @property
    def ndim(self):
        return len(self.shp)

    @property
    def shape(self):
        return tuple(dimval(s) for s in self.shp)

    @property
    def size(self):
        return dimval(tm.mul(*self.shp)) if self.shp else 1

    @property
    def dtype(self):
        return {'f': np.dtype(float), 'i': np.dtype(int), 'b': np.dtype(bool), 'c': np.dtype(complex)}.get(self.dtype_, np.dtype(object))

    @property
    def T(self):
        if self.ndim < 2:
            return self
        if self.filt:
            if self.ndim > 2:
                raise Unsupported('transpose of a filtered array')
            b = self
            r = SArr((b.shp[1], b.shp[0]), lambda idx: b.get(idx[1], idx[0]), b.dtype_)
            r.filt_axis1 = b
            return r
        if getattr(self, 'filt_axis1', None) is not None:
            return self.filt_axis1
        return self.view(tuple(reversed(self.shp)), lambda idx: tuple(reversed(idx)), lambda p: (TRUE, tuple(reversed(p))))

    def transpose(self, axes=None):
        if axes is None:
            return self.T
        axes = [int(a) for a in axes]
        invp = [axes.index(i) for i in range(len(axes))]
        return self.view(tuple(self.shp[a] for a in axes), lambda idx: tuple(idx[invp[i]] for i in range(len(axes))),
                         lambda p: (TRUE, tuple(p[a] for a in axes)))

    def view(self, shape, imap, invm):
        p = self
        r = SArr(shape, lambda idx: p.get(*imap(idx)), self.dtype_, parent=(p, invm))
        r.imapf = imap
        return r

    def copy(self, *a, **k):
        f = self.snapshot()
        return SArr(self.shp, f, self.dtype_, filt=self._filt_snapshot())

    def _filt_snapshot(self):
        return self.filt

    def snapshot(self):
        """element function frozen at the current contents"""
        if self.parent is None:
            f = self._f
            memo = self._memo

            def g(idx):
                key = tuple(i.id for i in idx) + tuple(c.id for c in st().ctx)
                r = memo.get(key)
                if r is None:
                    r = f(idx)
                    memo[key] = r
                return r
            return g
        p, _ = self.parent
        snap_parent = SArr(p.shp, p.snapshot(), p.dtype_)
        # rebuild through the view map: evaluate view function against frozen parent
        imap = self.imapf
        return lambda idx: snap_parent.get(*imap(idx))

    # --- writing
    def store(self, selfn, val, dtype=None):
        """new[idx] = val(vidx) where selfn(idx) = (cond, vidx)"""
        if self.filt:
            self.filt_store(selfn, val)
            return
        if self.parent is not None:
            p, invm = self.parent

            def ps(pidx):
                c, vi = invm(pidx)
                if c is FALSE:
                    return FALSE, None
                c2, v2 = selfn(vi)
                return tm.band(c, c2), v2
            p.store(ps, val, dtype)
            return
        old = self.snapshot()
        kind = self.dtype_

        def f(idx):
            c, vi = selfn(idx)
            if c is FALSE:
                return old(idx)
            v = val(vi)
            if c is TRUE:
                return coerce_to(v, kind)
            return sel(c, coerce_to(v, kind), old(idx))
        st().writes.append((self, self._f, self._memo))
        self._f = f
        self._memo = {}

    def filt_store(self, selfn, val):
        raise Unsupported('store into a filtered array')

    # --- indexing
    def __len__(self):
        if not self.shp:
            raise Raised(TypeError('len() of unsized object'))
        return int(self.shape[0])

    def __iter__(self):
        n = self.shp[0]
        if n.op != 'num':
            raise Unsupported('python iteration over a symbolic-length array')
        return iter([self[i] for i in range(int(n.args[0]))])

    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, v):
        setitem(self, key, v)

    # --- operators
    def _bin(self, o, op, r=False):
        if isinstance(o, (SSeries, SFrame, SIndex, pd.Series, pd.DataFrame)):
            return NotImplemented
        return binop(op, o, self) if r else binop(op, self, o)

    def __neg__(self):
        return map1(lambda x: -x, self)

    def __invert__(self):
        return map1(lambda x: ~x, self)

    def __abs__(self):
        return map1(sabs, self, 'f' if self.dtype_ == 'c' else self.dtype_)

    def __bool__(self):
        if all(s is ONE for s in self.shp):
            return bool(self.get(*([ZERO] * self.ndim)))
        if self.size == 0 if isinstance(self.size, int) else False:
            return False
        raise Raised(ValueError('The truth value of an array with more than one element is ambiguous.'))

    def _ibin(self, o, op):
        r = binop(op, self.copy(), o)
        if len(r.shp) != self.ndim or any(not same_dim(a, b) for a, b in zip(r.shp, self.shp)):
            raise Raised(ValueError('non-broadcastable output operand'))
        if self.dtype_ == 'i' and r.dtype_ in ('f', 'c'):
            raise Raised(TypeError('ufunc: Cannot cast output from float64 to int64 with casting rule same_kind'))
        if self.filt:
            self._f, self.filt, self._memo = r._f, r.filt, {}
            return self
        self.store(lambda idx: (TRUE, idx), lambda vi: r.get(*vi))
        return self

    def __iadd__(self, o):
        return self._ibin(o, 'add')

    def __isub__(self, o):
        return self._ibin(o, 'sub')

    def __imul__(self, o):
        return self._ibin(o, 'mul')

    def __itruediv__(self, o):
        return self._ibin(o, 'div')

    # --- methods
    def astype(self, t, *a, **k):
        kind = dtype_kind(t)
        return map1(lambda x: coerce_to(x, kind), self, kind)

    def flatten(self, order='C'):
        return self.reshape(-1, order=order).copy()

    def ravel(self, order='C'):
        return self.reshape(-1, order=order)

    def reshape(self, *shape, order='C'):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape, order)

    def sum(self, axis=None, **k):
        return reduce_(self, 'sum', axis, **k)

    def mean(self, axis=None, **k):
        return reduce_(self, 'mean', axis, **k)

    def std(self, axis=None, **k):
        return reduce_(self, 'std', axis, **k)

    def var(self, axis=None, **k):
        return reduce_(self, 'var', axis, **k)

    def max(self, axis=None, **k):
        return reduce_(self, 'max', axis, **k)

    def min(self, axis=None, **k):
        return reduce_(self, 'min', axis, **k)

    def any(self, axis=None, **k):
        return reduce_(self, 'any', axis, **k)

    def all(self, axis=None, **k):
        return reduce_(self, 'all', axis, **k)

    def argmax(self, axis=None, **k):
        return reduce_(self, 'argmax', axis, **k)

    def argmin(self, axis=None, **k):
        return reduce_(self, 'argmin', axis, **k)

    def item(self, *a):
        if a:
            raise Unsupported('item(args)')
        if any(not same_dim(s, ONE) for s in self.shp):
            raise Raised(ValueError('can only convert an array of size 1 to a Python scalar'))
        return self.get(*([ZERO] * self.ndim))

    def fill(self, v):
        self.store(lambda idx: (TRUE, idx), lambda vi: scalar(v))

    def conj(self):
        return map1(lambda x: x.conj() if isinstance(x, SCplx) else x, self)

    @property
    def real(self):
        return map1(lambda x: x.re if isinstance(x, SCplx) else x, self, 'f')

    @property
    def imag(self):
        return map1(lambda x: x.im if isinstance(x, SCplx) else lift(0), self, 'f')

    def tolist(self):
        return SList(self.shp[0], lambda k: self[k]) if self.shp[0].op != 'num' else [self[i] for i in range(int(self.shp[0].args[0]))]

    def __repr__(self):
        return 'SArr(%s,%s)' % ('x'.join(tm.show(s) for s in self.shp), self.dtype_)


def dimval(s):
    v = tm.numval(s)
    return int(v) if v is not None else SNum(s, kind='i', py=True)


def coerce_to(v, kind):
    if kind == 'f':
        if isinstance(v, SBool):
            return v.num()
        if isinstance(v, SCplx):
            raise Unsupported('complex into float array')
        n = lift(v)
        if n is NotImplemented:
            if v is None:
                return SNum(ZERO, nan=TRUE)
            raise Raised(ValueError('could not convert to float'))
        return n if n.kind == 'f' else SNum(n.t, n.nan, n.pinf, n.ninf, 'f')
    if kind == 'i':
        n = lift(v)
        if n.flagged and not st().implied(tm.bnot(n.bad)):
            raise Unsupported('special value into integer array')
        if n.kind == 'f' and n.t.sort != 'I':
            p = n.t
            return SNum(tm.ite(tm.lt0(p), tm.neg(tm.floor(tm.neg(p))), tm.floor(p)), kind='i')
        return SNum(n.t, kind='i')
    if kind == 'b':
        return v if isinstance(v, SBool) else SBool(bool_t(v))
    if kind == 'c':
        return SCplx.of(v)
    return scalar(v)


def dtype_kind(t):
    if t is None:
        return None
    if isinstance(t, type) and issubclass(t, enum.Enum):
        return 'O'
    try:
        k = np.dtype(t).kind
    except TypeError:
        return 'O'
    return {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b', 'c': 'c', 'O': 'O', 'M': 'dt', 'm': 'td'}.get(k, 'O')


def kind_of(v):
    if isinstance(v, SNum):
        return v.kind
    if isinstance(v, SBool):
        return 'b'
    if isinstance(v, SCplx):
        return 'c'
    if isinstance(v, STime):
        return 'dt'
    if isinstance(v, SDelta):
        return 'td'
    return 'O'


def join_kind(*ks):
    order = ['b', 'i', 'f', 'c']
    if any(k not in order for k in ks):
        return ks[0] if all(k == ks[0] for k in ks) else 'O'
    return order[max(order.index(k) for k in ks)]


def const_arr(a):
    """concrete ndarray -> SArr"""
    a = np.asarray(a)
    kind = {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b', 'c': 'c', 'm': 'td', 'M': 'dt'}.get(a.dtype.kind, 'O')

    def f(idx):
        if all(i.op == 'num' for i in idx):
            v = a[tuple(int(i.args[0]) for i in idx)]
            return scalar(v.item() if hasattr(v, 'item') and a.dtype.kind in 'fiubc' else v)
        if a.size == 0:
            raise Unsupported('element of empty array')
        if a.size == 1:
            return scalar(a.reshape(-1)[0].item() if a.dtype.kind in 'fiubc' else a.reshape(-1)[0])
        if a.size > 64:
            raise Unsupported('symbolic index into a large concrete array')
        r = None
        for ix in np.ndindex(*a.shape):
            v = scalar(a[ix].item() if a.dtype.kind in 'fiubc' else a[ix])
            if r is None:
                r = v
            else:
                r = sel(tm.band(*[tm.eq(i, tm.num(j)) for i, j in zip(idx, ix)]), v, r)
        return r
    return SArr(a.shape, f, kind)


def full(shape, v, kind=None):
    v = scalar(v)
    return SArr(shape, lambda idx: v, kind or kind_of(v))


def as_arr(x, dtype=None):
    """np.asarray semantics on symbolic/concrete mixtures (no copy for arrays)"""
    if isinstance(x, SArr):
        r = x
    elif isinstance(x, SSeries):
        r = x.arr
    elif isinstance(x, SFrame):
        r = x.arr
    elif isinstance(x, SIndex):
        r = x.arr()
    elif isinstance(x, SList):
        r = x.arr()
    elif isinstance(x, (pd.Series, pd.DataFrame, pd.Index)):
        r = const_arr(x.values)
    elif isinstance(x, np.ndarray):
        r = const_arr(x)
    elif isinstance(x, (list, tuple, range)):
        items = [as_arr(i) if isinstance(i, (list, tuple, range, SArr, SSeries, SList, SFrame, np.ndarray, pd.Series)) else scalar(i) for i in x]
        if not items:
            r = const_arr(np.array([]))
        elif any(isinstance(i, SArr) for i in items):
            items = [i if isinstance(i, SArr) else full((), i) for i in items]
            r = stack(items)
        else:
            kind = join_kind(*[kind_of(i) for i in items])
            vals = [coerce_to(i, kind) for i in items]

            def f(idx, vals=vals):
                i = idx[0]
                if i.op == 'num':
                    return vals[int(i.args[0])]
                r = vals[-1]
                for j in range(len(vals) - 2, -1, -1):
                    r = sel(tm.eq(i, tm.num(j)), vals[j], r)
                return r
            r = SArr((len(vals),), f, kind)
    else:
        v = scalar(x)
        r = SArr((), lambda idx: v, kind_of(v))
    if dtype is not None:
        k = dtype_kind(dtype)
        if k != r.dtype_:
            r = map1(lambda x: coerce_to(x, k), r, k)
    return r


def stack(items):
    """stack along a new axis 0 (fixed number of items)"""
    shp = items[0].shp
    for it in items[1:]:
        if len(it.shp) != len(shp) or any(not same_dim(a, b) for a, b in zip(it.shp, shp)):
            raise Raised(ValueError('setting an array element with a sequence. inhomogeneous shape'))
    kind = join_kind(*[i.dtype_ for i in items])
    fs = [i.snapshot() for i in items]

    def f(idx):
        i = idx[0]
        if i.op == 'num':
            return coerce_to(fs[int(i.args[0])](idx[1:]), kind)
        r = coerce_to(fs[-1](idx[1:]), kind)
        for j in range(len(fs) - 2, -1, -1):
            r = sel(tm.eq(i, tm.num(j)), coerce_to(fs[j](idx[1:]), kind), r)
        return r
    return SArr((len(items),) + shp, f, kind)


def concat(items, axis=0):
    items = [as_arr(i) for i in items]
    if any(i.filt for i in items):
        raise Unsupported('concatenate filtered')
    nd = items[0].ndim
    axis = int(axis)
    if axis < 0:
        axis += nd
    for it in items[1:]:
        if it.ndim != nd:
            raise Raised(ValueError('all the input array dimensions must match'))
        for d in range(nd):
            if d != axis and not same_dim(it.shp[d], items[0].shp[d]):
                raise Raised(ValueError('all the input array dimensions except for the concatenation axis must match exactly'))
    kind = join_kind(*[i.dtype_ for i in items])
    fs = [i.snapshot() for i in items]
    offs = [ZERO]
    for it in items:
        offs.append(tm.add(offs[-1], it.shp[axis]))

    def f(idx):
        i = idx[axis]
        r = None
        for j in range(len(items) - 1, -1, -1):
            c = tm.lt(i, offs[j + 1]) if r is not None else TRUE
            if r is not None:
                if st().implied(tm.bnot(c)):
                    continue
                if st().implied(c):
                    c = TRUE
            sub = idx[:axis] + (tm.sub(i, offs[j]),) + idx[axis + 1:]
            v = coerce_to(fs[j](sub), kind)
            r = v if r is None or c is TRUE else sel(c, v, r)
        return r
    shp = list(items[0].shp)
    shp[axis] = offs[-1]
    return SArr(shp, f, kind)


def bshape(*shps):
    nd = max(len(s) for s in shps)
    out = []
    for d in range(nd):
        cur = ONE
        for s in shps:
            j = d - (nd - len(s))
            if j < 0:
                continue
            x = s[j]
            if x is ONE:
                continue
            if cur is ONE:
                cur = x
            elif not same_dim(cur, x):
                if x.op == 'num' and cur.op == 'num' or st().implied(tm.bnot(tm.eq(cur, x))) and st().implied(tm.bnot(tm.eq(cur, ONE))) and st().implied(tm.bnot(tm.eq(x, ONE))):
                    raise Raised(ValueError('operands could not be broadcast together'))
                # symbolic sizes that may differ: split on it
                if st().decide(tm.eq(cur, x)):
                    continue
                if st().decide(tm.eq(x, ONE)):
                    continue
                if st().decide(tm.eq(cur, ONE)):
                    cur = x
                    continue
                raise Raised(ValueError('operands could not be broadcast together'))
        out.append(cur)
    return tuple(out)


def bidx(shp, idx):
    off = len(idx) - len(shp)
    return tuple(ZERO if shp[j] is ONE or (shp[j].op == 'num' and shp[j].args[0] == 1) else idx[off + j] for j in range(len(shp)))


def same_filt(a, b):
    if a[0] is not b[0]:
        return False
    k = tm.fresh('fk')
    st().ctx.append(tm.band(tm.le(ZERO, k), tm.lt(k, a[0])))
    try:
        x, y = a[1](k), b[1](k)
        return x is y or st().implied(tm.biff(x, y))
    finally:
        st().ctx.pop()


def mapn(fn, arrs, kind=None):
    arrs = [as_arr(a) for a in arrs]
    fl = [a for a in arrs if a.filt and a.ndim >= 1]
    shp = bshape(*[a.shp for a in arrs])
    fs = [(a.shp, a.snapshot()) for a in arrs]

    def f(idx):
        return fn(*[g(bidx(s, idx)) for s, g in fs])
    filt = None
    if fl:
        F = fl[0].filt
        nd = len(shp)
        for a in arrs:
            if a.filt:
                if a.ndim != nd or not same_filt(F, a.filt):
                    raise Unsupported('elementwise operation on differently filtered arrays')
            elif a.ndim == nd and a.shp and a.shp[0] is not ONE:
                raise Unsupported('filtered and unfiltered operands %s' % [(x.shp, bool(x.filt)) for x in arrs])

        bs = [a.filt[2] if a.filt else None for a in arrs]

        def base(k, rest):
            vs = []
            for a, (s, g), bf in zip(arrs, fs, bs):
                if bf is not None:
                    vs.append(bf(k, bidx(a.shp[1:], rest)))
                else:
                    vs.append(g(bidx(s, (ZERO,) + tuple(rest))))
            return fn(*vs)
        filt = (F[0], F[1], base)
    if kind is None:
        kind = probe_kind(f, shp)
    return SArr(shp, f, kind, filt=filt)


def probe_kind(f, shp):
    ks = [tm.fresh('p') for _ in shp]
    n0 = len(st().ctx)
    for k, s in zip(ks, shp):
        st().ctx.append(tm.band(tm.le(ZERO, k), tm.lt(k, s)))
    try:
        return kind_of(scalar(f(tuple(ks))))
    finally:
        del st().ctx[n0:]


def map1(fn, a, kind=None):
    if isinstance(a, SSeries):
        return SSeries(map1(fn, a.arr, kind), a.index, a.name)
    if isinstance(a, SFrame):
        return SFrame(map1(fn, a.arr, kind), a.index, a.columns)
    if isinstance(a, (SArr, SIndex, list, tuple, np.ndarray, SList, pd.Series, pd.DataFrame)):
        r = mapn(fn, [a], kind)
        return r if r.ndim or isinstance(a, SArr) and False else (r if r.ndim else r.get())
    return fn(scalar(a))


def _py(op):
    import operator
    return {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul, 'div': operator.truediv, 'floordiv': operator.floordiv,
            'mod': operator.mod, 'pow': operator.pow, 'lt': operator.lt, 'le': operator.le, 'gt': operator.gt, 'ge': operator.ge,
            'eq': operator.eq, 'ne': operator.ne, 'and': operator.and_, 'or': operator.or_, 'xor': operator.xor}[op]


def sc_op(op):
    f = _py(op)

    def g(a, b):
        a, b = scalar(a), scalar(b)
        r = f(a, b)
        if r is NotImplemented or not isinstance(r, Sym):
            if isinstance(r, bool):
                return SBool(TRUE if r else FALSE)
            raise Unsupported('scalar op %s on %s,%s' % (op, type(a).__name__, type(b).__name__))
        if isinstance(r, SNum) and r.py:
            r = SNum(r.t, r.nan, r.pinf, r.ninf, r.kind, False)
        return r

    def h(a, b):
        # numpy semantics (no ZeroDivisionError)
        if isinstance(a, SNum) and a.py:
            a = SNum(a.t, a.nan, a.pinf, a.ninf, a.kind, False)
        return g(a, b)
    return h


def binop(op, a, b):
    r = mapn(sc_op(op), [a, b])
    return r


def _install_ops():
    names = {'add': 'add', 'sub': 'sub', 'mul': 'mul', 'truediv': 'div', 'floordiv': 'floordiv', 'mod': 'mod', 'pow': 'pow',
             'lt': 'lt', 'le': 'le', 'gt': 'gt', 'ge': 'ge', 'eq': 'eq', 'ne': 'ne', 'and': 'and', 'or': 'or', 'xor': 'xor'}
    for py, op in names.items():
        def f(self, o, op=op):
            return self._bin(o, op)

        def r(self, o, op=op):
            return self._bin(o, op, True)
        for cls in (SArr, SSeries, SFrame, SIndex):
            setattr(cls, '__%s__' % py, f)
            if op not in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
                setattr(cls, '__r%s__' % py, r)
    for cls in (SArr, SSeries, SFrame, SIndex):
        cls.__hash__ = lambda self: id(self)


# ------------------------------------------------------------------ indexing
def norm_index(i, n):
    """python integer index -> term (negative wraps)"""
    t = term(i)
    if t.op == 'num':
        if t.args[0] < 0:
            t = tm.add(n, t)
            if t.op != 'num':
                if st().implied(tm.lt0(t)):
                    raise Raised(IndexError('index out of bounds'))
                if not st().implied(tm.le(ZERO, t)):
                    if st().decide(tm.lt0(t)):
                        raise Raised(IndexError('index out of bounds'))
                return t
    elif not st().implied(tm.le(ZERO, t)):
        if st().decide(tm.lt0(t)):
            t = tm.add(n, t)
    ok = tm.band(tm.le(ZERO, t), tm.lt(t, n))
    if ok is TRUE:
        return t
    if not st().implied(ok):
        if ok is FALSE or not st().decide(ok):
            raise Raised(IndexError('index out of bounds'))
    return t


def norm_slice(s, n):
    """-> (start term, length term, step)"""
    step = s.step
    step = 1 if step is None else int(step)
    if step not in (1, -1, 2):
        raise Unsupported('slice step %r' % step)
    if step == -1:
        if s.start is None and s.stop is None:
            return tm.sub(n, ONE), n, -1
        raise Unsupported('partial reversed slice')

    def bound(v, default):
        if v is None:
            return default
        t = term(v)
        if t.op == 'num' and t.args[0] < 0 or (t.op != 'num' and st().implied(tm.lt0(t))):
            t = tm.add(n, t)
            lowok = tm.le(ZERO, t)
            if lowok is not TRUE and not st().implied(lowok):
                t = tm.fmax(t, ZERO)
        elif t.op != 'num' and not st().implied(tm.le(ZERO, t)):
            if st().decide(tm.lt0(t)):
                return bound(SNum(t), default)
        hi = tm.le(t, n)
        if hi is not TRUE and not st().implied(hi):
            t = tm.fmin(t, n)
        return t
    a = bound(s.start, ZERO)
    b = bound(s.stop, n)
    ln = tm.sub(b, a)
    if not st().implied(tm.le(ZERO, ln)):
        ln = tm.fmax(ln, ZERO)
    if step == 2:
        ln = tm.floor(tm.div(tm.add(ln, ONE), tm.num(2)))
    return a, ln, step


def getitem(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    # expand ellipsis
    nk = sum(1 for k in key if k is not None and k is not Ellipsis and not _isboolkey(k)) + sum(_asb(k).ndim for k in key if _isboolkey(k))
    if Ellipsis in [k for k in key if not isinstance(k, Sym)]:
        i = [j for j, k in enumerate(key) if k is Ellipsis][0]
        key = key[:i] + (slice(None),) * (a.ndim - nk) + key[i + 1:]
    else:
        key = key + (slice(None),) * (a.ndim - nk)
    if any(_isboolkey(k) for k in key):
        return bool_get(a, key)
    advanced = [k for k in key if isinstance(k, (SArr, SList, list, np.ndarray, SIndex, range, SSeries))]
    if a.filt:
        return filt_get(a, key)
    if not advanced:
        # basic: view
        shape, maps, d = [], [], 0
        for k in key:
            if k is None:
                shape.append(ONE)
                maps.append(('new',))
            elif isinstance(k, slice):
                st_, ln, step = norm_slice(k, a.shp[d])
                shape.append(ln)
                maps.append(('sl', st_, step, ln))
                d += 1
            else:
                if d >= a.ndim:
                    raise Raised(IndexError('too many indices for array'))
                maps.append(('ix', norm_index(k, a.shp[d])))
                d += 1
        if d > a.ndim:
            raise Raised(IndexError('too many indices for array'))

        def imap(idx):
            out, j = [], 0
            for m in maps:
                if m[0] == 'new':
                    j += 1
                elif m[0] == 'ix':
                    out.append(m[1])
                else:
                    out.append(tm.add(m[1], tm.scale(idx[j], m[2])))
                    j += 1
            return tuple(out)

        def invm(p):
            c, out, j = TRUE, [], 0
            for m in maps:
                if m[0] == 'new':
                    out.append(ZERO)
                elif m[0] == 'ix':
                    c = tm.band(c, tm.eq(p[j], m[1]))
                    j += 1
                else:
                    if m[2] == 2:
                        raise Unsupported('store through strided view')
                    v = tm.scale(tm.sub(p[j], m[1]), m[2])
                    full_ = m[1] is ZERO and m[2] == 1 and m[3] is a.shp[j]
                    if not full_:
                        c = tm.band(c, tm.le(ZERO, v), tm.lt(v, m[3]))
                    out.append(v)
                    j += 1
            return c, tuple(out)
        if not shape:
            return a.get(*imap(()))
        return a.view(tuple(shape), imap, invm)
    # advanced (integer arrays): broadcast them together
    adv = [as_arr(k) if isinstance(k, (SArr, SList, list, np.ndarray, SIndex, range, SSeries)) else None for k in key]
    ishape = bshape(*[x.shp for x in adv if x is not None])
    first = [j for j, x in enumerate(adv) if x is not None][0]
    shape, spec, d = [], [], 0
    done = False
    for k, x in zip(key, adv):
        if x is not None:
            spec.append(('adv', x, d))
            if not done:
                shape.extend(ishape)
                done = True
            d += 1
        elif k is None:
            spec.append(('new',))
            shape.append(ONE)
        elif isinstance(k, slice):
            s0, ln, step = norm_slice(k, a.shp[d])
            spec.append(('sl', s0, step))
            shape.append(ln)
            d += 1
        else:
            spec.append(('ix', norm_index(k, a.shp[d])))
            d += 1
    snap = a.snapshot()
    ni = len(ishape)
    for sp in spec:
        if sp[0] == 'adv':
            _check_adv_range(sp[1], a.shp[sp[2]])

    def f(idx):
        out, j, adone, aidx = [], 0, False, None
        for sp in spec:
            if sp[0] == 'adv':
                if not adone:
                    aidx = idx[j:j + ni]
                    j += ni
                    adone = True
                e = sp[1].get(*bidx(sp[1].shp, aidx))
                t = term(e)
                n = a.shp[sp[2]]
                if t.op == 'num' and t.args[0] < 0:
                    t = tm.add(n, t)
                elif t.op != 'num' and not st().implied(tm.le(ZERO, t)):
                    t = tm.ite(tm.lt0(t), tm.add(n, t), t)
                out.append(t)
            elif sp[0] == 'new':
                j += 1
            elif sp[0] == 'sl':
                out.append(tm.add(sp[1], tm.scale(idx[j], sp[2])))
                j += 1
            else:
                out.append(sp[1])
        return snap(tuple(out))
    if not shape:
        return f(())
    return SArr(shape, f, a.dtype_)


def _check_adv_range(x, n):
    ks = [tm.fresh('q') for _ in x.shp]
    n0 = len(st().ctx)
    for k, s in zip(ks, x.shp):
        st().ctx.append(tm.band(tm.le(ZERO, k), tm.lt(k, s)))
    try:
        t = term(x.get(*ks))
        ok = tm.band(tm.le(tm.neg(n), t), tm.lt(t, n))
        if not st().implied(ok):
            raise Unsupported('index array not provably in range')
    finally:
        del st().ctx[n0:]


def _isboolkey(k):
    if isinstance(k, SArr):
        return k.dtype_ == 'b' and k.ndim >= 1
    if isinstance(k, (SSeries, SFrame)):
        return k.arr.dtype_ == 'b'
    if isinstance(k, (np.ndarray, pd.Series)):
        return k.dtype == bool
    if isinstance(k, list):
        return bool(k) and all(isinstance(x, (bool, np.bool_)) for x in k)
    return False


def _asb(k):
    return as_arr(k)


def point_mask(m, k):
    """the mask  A*k + B = 0  (A non-zero) selects exactly one position: -B/A when that is a polynomial"""
    if m.op != 'eq0' or k not in m.fv:
        return None
    A, B = {}, {}
    for mono, c in tm.pdict(m.args[0]).items():
        d = dict(mono)
        e = d.pop(k, 0)
        if e not in (0, 1) or any(k in a.fv for a in d):
            return None
        (A if e else B)[tuple(sorted(d.items(), key=lambda q: q[0].id))] = c
    if not A:
        return None
    At, rem, q = tm.from_pdict(A), tm.from_pdict(B), ZERO
    lm, lc = next(iter(tm.pdict(At).items()))
    for _ in range(6):
        if rem is ZERO:
            break
        step = None
        for mono, c in tm.pdict(rem).items():
            d = dict(mono)
            if all(d.get(a, 0) >= e for a, e in lm):
                for a, e in lm:
                    d[a] -= e
                step = tm.from_pdict({tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id)): c / lc})
                break
        if step is None:
            return None
        q = tm.add(q, step)
        rem = tm.sub(rem, tm.mul(step, At))
    if rem is not ZERO or not st().implied(tm.bnot(tm.eq0(At))):
        return None
    r = tm.neg(q)
    return r if r.sort == 'I' else None


def filtered(n, maskf, basef, restshape, dtype):
    """array whose axis 0 enumerates the k<n with mask(k), in order"""
    k = tm.fresh('m')
    st().ctx.append(tm.band(tm.le(ZERO, k), tm.lt(k, n)))
    try:
        m = maskf(k)
    finally:
        st().ctx.pop()
    ml = tm.lam(k, m)
    cnt = tm.mk_sum(n, k, tm.ind(m))
    if cnt is n:
        return SArr((n,) + tuple(restshape), lambda idx: basef(idx[0], idx[1:]), dtype)

    p = point_mask(m, k)
    if p is None and m.op == 'eq0' and any(a.op == 'ind' for a in tm.atoms(m)) and not (m.fv & st().binders()) and st().implied(tm.inst(ml, ZERO)):
        rng = tm.band(tm.lt(ZERO, k), tm.lt(k, n))
        if st().implied(tm.bor(tm.bnot(rng), tm.bnot(m))):       # only the first position satisfies the mask
            p = ZERO
    if p is not None and st().implied(tm.band(tm.le(ZERO, p), tm.lt(p, n))):
        return SArr((ONE,) + tuple(restshape), lambda idx: basef(p, idx[1:]), dtype)

    def f(idx):
        return basef(tm.app('select', (n, ml, idx[0]), 'I'), idx[1:])
    return SArr((cnt,) + tuple(restshape), f, dtype, filt=(n, maskf, basef))


def _assume_global(self, t):
    # a fact about the selection function (definitional, holds on every path)
    if t is not TRUE and t not in self.pc:
        self.pc.append(t)


State.assume_global = _assume_global


def bool_get(a, key):
    bs = [(j, as_arr(k)) for j, k in enumerate(key) if _isboolkey(k)]
    if len(bs) != 1:
        raise Unsupported('several boolean keys')
    j, m = bs[0]
    others = [k for i, k in enumerate(key) if i != j]
    if not all(isinstance(k, slice) and k == slice(None) for k in others):
        # apply the non-boolean selections first (they are ints/slices)
        if m.ndim == 1:
            pre = tuple(slice(None) if i == j else k for i, k in enumerate(key))
            nint_before = sum(1 for i, k in enumerate(key) if i < j and not isinstance(k, slice))
            b = getitem(a, pre)
            nk = [slice(None)] * b.ndim
            nk[j - nint_before] = m
            return bool_get(b, tuple(nk))
        raise Unsupported('mixed boolean key')
    ax = j
    if m.ndim == a.ndim and ax == 0 and m.ndim >= 2:
        # full mask -> 1-D selection over the flattened (row-major) index space
        for x, y in zip(m.shp, a.shp):
            if not same_dim(x, y):
                raise Raised(IndexError('boolean index did not match indexed array'))
        fa, fm = reshape(a, (-1,)), reshape(m, (-1,))
        fas, fms = fa.snapshot(), fm.snapshot()
        r = filtered(fa.shp[0], lambda k: bool_t(fms((k,))), lambda k, rest: fas((k,)), (), a.dtype_)
        if r.filt:
            as_, ms_ = a.snapshot(), m.snapshot()
            r.filt_nd = (a.shp, lambda idx: bool_t(ms_(idx)), lambda idx: as_(idx))
        return r
    if m.ndim != 1:
        raise Unsupported('boolean mask rank')
    if not same_dim(m.shp[0], a.shp[ax]):
        raise Raised(IndexError('boolean index did not match indexed array along axis %d' % ax))
    if ax != 0:
        if a.ndim != 2:
            raise Unsupported('boolean mask on inner axis')
        b = bool_get(a.T, (m, slice(None)))
        if not b.filt:
            return b.T
        r = SArr((b.shp[1], b.shp[0]), lambda idx: b.get(idx[1], idx[0]), b.dtype_)
        r.filt_axis1 = b
        return r
    ms = m.snapshot()
    if a.filt:
        F = a.filt
        if m.filt and same_filt(F, m.filt):
            mb = m.filt[2]
            return filtered(F[0], lambda k: tm.band(F[1](k), bool_t(mb(k, ()))), F[2], a.shp[1:], a.dtype_)
        raise Unsupported('mask of a filtered array')
    if m.filt:
        raise Unsupported('filtered mask on unfiltered array')
    as_ = a.snapshot()
    return filtered(a.shp[0], lambda k: bool_t(ms((k,))), lambda k, rest: as_((k,) + tuple(rest)), a.shp[1:], a.dtype_)


def filt_get(a, key):
    """basic keys on arrays with a filtered axis 0"""
    k0 = key[0]
    rest = key[1:]
    if isinstance(k0, slice) and k0 == slice(None):
        shape, maps = [], []
        dims = list(a.shp[1:])
        rest = list(rest) + [slice(None)] * (len(dims) - sum(k is not None for k in rest))
        for k in rest:
            if k is None:
                shape.append(ONE)
                maps.append(('new',))
                continue
            s = dims.pop(0)
            if isinstance(k, slice):
                s0, ln, step = norm_slice(k, s)
                shape.append(ln)
                maps.append(('sl', s0, step))
            else:
                maps.append(('ix', norm_index(k, s)))

        def mp(r):
            out, j = [], 0
            for m in maps:
                if m[0] == 'ix':
                    out.append(m[1])
                elif m[0] == 'new':
                    j += 1
                else:
                    out.append(tm.add(m[1], tm.scale(r[j], m[2])))
                    j += 1
            return tuple(out)
        F = a.filt
        snap = a.snapshot()
        return SArr((a.shp[0],) + tuple(shape), lambda idx: snap((idx[0],) + mp(idx[1:])), a.dtype_,
                    filt=(F[0], F[1], lambda k, r: F[2](k, mp(r))))
    if isinstance(k0, (int, SNum, np.integer)):
        i = norm_index(k0, a.shp[0])
        sub = SArr(a.shp[1:], lambda idx: a.get(i, *idx), a.dtype_)
        return getitem(sub, rest) if rest else (sub.get() if not sub.shp else sub)
    raise Unsupported('indexing a filtered array')


def box_cells(a, force=False):
    """give the elements of an array a name of their own when repeated masked stores have nested conditions in conditions:
    box(lambda, i, ...) = lambda(i, ...), unfolded by the solver export only"""
    if a.parent is not None or a.filt or a.dtype_ != 'f':
        return
    ks = [tm.fresh('k') for _ in a.shp]
    n0 = len(st().ctx)
    for k, s in zip(ks, a.shp):
        st().ctx.append(tm.band(tm.le(ZERO, k), tm.lt(k, s)))
    try:
        v = a.get(*ks)
    finally:
        del st().ctx[n0:]
    if not isinstance(v, SNum) or v.flagged or v.t.op in ('num', 'var') or not force and len(tm.pdict(v.t)) < 4:
        return
    if not force and not any(c.op == 'ind' and tm.outer_inds(c.args[0]) for c in tm.outer_inds(v.t)):
        return
    name = 'boxp' if tm.psd(v.t) or tm._sign(v.t) in ('gt', 'ge') else 'box'
    L = v.t
    for k in reversed(ks):
        L = tm.lam(k, L)
    kind = v.kind
    a._f = lambda idx: SNum(tm.app(name, (L,) + tuple(idx), 'R'), kind=kind)
    a._memo = {}


def setitem(a, key, v):
    if not isinstance(key, tuple):
        key = (key,)
    if any(_isboolkey(k) for k in key):
        if len(key) > 1 and not all(isinstance(k, slice) and k == slice(None) for k in key if not _isboolkey(k)):
            raise Unsupported('mixed boolean store')
        j = [i for i, k in enumerate(key) if _isboolkey(k)][0]
        m = as_arr(key[j])
        if j > 0 and m.ndim != 1:
            raise Unsupported('boolean store')
        ms = m.snapshot()
        if a.filt:
            F = a.filt
            if m.filt and same_filt(F, m.filt) and a.ndim == 1 and not isinstance(v, (SArr, SSeries)):
                mb = m.filt[2]
                val = scalar(v)
                old = a.snapshot()
                kind = a.dtype_
                ms2 = m.snapshot()
                of = F[2]
                a.filt = (F[0], F[1], lambda k, r: sel(bool_t(mb(k, ())), coerce_to(val, kind), of(k, r)))
                a._f = lambda idx: sel(bool_t(ms2(idx)), coerce_to(val, kind), old(idx))
                a._memo = {}
                return
            raise Unsupported('store through mask into filtered array')
        for d in range(m.ndim):
            if not same_dim(m.shp[d], a.shp[j + d]):
                raise Raised(IndexError('boolean index did not match indexed array'))
        if isinstance(v, (SSeries,)):
            v = v.arr
        if isinstance(v, (SArr, np.ndarray, list)) and (not isinstance(v, SArr) or v.ndim > 0):
            va = as_arr(v)
            F = va.filt
            if F is None and same_dim(va.shp[0], ONE):
                val = lambda vi: va.get(ZERO)
            elif F is not None:
                # value array filtered by the same mask: element k of the base goes to position k
                if m.ndim == 1:
                    if not same_filt(F, (m.shp[0], lambda k: bool_t(ms((k,))), None)):
                        raise Unsupported('masked store with a differently filtered value')
                    val = lambda vi: F[2](vi[j], vi[j + 1:])
                else:
                    # n-d mask: compare masks over the flattened space
                    fm = reshape(m, (-1,)).snapshot()
                    if not same_filt(F, (tm.mul(*m.shp), lambda k: bool_t(fm((k,))), None)):
                        raise Unsupported('masked store with a differently filtered value')
                    shp = m.shp
                    val = lambda vi: F[2](flat_index(vi, shp), ())
            else:
                raise Unsupported('masked store of an array value')
        else:
            sv = scalar(v) if not isinstance(v, SArr) else v.get()
            val = lambda vi: sv
        a.store(lambda idx: (bool_t(ms(idx[j:j + m.ndim])), idx), val)
        box_cells(a)
        return
    adv = [k for k in key if isinstance(k, (SArr, SList, list, np.ndarray, SIndex, range))]
    if adv:
        raise Unsupported('store with index arrays')
    nk = sum(1 for k in key if k is not None and k is not Ellipsis)
    if any(k is Ellipsis for k in key if not isinstance(k, Sym)):
        i = [j for j, k in enumerate(key) if k is Ellipsis][0]
        key = key[:i] + (slice(None),) * (a.ndim - nk) + key[i + 1:]
    else:
        key = key + (slice(None),) * (a.ndim - nk)
    if isinstance(v, (SSeries, SFrame)):
        v = v.arr
    if all(not isinstance(k, slice) for k in key):
        idx0 = tuple(norm_index(k, s) for k, s in zip(key, a.shp))
        if isinstance(v, SArr):
            if any(not same_dim(s, ONE) for s in v.shp):
                raise Raised(ValueError('setting an array element with a sequence.'))
            v = v.get(*([ZERO] * v.ndim))
        sv = scalar(v)
        if a.dtype_ == 'f':
            sv = coerce_to(sv, 'f')
        a.store(lambda idx: (tm.band(*[tm.eq(i, j) for i, j in zip(idx, idx0)]), idx), lambda vi: sv)
        return
    if a.filt:
        raise Unsupported('slice store into filtered')
    w = getitem(a, key)
    va = as_arr(v)
    bshape(w.shp, va.shp)
    vs = va.snapshot()
    vshp = va.shp
    w.store(lambda idx: (TRUE, idx), lambda vi: vs(bidx(vshp, vi)))


def flat_index(idx, shp):
    r = ZERO
    for i, s in zip(idx, shp):
        r = tm.add(tm.mul(r, s), i)
    return r


def unflat(k, shp):
    """row-major unravel"""
    if len(shp) == 1:
        return (k,)
    out = []
    for d in range(len(shp) - 1, 0, -1):
        q = tm.app('idiv', (k, shp[d]), 'I') if shp[d] is not ONE else k
        if shp[d] is ONE:
            out.append(ZERO)
        else:
            q, r = divmod_terms(k, shp[d])
            out.append(r)
        k = q
    out.append(k)
    return tuple(reversed(out))


def divmod_terms(k, n):
    """k = q*n + r with syntactic recognition of a*n + b, 0<=b<n"""
    pd_ = tm.pdict(k)
    q, r = {}, {}
    if n.op == 'num':
        for m, c in pd_.items():
            if c % n.args[0] == 0 and c.denominator == 1:
                q[m] = c / n.args[0]
            else:
                r[m] = c
    else:
        for m, c in pd_.items():
            dm = dict(m)
            if dm.get(n, 0) >= 1 and c.denominator == 1:
                dm[n] -= 1
                q[tuple(sorted(((a, e) for a, e in dm.items() if e), key=lambda p: p[0].id))] = c
            else:
                r[m] = c
    qt, rt = tm.from_pdict(q), tm.from_pdict(r)
    if st().implied_index(tm.band(tm.le(ZERO, rt), tm.lt(rt, n))):
        return qt, rt
    return tm.app('idiv', (k, n), 'I'), tm.app('imod', (k, n), 'I')


def reshape(a, shape, order='C'):
    shape = [s for s in shape]
    if a.filt:
        if len(shape) == 1 and a.ndim == 1:
            return a
        if a.ndim == 1 and len(shape) == 2 and shape[1] == 1:
            F = a.filt
            return SArr((a.shp[0], 1), lambda idx: a.get(idx[0]), a.dtype_, filt=(F[0], F[1], lambda k, r: F[2](k, ())))
        if len(shape) == 1 and a.ndim == 2 and a.shp[1] is ONE:
            F = a.filt
            return SArr((a.shp[0],), lambda idx: a.get(idx[0], ZERO), a.dtype_, filt=(F[0], F[1], lambda k, r: F[2](k, (ZERO,))))
        raise Unsupported('reshape filtered')
    total = tm.mul(*a.shp) if a.shp else ONE
    dims = [dim(s) for s in shape]
    neg = [i for i, d in enumerate(dims) if d.op == 'num' and d.args[0] == -1]
    if neg:
        other = tm.mul(*[d for i, d in enumerate(dims) if i not in neg]) if len(dims) > 1 else ONE
        dims[neg[0]] = tm.div(total, other) if other is not ONE else total
    else:
        if not same_dim(tm.mul(*dims) if dims else ONE, total):
            raise Raised(ValueError('cannot reshape array'))
    if list(dims) == list(a.shp):
        return a.view(a.shp, lambda idx: idx, lambda p: (TRUE, p))
    # drop/insert unit axes
    core_a = [s for s in a.shp if s is not ONE]
    core_d = [s for s in dims if s is not ONE]
    if len(core_a) == len(core_d) and all(x is y for x, y in zip(core_a, core_d)):
        pa = [i for i, s in enumerate(a.shp) if s is not ONE]
        pd_ = [i for i, s in enumerate(dims) if s is not ONE]

        def imap(idx):
            out = [ZERO] * len(a.shp)
            for x, y in zip(pa, pd_):
                out[x] = idx[y]
            return tuple(out)

        def invm(p):
            out = [ZERO] * len(dims)
            for x, y in zip(pa, pd_):
                out[y] = p[x]
            return TRUE, tuple(out)
        return a.view(tuple(dims), imap, invm)
    if order == 'F':
        return reshape(a.T if a.ndim > 1 else a, list(reversed(dims)), 'C').T if len(dims) > 1 else reshape(a.T, dims, 'C')

    def imap(idx):
        return unflat(flat_index(idx, dims), a.shp)

    def invm(p):
        return TRUE, unflat(flat_index(p, a.shp), dims)
    return a.view(tuple(dims), imap, invm)


# ------------------------------------------------------------------ reductions
def reduce_(a, op, axis=None, keepdims=False, ddof=0, skipna=False, q=None, dtype=None, out=None, where=None):
    a = as_arr(a) if not isinstance(a, SArr) else a
    if axis is None and a.ndim != 1:
        if a.ndim == 0:
            return _red1(ONE, lambda k: a.get(), op, skipna, ddof, q)
        nd = getattr(a, 'filt_nd', None)
        if a.filt and a.ndim == 1:
            pass
        else:
            if a.filt:
                raise Unsupported('full reduction of filtered n-d array')
            if getattr(a, 'filt_axis1', None) is not None:
                raise Unsupported('full reduction of filtered n-d array')
            return _red_nd(a, op, skipna, ddof, q)
    if isinstance(axis, tuple):
        if len(axis) == a.ndim:
            return reduce_(a, op, None, skipna=skipna, ddof=ddof, q=q)
        if len(axis) != 1:
            raise Unsupported('axis tuple')
        axis = axis[0]
    ax = 0 if axis is None else int(axis)
    if ax < 0:
        ax += a.ndim
    if ax >= a.ndim:
        raise Raised(np.exceptions.AxisError('axis out of bounds'))
    fa = getattr(a, 'filt_axis1', None)
    if fa is not None:
        if ax == 1:
            return reduce_(fa, op, 0, keepdims=False, ddof=ddof, skipna=skipna, q=q)
        raise Unsupported('reduction across filtered axis 1')
    if a.filt:
        nd = getattr(a, 'filt_nd', None)
        if nd is not None:
            shp, mk, val = nd
            return _red_nd(SArr(shp, val, a.dtype_), op, skipna, ddof, q, mask=mk)
        if ax != 0:
            F = a.filt
            n2 = a.shp[ax]

            def basef(k, rest):
                return _red1(n2, lambda j: F[2](k, rest[:ax - 1] + (j,) + rest[ax - 1:]), op, skipna, ddof, q)
            snap = a.snapshot()
            shp = a.shp[:ax] + a.shp[ax + 1:]
            f = lambda idx: _red1(n2, lambda j: snap(idx[:ax] + (j,) + idx[ax:]), op, skipna, ddof, q)
            return SArr(shp, f, probe_kind(f, shp), filt=(F[0], F[1], basef))
        F = a.filt
        shp = a.shp[1:]
        f = lambda rest: _red1(F[0], lambda k: F[2](k, rest), op, skipna, ddof, q, mask=F[1])
        if not shp:
            return f(())
        return SArr(shp, f, probe_kind(f, shp))
    snap = a.snapshot()
    n = a.shp[ax]
    shp = a.shp[:ax] + a.shp[ax + 1:]
    f = lambda idx: _red1(n, lambda k: snap(idx[:ax] + (k,) + idx[ax:]), op, skipna, ddof, q)
    if op in ('max', 'min', 'argmax', 'argmin') and not st().implied(tm.lt(ZERO, n)):
        if not st().decide(tm.lt(ZERO, n)):
            if skipna == 'pd' and op in ('max', 'min'):
                return full(shp, SNum(ZERO, nan=TRUE, kind='f')) if shp else SNum(ZERO, nan=TRUE, kind='f')
            raise Raised(ValueError('zero-size array to reduction operation which has no identity'))
    if not shp:
        r = f(())
        if keepdims:
            return full((ONE,), r)
        return r
    if keepdims:
        shp = a.shp[:ax] + (ONE,) + a.shp[ax + 1:]
        g = f
        f = lambda idx: g(idx[:ax] + idx[ax + 1:])
    return SArr(shp, f, probe_kind(f, shp))


def _red_nd(a, op, skipna, ddof, q, mask=None):
    """reduction over all elements of an n-d array: nested sums"""
    if op in ('argmax', 'argmin'):
        raise Unsupported('flat argmax of n-d array')
    shp = a.shp
    if op in ('quantile',):
        f = reshape(a, (-1,))
        fs = f.snapshot()
        if mask is not None:
            return _red1(f.shp[0], lambda k: fs((k,)), op, skipna, ddof, q, mask=lambda k: mask(unflat(k, shp)))
        return _red1(f.shp[0], lambda k: fs((k,)), op, skipna, ddof, q)
    ks = [tm.fresh('k') for _ in shp]
    n0 = len(st().ctx)
    for k, s in zip(ks, shp):
        st().ctx.append(tm.band(tm.le(ZERO, k), tm.lt(k, s)))
    try:
        v = a.get(*ks)
        m = mask(tuple(ks)) if mask is not None else TRUE
    finally:
        del st().ctx[n0:]

    def SUM(t):
        for k, s in reversed(list(zip(ks, shp))):
            t = tm.mk_sum(s, k, t)
        return t

    def ALL(t):
        for k, s in reversed(list(zip(ks, shp))):
            t = tm.mk_all(s, k, t)
        return t

    def EXT(o, t):
        for k, s in reversed(list(zip(ks, shp))):
            t = tm.mk_ext(o, s, k, t)
        return t
    return _combine(op, v, m, SUM, ALL, EXT, skipna, ddof, q, None)


def _red1(n, elem, op, skipna, ddof, q, mask=None):
    k = tm.fresh('k')
    st().ctx.append(tm.band(tm.le(ZERO, k), tm.lt(k, n)))
    try:
        m = mask(k) if mask is not None else TRUE
        if m is not TRUE:
            st().ctx.append(m)
        try:
            v = elem(k)
        finally:
            if m is not TRUE:
                st().ctx.pop()
    finally:
        st().ctx.pop()
    return _combine(op, v, m, lambda t: tm.mk_sum(n, k, t), lambda t: tm.mk_all(n, k, t), lambda o, t: tm.mk_ext(o, n, k, t),
                    skipna, ddof, q, (n, k))


def _combine(op, v, m, SUM, ALL, EXT, skipna, ddof, q, one):
    if op in ('any', 'all'):
        b = bool_t(v)
        if op == 'any':
            return SBool(tm.bnot(ALL(tm.bnot(tm.band(m, b)))))
        return SBool(ALL(tm.bor(tm.bnot(m), b)))
    if isinstance(v, SCplx):
        if op in ('sum', 'mean'):
            return SCplx(_combine(op, v.re, m, SUM, ALL, EXT, skipna, ddof, q, one), _combine(op, v.im, m, SUM, ALL, EXT, skipna, ddof, q, one))
        raise Unsupported('complex reduction ' + op)
    if isinstance(v, (SDelta,)):
        v = SNum(v.t, nan=v.nat)
        r = _combine(op, v, m, SUM, ALL, EXT, skipna, ddof, q, one)
        return SDelta(r.t)
    v = lift(v)
    if v is NotImplemented:
        raise Unsupported('reduction of non-numeric')
    if skipna:
        m = tm.band(m, tm.bnot(v.nan))
        v = SNum(v.t, FALSE, v.pinf, v.ninf, v.kind)
    im = tm.ind(m)
    cnt = SUM(im)
    if v.flagged:
        anynan = tm.bnot(ALL(tm.bnot(tm.band(m, v.nan))))
        anyp = tm.bnot(ALL(tm.bnot(tm.band(m, v.pinf))))
        anyn = tm.bnot(ALL(tm.bnot(tm.band(m, v.ninf))))
    else:
        anynan = anyp = anyn = FALSE
    if op == 'count':
        return SNum(cnt, kind='i')
    if op == 'sum':
        t = SUM(tm.mul(im, v.t))
        nan = tm.bor(anynan, tm.band(anyp, anyn))
        return SNum(t, nan, tm.band(tm.bnot(nan), anyp), tm.band(tm.bnot(nan), anyn), v.kind)
    if op == 'mean':
        s = _combine('sum', v, m, SUM, ALL, EXT, False, ddof, q, one)
        return SNum(s.t, s.nan, s.pinf, s.ninf, 'f') / SNum(cnt, kind='f')
    if op in ('var', 'std'):
        if v.flagged:
            nan = tm.bor(anynan, anyp, anyn)
        else:
            nan = FALSE
        mean = SNum(SUM(tm.mul(im, v.t)), kind='f') / SNum(cnt, kind='f')
        ss = SUM(tm.mul(im, tm.power(v.t, 2)))
        # sum (v-mean)^2 = sum v^2 - cnt*mean^2 ; kept as one canonical polynomial
        t = tm.sub(ss, tm.mul(cnt, tm.power(mean.t, 2)))
        den = tm.sub(cnt, tm.num(ddof))
        r = SNum(t, tm.bor(nan, mean.nan), kind='f') / SNum(den, kind='f')
        # pandas/numpy give nan for den <= 0 when ddof>0
        if op == 'var':
            return r
        return SNum(tm.app('sqrt', (r.t,)), r.nan, FALSE, FALSE, 'f')
    if op in ('max', 'min'):
        if m is TRUE and not v.flagged:
            return SNum(EXT(op, v.t), kind=v.kind)
        if m is TRUE and one is not None:
            # NaN propagates (numpy); infinities
            fin = tm.bnot(v.bad)
            big = 'pinf' if op == 'max' else 'ninf'
            t = _extm(op, v.t, tm.band(fin), one)
            nofin = ALL(tm.bnot(fin))
            if op == 'max':
                return SNum(t, anynan, tm.band(tm.bnot(anynan), anyp), tm.band(tm.bnot(anynan), tm.bnot(anyp), nofin), 'f')
            return SNum(t, anynan, tm.band(tm.bnot(anynan), tm.bnot(anyn), nofin), tm.band(tm.bnot(anynan), anyn), 'f')
        if one is None:
            raise Unsupported('masked max of n-d array')
        if v.flagged:
            raise Unsupported('masked max with special values')
        t = _extm(op, v.t, m, one)
        none = ALL(tm.bnot(m))
        if skipna:
            return SNum(t, none, kind=v.kind)
        if not st().implied(tm.bnot(none)):
            if st().decide(none):
                raise Raised(ValueError('zero-size array to reduction operation which has no identity'))
        return SNum(t, kind=v.kind)
    if op in ('argmax', 'argmin'):
        if v.flagged or m is not TRUE or one is None:
            raise Unsupported('argmax with special values')
        n, k = one
        l = tm.lam(k, v.t)
        r = tm.app(op, (n, l), 'I')
        return SNum(r, kind='i')
    if op == 'quantile':
        if one is None:
            raise Unsupported('n-d quantile')
        n, k = one
        qt = term(q)
        if v.flagged:
            if not st().implied(ALL(tm.bor(tm.bnot(m), tm.bnot(v.bad)))):
                raise Unsupported('quantile with special values')
        # quantile_q(-x) = -quantile_{1-q}(x): canonical sign
        vt = tm.mul(im, v.t)
        sg = -1 if tm._lead(vt) < 0 else 1
        if sg < 0:
            vt, qt = tm.neg(vt), tm.sub(tm.ONE, qt)
        if m is TRUE:
            r = tm.app('quantile', (n, tm.lam(k, vt), qt))
        else:
            r = tm.app('quantilem', (n, tm.lam(k, m), tm.lam(k, vt), qt))
        r = tm.scale(r, sg)
        return SNum(r, nan=tm.eq0(cnt) if not st().implied(tm.bnot(tm.eq0(cnt))) else FALSE, kind='f')
    raise Unsupported('reduction ' + op)


def _extm(op, t, m, one):
    """max over k<n with m(k): uninterpreted with defining facts"""
    n, k = one
    r = tm.app(op + 'm', (n, tm.lam(k, m), tm.lam(k, tm.mul(tm.ind(m), t))), 'R')
    return r


# ------------------------------------------------------------------ symbolic lists
class SList(Sym):
    """python list/tuple of symbolic length: element function"""
    _cls = list

    def __init__(self, n, f):
        self.n = dim(n)
        self.f = f

    def get(self, k):
        return self.f(k)

    def copy(self):
        return SList(self.n, self.f)

    def sort(self, key=None, reverse=False):
        self.f = _sorted(self, key, reverse).f
        st().writes.append((self, None, None))

    def arr(self, dtype=None):
        k = tm.fresh('k')
        st().ctx.append(tm.band(tm.le(ZERO, k), tm.lt(k, self.n)))
        try:
            e = self.f(k)
        finally:
            st().ctx.pop()
        if isinstance(e, (list, tuple, SArr, SSeries, SList, np.ndarray)):
            ea = as_arr(e)
            kind = ea.dtype_
            f = lambda idx: coerce_to(as_arr(self.f(idx[0])).get(*idx[1:]), kind)
            for s in ea.shp:
                if k in s.fv:
                    raise Unsupported('ragged list')
            return SArr((self.n,) + ea.shp, f, kind)
        kind = kind_of(scalar(e))
        return SArr((self.n,), lambda idx: scalar(self.f(idx[0])), kind)

    def __len__(self):
        return int(dimval(self.n))

    def __getitem__(self, i):
        if isinstance(i, slice):
            s0, ln, step = norm_slice(i, self.n)
            return SList(ln, lambda k: self.f(tm.add(s0, tm.scale(k, step))))
        return self.f(norm_index(i, self.n))

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            raise Unsupported('slice store on a list')
        i = norm_index(i, self.n)
        old = self.f
        k = tm.fresh('k')
        with_k = st().ctx
        with_k.append(tm.band(tm.le(ZERO, k), tm.lt(k, self.n)))
        try:
            e = old(k)
        finally:
            with_k.pop()
        if v is None and isinstance(e, SNum):
            v = lift(float('nan'))       # pandas turns a blank among numbers into a missing number
        elif v is None or not isinstance(e, Sym):
            raise Unsupported('list item store')
        self.f = lambda j: sel(tm.eq0(tm.sub(j, i)), scalar(v), old(j))
        st().writes.append((self, None, None))

    def __iter__(self):
        if self.n.op != 'num':
            raise Unsupported('python iteration over symbolic list')
        return iter([self.f(tm.num(i)) for i in range(int(self.n.args[0]))])


def _sorted(l, key=None, reverse=False):
    """a permutation of the list: a function of its sort keys (the order itself is not modelled)"""
    from . import interp as I
    k = tm.fresh('q')
    with_k = st().ctx
    with_k.append(tm.band(tm.le(ZERO, k), tm.lt(k, l.n)))
    try:
        e = l.f(k)
        kv = e if key is None else I.call(key, (e,), {})
    finally:
        with_k.pop()
    if isinstance(kv, (tuple, list)):
        kv = kv[0] if len(kv) == 1 else kv
    if not isinstance(kv, (SNum, SLab, STime)):
        raise Unsupported('sort key')
    nm = 'sort#%d.%d.%d' % (l.n.id, tm.lam(k, kv.t).id, bool(reverse))
    perm(nm, l.n)
    f = l.f
    if not st().ctx:
        key_at = lambda j: (lambda v: v if key is None else I.call(key, (v,), {}))(f(tm.app(nm, (j,), 'I')))
        j = tm.fresh('q')
        st().ctx.append(tm.band(tm.le(ZERO, j), tm.lt(tm.add(j, ONE), l.n)))
        try:
            u, v = [(x[0] if isinstance(x, (tuple, list)) else x) for x in (key_at(j), key_at(tm.add(j, ONE)))]
            rank = lambda x: lab_rank(x.t) if isinstance(x, SLab) else x.t
            if not (isinstance(u, SNum) and u.flagged):
                o = tm.le(rank(v), rank(u)) if reverse else tm.le(rank(u), rank(v))
                order = o
            else:
                order = None
        finally:
            st().ctx.pop()
        if order is not None:
            st().assume(tm.mk_all(tm.sub(l.n, ONE), j, order))
    return SList(l.n, lambda j: f(tm.app(nm, (j,), 'I')))


def perm(nm, n):
    """bijection of 0..n-1 (the identity elsewhere)"""
    from . import smt
    inv = nm + '#inv'
    tm.declare_perm(nm, inv, dim(n))
    def ax(ex, t, j):
        x, y, m = ex.n(j), ex.n(t), ex.n(dim(n))
        inside = lambda v: smt.z3.And(v >= 0, v < m)
        ex.axioms.append(smt.z3.If(inside(x), inside(y), x == y))
        return []
    smt.AXIOMS[nm] = smt.AXIOMS[inv] = ax
    return lambda k: SNum(tm.app(nm, (term(k),), 'I'), kind='i')


class SDict(Sym):
    """dict built from a symbolic list of pairs with distinct keys"""
    _cls = dict

    def __init__(self, pairs):
        self.n = pairs.n
        self.pairs = pairs
        i, j = tm.fresh('q'), tm.fresh('q')
        n0 = len(st().ctx)
        for k in (i, j):
            st().ctx.append(tm.band(tm.le(ZERO, k), tm.lt(k, self.n)))
        try:
            a, b = pairs.f(i), pairs.f(j)
            if not (isinstance(a, (tuple, list)) and len(a) == 2):
                raise Unsupported('dict of non-pairs')
            same = eq_t(scalar(a[0]), scalar(b[0]))
            if not st().implied(tm.bor(tm.bnot(same), tm.eq(i, j))):
                raise Unsupported('dict with possibly repeated keys')
        finally:
            del st().ctx[n0:]

    def _find(self, key):
        i = tm.fresh('q')
        c = eq_t(scalar(self.pairs.f(i)[0]), scalar(key))
        if c.op != 'eq0':
            raise Unsupported('dict lookup')
        t = tm.solve(c.args[0], i)
        if t is None:
            raise Unsupported('dict lookup')
        return t

    def __getitem__(self, key):
        t = self._find(key)
        ok = tm.band(tm.le(ZERO, t), tm.lt(t, self.n))
        if not st().implied(ok) and not st().decide(ok):
            raise Raised(KeyError('symbolic key'))
        return self.pairs.f(t)[1]

    def get(self, key, default=None):
        t = self._find(key)
        ok = tm.band(tm.le(ZERO, t), tm.lt(t, self.n))
        if not st().implied(ok) and not st().decide(ok):
            return default
        return self.pairs.f(t)[1]

    def keys(self):
        return SList(self.n, lambda k: self.pairs.f(k)[0])

    def values(self):
        return SList(self.n, lambda k: self.pairs.f(k)[1])

    def items(self):
        return SList(self.n, lambda k: tuple(self.pairs.f(k)))

    def copy(self):
        return SDict(self.pairs)

    def __len__(self):
        return int(dimval(self.n))


class SFilt(SList):
    """list of the items k < n0 with mask(k), in order"""

    def __init__(self, n0, maskf, itemf):
        self.n0, self.maskf, self.itemf = dim(n0), maskf, itemf
        k = tm.fresh('m')
        m = maskf(k)
        ml = tm.lam(k, m)
        SList.__init__(self, tm.mk_sum(self.n0, k, tm.ind(m)), lambda j: itemf(tm.app('select', (self.n0, ml, j), 'I')))

    def arr(self, dtype=None):
        a = SList(self.n0, self.itemf).arr(dtype)
        s = a.snapshot()
        return filtered(self.n0, self.maskf, lambda k, rest: s((k,) + tuple(rest)), a.shp[1:], a.dtype_)


# ------------------------------------------------------------------ pandas
class SIndex(Sym):
    """Index: length, element function (SLab | STime | SNum), uniqueness"""

    def __init__(self, n, f, kind='L', unique=True, key=None, name=None, pos=None):
        self.n = dim(n)
        self.f = f
        self.kind = kind
        self.unique_ = unique
        self.key = key or ('ix%d' % id(self))
        self.name = name
        self.pos = pos          # pos(label term) -> position term (for unique label indexes)

    @property
    def _cls(self):
        return pd.DatetimeIndex if self.kind == 'dt' else pd.TimedeltaIndex if self.kind == 'td' else pd.Index

    @property
    def shape(self):
        return (dimval(self.n),)

    @property
    def size(self):
        return dimval(self.n)

    ndim = 1

    def __len__(self):
        return int(dimval(self.n))

    def arr(self):
        k = {'dt': 'dt', 'td': 'td', 'f': 'f', 'i': 'i', 'b': 'b'}.get(self.kind, 'O')
        return SArr((self.n,), lambda idx: self.f(idx[0]), k)

    @property
    def values(self):
        return self.arr()

    def to_numpy(self):
        return self.arr()

    def to_list(self):
        if self.n.op == 'num':
            return [self.f(tm.num(i)) for i in range(int(self.n.args[0]))]
        return SList(self.n, self.f)

    tolist = to_list

    def __iter__(self):
        if self.n.op != 'num':
            raise Unsupported('iteration over symbolic index')
        return iter([self.f(tm.num(i)) for i in range(int(self.n.args[0]))])

    def __getitem__(self, key):
        if isinstance(key, (int, SNum, np.integer)):
            return self.f(norm_index(key, self.n))
        a = getitem(self.arr(), key)
        r = SIndex(a.shp[0], lambda k: a.get(k), self.kind, self.unique_)
        if a.filt:
            r.filtarr = a
            r.arr = lambda: a
        return r

    def diff(self, periods=1):
        p = int(periods)

        def f(k):
            c = tm.lt(k, tm.num(p))
            return SDelta(tm.sub(self.f(k).t, self.f(tm.sub(k, tm.num(p))).t), nat=c)
        return SIndex(self.n, f, 'td', False)

    def total_seconds(self):
        return SIndex(self.n, lambda k: SNum(self.f(k).t, nan=self.f(k).nat, kind='f'), 'f', False)

    def argsort(self):
        return _argsort(self.arr())

    def _bin(self, o, op, r=False):
        if isinstance(o, (SSeries, SFrame)):
            return NotImplemented
        if self.kind == 'dt':
            if op == 'sub' and not r and isinstance(o, STime):
                return SIndex(self.n, lambda k: self.f(k) - o, 'td', False)
        a = binop(op, o, self.arr()) if r else binop(op, self.arr(), o)
        if op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
            return a
        return SIndex(self.n, lambda k: a.get(k), a.dtype_, False) if a.ndim == 1 else a

    def __neg__(self):
        return SIndex(self.n, lambda k: -self.f(k), self.kind)

    def __repr__(self):
        return 'SIndex(%s)' % tm.show(self.n)


def cindex(ix):
    """concrete pandas index / list -> SIndex"""
    if isinstance(ix, SIndex):
        return ix
    if isinstance(ix, SArr):
        return SIndex(ix.shp[0], lambda k: ix.get(k), ix.dtype_ if ix.dtype_ in ('f', 'i', 'dt', 'td') else 'L', False)
    if isinstance(ix, SList):
        return SIndex(ix.n, ix.f)
    vals = list(ix)
    sv = [scalar(v) for v in vals]
    kinds = set(kind_of(v) for v in sv)
    kind = kinds.pop() if len(kinds) == 1 else 'L'
    kind = {'O': 'L'}.get(kind, kind)

    def f(k):
        if k.op == 'num':
            return sv[int(k.args[0])]
        r = sv[-1]
        for j in range(len(sv) - 2, -1, -1):
            r = sel(tm.eq(k, tm.num(j)), sv[j], r)
        return r
    i = SIndex(len(vals), f, kind, len(set(map(repr, vals))) == len(vals))
    i.concrete = vals
    return i


def range_index(n):
    return SIndex(n, lambda k: SNum(k, kind='i'), 'i', True, key='range')


def same_index(a, b):
    if a is b:
        return True
    if not same_dim(a.n, b.n):
        return False
    ca, cb = getattr(a, 'concrete', None), getattr(b, 'concrete', None)
    if ca is not None and cb is not None:
        return ca == cb
    k = tm.fresh('x')
    st().ctx.append(tm.band(tm.le(ZERO, k), tm.lt(k, a.n)))
    try:
        x, y = a.f(k), b.f(k)
        try:
            e = eq_t(x, y)
        except Unsupported:
            return False
        return e is TRUE or st().implied(e)
    finally:
        st().ctx.pop()


def picked_index(cols, n, kf):
    """the labels kf(0..n-1) of a unique index; when they are a one-to-one rearrangement, positions are found by inverting it"""
    k, q = tm.fresh('pk'), tm.fresh('pq')
    st().ctx.append(tm.band(tm.le(ZERO, k), tm.lt(k, n)))
    try:
        pt = locate(cols, kf((k,)))
    except Unsupported:
        return SIndex(n, lambda j: kf((j,)), 'L', False)
    finally:
        st().ctx.pop()
    if not cols.unique_ or tm.solve(tm.sub(pt, q), k) is None:
        return SIndex(n, lambda j: kf((j,)), 'L', False)
    return SIndex(n, lambda j: kf((j,)), 'L', True, pos=lambda label: tm.solve(tm.sub(pt, locate(cols, label)), k))


def locate(ix, label):
    """position of a label in an index (unique): term, raising KeyError when provably absent"""
    conc = getattr(ix, 'concrete', None)
    lt = None
    if conc is not None:
        if not isinstance(label, Sym):
            for j, v in enumerate(conc):
                if v == label and type(v) == type(label) or (isinstance(v, (str, int, float)) and isinstance(label, (str, int, float)) and v == label):
                    return tm.num(j)
            raise Raised(KeyError(label))
        if isinstance(label, SLab) and label.t.op == 'lit':
            return locate(ix, label.t.args[0][2])
        t = lab_t(label) if isinstance(label, SLab) else None
        if t is not None:
            for j, v in enumerate(conc):
                if st().decide(tm.eqL(t, tm.lit(v))):
                    return tm.num(j)
            raise Raised(KeyError(label))
        raise Unsupported('symbolic label lookup')
    if ix.pos is not None:
        return ix.pos(label)
    if ix.kind in ('i',) and ix.key == 'range':
        return norm_index(label, ix.n)
    if not isinstance(label, Sym) and ix.kind == 'L':
        raise Raised(KeyError(label))
    raise Unsupported('label lookup in symbolic index')


class SSeries(Sym):
    _cls = pd.Series

    def __init__(self, arr, index, name=None):
        self.arr = arr
        self.index_ = index
        self.name = name

    @property
    def index(self):
        return self.index_

    @index.setter
    def index(self, v):
        self.index_ = cindex(v)
        st().writes.append((self, None, None))

    @property
    def values(self):
        return self.arr

    def to_numpy(self, **k):
        return self.arr

    @property
    def shape(self):
        return self.arr.shape

    @property
    def size(self):
        return self.arr.size

    ndim = 1

    @property
    def dtype(self):
        return self.arr.dtype

    @property
    def empty(self):
        return SBool(tm.eq0(self.arr.shp[0]))

    def __len__(self):
        return len(self.arr)

    def __iter__(self):
        return iter(self.arr)

    def copy(self, deep=True):
        return SSeries(self.arr.copy(), self.index_, self.name)

    def _bin(self, o, op, r=False):
        if isinstance(o, SFrame):
            return NotImplemented
        if isinstance(o, pd.Series):
            o = wrap_pd(o)
        if isinstance(o, SSeries):
            if not same_index(self.index, o.index):
                o = align(o, self.index)
            o2 = o.arr
            nm = self.name if self.name == o.name else None
        else:
            o2, nm = o, self.name
        a = binop(op, o2, self.arr) if r else binop(op, self.arr, o2)
        return SSeries(a, self.index, nm)

    def __neg__(self):
        return SSeries(-self.arr, self.index, self.name)

    def __invert__(self):
        return SSeries(~self.arr, self.index, self.name)

    def __abs__(self):
        return SSeries(abs(self.arr), self.index, self.name)

    def abs(self):
        return SSeries(abs(self.arr), self.index, self.name)

    def _i(self, o, op):
        r = self._bin(o, op)
        if self.arr.filt:
            raise Unsupported('in-place on filtered series')
        f = r.arr.snapshot()
        self.arr.store(lambda idx: (TRUE, idx), lambda vi: f(vi))
        return self

    def __isub__(self, o):
        return self._i(o, 'sub')

    def __iadd__(self, o):
        return self._i(o, 'add')

    def __imul__(self, o):
        return self._i(o, 'mul')

    def __itruediv__(self, o):
        return self._i(o, 'div')

    @property
    def iloc(self):
        return _ILoc(self)

    @property
    def loc(self):
        return _Loc(self)

    def __getitem__(self, key):
        if _isboolkey(key):
            m = key.arr if isinstance(key, SSeries) else as_arr(key)
            if isinstance(key, SSeries) and not same_index(key.index, self.index):
                raise Unsupported('boolean alignment')
            a = bool_get(self.arr, (m,))
            ia = bool_get(self.index.arr(), (m,))
            ix = SIndex(ia.shp[0], lambda k: ia.get(k), self.index.kind, self.index.unique_)
            ix.filtarr = ia
            ix.arr = lambda: ia
            return SSeries(a, ix, self.name)
        if isinstance(key, slice):
            return self.iloc[key]
        if isinstance(key, (list,)) and key and all(isinstance(k, str) for k in key):
            return SSeries(as_arr([self.arr.get(locate(self.index, k)) for k in key]), cindex(key), self.name)
        return self.arr.get(locate(self.index, key))

    def __setitem__(self, key, v):
        if _isboolkey(key):
            m = key.arr if isinstance(key, SSeries) else as_arr(key)
            setitem(self.arr, (m,), v)
            return
        raise Unsupported('series store')

    def diff(self, periods=1):
        a = self.arr
        n = a.shp[0]
        p = term(periods)
        snap = a.snapshot()
        if p.op == 'num' and p.args[0] < 1:
            raise Unsupported('non-positive diff period')

        def f(idx):
            d = scalar(snap(idx)) - scalar(snap((tm.sub(idx[0], p),) + idx[1:]))
            c = tm.lt(idx[0], p)
            if st().implied(tm.bnot(c)):
                c = FALSE
            return SNum(d.t, tm.bor(c, d.nan), tm.band(tm.bnot(c), d.pinf), tm.band(tm.bnot(c), d.ninf), 'f')
        return SSeries(SArr(a.shp, f, 'f'), self.index, self.name)

    def _red(self, op, skipna=True, **k):
        skipna = 'pd' if skipna else skipna
        return reduce_(self.arr, op, 0, skipna=skipna, **k)

    def sum(self, axis=None, skipna=True, **k):
        return self._red('sum', skipna)

    def mean(self, axis=None, skipna=True, **k):
        return self._red('mean', skipna)

    def max(self, axis=None, skipna=True, **k):
        return self._red('max', skipna)

    def min(self, axis=None, skipna=True, **k):
        return self._red('min', skipna)

    def std(self, axis=None, skipna=True, ddof=1, **k):
        return self._red('std', skipna, ddof=ddof)

    def var(self, axis=None, skipna=True, ddof=1, **k):
        return self._red('var', skipna, ddof=ddof)

    def any(self, **k):
        return reduce_(self.arr, 'any', 0)

    def all(self, **k):
        return reduce_(self.arr, 'all', 0)

    def isna(self):
        return map1(lambda x: SBool(isnan_t(x)), self, 'b')

    isnull = isna

    def rank(self, pct=False, **k):
        if k:
            raise Unsupported('rank options')
        return SSeries(rank_arr(self.arr, pct), self.index, self.name)

    def resample(self, rule, **k):
        if k:
            raise Unsupported('resample options')
        return Resampler(self, rule)

    def argmax(self):
        return reduce_(self.arr, 'argmax', 0)

    def item(self):
        return self.arr.item()

    def __repr__(self):
        return 'SSeries(%r)' % self.arr


class SFrame(Sym):
    _cls = pd.DataFrame

    def __init__(self, arr, index, columns):
        self.arr = arr
        self.index_ = index
        self.columns_ = columns

    @property
    def index(self):
        return self.index_

    @index.setter
    def index(self, v):
        self.index_ = cindex(v)
        st().writes.append((self, None, None))

    @property
    def columns(self):
        return self.columns_

    @columns.setter
    def columns(self, v):
        self.columns_ = cindex(v)
        st().writes.append((self, None, None))

    @property
    def values(self):
        return self.arr

    def to_numpy(self, **k):
        return self.arr

    @property
    def shape(self):
        return self.arr.shape

    @property
    def size(self):
        return self.arr.size

    ndim = 2

    @property
    def T(self):
        return SFrame(self.arr.T, self.columns, self.index)

    def __len__(self):
        return len(self.arr)

    def copy(self, deep=True):
        return SFrame(self.arr.copy(), self.index_, self.columns_)

    def _bin(self, o, op, r=False):
        if isinstance(o, pd.DataFrame) or isinstance(o, pd.Series):
            o = wrap_pd(o)
        if isinstance(o, SFrame):
            if not same_index(self.columns, o.columns) or not same_index(self.index, o.index):
                raise Unsupported('frame alignment')
            o2 = o.arr
        elif isinstance(o, SSeries):
            if not same_index(self.columns, o.index):
                raise Unsupported('frame/series alignment')
            o2 = o.arr
        else:
            o2 = o
        a = binop(op, o2, self.arr) if r else binop(op, self.arr, o2)
        return SFrame(a, self.index, self.columns)

    def __neg__(self):
        return SFrame(-self.arr, self.index, self.columns)

    def __abs__(self):
        return SFrame(abs(self.arr), self.index, self.columns)

    def abs(self):
        return SFrame(abs(self.arr), self.index, self.columns)

    @property
    def iloc(self):
        return _ILoc(self)

    @property
    def loc(self):
        return _Loc(self)

    def __getitem__(self, key):
        if _isboolkey(key):
            if isinstance(key, SFrame):
                raise Unsupported('frame mask read')
            m = key.arr if isinstance(key, SSeries) else as_arr(key)
            a = bool_get(self.arr, (m, slice(None)))
            ia = bool_get(self.index.arr(), (m,))
            ix = SIndex(ia.shp[0], lambda k: ia.get(k), self.index.kind, self.index.unique_)
            ix.arr = lambda: ia
            return SFrame(a, ix, self.columns)
        if isinstance(key, list):
            pos = [locate(self.columns, k) for k in key]
            return SFrame(as_cols([self.arr[:, SNum(p)] for p in pos]), self.index, cindex(key))
        if isinstance(key, (SArr, SList, SIndex)) or isinstance(key, np.ndarray):
            ka = as_arr(key)
            snap = self.arr.snapshot()
            cols = self.columns
            kf = ka.snapshot()
            return SFrame(SArr((self.arr.shp[0], ka.shp[0]), lambda idx: snap((idx[0], locate(cols, kf((idx[1],))))), self.arr.dtype_),
                          self.index, picked_index(cols, ka.shp[0], kf))
        p = locate(self.columns, key)
        a = self.arr
        return SSeries(a.view((a.shp[0],), lambda idx: (idx[0], p), lambda q: (tm.eq(q[1], p), (q[0],))) if not a.filt else filt_get(a, (slice(None), SNum(p))), self.index, key)

    def __setitem__(self, key, v):
        if isinstance(key, SFrame):
            ms = key.arr.snapshot()
            sv = scalar(v)
            self.arr.store(lambda idx: (bool_t(ms(idx)), idx), lambda vi: sv)
            return
        if _isboolkey(key):
            setitem(self.arr, (as_arr(key), slice(None)), v)
            return
        p = locate(self.columns, key)
        va = v.arr if isinstance(v, SSeries) else as_arr(v)
        vs = va.snapshot()
        self.arr.store(lambda idx: (tm.eq(idx[1], p), idx), lambda vi: vs((vi[0],) if va.ndim else ()))

    def diff(self, periods=1):
        s = SSeries(self.arr, self.index).diff(periods)
        return SFrame(s.arr, self.index, self.columns)

    def _red(self, op, axis=0, skipna=True, **k):
        axis = 0 if axis is None else axis
        skipna = 'pd' if skipna else skipna
        if axis in (0, 'index'):
            return SSeries(reduce_(self.arr, op, 0, skipna=skipna, **k), self.columns)
        return SSeries(reduce_(self.arr, op, 1, skipna=skipna, **k), self.index)

    def sum(self, axis=0, skipna=True, **k):
        return self._red('sum', axis, skipna)

    def mean(self, axis=0, skipna=True, **k):
        return self._red('mean', axis, skipna)

    def max(self, axis=0, skipna=True, **k):
        return self._red('max', axis, skipna)

    def min(self, axis=0, skipna=True, **k):
        return self._red('min', axis, skipna)

    def std(self, axis=0, skipna=True, ddof=1, **k):
        return self._red('std', axis, skipna, ddof=ddof)

    def isna(self):
        return map1(lambda x: SBool(isnan_t(x)), self, 'b')

    isnull = isna

    def rank(self, pct=False, **k):
        if k:
            raise Unsupported('rank options')
        return SFrame(rank_arr(self.arr, pct), self.index, self.columns)

    def resample(self, rule, **k):
        if k:
            raise Unsupported('resample options')
        return Resampler(self, rule)

    def apply(self, fn, axis=0, **k):
        from . import interp
        if axis not in (0, 'index') or k:
            raise Unsupported('apply axis=1')
        # column-wise: evaluated at a symbolic column
        snap = self.arr.snapshot()

        def col(j):
            return SSeries(SArr((self.arr.shp[0],), lambda idx: snap((idx[0], j)), self.arr.dtype_), self.index)
        with over(self.arr.shp[1], 'col') as j:
            r = interp.call(fn, (col(j),), {})
        if not isinstance(r, SSeries) or not same_index(r.index, self.index):
            raise Unsupported('apply returning a non-series')
        rf = r.arr.snapshot()
        return SFrame(SArr(self.arr.shp, lambda idx: subst_val(rf((idx[0],)), {j: idx[1]}), r.arr.dtype_), self.index, self.columns)

    def __iter__(self):
        return iter(self.columns)

    def __repr__(self):
        return 'SFrame(%r)' % self.arr


def subst_val(v, m):
    if isinstance(v, SNum):
        return SNum(tm.subst(v.t, m), tm.subst(v.nan, m), tm.subst(v.pinf, m), tm.subst(v.ninf, m), v.kind, v.py)
    if isinstance(v, SBool):
        return SBool(tm.subst(v.t, m))
    if isinstance(v, SCplx):
        return SCplx(subst_val(v.re, m), subst_val(v.im, m))
    if isinstance(v, SLab):
        return SLab(tm.subst(v.t, m))
    if isinstance(v, STime):
        return STime(tm.subst(v.t, m))
    if isinstance(v, SDelta):
        return SDelta(tm.subst(v.t, m), tm.subst(v.nat, m))
    if isinstance(v, (tuple, list)):
        return type(v)(subst_val(x, m) for x in v)
    if isinstance(v, SArr):
        f = v.snapshot()
        return SArr([tm.subst(s, m) for s in v.shp], lambda idx: subst_val(f(idx), m), v.dtype_)
    if isinstance(v, SSeries):
        return SSeries(subst_val(v.arr, m), v.index, v.name)
    if isinstance(v, Sym):
        raise Unsupported('substitution in %s' % type(v).__name__)
    return v


def as_cols(arrs):
    return stack([as_arr(a) for a in arrs]).T


def align(s, index):
    """reindex a series to another index with the same label set (via the label's position)"""
    if getattr(s.index, 'pos', None) is None and getattr(s.index, 'concrete', None) is None:
        raise Unsupported('series alignment')
    raise Unsupported('series alignment')


def rank_arr(a, pct):
    """average rank of non-NaN values along axis 0"""
    snap = a.snapshot()
    n = a.shp[0]

    def f(idx):
        me = lift(snap(idx))
        k = tm.fresh('r')
        st().ctx.append(tm.band(tm.le(ZERO, k), tm.lt(k, n)))
        try:
            o = lift(snap((k,) + idx[1:]))
        finally:
            st().ctx.pop()
        if not (o.pinf is FALSE and o.ninf is FALSE):
            raise Unsupported('rank with infinities')
        ok = tm.ind(tm.bnot(o.nan))
        less = tm.mk_sum(n, k, tm.mul(ok, tm.ind(tm.lt(o.t, me.t))))
        le_ = tm.mk_sum(n, k, tm.mul(ok, tm.ind(tm.le(o.t, me.t))))
        r = tm.scale(tm.add(less, le_, ONE), Fraction(1, 2))
        if pct:
            cnt = tm.mk_sum(n, k, ok)
            r = tm.div(r, cnt)     # count >= 1 whenever this element is not NaN
        return SNum(r, me.nan, kind='f')
    return SArr(a.shp, f, 'f')


def _argsort(a):
    n = a.shp[0]
    with over(n) as k:
        v = term(a.get(k))
    l = tm.lam(k, v)
    if st().implied(tm.mk_all(tm.sub(n, ONE), k, tm.lt(v, tm.subst(v, {k: tm.add(k, ONE)})))):
        return SArr((n,), lambda idx: SNum(idx[0], kind='i'), 'i')        # already increasing
    if st().implied(tm.mk_all(tm.sub(n, ONE), k, tm.lt(tm.subst(v, {k: tm.add(k, ONE)}), v))):
        return SArr((n,), lambda idx: SNum(tm.sub(tm.sub(n, ONE), idx[0]), kind='i'), 'i')        # decreasing
    ps = {x.args[0] for x in tm.atoms(v) if x.op == 'app' and x.args[0] in tm.PERMS and x.args[1:] == (k,)}
    if len(ps) == 1:
        # increasing values in permuted order: the order is the inverse permutation
        p = ps.pop()
        j = tm.fresh('k')
        from . import smt
        w = smt.replace(v, {tm.app(p, (k,), 'I'): j})
        if k not in w.fv and same_dim(tm.PERM_N[p], n) and st().implied(tm.mk_all(tm.sub(n, ONE), j, tm.lt(w, tm.subst(w, {j: tm.add(j, ONE)})))):
            return SArr((n,), lambda idx: SNum(tm.app(tm.PERMS[p], (idx[0],), 'I'), kind='i'), 'i')

    def f(idx):
        return SNum(tm.app('argsort', (n, l, idx[0]), 'I'), kind='i')
    k2 = tm.fresh('s')
    r = tm.app('argsort', (n, l, k2), 'I')
    st().assume_global(tm.mk_all(n, k2, tm.band(tm.le(ZERO, r), tm.lt(r, n))))
    return SArr((n,), f, 'i')


class Resampler:
    def __init__(self, obj, rule):
        self.obj, self.rule = obj, rule

    def mean(self):
        o = self.obj
        # uninterpreted: contract of pandas resample(rule).mean() as a function of (values, times, rule)
        rule = self.rule
        if isinstance(rule, (SRule, SDelta)):
            rt = rule.t
        else:
            rt = tm.num(pd.Timedelta(pd.tseries.frequencies.to_offset(rule)).total_seconds())
        n = o.arr.shp[0]
        with over(n, 'rs') as k:
            tt = o.index.f(k).t
        tl = tm.lam(k, tt)
        m = tm.app('resample_len', (n, tl, rt), 'I')
        st().assume_global(tm.le(ZERO, m))
        snap = o.arr.snapshot()

        def elem(j, rest):
            kk = tm.fresh('rs')
            st().ctx.append(tm.band(tm.le(ZERO, kk), tm.lt(kk, n)))
            try:
                v = lift(snap((kk,) + rest))
            finally:
                st().ctx.pop()
            if v.flagged and not st().implied(tm.mk_all(n, kk, tm.bnot(v.bad))):
                vl = tm.lam(kk, tm.ite(v.bad, ZERO, v.t))
                bl = tm.lam(kk, v.bad)
                return SNum(tm.app('resample_mean', (n, tl, vl, rt, j, bl)), nan=tm.app('resample_nan', (n, tl, vl, rt, j, bl), 'B'))
            vl = tm.lam(kk, v.t)
            return SNum(tm.app('resample_mean', (n, tl, vl, rt, j)), nan=tm.app('resample_nan', (n, tl, rt, j), 'B'), kind='f')
        arr = SArr((m,) + o.arr.shp[1:], lambda idx: elem(idx[0], idx[1:]), 'f')
        ix = SIndex(m, lambda j: STime(tm.app('resample_time', (n, tl, rt, j))), 'dt', True)
        if isinstance(o, SSeries):
            return SSeries(arr, ix, o.name)
        return SFrame(arr, ix, o.columns)


class SRule(Sym):
    """a frequency string built from a symbolic number of seconds"""
    _cls = str

    def __init__(self, t):
        self.t = t


class SStr(Sym):
    """string built from symbolic parts: tuple of str | term"""
    _cls = str

    def __init__(self, parts):
        self.parts = parts

    def __add__(self, o):
        if isinstance(o, str):
            return SStr(self.parts + (o,))
        if isinstance(o, SStr):
            return SStr(self.parts + o.parts)
        return NotImplemented

    def __radd__(self, o):
        return SStr((o,) + self.parts)


class _ILoc:
    def __init__(self, o):
        self.o = o

    def __getitem__(self, key):
        o = self.o
        if isinstance(o, SSeries):
            if isinstance(key, slice):
                a = o.arr[key]
                ia = getitem(o.index.arr(), key)
                return SSeries(a, SIndex(ia.shp[0], lambda k: ia.get(k), o.index.kind, o.index.unique_), o.name)
            return o.arr[key]
        if not isinstance(key, tuple):
            key = (key, slice(None))
        r, c = key
        a = getitem(o.arr, (r, c))
        isr = not isinstance(r, (int, SNum, np.integer))
        isc = not isinstance(c, (int, SNum, np.integer))

        def sub(ix, k):
            ia = getitem(ix.arr(), k)
            if ia.filt is None and isinstance(k, slice) and k == slice(None):
                return ix
            return SIndex(ia.shp[0], lambda j: ia.get(j), ix.kind, ix.unique_)
        if isr and isc:
            return SFrame(a, sub(o.index, r), sub(o.columns, c))
        if isr:
            return SSeries(a, sub(o.index, r), o.columns.f(norm_index(c, o.columns.n)))
        if isc:
            return SSeries(a, sub(o.columns, c), o.index.f(norm_index(r, o.index.n)))
        return a


class _Loc:
    def __init__(self, o):
        self.o = o

    def __getitem__(self, key):
        o = self.o
        if isinstance(o, SSeries):
            return self._take(o, key)
        if isinstance(key, tuple):
            r, c = key
            s = o[c]
            return _Loc(s)[r]
        if _isboolkey(key):
            if isinstance(key, SArr) and key.ndim == 2 and key.shp[1] is ONE:
                key = key[:, 0]          # a one-column mask selects rows
            return o[key]
        if isinstance(key, (SArr, SList, SIndex, list, np.ndarray)):
            ka = key.arr() if isinstance(key, SIndex) else as_arr(key)
            kf = ka.snapshot()
            snap = o.arr.snapshot()
            ix = o.index
            return SFrame(SArr((ka.shp[0], o.arr.shp[1]), lambda idx: snap((locate(ix, kf((idx[0],))), idx[1])), o.arr.dtype_),
                          SIndex(ka.shp[0], lambda k: kf((k,)), 'L', False), o.columns)
        p = locate(o.index, key)
        a = o.arr
        return SSeries(a.view((a.shp[1],), lambda idx: (p, idx[0]), lambda q: (tm.eq(q[0], p), (q[1],))), o.columns, key)

    def _take(self, o, key):
        if _isboolkey(key):
            if isinstance(key, SArr) and key.ndim == 2 and key.shp[1] is ONE:
                key = key[:, 0]          # a one-column mask selects rows
            return o[key]
        if isinstance(key, (SArr, SList, SIndex, list)):
            ka = key.arr() if isinstance(key, SIndex) else as_arr(key)
            kf = ka.snapshot()
            snap = o.arr.snapshot()
            ix = o.index
            return SSeries(SArr((ka.shp[0],), lambda idx: snap((locate(ix, kf((idx[0],))),)), o.arr.dtype_), SIndex(ka.shp[0], lambda k: kf((k,)), 'L', False), o.name)
        return o.arr.get(locate(o.index, key))

    def __setitem__(self, key, v):
        o = self.o
        if isinstance(o, SFrame) and isinstance(key, tuple):
            r, c = key
            pr, pc = locate(o.index, r), locate(o.columns, c)
            sv = scalar(v)
            o.arr.store(lambda idx: (tm.band(tm.eq(idx[0], pr), tm.eq(idx[1], pc)), idx), lambda vi: sv)
            return
        raise Unsupported('loc store')


def wrap_pd(o):
    if isinstance(o, pd.Series):
        return SSeries(const_arr(o.values), cindex(o.index), o.name)
    return SFrame(const_arr(o.values), cindex(o.index), cindex(o.columns))


_install_ops()

DEBUG_ = bool(__import__('os').environ.get('PYVC_DEBUG'))
