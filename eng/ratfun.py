"""Symbolic reals as rational functions.

RSym is a Sym whose value is kept as  P(x)/Q(x) * prod base^e  with univariate P, Q (reduced, Q monic); the bases are primitive
polynomials in x and further solver variables (the sine and cosine of x), kept factored.  Sums, products and quotients stay normalised, so that identities between
results are syntactic and comparisons become polynomial inequalities for the solver.
"""
import operator
from fractions import Fraction
import numpy as np
import z3
from . import core
from .core import Sym, SInt, SymBool, Ctx, rv

ZERO, ONE = (), (Fraction(1),)


# univariate polynomials: tuples of Fractions, lowest degree first, no trailing zeros
def norm(a):
    a = list(a)
    while a and a[-1] == 0:
        a.pop()
    return tuple(a)


def padd(a, b, s=1):
    n = max(len(a), len(b))
    return norm([(a[i] if i < len(a) else 0) + s * (b[i] if i < len(b) else 0) for i in range(n)])


def pmul(a, b):
    if not a or not b:
        return ZERO
    o = [Fraction(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                o[i + j] += x * y
    return norm(o)


def pdivmod(a, b):
    a = list(a)
    q = [Fraction(0)] * max(0, len(a) - len(b) + 1)
    for i in range(len(a) - len(b), -1, -1):
        f = a[i + len(b) - 1] / b[-1]
        q[i] = f
        if f:
            for j, y in enumerate(b):
                a[i + j] -= f * y
    return norm(q), norm(a)


def _ints(a):
    import math
    l = 1
    for c in a:
        l = l * c.denominator // math.gcd(l, c.denominator)
    v = [int(c * l) for c in a]
    g = 0
    for c in v:
        g = math.gcd(g, c)
    return [c // g for c in v] if g else v


def pgcd(a, b):
    """monic gcd (primitive remainder sequence over the integers)"""
    if not a or not b:
        r = a or b
        return tuple(c / r[-1] for c in r) if r else ONE
    a, b = _ints(a), _ints(b)
    if len(a) < len(b):
        a, b = b, a
    while b and len(b) > 1:
        # pseudo remainder
        r = list(a)
        while len(r) >= len(b):
            f, d = r[-1], len(r) - len(b)
            r = [c * b[-1] for c in r]
            for j, y in enumerate(b):
                r[d + j] -= f * y
            r.pop()
            while r and r[-1] == 0:
                r.pop()
        a, b = b, _ints([Fraction(c) for c in r]) if r else []
    if b:
        return ONE
    return tuple(Fraction(c, a[-1]) for c in a)


# multivariate: dict {(exponents of the further generators): univariate polynomial}
def mnorm(m):
    return {k: v for k, v in m.items() if v}


def mmul(a, b):
    o = {}
    for k, x in a.items():
        for l, y in b.items():
            n = max(len(k), len(l))
            e = tuple((k[i] if i < len(k) else 0) + (l[i] if i < len(l) else 0) for i in range(n))
            o[e] = padd(o.get(e, ZERO), pmul(x, y))
    return mnorm(o)


def madd(a, b):
    o = dict(a)
    for k, y in b.items():
        o[k] = padd(o.get(k, ZERO), y)
    return mnorm(o)


M1 = {(): ONE}
M0 = {}


def trim(m):
    o = {}
    for k, v in m.items():
        k = list(k)
        while k and k[-1] == 0:
            k.pop()
        k = tuple(k)
        o[k] = padd(o.get(k, ZERO), v)
    return mnorm(o)


def content(m):
    """(content, primitive part)"""
    m = trim(m)
    if not m:
        return ZERO, M1
    g = None
    for v in m.values():
        g = v if g is None else pgcd(g, v)
    g = tuple(c / g[-1] for c in g)
    k0 = sorted(m)[0]
    lead = m[k0][-1]
    return tuple(lead * c for c in g), {k: tuple(c / lead for c in pdivmod(v, g)[0]) for k, v in m.items()}


class Field(object):
    def __init__(self, name, lo, hi):
        c = Ctx.cur
        self.x = c.xs[c.var(name, lo, hi)]
        self.gens = []
        self.free_trig = False

    def gen(self, t):
        self.gens.append(t)
        k = len(self.gens) - 1
        return RSym(self, ONE, ONE, {freeze({tuple([0] * k + [1]): ONE}): 1})

    def poly(self, p):
        """sum of powers"""
        if not p:
            return rv(Fraction(0))
        ts = []
        for i, c in enumerate(p):
            if c:
                ts.append(rv(c) * self.x ** i if i > 1 else (rv(c) * self.x if i else rv(c)))
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def mterm(self, m):
        ts = []
        for k, v in m:
            t = None if v == ONE else self.poly(v)
            for g, e in zip(self.gens, k):
                for _ in range(e):
                    t = g if t is None else t * g
            ts.append(rv(Fraction(1)) if t is None else t)
        return z3.Sum(ts) if ts else rv(Fraction(0))


def freeze(m):
    return tuple(sorted(m.items()))


def expand(M):
    o = M1
    for b, e in M.items():
        for _ in range(e):
            o = trim(mmul(o, dict(b)))
    return o


class RSym(Sym):
    __slots__ = ('F', 'P', 'Q', 'M', 'absd')

    def __init__(self, F, P, Q, M, absd=False):
        Sym.__init__(self, 'f')
        Ctx.cur.nonlinear = True
        if not P:
            Q, M = ONE, M0
        else:
            g = pgcd(P, Q)
            if len(g) > 1:
                P, Q = pdivmod(P, g)[0], pdivmod(Q, g)[0]
            if Q[-1] != 1:
                P, Q = tuple(c / Q[-1] for c in P), tuple(c / Q[-1] for c in Q)
        self.F, self.P, self.Q, self.M, self.absd = F, P, Q, {b: e for b, e in M.items() if e}, absd

    def like(self, P, Q, M, absd=False):
        return RSym(self.F, P, Q, M, absd)

    @property
    def univariate(self):
        return not self.M

    def _lift2(self, o):
        if isinstance(o, RSym):
            return o.res() if o.F is self.F else None
        if isinstance(o, (int, float, np.integer, np.floating)) and not isinstance(o, bool):
            if o != o or o in (float('inf'), float('-inf')):
                return None
            v = Fraction(int(o)) if isinstance(o, (int, np.integer)) else Fraction(float(o))
            return self.like(norm([v]), ONE, M0)
        if isinstance(o, SInt):
            return self._lift2(int(o))
        if isinstance(o, Sym) and o.kind == 'f' and o.is_const():
            return self._lift2(float(o.const().real))
        return None

    def res(self):
        """resolve a pending absolute value by a case split"""
        if not self.absd:
            return self
        p = self.like(self.P, self.Q, self.M)
        return p if bool(p >= 0) else -p

    # terms
    def _t(self):
        F = self.F
        n, d = F.poly(self.P), F.poly(self.Q)
        for b, e in self.M.items():
            t = F.mterm(b)
            for _ in range(abs(e)):
                if e > 0:
                    n = n * t
                else:
                    d = d * t
        return n if self.Q == ONE and all(e > 0 for e in self.M.values()) else n / d

    @property
    def re(self):
        if self._re is None:
            self._re = self.res()._t()
        return self._re

    def is_const(self):
        # a fixed argument stays symbolic, so that its sine and cosine can be free
        return self.konst() and not self.F.free_trig

    def konst(self):
        return len(self.P) <= 1 and self.Q == ONE and self.univariate

    def exact(self):
        v = self.P[0] if self.P else Fraction(0)
        return abs(v) if self.absd else v

    def const(self):
        v = float(self.P[0]) if self.P else 0.0
        return abs(v) if self.absd else v

    # arithmetic
    def __add__(self, o):
        s = self.res()
        b = s._lift2(o)
        if b is None:
            return Sym.__add__(s.plain(), o.plain() if isinstance(o, RSym) else o)
        if not b.P:
            return s
        if not s.P:
            return b
        g = pgcd(s.Q, b.Q)
        qa, qb = pdivmod(s.Q, g)[0], pdivmod(b.Q, g)[0]
        pa, pb, Q = pmul(s.P, qb), pmul(b.P, qa), pmul(s.Q, qb)
        if s.M == b.M:
            return s.like(padd(pa, pb), Q, s.M)
        G = {k: min(s.M.get(k, 0), b.M.get(k, 0)) for k in set(s.M) | set(b.M)}
        ma = expand({k: s.M.get(k, 0) - G[k] for k in G})
        mb = expand({k: b.M.get(k, 0) - G[k] for k in G})
        c, m = content(madd(mmul({(): pa}, ma), mmul({(): pb}, mb)))
        if c and m != M1:
            f = freeze(m)
            G[f] = G.get(f, 0) + 1
        return s.like(c, Q, G)

    def plain(self):
        return Sym('f', None, self.re)

    def __neg__(self):
        s = self.res()
        return s.like(tuple(-c for c in s.P), s.Q, s.M)

    def __pos__(self):
        return self

    def __radd__(self, o):
        return self + o

    def __sub__(self, o):
        if isinstance(o, RSym):
            return self + (-o)
        b = self._lift2(o)
        return self + (-b) if b is not None else Sym.__sub__(self.plain(), o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        s = self.res()
        b = s._lift2(o)
        if b is None:
            return Sym.__mul__(s.plain(), o.plain() if isinstance(o, RSym) else o)
        if not s.P or not b.P:
            return s.like(ZERO, ONE, M0)
        M = {k: s.M.get(k, 0) + b.M.get(k, 0) for k in set(s.M) | set(b.M)}
        g, k = pgcd(s.P, b.Q), pgcd(b.P, s.Q)
        return s.like(pmul(pdivmod(s.P, g)[0], pdivmod(b.P, k)[0]), pmul(pdivmod(s.Q, k)[0], pdivmod(b.Q, g)[0]), M)

    def __rmul__(self, o):
        return self * o

    def inv(self):
        return self.like(self.Q, self.P, {k: -e for k, e in self.M.items()})

    def __truediv__(self, o):
        s = self.res()
        b = s._lift2(o)
        if b is None:
            return Sym.__truediv__(s.plain(), o.plain() if isinstance(o, RSym) else o)
        if b.konst():
            if not b.P:
                return core._div_zero(s.plain(), 'f')
        elif bool(b == 0):
            return core._div_zero(s.plain(), 'f')
        return s * b.inv()

    def __rtruediv__(self, o):
        b = self._lift2(o)
        if b is None:
            return Sym.__truediv__(Sym._lift(o), self.plain())
        return b / self
    __div__ = __truediv__
    __rdiv__ = __rtruediv__

    def __abs__(self):
        return self.like(self.P, self.Q, self.M, True)

    def conjugate(self):
        return self

    # comparisons: denominators are nonzero on this path
    def _sign(self, op):
        """self op 0"""
        F = self.F
        t = F.poly(pmul(self.P, self.Q))
        even = []
        for b, e in self.M.items():
            if e % 2:
                t = t * F.mterm(b)
            elif e > 0:
                even.append(F.mterm(b) == 0)
        r = op(t, 0)
        if not even:
            return SymBool(r)
        return SymBool(z3.Or(r, *even) if op(0, 0) else z3.And(r, z3.Not(z3.Or(*even))))

    def _zero(self):
        t = [self.F.poly(self.P) == 0] if len(self.P) > 1 else []
        t += [self.F.mterm(b) == 0 for b, e in self.M.items() if e > 0]
        return z3.Or(*t) if len(t) != 1 else t[0]

    def _cmp(self, o, op):
        if isinstance(o, (float, np.floating)) and (o != o or o in (float('inf'), float('-inf'))):
            return op(0.0, float(o))
        if self.absd or (isinstance(o, RSym) and o.absd):
            a, b = self, self._lift2(o) if not isinstance(o, RSym) else o
            if b is not None and b.F is a.F and all(v.absd or (v.konst() and v.exact() >= 0) for v in (a, b)):
                a, b = a.like(a.P, a.Q, a.M), a.like(b.P, b.Q, b.M)
                if a.univariate and b.univariate and op in (operator.gt, operator.ge, operator.lt, operator.le):
                    if op in (operator.lt, operator.le):
                        a, b = b, a             # |a| > |b|
                        o2 = operator.gt if op is operator.lt else operator.ge
                    else:
                        o2 = op
                    # |a| > |b|  <=>  (a - b)(a + b) > 0
                    u, v = a - b, a + b
                    iu, iv = (core.as_bool_term(w._cmp(0, o2)) for w in (u, v))
                    nu, nv = (core.as_bool_term((-w)._cmp(0, o2)) for w in (u, v))
                    return SymBool(z3.simplify(z3.Or(z3.And(iu, iv), z3.And(nu, nv))))
                return (a * a)._cmp(b * b, op)
        s = self.res()
        b = s._lift2(o)
        if b is None:
            return Sym._cmp(s.plain(), o.plain() if isinstance(o, RSym) else o, op)
        d = s - b
        if d.konst():
            return op(d.exact(), 0)
        return d._sign(op)

    def __eq__(self, o):
        s = self.res()
        b = s._lift2(o)
        if b is None:
            return Sym.__eq__(s.plain(), o.plain() if isinstance(o, RSym) else o)
        d = s - b
        if d.konst():
            return d.exact() == 0
        return SymBool(d._zero())

    def __ne__(self, o):
        e = self.__eq__(o)
        return ~e if isinstance(e, SymBool) else not e

    __hash__ = object.__hash__

    def __bool__(self):
        return bool(self != 0)


def var(name, lo, hi):
    F = Field(name, lo, hi)
    Ctx.cur.flags['ratfun'] = True
    return RSym(F, (Fraction(0), Fraction(1)), ONE, M0)


def trig(name, x):
    """sine or cosine of a rational function: further generators with s^2 + c^2 = 1"""
    F = x.F
    c = Ctx.cur
    lead = x.P[-1] if x.P else Fraction(1)
    if lead < 0:
        r = trig(name, -x)
        return -r if name == 'sin' else r
    key = ('rtrig', id(F), x.P, x.Q, str(x.M))
    if key not in c.memo:
        s, k = c.fresh_real('sin'), c.fresh_real('cos')
        c.add(s * s + k * k == 1)
        c.memo[key] = (F.gen(s), F.gen(k))
        c.keep.append(F)
    return c.memo[key][0 if name == 'sin' else 1]
