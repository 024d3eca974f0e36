"""Path exploration and symbolic scalars.

Sym   real or complex number: an affine form over the solver's real variables, or a pair of SMT terms
SInt  integer SMT term
SymBool  boolean SMT term; using it as a condition forks the execution
FPv   IEEE double (real or complex pair) in the SMT floating-point theory
"""
import sys
if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numbers
import time
import operator
from fractions import Fraction
import numpy as np
import z3
if hasattr(sys, "set_int_max_str_digits"):
    sys.set_int_max_str_digits(0)


class Unsupported(Exception):
    """the engine cannot encode an operation"""


class Inconclusive(Exception):
    """solver gave up / too many paths"""


class Stop(BaseException):
    """end the path early (raised by harness hooks)"""


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.forks = 0
        self.max_terms = 0
        self.assumptions = set()
        self.verdicts = {'unsat': 0, 'sat': 0, 'unknown': 0}

    def merge(self, o):
        self.queries += o.queries
        self.solver_s += o.solver_s
        self.paths += o.paths
        self.forks += o.forks
        self.max_terms = max(self.max_terms, o.max_terms)
        self.assumptions |= o.assumptions
        for k in o.verdicts:
            self.verdicts[k] += o.verdicts[k]


STATS = Stats()

# ---------------------------------------------------------------------------------------------- context


_tv = {}


def term_vars(e):
    """ids of the uninterpreted constants and functions of a term"""
    k = e.get_id()
    r = _tv.get(k)
    if r is not None:
        return r[1]
    out = set()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        h = _tv.get(i)
        if h is not None:
            out |= h[1]
            continue
        if x.num_args() == 0:
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(i)
        else:
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().get_id())
            st.extend(x.children())
    if len(_tv) > 20000:
        _tv.clear()
    _tv[k] = (e, frozenset(out))
    return _tv[k][1]


_unsat_cache = set()        # questions (up to renaming of their variables) the solver answered with unsat


def alpha_key(terms):
    """text of the conjunction with its constants renamed in order of appearance"""
    ren, uniq = {}, {}
    out = []

    def walk(e):
        i = e.get_id()
        if i in uniq:
            return uniq[i]
        if e.num_args() == 0:
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                r = ren.setdefault(i, 'v%d:%s' % (len(ren), e.sort()))
            else:
                r = e.sexpr()
        else:
            d = e.decl()
            r = '(%s %s %s)' % (d.name() if d.kind() != z3.Z3_OP_UNINTERPRETED else d.sexpr(), d.params() if d.params() else '',
                                ' '.join(walk(x) for x in e.children()))
        if len(r) > 60:
            t = '#%d' % len(out)
            q = known.get(r)
            if q is None:
                known[r] = t
                out.append(r)
                q = t
            r = q
        uniq[i] = r
        return r
    known = {}
    top = [walk(e) for e in terms]
    return '|'.join(out) + '||' + '|'.join(top)


class Ctx(object):
    """one execution (path) of the program under a decision prefix"""
    cur = None

    def __init__(self, prefix=(), timeout_ms=20000, box=None):
        self.prefix = list(prefix)
        self.taken = []            # decisions made so far: (bool)
        self.pending = []          # alternative prefixes discovered
        self.conds = []            # path condition + definitional constraints
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.timeout_ms = timeout_ms
        self.nvar = 0
        self.ints = []             # z3 Int inputs
        self.xs = []               # z3 Real variables, affine index j <-> column j+1
        self.names = []
        self.lo = []
        self.hi = []
        self.memo = {}
        self.sqrts = set()
        self._lin = None
        self.model_solver = None
        self.fresh_n = 0
        self.tokens = {}           # text token -> value
        self.magic = {}
        self.fs = {}               # virtual files
        self.out = []              # printed text
        self.calls = []            # recorded external calls (plots)
        self.hooks = {}
        self.flags = {}
        self.keep = []
        self.nonlinear = False
        self.forked = False
        self.has_fp = False
        self.fp_bound = {}         # id of an IEEE variable -> bound of its magnitude (also a path condition)
        self.fp_nz = set()         # ids of IEEE variables that the path condition makes nonzero
        self.pinned = None

    # -------------------------------------------------------------- variables
    def var(self, name, lo=None, hi=None):
        j = self.nvar
        self.nvar += 1
        x = z3.Real(name)
        self.xs.append(x)
        self.names.append(name)
        self.lo.append(lo)
        self.hi.append(hi)
        if lo is not None:
            self.add(x >= lo)
        if hi is not None:
            self.add(x <= hi)
        return j

    def add(self, *cs):
        for c in cs:
            self.conds.append(c)
            self.solver.add(c)

    def fresh_real(self, tag='t'):
        self.fresh_n += 1
        return z3.Real('%s!%d' % (tag, self.fresh_n))

    def fresh_int(self, tag='k'):
        self.fresh_n += 1
        return z3.Int('%s!%d' % (tag, self.fresh_n))

    # -------------------------------------------------------------- solver
    def check(self, *extra):
        t = time.time()
        self.pinned = None
        if self.has_fp:
            r = self._check_slice(extra)
        elif self.flags.get('ratfun'):
            r = self._check_rat(extra)
        elif self.nonlinear and self._lin_unsat(extra):
            r = z3.unsat
        else:
            r = self.solver.check(*extra)
        STATS.queries += 1
        STATS.solver_s += time.time() - t
        STATS.verdicts[str(r)] += 1
        return r

    # linear relaxation: every nonlinear monomial becomes a free variable; unsat there is unsat
    def _abstract(self, t):
        key = t.get_id()
        r = self._abs.get(key)
        if r is not None:
            return r
        if z3.is_app(t) and t.num_args():
            k = t.decl().kind()
            if k in (z3.Z3_OP_DIV, z3.Z3_OP_POWER) or \
                    k == z3.Z3_OP_MUL and sum(0 if z3.is_rational_value(a) else 1 for a in t.children()) > 1:
                if k == z3.Z3_OP_MUL and z3.is_rational_value(t.arg(0)):
                    rest = t.children()[1:]
                    p = rest[0]
                    for a in rest[1:]:
                        p = p * a
                    p = z3.simplify(p)
                    r = t.arg(0) * (self._abstract(p) if p.get_id() != key else z3.Real('mono!%d' % key))
                else:
                    r = z3.Real('mono!%d' % key)
            else:
                r = t.decl()(*[self._abstract(a) for a in t.children()]) if k not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL) \
                    else {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_ADD: z3.Sum, z3.Z3_OP_MUL: z3.Product}[k](
                        [self._abstract(a) for a in t.children()])
        else:
            r = t
        self._abs[key] = r
        self.keep.append(t)
        return r

    def _lin_unsat(self, extra):
        if self._lin is None:
            self._abs = {}
            self._lin = z3.SolverFor('QF_LRA')
            self._lin.set('timeout', 2000)
            self._lin_n = 0
        try:
            while self._lin_n < len(self.conds):
                self._lin.add(self._abstract(z3.simplify(self.conds[self._lin_n], som=True)))
                self._lin_n += 1
            return self._lin.check(*[self._abstract(z3.simplify(e, som=True)) for e in extra]) == z3.unsat
        except z3.Z3Exception:
            return False

    def _check_rat(self, extra):
        """polynomial queries: nlsat, first on the conditions over the same variables only"""
        vs = set()
        for e in extra:
            vs |= term_vars(e)
        near = [k for k in self.conds if term_vars(k) <= vs]
        self.model_solver = None
        r = z3.unknown
        for cs in ([near, self.conds] if extra and len(near) < len(self.conds) else [self.conds]):
            s = z3.Tactic('qfnra-nlsat').solver()
            s.set('timeout', self.flags.get('branch_ms') or self.timeout_ms)
            s.add(*cs)
            s.add(*extra)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.unsat:
                return r
            if self.flags.get('slice_ok') and extra:
                return r
            self.model_solver = s
        return r

    def _check_slice(self, extra):
        """floating point: only the conditions that share variables (transitively) with the question.  The other conditions are
        satisfiable (they hold on this path) and independent, so the answer is the same."""
        todo = list(extra) if extra else list(self.conds)
        if not extra:
            return self.solver.check()
        vs = set()
        for e in todo:
            vs |= term_vars(e)
        rest = [(k, term_vars(k)) for k in self.conds]
        use = []
        while True:
            hit = [p for p in rest if p[1] & vs or not p[1]]
            if not hit:
                break
            rest = [p for p in rest if not (p[1] & vs or not p[1])]
            for k, w in hit:
                use.append(k)
                vs |= w
        key = alpha_key(use + list(extra))
        if key in _unsat_cache:
            return z3.unsat
        s = z3.Solver()
        s.set('timeout', self.timeout_ms)
        s.add(*use)
        s.add(*extra)
        r = s.check()
        if r == z3.unsat:
            _unsat_cache.add(key)
        if r == z3.sat:
            m = s.model()
            self.pinned = list(extra) + [d() == m[d] for d in m.decls() if d.arity() == 0]
        return r

    def full_model(self):
        """a model of the last satisfiable question"""
        if self.flags.get('ratfun') and self.model_solver is not None:
            return self.model_solver.model()
        if self.pinned is None:
            return self.solver.model()
        if self.solver.check(*self.pinned) != z3.sat:
            raise Inconclusive('no full model')
        return self.solver.model()

    def branch(self, cond):
        if isinstance(cond, (bool, np.bool_)):
            return bool(cond)
        c = z3.simplify(cond)
        fx = self.flags.get('fixed')
        if fx:
            c = z3.simplify(z3.substitute(c, *fx))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = len(self.taken)
        fresh = False
        if k < len(self.prefix):
            d = self.prefix[k]
            fresh = k == len(self.prefix) - 1
        else:
            ms = self.flags.get('branch_ms') if self.nonlinear and not self.has_fp else None
            if ms:
                self.solver.set('timeout', ms)
            self.flags['slice_ok'] = True
            t = self.check(c)
            f = self.check(z3.Not(c)) if t != z3.unsat else None
            self.flags['slice_ok'] = False
            if ms:
                self.solver.set('timeout', self.timeout_ms)
            if t == z3.unsat:
                d = False
                # record as forced decision: no alternative
                self.taken.append(d)
                self.prefix.append(d)
                self.add(z3.Not(c))
                return d
            d = True
            if f != z3.unsat:
                self.pending.append(self.taken + [False])
                STATS.forks += 1
                self.forked = True
                fresh = True
            self.prefix.append(d)
        self.taken.append(d)
        self.forked = self.forked or False
        self.add(c if d else z3.Not(c))
        if fresh and self.flags.get('unique') and not fx:
            self._unique()
        return d

    def _unique(self):
        """when the path condition leaves one value for every integer input, the rest of the path is concrete
        (only a path without further forks can be in this state, so that a replayed prefix stays valid)"""
        if not self.ints or self.check() != z3.sat:
            return
        m = self.full_model()
        vs = [(x, m.eval(x, model_completion=True)) for x in self.ints]
        if self.check(z3.Or([x != v for x, v in vs])) == z3.unsat:
            self.flags['fixed'] = vs

    def concretize(self, e, limit=200):
        """fork over the feasible values of an integer term"""
        e = z3.simplify(e)
        if self.flags.get('fixed'):
            e = z3.simplify(z3.substitute(e, *self.flags['fixed']))
        if z3.is_int_value(e):
            return e.as_long()
        for _ in range(limit):
            k = len(self.taken)
            if k < len(self.prefix):
                d = self.prefix[k]
                if isinstance(d, tuple):
                    # ('v', value, taken?)
                    v = d[1]
                    if d[2]:
                        self.taken.append(d)
                        self.add(e == v)
                        if k == len(self.prefix) - 1 and self.flags.get('unique'):
                            self._unique()
                        return v
                    self.taken.append(d)
                    self.add(e != v)
                    continue
                raise Inconclusive('decision mismatch')
            r = self.check()
            if r != z3.sat:
                raise Inconclusive('concretize: %s' % r)
            v = self.full_model().eval(e, model_completion=True).as_long()
            if self.check(e != v) != z3.unsat:
                self.pending.append(self.taken + [('v', v, False)])
                STATS.forks += 1
                self.forked = True
            d = ('v', v, True)
            self.prefix.append(d)
            self.taken.append(d)
            self.add(e == v)
            if self.flags.get('unique') and not self.flags.get('fixed'):
                self._unique()
            return v
        raise Inconclusive('too many values to concretize')

    # -------------------------------------------------------------- functions with definitional constraints
    def ratio(self, n, d):
        """n / d of real terms, d != 0 on this path; quotients of magnitudes get a variable of their own"""
        n, d = z3.simplify(n), z3.simplify(d)
        if z3.is_rational_value(n) or z3.is_rational_value(d):
            return n / d
        cn, n1 = split_factor(n)
        cd, d1 = split_factor(d)
        if not (self.is_sqrt(n1) and self.is_sqrt(d1)):
            return n / d
        if cn != 1 or cd != 1:
            return rv(cn / cd) * self.ratio(n1, d1)
        key = ('ratio', n.get_id(), d.get_id())
        if key not in self.memo:
            q = self.fresh_real('ratio')
            self.add(q >= 0, q * d == n)
            self.keep += [n, d]
            self.memo[key] = q
        return self.memo[key]

    def is_sqrt(self, t):
        return t.get_id() in self.sqrts

    def sqrt_term(self, t):
        t = z3.simplify(t, som=True)
        c, t, key = square_content(t)
        if c != 1:
            return rv(c) * self.sqrt_term(t)
        key = ('sqrt', key)
        if key in self.memo:
            return self.memo[key]
        if z3.is_rational_value(t):
            v = Fraction(t.numerator_as_long(), t.denominator_as_long())
            if v == 0:
                return z3.RealVal(0)
            import math
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return rv(Fraction(n, d))
        s = self.fresh_real('sqrt')
        self.add(s >= 0, s * s == t)
        self.keep += [t, s]
        self.sqrts.add(s.get_id())
        self.memo[key] = s
        self.nonlinear = True
        return s


def split_factor(t):
    if z3.is_mul(t) and t.num_args() == 2 and z3.is_rational_value(t.arg(0)):
        a = t.arg(0)
        return Fraction(a.numerator_as_long(), a.denominator_as_long()), t.arg(1)
    return Fraction(1), t


def _factors(t, out):
    """(coefficient, names of the factors) of a monomial"""
    c = Fraction(1)
    for a in (t.children() if z3.is_mul(t) else [t]):
        if z3.is_rational_value(a):
            c *= Fraction(a.numerator_as_long(), a.denominator_as_long())
        elif z3.is_mul(a):
            c *= _factors(a, out)
        else:
            out.append(a.sexpr())
    return c


def monomials(t):
    """{sorted factors: coefficient} of a polynomial in sum-of-monomials form"""
    out = {}
    for m in (t.children() if z3.is_add(t) else [t]):
        f = []
        v = _factors(m, f)
        k = tuple(sorted(f))
        out[k] = out.get(k, Fraction(0)) + v
    return out


def square_content(t):
    """(c, p, key of p) with t = c^2 * p where c^2 is the coefficient of the first square in t; c = 1 if that is no rational square"""
    import math
    ms = monomials(t)
    v = Fraction(1)
    for k in sorted(ms):
        if ms[k] > 0 and len(k) == 2 and k[0] == k[1]:
            n, d = math.isqrt(ms[k].numerator), math.isqrt(ms[k].denominator)
            if n * n == ms[k].numerator and d * d == ms[k].denominator:
                v = ms[k]
                c = Fraction(n, d)
            break
    key = tuple((k, ms[k] / v) for k in sorted(ms))
    if v == 1:
        return Fraction(1), t, key
    return c, z3.simplify(t / rv(v), som=True), key


def ctx():
    return Ctx.cur


def explore(fn, max_paths=2000, timeout_ms=20000, setup=None):
    """run fn(ctx) on every feasible path; yields (ctx, result)"""
    work = [[]]
    n = 0
    while work:
        prefix = work.pop()
        c = Ctx(prefix, timeout_ms)
        old = Ctx.cur
        Ctx.cur = c
        try:
            res = fn(c)
        finally:
            Ctx.cur = old
        n += 1
        STATS.paths += 1
        work.extend(c.pending)
        Ctx.cur = c
        try:
            yield c, res
        finally:
            Ctx.cur = old
        if n > max_paths:
            raise Inconclusive('more than %d paths' % max_paths)


# ---------------------------------------------------------------------------------------------- helpers

def rv(v):
    """exact rational constant"""
    if isinstance(v, Fraction):
        return z3.Q(v.numerator, v.denominator)
    if isinstance(v, (int, np.integer)):
        return z3.RealVal(int(v))
    v = float(v)
    if v != v or v in (float('inf'), float('-inf')):
        raise Unsupported('non-finite constant %r combined with a symbolic value' % v)
    if v == int(v) and abs(v) < 1e15:
        return z3.RealVal(int(v))
    f = Fraction(v)
    return z3.Q(f.numerator, f.denominator)


def is_const(x):
    return isinstance(x, (int, float, complex, np.number, np.bool_, bool))


class SymBool(object):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return Ctx.cur.branch(self.e)

    def _o(o):
        if isinstance(o, SymBool):
            return o.e
        if isinstance(o, (bool, np.bool_)):
            return z3.BoolVal(bool(o))
        return None
    _o = staticmethod(_o)

    def __and__(self, o):
        o = SymBool._o(o)
        return NotImplemented if o is None else SymBool(z3.And(self.e, o))
    __rand__ = __and__

    def __or__(self, o):
        o = SymBool._o(o)
        return NotImplemented if o is None else SymBool(z3.Or(self.e, o))
    __ror__ = __or__

    def __xor__(self, o):
        o = SymBool._o(o)
        return NotImplemented if o is None else SymBool(z3.Xor(self.e, o))
    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __eq__(self, o):
        p = SymBool._o(o)
        if p is None:
            return self._num() == o
        return SymBool(self.e == p)

    def __ne__(self, o):
        p = SymBool._o(o)
        if p is None:
            return self._num() != o
        return SymBool(self.e != p)

    __hash__ = None

    def _num(self):
        return SInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._num() + (o._num() if isinstance(o, SymBool) else o)
    __radd__ = __add__

    def __sub__(self, o):
        return self._num() - (o._num() if isinstance(o, SymBool) else o)

    def __rsub__(self, o):
        return o - self._num()

    def __mul__(self, o):
        return self._num() * (o._num() if isinstance(o, SymBool) else o)
    __rmul__ = __mul__

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __repr__(self):
        return 'SymBool(%s)' % (self.e,)

    def any(self, *a, **k):
        return self
    all = any

    def item(self):
        return self

    @property
    def dtype(self):
        return np.dtype(bool)

    shape = ()
    ndim = 0

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        from . import sarray
        return sarray.ufunc(uf, method, inputs, kw)


def as_bool_term(b):
    if isinstance(b, SymBool):
        return b.e
    if isinstance(b, (Sym, SInt)):
        return (b != 0).e
    return z3.BoolVal(bool(b))


# ---------------------------------------------------------------------------------------------- Sym

def _pad(a, n):
    if a.shape[0] == n:
        return a
    r = np.zeros(n, dtype=a.dtype)
    r[:a.shape[0]] = a
    return r


def _both(a, b):
    n = max(a.shape[0], b.shape[0])
    return _pad(a, n), _pad(b, n)


class Sym(object):
    """symbolic number. kind: 'f' real, 'c' complex"""
    __slots__ = ('kind', 'aff', '_re', '_im', 'quot')
    __array_priority__ = 1000

    def __init__(self, kind, aff=None, re=None, im=None):
        self.kind = kind
        self.aff = aff
        self._re = re
        self._im = im
        self.quot = None

    # -------------------------------------------------------------- constructors
    @staticmethod
    def real_var(name, lo=None, hi=None):
        c = Ctx.cur
        j = c.var(name, lo, hi)
        a = np.zeros(c.nvar + 1, dtype=np.complex128)
        a[j + 1] = 1.0
        return Sym('f', a)

    @staticmethod
    def complex_var(name, lo=None, hi=None):
        c = Ctx.cur
        j = c.var(name + '.re', lo, hi)
        k = c.var(name + '.im', lo, hi)
        a = np.zeros(c.nvar + 1, dtype=np.complex128)
        a[j + 1] = 1.0
        a[k + 1] = 1.0j
        return Sym('c', a)

    @staticmethod
    def of(v):
        """lift a constant"""
        if isinstance(v, Sym):
            return v
        if isinstance(v, SInt):
            return Sym('f', None, z3.ToReal(v.e), None)
        if isinstance(v, SymBool):
            return Sym.of(v._num())
        if isinstance(v, (complex, np.complexfloating)):
            return Sym('c', np.array([complex(v)]))
        if isinstance(v, (int, np.integer)) and not -2**53 <= int(v) <= 2**53:
            return Sym('f', None, z3.RealVal(int(v)), None)
        return Sym('f', np.array([complex(float(v))]))

    # -------------------------------------------------------------- terms
    @property
    def re(self):
        if self._re is None:
            self._re = aff_term(self.aff.real)
        return self._re

    @property
    def im(self):
        if self._im is None:
            if self.kind == 'f':
                self._im = z3.RealVal(0)
            else:
                self._im = aff_term(self.aff.imag)
        return self._im

    def is_const(self):
        return self.aff is not None and not np.any(self.aff[1:])

    def const(self):
        v = complex(self.aff[0])
        return np.complex128(v) if self.kind == 'c' else np.float64(v.real)

    # -------------------------------------------------------------- numpy-scalar look
    @property
    def real(self):
        if self.kind == 'f':
            return self
        if self.aff is not None:
            return mk('f', self.aff.real.astype(np.complex128))
        return Sym('f', None, self.re)

    @property
    def imag(self):
        if self.kind == 'f':
            return np.float64(0.0)
        if self.aff is not None:
            return mk('f', self.aff.imag.astype(np.complex128))
        return Sym('f', None, self.im)

    def conjugate(self):
        if self.kind == 'f':
            return self
        if self.aff is not None:
            return mk('c', np.conj(self.aff))
        return Sym('c', None, self.re, -self.im)
    conj = conjugate

    shape = ()
    ndim = 0
    size = 1
    T = property(lambda self: self)

    @property
    def dtype(self):
        return np.dtype(np.complex128 if self.kind == 'c' else np.float64)

    def item(self, *a):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def astype(self, dt, *a, **k):
        from . import sarray
        return sarray.cast_scalar(self, np.dtype(sarray.undt(dt)))

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        from . import sarray
        if hasattr(np.float64, name):
            return getattr(sarray.from_obj(self), name)
        raise AttributeError(name)

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        from . import sarray
        return sarray.ufunc(uf, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import shim
        return shim.call_np(func, args, kwargs)

    # -------------------------------------------------------------- arithmetic
    def _lift(o):
        if isinstance(o, Sym):
            return o
        if isinstance(o, (SInt, SymBool, int, float, complex, np.number, np.bool_)):
            return Sym.of(o)
        return None
    _lift = staticmethod(_lift)

    def __add__(self, o):
        o = Sym._lift(o)
        if o is None:
            return NotImplemented
        k = 'c' if 'c' in (self.kind, o.kind) else 'f'
        if self.aff is not None and o.aff is not None:
            a, b = _both(self.aff, o.aff)
            return mk(k, a + b)
        return Sym(k, None, self.re + o.re, None if k == 'f' else self.im + o.im)

    def __radd__(self, o):
        o = Sym._lift(o)
        return NotImplemented if o is None else o + self

    def __sub__(self, o):
        o = Sym._lift(o)
        if o is None:
            return NotImplemented
        k = 'c' if 'c' in (self.kind, o.kind) else 'f'
        if self.aff is not None and o.aff is not None:
            a, b = _both(self.aff, o.aff)
            return mk(k, a - b)
        return Sym(k, None, self.re - o.re, None if k == 'f' else self.im - o.im)

    def __rsub__(self, o):
        o = Sym._lift(o)
        return NotImplemented if o is None else o - self

    def __neg__(self):
        if self.aff is not None:
            return mk(self.kind, -self.aff)
        return Sym(self.kind, None, -self.re, None if self.kind == 'f' else -self.im)

    def __pos__(self):
        return self

    def __mul__(self, o):
        o = Sym._lift(o)
        if o is None:
            return NotImplemented
        k = 'c' if 'c' in (self.kind, o.kind) else 'f'
        if self.aff is not None and o.aff is not None:
            if o.is_const():
                return mk(k, self.aff * o.aff[0])
            if self.is_const():
                return mk(k, self.aff[0] * o.aff)
        Ctx.cur.nonlinear = True
        if k == 'f':
            return Sym('f', None, self.re * o.re)
        if self.kind == 'f':
            return Sym('c', None, self.re * o.re, self.re * o.im)
        if o.kind == 'f':
            return Sym('c', None, self.re * o.re, self.im * o.re)
        return Sym('c', None, self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

    def __rmul__(self, o):
        o = Sym._lift(o)
        return NotImplemented if o is None else o * self

    def __truediv__(self, o):
        o = Sym._lift(o)
        if o is None:
            return NotImplemented
        k = 'c' if 'c' in (self.kind, o.kind) else 'f'
        if o.is_const():
            c = o.aff[0]
            if c == 0:
                return _div_zero(self, k)
            if self.aff is not None:
                return mk(k, self.aff / c)
            return self * Sym.of(1.0 / c if o.kind == 'c' else Fraction1(c.real))
        Ctx.cur.nonlinear = True
        zero = z3.And(o.re == 0, o.im == 0) if o.kind == 'c' else o.re == 0
        if Ctx.cur.branch(zero):
            return _div_zero(self, k)
        if o.kind == 'f':
            if k == 'f':
                return Sym('f', None, Ctx.cur.ratio(self.re, o.re))
            return Sym('c', None, self.re / o.re, self.im / o.re)
        d = o.re * o.re + o.im * o.im
        n = self * o.conjugate()
        r = Sym('c', None, n.re / d, n.im / d)
        r.quot = (self, o)              # o != 0 on this path
        return r

    def __rtruediv__(self, o):
        o = Sym._lift(o)
        return NotImplemented if o is None else o / self
    __div__ = __truediv__
    __rdiv__ = __rtruediv__

    def __floordiv__(self, o):
        q = self / o
        if isinstance(q, Sym):
            return floor(q)
        return np.floor(q)

    def __rfloordiv__(self, o):
        return floor(Sym.of(o) / self)

    def __mod__(self, o):
        return self - floor_any(self / o) * o

    def __rmod__(self, o):
        return Sym.of(o) % self

    def __pow__(self, o, mod=None):
        if isinstance(o, Sym) and o.is_const():
            o = o.const()
        if isinstance(o, SInt):
            o = int(o)
        if isinstance(o, (complex, np.complexfloating)) and o.imag == 0:
            o = float(o.real)
        if not isinstance(o, (int, float, np.number)):
            raise Unsupported('power with a symbolic exponent')
        if o == int(o):
            n = int(o)
            if n == 0:
                return Sym.of(1.0) if self.kind == 'f' else Sym.of(1.0 + 0j)
            r = None
            p = self
            m = abs(n)
            while m:
                if m & 1:
                    r = p if r is None else r * p
                m >>= 1
                if m:
                    p = p * p
            return r if n > 0 else 1.0 / r
        if o == 0.5:
            return sqrt(self)
        if o == -0.5:
            return 1.0 / sqrt(self)
        raise Unsupported('power %r of a symbolic value' % (o,))

    def __rpow__(self, o):
        if self.is_const():
            return o ** self.const()
        raise Unsupported('power with a symbolic exponent')

    def __abs__(self):
        if self.is_const():
            return Sym.of(abs(complex(self.aff[0])))
        if self.kind == 'f':
            t = self.re
            s = Sym('f', None, z3.If(t >= 0, t, -t))
            return s
        if self.quot is not None:
            n, d = self.quot            # |n/d| = |n|/|d|
            return Sym('f', None, Ctx.cur.ratio(abs(n).re, abs(d).re))
        return Sym('f', None, Ctx.cur.sqrt_term(self.re * self.re + self.im * self.im))

    # -------------------------------------------------------------- comparison
    def __eq__(self, o):
        o = Sym._lift(o)
        if o is None:
            return NotImplemented
        r = _near_const_cmp(self, o)
        return SymBool(z3.And(self.re == o.re, self.im == o.im) if 'c' in (self.kind, o.kind) else self.re == o.re) if r is None else r

    def __ne__(self, o):
        e = self.__eq__(o)
        if e is NotImplemented:
            return e
        return ~e if isinstance(e, SymBool) else not e

    def _cmp(self, o, op):
        o2 = Sym._lift(o)
        if o2 is None:
            return NotImplemented
        if isinstance(o, (float, np.floating)) and (o != o or o in (float('inf'), float('-inf'))):
            return op(0.0, float(o))
        return SymBool(op(self.re, o2.re))

    def __lt__(self, o):
        return self._cmp(o, operator.lt)

    def __le__(self, o):
        return self._cmp(o, operator.le)

    def __gt__(self, o):
        return self._cmp(o, operator.gt)

    def __ge__(self, o):
        return self._cmp(o, operator.ge)

    def __bool__(self):
        return bool(self != 0)

    __hash__ = object.__hash__

    # -------------------------------------------------------------- conversions
    def __float__(self):
        if self.is_const():
            return float(self.aff[0].real)
        return magic(self)

    def __complex__(self):
        if self.is_const():
            return complex(self.aff[0])
        raise Unsupported('complex() of a symbolic value')

    def __int__(self):
        if self.is_const():
            return int(self.aff[0].real)
        return int(trunc(self))

    def __round__(self, n=None):
        raise Unsupported('round() of a symbolic value')

    def __trunc__(self):
        return trunc(self)

    def __format__(self, spec):
        return token(self, spec)

    def __repr__(self):
        return token(self, 'r')

    def __str__(self):
        return token(self, 's')


numbers.Complex.register(Sym)


def Fraction1(c):
    """1/c as a symbolic constant that is exact"""
    return Sym('f', None, rv(Fraction(1) / Fraction(float(c))))


def mk(kind, aff):
    return Sym(kind, aff)


def _near_const_cmp(a, b):
    return None


def _div_zero(num, kind):
    """numpy: x/0 -> inf or nan"""
    nz = SymBool(z3.Or(num.re != 0, num.im != 0))
    if kind == 'f':
        if bool(nz):
            return np.float64('inf') if bool(SymBool(num.re > 0)) else np.float64('-inf')
        return np.float64('nan')
    return np.complex128(complex(float('nan'), float('nan')))


def aff_term(a):
    """z3 term of a real affine vector"""
    c = Ctx.cur
    nz = np.nonzero(a[1:])[0]
    terms = []
    for j in nz:
        v = float(a[j + 1])
        x = c.xs[j]
        terms.append(x if v == 1.0 else rv(v) * x)
    if a[0] != 0 or not terms:
        terms.append(rv(a[0]))
    return terms[0] if len(terms) == 1 else z3.Sum(terms)


def sqrt(x):
    if isinstance(x, SInt):
        x = Sym.of(x)
    if not isinstance(x, Sym):
        return np.sqrt(x)
    if x.is_const():
        return np.sqrt(x.const())
    if x.kind == 'c':
        raise Unsupported('sqrt of a symbolic complex value')
    if not bool(SymBool(x.re >= 0)):
        return np.float64('nan')
    return Sym('f', None, Ctx.cur.sqrt_term(x.re))


def floor(x):
    """returns a real Sym with integer value"""
    return Sym('f', None, z3.ToReal(z3.ToInt(x.re)))


def floor_any(x):
    return floor(x) if isinstance(x, Sym) else (Sym.of(x) if isinstance(x, SInt) else np.floor(x))


def ceil(x):
    return Sym('f', None, -z3.ToReal(z3.ToInt(-x.re)))


def trunc(x):
    if isinstance(x, SInt):
        return x
    t = x.re
    return SInt(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))


def trig(name, x):
    """uninterpreted sin/cos/exp of a symbolic real"""
    c = Ctx.cur
    if x.is_const() and not (hasattr(x, 'absd') and x.F.free_trig):
        return getattr(np, name)(x.const())
    if hasattr(x, 'absd') and name in ('sin', 'cos'):
        from . import ratfun
        return ratfun.trig(name, x.res())
    if isinstance(x, SInt):
        x = x + 0.0
    if x.kind != 'f' or name not in ('sin', 'cos'):
        raise Unsupported('%s of a symbolic value' % name)
    key = ('trig', z3.simplify(x.re).get_id())
    if key not in c.memo:
        s, k = c.fresh_real('sin'), c.fresh_real('cos')
        c.add(s * s + k * k == 1)
        c.memo[key] = (s, k, z3.simplify(x.re))
        c.flags.setdefault('trig', []).append((x, s, k))
    s, k, _ = c.memo[key]
    return Sym('f', None, s if name == 'sin' else k)


# ---------------------------------------------------------------------------------------------- text

TOK = '\u27e6%d:%s\u27e7'


def token(x, spec):
    c = Ctx.cur
    if c is None:
        return 'Sym(?)'
    if isinstance(x, (Sym, SInt)):
        k = len(c.tokens)
        t = TOK % (k, spec)
        c.tokens[t] = (x, spec)
        if c.flags.get('complex_text') and isinstance(x, Sym) and x.kind == 'c' and spec[-1:] not in ('e', 'E', 'f', 'F', 'g', 'G', 'n'):
            # Python writes parentheses around a complex number unless its real part is (positive) zero
            re = x.real
            if re.const() != 0 if re.is_const() else bool(re != 0):
                return '(' + t + ')'
        return t
    raise Unsupported('format %r' % (x,))


def magic(x):
    """a float that stands for x where python needs a real float (text formatting with %)"""
    c = Ctx.cur
    if c.flags.get('magic_ok') is None:
        raise Unsupported('conversion of a symbolic value to float')
    k = len(c.magic) + 1
    v = 1.2345678901234567 + k * 0.0012345678912345
    c.magic[v] = x
    return v


# ---------------------------------------------------------------------------------------------- SInt

class SInt(object):
    __slots__ = ('e',)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    @staticmethod
    def var(name, lo=None, hi=None):
        x = z3.Int(name)
        Ctx.cur.ints.append(x)
        if lo is not None:
            Ctx.cur.add(x >= lo)
        if hi is not None:
            Ctx.cur.add(x <= hi)
        return SInt(x)

    def _l(o):
        if isinstance(o, SInt):
            return o.e
        if isinstance(o, SymBool):
            return o._num().e
        if isinstance(o, (bool, int, np.integer)):
            return z3.IntVal(int(o))
        return None
    _l = staticmethod(_l)

    def _bin(self, o, f, rev=False):
        if isinstance(o, (float, complex, np.floating, np.complexfloating, Sym)):
            a, b = Sym.of(self), Sym.of(o)
            return f(b, a) if rev else f(a, b)
        p = SInt._l(o)
        if p is None:
            return NotImplemented
        return SInt(z3.simplify(f(p, self.e) if rev else f(self.e, p)))

    def __add__(self, o):
        return self._bin(o, operator.add)

    def __radd__(self, o):
        return self._bin(o, operator.add, True)

    def __sub__(self, o):
        return self._bin(o, operator.sub)

    def __rsub__(self, o):
        return self._bin(o, operator.sub, True)

    def __mul__(self, o):
        return self._bin(o, operator.mul)

    def __rmul__(self, o):
        return self._bin(o, operator.mul, True)

    def __neg__(self):
        return SInt(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SInt(z3.If(self.e >= 0, self.e, -self.e))

    def __truediv__(self, o):
        return Sym.of(self) / (Sym.of(o))

    def __rtruediv__(self, o):
        return Sym.of(o) / Sym.of(self)

    def _fdiv(a, b):
        # python floor division from SMT (euclidean) division, b != 0
        return z3.If(b > 0, a / b, (-a) / (-b))
    _fdiv = staticmethod(_fdiv)

    def __floordiv__(self, o):
        p = SInt._l(o)
        if p is None:
            return Sym.of(self) // o
        if bool(SymBool(p == 0)):
            raise ZeroDivisionError('integer division or modulo by zero')
        return SInt(z3.simplify(SInt._fdiv(self.e, p)))

    def __rfloordiv__(self, o):
        return SInt(SInt._l(o)) // self

    def __mod__(self, o):
        p = SInt._l(o)
        if p is None:
            return Sym.of(self) % o
        if bool(SymBool(p == 0)):
            raise ZeroDivisionError('integer division or modulo by zero')
        return SInt(z3.simplify(self.e - p * SInt._fdiv(self.e, p)))

    def __rmod__(self, o):
        return SInt(SInt._l(o)) % self

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, mod=None):
        if isinstance(o, (int, np.integer)) and 0 <= o <= 8:
            r = SInt(z3.IntVal(1))
            for _ in range(int(o)):
                r = r * self
            return r
        return int(self) ** o

    def __rpow__(self, o):
        if isinstance(o, (int, float, complex)) and o in (-1, 1):
            if o == 1:
                return o
            even = SymBool(self.e % 2 == 0)
            return type(o)(1) if bool(even) else type(o)(-1)
        return o ** int(self)

    def __lshift__(self, o):
        return self * (2 ** int(o))

    def __rshift__(self, o):
        return self // (2 ** int(o))

    def __and__(self, o):
        if isinstance(o, (int, np.integer)) and o >= 0 and (o & (o + 1)) == 0:
            return self % (int(o) + 1)
        return int(self) & int(o)
    __rand__ = __and__

    def __or__(self, o):
        return int(self) | int(o)

    def __xor__(self, o):
        return int(self) ^ int(o)

    def _cmp(self, o, op):
        if isinstance(o, (float, np.floating, Sym)):
            return op(Sym.of(self), o)
        p = SInt._l(o)
        if p is None:
            return NotImplemented
        return SymBool(op(self.e, p))

    def __eq__(self, o):
        if isinstance(o, (complex, np.complexfloating)):
            return Sym.of(self) == o
        return self._cmp(o, operator.eq)

    def __ne__(self, o):
        if isinstance(o, (complex, np.complexfloating)):
            return Sym.of(self) != o
        return self._cmp(o, operator.ne)

    def __lt__(self, o):
        return self._cmp(o, operator.lt)

    def __le__(self, o):
        return self._cmp(o, operator.le)

    def __gt__(self, o):
        return self._cmp(o, operator.gt)

    def __ge__(self, o):
        return self._cmp(o, operator.ge)

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return hash(int(self))

    def __index__(self):
        return Ctx.cur.concretize(self.e)

    def __int__(self):
        return Ctx.cur.concretize(self.e)

    def __float__(self):
        return float(Ctx.cur.concretize(self.e))

    def __complex__(self):
        return complex(Ctx.cur.concretize(self.e))

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __format__(self, spec):
        if Ctx.cur is not None and Ctx.cur.flags.get('int_tokens'):
            return token(self, spec)
        if spec == '' or spec == 'd':
            return '<int>'
        return format(int(self), spec)

    def __repr__(self):
        return '<int>'

    __str__ = __repr__

    real = property(lambda self: self)
    imag = property(lambda self: 0)
    shape = ()
    ndim = 0

    def conjugate(self):
        return self

    def is_integer(self):
        return True

    def item(self):
        return self

    @property
    def dtype(self):
        return np.dtype(int)

    def astype(self, dt, *a, **k):
        from . import sarray
        return sarray.cast_scalar(self, np.dtype(sarray.undt(dt)))

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        from . import sarray
        return sarray.ufunc(uf, method, inputs, kw)


numbers.Integral.register(SInt)


# ---------------------------------------------------------------------------------------------- FP theory

F64 = z3.Float64()
RNE = z3.RNE()


def fpv(x):
    return z3.FPVal(x, F64)


# Exact identities of IEEE arithmetic applied while terms are built; FP_LEMMAS (below) has the solver confirm each of them.
# Facts about variables (magnitude bound, not zero) are conditions that the harness has added to the path.

def _isapp(t, k):
    return z3.is_app(t) and t.decl().kind() == k


def fbound(t):
    """an upper bound of |t|, or inf (then t may also be nan)"""
    if z3.is_fp_value(t):
        if t.isNaN() or t.isInf():
            return float('inf')
        return abs(float(fp_val(t)))
    c = Ctx.cur
    if t.num_args() == 0:
        return c.fp_bound.get(t.get_id(), float('inf'))
    if _isapp(t, z3.Z3_OP_FPA_NEG):
        return fbound(t.arg(0))
    if _isapp(t, z3.Z3_OP_FPA_ADD):
        return (fbound(t.arg(1)) + fbound(t.arg(2))) * (1 + 1e-12)
    if _isapp(t, z3.Z3_OP_ITE):
        return max(fbound(t.arg(1)), fbound(t.arg(2)))
    if _isapp(t, z3.Z3_OP_FPA_MUL):
        return fbound(t.arg(1)) * fbound(t.arg(2)) * (1 + 1e-12) + 5e-324
    return float('inf')


def fp_val(t):
    import struct
    b = z3.simplify(z3.fpToIEEEBV(t)).as_long()
    return struct.unpack('<d', struct.pack('<Q', b))[0]


def fnonzero(t):
    if z3.is_fp_value(t):
        return not t.isZero()
    if t.num_args() == 0:
        return t.get_id() in Ctx.cur.fp_nz
    if _isapp(t, z3.Z3_OP_FPA_NEG):
        return fnonzero(t.arg(0))
    if _isapp(t, z3.Z3_OP_FPA_ADD):
        return t.arg(1).eq(t.arg(2)) and fnonzero(t.arg(1))
    if _isapp(t, z3.Z3_OP_ITE):
        return fnonzero(t.arg(1)) and fnonzero(t.arg(2))
    return False


def fiszero(t):
    """t is a zero of either sign for every assignment"""
    if z3.is_fp_value(t):
        return t.isZero()
    if _isapp(t, z3.Z3_OP_FPA_NEG):
        return fiszero(t.arg(0))
    if _isapp(t, z3.Z3_OP_ITE):
        return fiszero(t.arg(1)) and fiszero(t.arg(2))
    return False


def fneg(t):
    if z3.is_fp_value(t):
        return z3.simplify(z3.fpNeg(t))
    if _isapp(t, z3.Z3_OP_FPA_NEG):
        return t.arg(0)
    return z3.fpNeg(t)


def fadd(a, b):
    if fiszero(b) and fnonzero(a):
        return a
    if fiszero(a) and fnonzero(b):
        return b
    if z3.is_fp_value(a) and z3.is_fp_value(b):
        return z3.simplify(z3.fpAdd(RNE, a, b))
    if a.get_id() > b.get_id():
        a, b = b, a
    return z3.fpAdd(RNE, a, b)


def fsub(a, b):
    return fadd(a, fneg(b))


def _half(t):
    """(x + x) / 2 = x when x + x does not overflow"""
    if _isapp(t, z3.Z3_OP_FPA_ADD) and t.arg(1).eq(t.arg(2)) and fbound(t.arg(1)) <= 8e307:
        return t.arg(1)
    return None


def fmul(p, q):
    """IEEE product; constant factors 1, -1 and 0 in their exact simple form"""
    for a, b in ((p, q), (q, p)):
        if z3.is_fp_value(a):
            if a.isZero():
                neg = z3.is_true(z3.simplify(z3.fpIsNegative(a)))
                pz, nz = fpv(0.0), fpv(-0.0)
                r = z3.If(z3.fpIsNegative(b), pz if neg else nz, nz if neg else pz)
                if fbound(b) < 1.79e308:
                    return r
                return z3.If(z3.Or(z3.fpIsNaN(b), z3.fpIsInf(b)), z3.fpNaN(F64), r)
            if a.eq(fpv(1.0)):
                return b
            if a.eq(fpv(-1.0)):
                return fneg(b)
            if a.eq(fpv(0.5)):
                h = _half(b)
                if h is not None:
                    return h
    return z3.fpMul(RNE, p, q)


def fdiv(p, q):
    if z3.is_fp_value(q) and q.eq(fpv(2.0)):
        h = _half(p)
        if h is not None:
            return h
    return z3.fpDiv(RNE, p, q)


def _fn(t):
    """(sign, term): t up to the sign of a zero, with negations pulled out of sums and products and zero summands dropped"""
    if fiszero(t):
        return 1, fpv(0.0)
    if _isapp(t, z3.Z3_OP_FPA_NEG):
        s, x = _fn(t.arg(0))
        return -s, x
    if _isapp(t, z3.Z3_OP_FPA_ADD):
        a, b = t.arg(1), t.arg(2)
        if fiszero(b):
            return _fn(a)
        if fiszero(a):
            return _fn(b)
        (s, x), (r, y) = _fn(a), _fn(b)
        if x.get_id() > y.get_id():
            s, x, r, y = r, y, s, x
        return s, z3.fpAdd(RNE, x, y if s == r else z3.fpNeg(y))
    if _isapp(t, z3.Z3_OP_FPA_MUL):
        (s, x), (r, y) = _fn(t.arg(1)), _fn(t.arg(2))
        return s * r, z3.fpMul(RNE, x, y)
    return 1, t


def feq(a, b):
    """numerical equality; for terms known to be finite after normalisation up to the sign of zero"""
    if fbound(a) < 1.79e308 and fbound(b) < 1.79e308:
        (s, x), (r, y) = _fn(a), _fn(b)
        return z3.fpEQ(x, y) if s == r else z3.fpEQ(x, z3.fpNeg(y))
    return z3.fpEQ(a, b)


def fp_lemmas():
    """(name, negated lemma): every one must be unsatisfiable"""
    x, y = z3.FP('lx', F64), z3.FP('ly', F64)
    N, I, Z = z3.fpIsNaN, z3.fpIsInf, z3.fpIsZero
    small = z3.And(x <= fpv(8e307), x >= fpv(-8e307))
    zr = lambda k, t: z3.If(z3.Or(N(t), I(t)), z3.fpNaN(F64), z3.If(z3.fpIsNegative(t), fpv(-0.0 if k > 0 else 0.0), fpv(0.0 if k > 0 else -0.0)))
    yield 'x + zero = x for x != 0', [z3.Not(Z(x)), Z(y), z3.Not(z3.fpAdd(RNE, x, y) == x)]
    yield 'zero + x = x for x != 0', [z3.Not(Z(x)), Z(y), z3.Not(z3.fpAdd(RNE, y, x) == x)]
    yield '(x + x) * 0.5 = x', [small, z3.Not(z3.fpMul(RNE, z3.fpAdd(RNE, x, x), fpv(0.5)) == x)]
    yield '(x + x) / 2 = x', [small, z3.Not(z3.fpDiv(RNE, z3.fpAdd(RNE, x, x), fpv(2.0)) == x)]
    yield '0 * x', [z3.Not(z3.fpMul(RNE, fpv(0.0), x) == zr(1, x))]
    yield '-0 * x', [z3.Not(z3.fpMul(RNE, fpv(-0.0), x) == zr(-1, x))]
    yield '1 * x = x', [z3.Not(z3.fpMul(RNE, fpv(1.0), x) == x)]
    yield '-1 * x = -x', [z3.Not(z3.fpMul(RNE, fpv(-1.0), x) == z3.fpNeg(x))]
    yield 'x - y = x + (-y)', [z3.Not(z3.fpSub(RNE, x, y) == z3.fpAdd(RNE, x, z3.fpNeg(y)))]
    yield 'x + y = y + x', [z3.Not(z3.fpAdd(RNE, x, y) == z3.fpAdd(RNE, y, x))]
    E = z3.fpEQ
    fin = lambda t: z3.Not(z3.Or(N(t), I(t)))
    yield 'x + zero = x up to the sign of zero', [fin(x), Z(y), z3.Not(E(z3.fpAdd(RNE, x, y), x))]
    F16 = z3.Float16()      # the double-precision form is beyond the solver; rounding to nearest is symmetric in every format
    u, v = z3.FP('hx', F16), z3.FP('hy', F16)
    yield '-x + y = -(x - y) up to the sign of zero (half precision)', [fin(u), fin(v), z3.Not(
        E(z3.fpAdd(RNE, z3.fpNeg(u), v), z3.fpNeg(z3.fpAdd(RNE, u, z3.fpNeg(v)))))]
    yield '-x * 0.5 = -(x * 0.5)', [fin(x), z3.Not(E(z3.fpMul(RNE, z3.fpNeg(x), fpv(0.5)), z3.fpNeg(z3.fpMul(RNE, x, fpv(0.5)))))]
    yield '-(-x) = x', [z3.Not(z3.fpNeg(z3.fpNeg(x)) == x)]
    yield 'x + x != 0 for x != 0', [z3.Not(Z(x)), Z(z3.fpAdd(RNE, x, x))]


class FPv(object):
    """IEEE double; complex if im is not None.  Arithmetic as CPython / numpy perform it."""
    __slots__ = ('re', 'im')
    __array_priority__ = 1000

    def __init__(self, re, im=None):
        self.re = re
        self.im = im

    kind = property(lambda s: 'f' if s.im is None else 'c')

    @staticmethod
    def lift(o):
        if isinstance(o, FPv):
            return o
        if isinstance(o, (complex, np.complexfloating)):
            return FPv(fpv(o.real), fpv(o.imag))
        if isinstance(o, (bool, int, float, np.number)):
            return FPv(fpv(float(o)))
        return None

    def cx(self):
        return self if self.im is not None else FPv(self.re, fpv(0.0))

    @property
    def real(self):
        return FPv(self.re)

    @property
    def imag(self):
        return FPv(self.im if self.im is not None else fpv(0.0))

    def conjugate(self):
        return self if self.im is None else FPv(self.re, fneg(self.im))

    def _bin(self, o, f):
        o = FPv.lift(o)
        if o is None:
            return NotImplemented
        if self.im is None and o.im is None:
            return f(self, o, False)
        return f(self.cx(), o.cx(), True)

    def __add__(self, o):
        return self._bin(o, lambda a, b, c: FPv(fadd(a.re, b.re), fadd(a.im, b.im) if c else None))

    def __radd__(self, o):
        return FPv.lift(o) + self

    def __sub__(self, o):
        return self._bin(o, lambda a, b, c: FPv(fsub(a.re, b.re), fsub(a.im, b.im) if c else None))

    def __rsub__(self, o):
        return FPv.lift(o) - self

    def __mul__(self, o):
        def f(a, b, c):
            M = fmul
            if not c:
                return FPv(M(a.re, b.re))
            return FPv(fsub(M(a.re, b.re), M(a.im, b.im)), fadd(M(a.re, b.im), M(a.im, b.re)))
        return self._bin(o, f)

    def __rmul__(self, o):
        return FPv.lift(o) * self

    def __truediv__(self, o):
        p = o
        o = FPv.lift(o)
        if o is None:
            return NotImplemented
        if self.im is None and o.im is None:
            return FPv(fdiv(self.re, o.re))
        if o.im is None and not isinstance(p, FPv):
            # numpy complex / real constant: Smith's method with ratio 0
            scl = fpv(1.0 / float(p))
            zr = lambda t: fmul(t, fpv(0.0 / float(p)))
            a = self.cx()
            return FPv(fmul(fadd(a.re, zr(a.im)), scl),
                       fmul(fsub(a.im, zr(a.re)), scl))
        raise Unsupported('IEEE complex division')

    def __rtruediv__(self, o):
        return FPv.lift(o) / self

    def __neg__(self):
        return FPv(fneg(self.re), None if self.im is None else fneg(self.im))

    def __pos__(self):
        return self

    def __abs__(self):
        if self.im is None:
            return FPv(z3.fpAbs(self.re))
        # hypot, faithfully rounded: only its bounds are known unless a part is zero
        c = Ctx.cur
        a, b = z3.fpAbs(self.re), z3.fpAbs(self.im)
        key = ('hypot', z3.simplify(a).get_id(), z3.simplify(b).get_id())
        if key not in c.memo:
            r = z3.Const('hypot!%d' % len(c.memo), a.sort())
            c.keep.append((z3.simplify(a), z3.simplify(b)))
            nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
            c.add(z3.Implies(z3.Not(nan), z3.And(z3.fpGEQ(r, a), z3.fpGEQ(r, b), z3.fpLEQ(r, z3.fpAdd(z3.RTP(), a, b)),
                                                 z3.Implies(z3.fpIsZero(a), r == b), z3.Implies(z3.fpIsZero(b), r == a))))
            c.memo[key] = r
        return FPv(c.memo[key])

    def __eq__(self, o):
        o = FPv.lift(o)
        if o is None:
            return NotImplemented
        if self.im is None and o.im is None:
            return SymBool(feq(self.re, o.re))
        a, b = self.cx(), o.cx()
        return SymBool(z3.And(feq(a.re, b.re), feq(a.im, b.im)))

    def __ne__(self, o):
        return ~(self == o)

    def _cmp(self, o, f):
        o = FPv.lift(o)
        if o is None:
            return NotImplemented
        return SymBool(f(self.re, o.re))

    def __lt__(self, o):
        return self._cmp(o, z3.fpLT)

    def __le__(self, o):
        return self._cmp(o, z3.fpLEQ)

    def __gt__(self, o):
        return self._cmp(o, z3.fpGT)

    def __ge__(self, o):
        return self._cmp(o, z3.fpGEQ)

    def __bool__(self):
        return bool(self != 0)

    __hash__ = object.__hash__

    def __float__(self):
        raise Unsupported('float() of a symbolic IEEE value')

    def __complex__(self):
        raise Unsupported('complex() of a symbolic IEEE value')

    def __format__(self, spec):
        return fp_token(self, spec)

    def __repr__(self):
        return fp_token(self, 'r')

    shape = ()
    ndim = 0

    @property
    def dtype(self):
        return np.dtype(np.float64 if self.im is None else np.complex128)

    def item(self):
        return self

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        from . import sarray
        return sarray.ufunc(uf, method, inputs, kw)


numbers.Complex.register(FPv)


def fp_token(x, spec):
    c = Ctx.cur
    k = len(c.tokens)
    t = TOK % (k, spec)
    c.tokens[t] = (x, spec)
    return t
