"""Harness library.

A harness is a function h -> None.  It runs in two modes:
  SymH   inputs are solver variables, the package is executed by the symbolic engine, every claim is a solver query;
  RealH  inputs are the numbers of a counterexample, the package is the real one (C extension compiled from source).
A counterexample is reported only after the same harness failed the same way in RealH mode.
"""
import itertools
import json
import os
import re
import sys
import time
import traceback
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
import numpy as np                      # noqa: E402
from eng import core                    # noqa: E402
from eng.core import Unsupported, Inconclusive      # noqa: E402
from . import ref                       # noqa: E402


TOKEN = re.compile('\u27e6[^\u27e7]*\u27e7')
PLOTS = ('plot', 'pcolormesh', 'plot_surface')


class Violation(Exception):
    def __init__(self, label, detail='', inputs=None, known=None):
        Exception.__init__(self, '%s: %s' % (label, detail))
        self.label = label
        self.detail = detail
        self.inputs = inputs
        self.known = known


class PathEnd(BaseException):
    """assumption failed: this path is not part of the property"""


def load_known():
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln:
                out.append(json.loads(ln))
    return out


class Base(object):
    ref = ref
    symbolic = False

    def coefs(self, vec, nmax, mmax):
        return self.sp.ScalarCoefs(vec, nmax, mmax)

    def vcoefs(self, v1, v2, nmax, mmax):
        return self.sp.VectorCoefs(v1, v2, nmax, mmax)

    def ncoef(self, nmax, mmax):
        return nmax + 1 + mmax * (2 * nmax + 1 - mmax)

    def vec_of(self, c, nmax=None, mmax=None):
        """values of the modes in storage order, read one by one"""
        nmax = c.nmax if nmax is None else nmax
        mmax = c.mmax if mmax is None else mmax
        ms = ref.modes(nmax, mmax)
        out = self.np.zeros(len(ms), dtype=np.complex128)
        for i, (n, m) in enumerate(ms):
            out[i] = c[n, m]
        return out

    def vecs_of(self, c, nmax=None, mmax=None):
        nmax = c.nmax if nmax is None else nmax
        mmax = c.mmax if mmax is None else mmax
        ms = ref.modes(nmax, mmax)
        a = self.np.zeros(len(ms), dtype=np.complex128)
        b = self.np.zeros(len(ms), dtype=np.complex128)
        for i, (n, m) in enumerate(ms):
            if n == 0:
                continue
            a[i], b[i] = c[n, m]
        return a, b

    def lin(self, M, x):
        return self.np.dot(M, x)

    def raises(self, label, exc, fn):
        """fn must raise one of exc"""
        try:
            r = fn()
        except exc:
            self.true(label, True)
            return
        except (Unsupported, Inconclusive, Violation):
            raise
        except Exception as e:
            self.true('%s (raised %s instead)' % (label, type(e).__name__), False)
            return
        self.true(label + ' (accepted)', False)
        return r

    def attempt(self, fn):
        """(result, None) or (None, exception)"""
        try:
            return fn(), None
        except (Unsupported, Inconclusive, Violation):
            raise
        except Exception as e:
            return None, e


# ---------------------------------------------------------------------------------------------- symbolic mode

class Draws(object):
    """the stream of random numbers handed to the code: given values, then zeros"""

    def __init__(self, np, values):
        self.np, self.values = np, values
        self.used, self.kinds = 0, set()

    def take(self, n, shp, kind):
        np = self.np
        v = np.zeros(n)
        k = max(0, min(n, (0 if self.values is None else self.values.shape[0]) - self.used))
        if k:
            v = np.concatenate([self.values[self.used:self.used + k], v[k:]]) if k < n else self.values[self.used:self.used + n] * 1.0
        self.used += n
        self.kinds.add(kind)
        return v.reshape(shp)


class SymH(Base):
    symbolic = True

    def __init__(self, ctx, known=()):
        from eng import load, shim, sarray
        import z3
        self.z3 = z3
        self.ctx = ctx
        self.np = shim.NP
        self.sarray = sarray
        self._load = load
        self._world = None
        self.inputs = {}
        self.claims = 0
        self.known = known
        self.known_hits = []
        self.open = open
        self.len = shim.s_len

    def draws(self, values, fn):
        """fn() with the random numbers given; (result, stream)"""
        st = Draws(self.np, values)
        self.ctx.flags['draws'] = st
        try:
            return fn(), st
        finally:
            self.ctx.flags['draws'] = None

    # ------------------------------------------------------------ world
    @property
    def world(self):
        if self._world is None:
            self._world = self._load.World()
            self._world.module('spherepy')
        return self._world

    @property
    def sp(self):
        return self.world.module('spherepy')

    def mod(self, name):
        return self.world.module('spherepy.' + name)

    def use_cext(self, flag):
        return self._load.setcext(self.mod('spherepy'), flag) is not None

    def range(self, *a):
        from eng import shim
        return shim.sym_range(*a)

    def int(self, name, lo, hi):
        v = core.SInt.var(name, lo, hi)
        self.inputs[name] = ('int', v)
        return v

    def concrete(self, v):
        return int(v)

    def real(self, name, lo=-1, hi=1):
        v = core.Sym.real_var(name, lo, hi)
        self.inputs[name] = ('real', v)
        return v

    def ratvar(self, name, lo, hi):
        """real input whose functions are kept as rational functions"""
        from eng import ratfun
        v = ratfun.var(name, lo, hi)
        self.inputs[name] = ('real', core.Sym('f', None, v.F.x))
        return v

    def ratpoint(self, name, x0):
        """fixed argument whose sine and cosine stay free (on the unit circle)"""
        from fractions import Fraction
        from eng import ratfun
        v = ratfun.var(name, x0, x0)
        v.F.free_trig = True
        self.inputs[name] = ('real', core.Sym('f', None, v.F.x))
        return v.like((Fraction(x0),), ratfun.ONE, ratfun.M0)

    def known_zero(self, v):
        """splits the path: is v zero?"""
        return bool(v == 0)

    def rel(self, label, a, b, tol=1e-9, scale=None):
        """|a - b| <= tol * |b| for rational functions; exact identity is asked as such"""
        from eng import ratfun
        if hasattr(a, 'shape') and getattr(a, 'shape', None) == ():
            a = a.item()
        for v in (a, b):
            if not isinstance(v, ratfun.RSym):
                if isinstance(v, (float, np.floating)) and not np.isfinite(v):
                    return self.true(label + ' (not finite)', False)
        if isinstance(a, ratfun.RSym) and isinstance(b, ratfun.RSym):
            d = a - b
            if not d.P:
                return self.true(label, core.SymBool(a._t() == b._t()))
            return self.true(label, d * d <= (tol * tol) * (b * b))
        return self.true(label, (a - b) * (a - b) <= (tol * tol) * (b * b))

    def reals(self, name, shape, lo=-1, hi=1):
        return self._arr(name, shape, lo, hi, False, None)

    def cplx(self, name, shape=(), lo=-1, hi=1, active=None):
        """complex128 array; with active, only those flat positions are free and the others zero"""
        if shape == ():
            v = core.Sym.complex_var(name, lo, hi)
            self.inputs[name] = ('cplx', v)
            return v
        return self._arr(name, shape, lo, hi, True, active)

    def _arr(self, name, shape, lo, hi, cx, active):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        n = int(np.prod(shape))
        pos = list(range(n)) if active is None else list(active)
        c = self.ctx
        first = c.nvar
        for p in pos:
            c.var('%s_%d.re' % (name, p), lo, hi)
            if cx:
                c.var('%s_%d.im' % (name, p), lo, hi)
        a = np.zeros((n, c.nvar + 1), dtype=np.complex128)
        for q, p in enumerate(pos):
            if cx:
                a[p, 1 + first + 2 * q] = 1
                a[p, 2 + first + 2 * q] = 1j
            else:
                a[p, 1 + first + q] = 1
        r = self.sarray.from_aff(a.reshape(shape + (-1,)), np.dtype(np.complex128 if cx else np.float64))
        self.inputs[name] = ('arr', r.copy())
        return r

    def ieee(self, name, shape=(), cx=False, finite=True, bound=None, nonzero=False):
        """IEEE doubles"""
        z3 = self.z3
        self.ctx.has_fp = True
        n = 1 if shape == () else int(np.prod(shape))
        out = np.empty(n, dtype=object)
        for i in range(n):
            re = z3.FP('%s_%d.re' % (name, i), core.F64)
            im = z3.FP('%s_%d.im' % (name, i), core.F64) if cx else None
            for t in (re, im):
                if t is None:
                    continue
                if bound is not None:
                    b = core.fpv(bound)
                    self.ctx.add(z3.fpLEQ(t, b), z3.fpGEQ(t, z3.fpNeg(b)))
                    self.ctx.fp_bound[t.get_id()] = bound
                if nonzero:
                    self.ctx.add(z3.Not(z3.fpIsZero(t)))
                    self.ctx.fp_nz.add(t.get_id())
                self.ctx.keep.append(t)
                if finite:
                    self.ctx.add(z3.Not(z3.fpIsInf(t)), z3.Not(z3.fpIsNaN(t)))
                else:
                    self.ctx.add(z3.Not(z3.fpIsNaN(t)))
            out[i] = core.FPv(re, im)
        if shape == ():
            self.inputs[name] = ('ieee', out[0])
            return out[0]
        r = self.sarray.from_obj(out.reshape(shape), np.dtype(np.complex128 if cx else np.float64))
        self.inputs[name] = ('ieeearr', r.copy())
        return r

    def mkcomplex(self, re, im):
        """complex IEEE value from two real ones"""
        return core.FPv(core.FPv.lift(re).re, core.FPv.lift(im).re)

    def symvec(self, name, nmax, mmax):
        """complex coefficient storage of symbolic size with free content"""
        t = core.SInt._l(self.ncoef(nmax, mmax))
        v = self.sarray.SymVec.fresh(name, t)
        self.ctx.flags['loop_bound'] = 400
        return v

    def andb(self, *cs):
        return core.SymBool(self.z3.And([core.as_bool_term(c) for c in cs]))

    def orb(self, *cs):
        return core.SymBool(self.z3.Or([core.as_bool_term(c) for c in cs]))

    def notb(self, c):
        return core.SymBool(self.z3.Not(core.as_bool_term(c)))

    def val(self, v):
        """concrete numpy value into the world"""
        return self.sarray.wrap(v)

    def assume(self, cond):
        if not bool(cond):
            raise PathEnd()

    def constrain(self, cond):
        """add without forking"""
        self.ctx.add(core.as_bool_term(cond))

    # ------------------------------------------------------------ output / files
    def cint(self, name, *args, **kw):
        """integer function of the C sources on symbolic integers"""
        from eng import llint
        core.STATS.assumptions.add('C integer routines: LLVM IR interpreted over symbolic integers')
        return llint.call(name, *args, **kw)

    def fft(self, x, inverse, inplace=False, stride=None):
        """the bundled FFT (LLVM IR) on symbolic data"""
        from eng import csym
        return csym.sym_fft(x, inverse, inplace, stride)

    def branch_timeout(self, ms):
        """give up earlier on the feasibility of a nonlinear branch (both sides are then explored)"""
        self.ctx.flags['branch_ms'] = ms

    def output(self):
        return ''.join(self.ctx.out)

    def clear_output(self):
        del self.ctx.out[:]

    def complex_text(self):
        """complex numbers are written with or without parentheses, as Python does"""
        self.ctx.flags['complex_text'] = True

    def shown(self, label, text, want, digits):
        """a printed number: the text token stands for `want`, written with enough digits"""
        from eng import shim
        if text[:1] == '(' and text[-1:] == ')':
            text = text[1:-1]
        toks = [self.ctx.tokens.get(q) for q in TOKEN.findall(text)]
        rest = TOKEN.sub('#', text)
        if not toks:
            try:
                x = complex(text)
            except ValueError:
                return self.true('%s: a number' % label, False)
            return self.close(label, x, want, 0.6 * 10.0 ** (1 - digits) * max(abs(x), 1e-300))
        for t in toks:
            d = shim.digits_of(t[1]) if t else None
            if not t or d is None or d[0] == 'dec' or (d[0] == 'sig' and d[1] < digits):
                return self.true('%s: %d digits' % (label, digits), False)
        if len(toks) == 1 and rest in ('#', '#j'):
            v = toks[0][0] * (1 if rest == '#' else 1j)
        elif len(toks) == 2 and rest in ('##j', '#+#j'):
            v = toks[0][0] + toks[1][0] * 1j
        else:
            return self.true('%s: spelling %s' % (label, rest), False)
        return self.close(label, v, want, 0.0)

    def plots(self, fn):
        """curves, images and surfaces handed to the plotting library"""
        del self.ctx.calls[:]
        fn()
        return [(n.split('.')[-1], a, k) for n, a, k in self.ctx.calls if n.split('.')[-1] in PLOTS]

    def write_file(self, name, text):
        self.ctx.fs[name] = text

    def path(self, name):
        return name

    def read_file(self, name):
        return self.ctx.fs[name]

    # ------------------------------------------------------------ claims
    def model_inputs(self, model):
        z3 = self.z3
        def num(t):
            v = model.eval(t, model_completion=True)
            if z3.is_int_value(v):
                return v.as_long()
            if z3.is_rational_value(v):
                return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
            if z3.is_algebraic_value(v):
                a = v.approx(30)
                return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
            if z3.is_fp(v):
                b = model.eval(z3.fpToIEEEBV(t), model_completion=True)
                b = z3.simplify(b)
                return float(np.array([b.as_long()], dtype=np.uint64).view(np.float64)[0])
            return float(0)
        out = {}
        for k, (kind, v) in self.inputs.items():
            if kind == 'int':
                out[k] = num(v.e)
            elif kind in ('real', 'ieee'):
                out[k] = num(v.re) if getattr(v, 'kind', 'f') == 'f' else [num(v.re), num(v.im)]
            elif kind == 'cplx':
                out[k] = [num(v.re), num(v.im)]
            else:
                vals = []
                cx = v.dtype.kind == 'c'
                for x in v.obj().reshape(-1):
                    if isinstance(x, core.SCAL if hasattr(core, 'SCAL') else (core.Sym, core.FPv)):
                        vals.append([num(x.re), num(x.im)] if cx else num(x.re))
                    else:
                        vals.append([x.real, x.imag] if cx else float(x))
                out[k] = {'shape': list(v.shape), 'cx': cx, 'v': vals}
        return out

    def fail(self, label, detail, model):
        raise Violation(label, detail, self.model_inputs(model))

    def true(self, label, cond):
        self.claims += 1
        z3 = self.z3
        c = self.ctx
        if isinstance(cond, (bool, np.bool_)):
            if cond:
                core.STATS.queries += 0
                return
            t = z3.BoolVal(True)
        else:
            t = z3.Not(core.as_bool_term(cond))
        r = self._decide(t)
        if r == z3.sat:
            self.fail(label, 'claim false', self._model)
        if r == z3.unsat:
            return
        raise Inconclusive('%s: solver gave up' % label)

    _model_ = None

    @property
    def _model(self):
        return self._model_ if self._model_ is not None else self.ctx.full_model()

    def _decide(self, t):
        """is t possible on this path?"""
        z3 = self.z3
        c = self.ctx
        self._model_ = None
        if c.nonlinear and not c.has_fp:
            c.solver.set('timeout', 4000)
            r = c.check(t)
            c.solver.set('timeout', c.timeout_ms)
            if r != z3.unknown:
                return r
            if self._pin(t):
                return z3.sat
        r = c.check(t)
        if r == z3.unknown:
            r = self._retry(t)
        return r

    def _pin(self, t, tries=6):
        """look for a model with the inputs fixed at rational values"""
        z3 = self.z3
        c = self.ctx
        rnd = np.random.RandomState(3)
        c.solver.set('timeout', 3000)
        try:
            for k in range(tries):
                eqs = []
                for x, lo, hi in zip(c.xs, c.lo, c.hi):
                    a, b = (-1.0 if lo is None else float(lo)), (1.0 if hi is None else float(hi))
                    eqs.append(x == core.rv(Fraction(int(round((a + (b - a) * rnd.rand()) * 64)), 64)))
                if c.check(t, *eqs) == z3.sat:
                    self._model_ = c.full_model()
                    return True
        finally:
            c.solver.set('timeout', c.timeout_ms)
        return False

    def _retry(self, t):
        """other tactics for a query that came back unknown"""
        z3 = self.z3
        self._model_ = None
        for tac in ('qfnra-nlsat', 'smt'):
            try:
                s = z3.Tactic(tac).solver()
                s.set('timeout', self.ctx.timeout_ms * 2)
                s.add(*self.ctx.conds)
                s.add(t)
                t0 = time.time()
                r = s.check()
                core.STATS.queries += 1
                core.STATS.solver_s += time.time() - t0
                core.STATS.verdicts[str(r)] += 1
                if r == z3.sat:
                    self._model_ = s.model()
                    return r
                if r == z3.unsat:
                    return r
            except z3.Z3Exception:
                pass
        return z3.unknown

    def known_finding(self, key):
        """a listed finding: count it instead of failing"""
        for k in self.known:
            if k.get('key') == key and k.get('kind') == 'finding':
                self.known_hits.append(k)
                return True
        return False

    def same(self, label, got, want):
        return self.close(label, got, want, 0.0)

    def close(self, label, got, want, tol=1e-10):
        """|got - want| <= tol in the real and imaginary part of every element, for all inputs"""
        self.claims += 1
        got, want = self._norm(got), self._norm(want)
        if got.shape != want.shape:
            self.claims -= 1
            self.true('%s: shape %s instead of %s' % (label, got.shape, want.shape), False)
            return
        if got.mode == 'C' and want.mode == 'C':
            d = got.conc() - want.conc() if got.dtype.kind != 'b' else got.conc() ^ want.conc()
            bad = ~(np.abs(d) <= tol) & ~((got.conc() == want.conc()) |
                                          ((got.conc() != got.conc()) & (want.conc() != want.conc())))
            if np.any(bad):
                k = tuple(np.argwhere(bad)[0]) if bad.ndim else ()
                self.claims -= 1
                self.true('%s at %s: got %r want %r' % (label, k, got.conc()[k], want.conc()[k]), False)
            return
        if got.is_affine() and want.is_affine():
            return self._close_affine(label, got, want, tol)
        return self._close_terms(label, got, want, tol)

    def _norm(self, v):
        if isinstance(v, core.FPv):
            o = np.empty((1,), dtype=object)
            o[0] = v
            return self.sarray.from_obj(o.reshape(()), np.dtype(np.float64 if v.im is None else np.complex128))
        v = self.sarray.lift(v)
        if isinstance(v, self.sarray.PartView):
            v = v.mat()
        return v

    def _close_affine(self, label, got, want, tol):
        z3 = self.z3
        c = self.ctx
        D = got.aff() - want.aff()
        D = D.reshape(-1, D.shape[-1])
        rows = np.concatenate([D.real, D.imag]) if np.any(D.imag) else D.real
        bnd = np.array([max(_b(l), _b(u)) for l, u in zip(c.lo, c.hi)] or [0.0])[:rows.shape[1] - 1]
        core.STATS.max_terms = max(core.STATS.max_terms, int(rows.size))
        contrib = np.abs(rows[:, 1:]) * bnd[None, :]
        cst = np.abs(rows[:, 0])
        small = contrib <= max(1e-13, tol / (4.0 * max(1, contrib.shape[1])))
        slop = np.where(small, contrib, 0).sum(axis=1) * (1 + 1e-12)
        fine = slop <= tol / 4
        small &= fine[:, None]
        slop = np.where(fine, slop, 0)
        nbig = (~small & (contrib > 0)).sum(axis=1)
        if tol == 0:
            small[:] = False
            slop[:] = 0
            nbig = (contrib > 0).sum(axis=1)
        # rows without large coefficients: one query for the worst of them
        easy = nbig == 0
        claims = []
        e = z3.Real('err')
        if np.any(easy):
            w = slop[easy].max() if tol else 0.0
            k = np.where(easy)[0][np.argmax(cst[easy])]
            claims.append((e + core.rv(float(cst[k])), float(w), [k]))
        hard = np.where(~easy)[0]
        hard = hard[np.argsort(-(cst[hard] + contrib[hard].sum(axis=1)))]
        used = np.zeros(rows.shape[1] - 1, dtype=bool)
        for k in hard:
            js = np.where(~small[k] & (contrib[k] > 0))[0]
            used[js] = True
            t = [core.rv(float(rows[k, 0])), e] + [core.rv(float(rows[k, j + 1])) * c.xs[j] for j in js]
            claims.append((z3.Sum(t), float(slop[k]), [k]))
        path = len(c.conds) > sum((l is not None) + (u is not None) for l, u in zip(c.lo, c.hi))
        for i in range(0, len(claims), 40):
            ch = claims[i:i + 40]
            w = max(x[1] for x in ch)

            def q(th, ch=ch, w=w):
                return [e <= core.rv(w), e >= -core.rv(w),
                        z3.Or([z3.Or(x[0] > core.rv(th), x[0] < -core.rv(th)) for x in ch])]
            s = z3.SolverFor('QF_LRA')
            s.set('timeout', c.timeout_ms * 3)
            for j in np.where(used)[0]:
                if c.lo[j] is not None:
                    s.add(c.xs[j] >= c.lo[j])
                if c.hi[j] is not None:
                    s.add(c.xs[j] <= c.hi[j])
            r = self._chk(s, q(tol))
            if r == z3.unsat:
                continue
            if path:
                s = c.solver
                r = self._chk(s, q(tol))
                if r == z3.unsat:
                    continue
            if r != z3.sat:
                raise Inconclusive('%s: solver gave up' % label)
            model = s.model()
            for th in (1.0, 1e-2, 1e-4, 1e-6, 1e-8):
                if th > tol and self._chk(s, q(th)) == z3.sat:
                    model = s.model()
                    break
            worst = ''
            for x in ch:
                v = model.eval(x[0], model_completion=True)
                try:
                    f = abs(float(v.as_fraction()))
                except Exception:
                    continue
                if f > tol:
                    n = got.idx.size
                    k = np.unravel_index(x[2][0] % n, got.shape) if got.shape else ()
                    worst = 'element %s differs by %.3g' % (tuple(int(z) for z in k), f)
                    break
            self.fail(label, worst, model)

    def _chk(self, s, cs):
        s.push()
        s.add(*cs)
        t = time.time()
        r = s.check()
        core.STATS.queries += 1
        core.STATS.solver_s += time.time() - t
        core.STATS.verdicts[str(r)] += 1
        if r == self.z3.sat:
            m = s.model()
            s.pop()
            s.model = lambda: m
        else:
            s.pop()
        return r

    def _close_terms(self, label, got, want, tol):
        z3 = self.z3
        c = self.ctx
        a, b = got.obj().reshape(-1), want.obj().reshape(-1)
        exact, loose = [], []
        for i in range(a.size):
            x, y = a[i], b[i]
            if isinstance(x, core.FPv) or isinstance(y, core.FPv):
                x, y = core.FPv.lift(x), core.FPv.lift(y)
                if x.im is not None or y.im is not None:
                    x, y = x.cx(), y.cx()
                    t = z3.And(_bitsame(z3, x.re, y.re), _bitsame(z3, x.im, y.im))
                else:
                    t = _bitsame(z3, x.re, y.re)
                t = z3.simplify(t)
                if not z3.is_true(t):
                    exact.append((i, z3.Not(t)))
                    loose.append((i, z3.Not(t)))
                continue
            xs, ys = isinstance(x, (core.Sym, core.SInt, core.SymBool)), isinstance(y, (core.Sym, core.SInt, core.SymBool))
            if not xs and not ys:
                if x == y or (x != x and y != y) or abs(x - y) <= tol:
                    continue
                self.claims -= 1
                self.true('%s at %d: got %r want %r' % (label, i, x, y), False)
                continue
            if (not xs and not np.isfinite(x)) or (not ys and not np.isfinite(y)):
                self.claims -= 1
                self.true('%s at %d: non-finite value' % (label, i), False)
                continue
            x, y = core.Sym.of(x), core.Sym.of(y)
            for p, q in ((x.re, y.re), (x.im, y.im)):
                d = z3.simplify(p - q, som=True)
                core.STATS.max_terms += 1
                if z3.is_rational_value(d) and abs(d.as_fraction()) <= tol:
                    continue
                exact.append((i, d != 0))
                tt = core.rv(tol)
                loose.append((i, z3.Or(d > tt, d < -tt)))
        if not exact:
            # identical terms: ask the solver anyway so that every claim is a query
            r = c.check(z3.BoolVal(False))
            return
        for group in (exact, loose) if tol > 0 else (exact,):
            r = c.check(z3.Or([t for _, t in group]))
            if r == z3.unsat:
                return
        # one at a time
        for i, t in (loose if tol > 0 else exact):
            r = self._decide(t)
            if r == z3.sat:
                self.fail('%s' % label, 'element %d' % i, self._model)
            if r == z3.unknown:
                raise Inconclusive('%s: solver gave up on element %d' % (label, i))

    def iff(self, label, a, b):
        self.true(label, core.SymBool(core.as_bool_term(a) == core.as_bool_term(b)))


def _bitsame(z3, p, q):
    return p == q       # structural equality of IEEE values: +0 != -0, nan = nan


def _b(v):
    return 1e3 if v is None else abs(float(v))


# ---------------------------------------------------------------------------------------------- real mode

class RealH(Base):
    def __init__(self, inputs, tmp):
        import spherepy
        import numpy
        self.sp = spherepy
        self.np = numpy
        self._in = inputs
        self._tmp = tmp
        self._out = []
        self.claims = 0
        self.len = len

    def branch_timeout(self, ms):
        pass

    def draws(self, values, fn):
        st = Draws(np, values)

        def one(kind, conv):
            def f(*a, **k):
                size, scale, loc = conv(*a, **k)
                shp = () if size is None else tuple(size) if isinstance(size, (tuple, list)) else (int(size),)
                v = st.take(int(np.prod(shp)) if shp else 1, shp, kind) * scale + loc
                return v if shp else float(v)
            return f
        nrm = one('normal', lambda loc=0.0, scale=1.0, size=None: (size, scale, loc))
        std = one('normal', lambda size=None, *a: (size, 1.0, 0.0))
        rnn = one('normal', lambda *s: (s or None, 1.0, 0.0))
        uni = one('uniform', lambda low=0.0, high=1.0, size=None: (size, 1.0, 0.0))
        uns = one('uniform', lambda size=None: (size, 1.0, 0.0))
        fs = dict(normal=nrm, standard_normal=std, randn=rnn, uniform=uni, random=uns, random_sample=uns,
                  rand=one('uniform', lambda *s: (s or None, 1.0, 0.0)))

        def seed(*a, **k):
            if any(v is not None for v in list(a) + list(k.values())):
                st.kinds.add('fixed seed')
        fs['seed'] = seed

        class Source(object):
            def __init__(self, *a, **k):
                seed(*a, **k)
                self.__dict__.update(fs)
        saved = {}
        for k, f in dict(fs, default_rng=Source, RandomState=Source).items():
            saved[k] = getattr(np.random, k)
            setattr(np.random, k, f)
        try:
            return fn(), st
        finally:
            for k, f in saved.items():
                setattr(np.random, k, f)

    def clib(self):
        import ctypes
        return ctypes.CDLL(os.path.join(os.path.dirname(os.path.dirname(self.sp.__file__)), 'libcsphi.so'))

    def cint(self, name, *args, **kw):
        return int(getattr(self.clib(), name)(*[int(a) for a in args]))

    def fft(self, x, inverse, inplace=False, stride=None):
        from eng import csym
        x = np.ascontiguousarray(x, dtype=np.complex128).copy()
        out = x[:-(-x.size // (stride or 1))] if inplace else np.zeros(-(-x.size // (stride or 1)), dtype=np.complex128)
        csym.fft(self.clib(), x, out, inverse, stride)
        return out

    def mod(self, name):
        import importlib
        return importlib.import_module('spherepy.' + name)

    def use_cext(self, flag):
        m = self.mod('spherepy')
        if hasattr(m, 'use_cext'):
            m.use_cext = flag
            return True
        return False

    range = staticmethod(range)

    def _get(self, name, default):
        return self._in.get(name, default)

    def rel(self, label, a, b, tol=1e-9, scale=None):
        sc = max([abs(b)] + [abs(v) for v in (scale or ())])
        self.true(label, bool(abs(a - b) <= tol * sc))

    def ratvar(self, name, lo, hi):
        return float(self._get(name, lo))

    def ratpoint(self, name, x0):
        return float(self._get(name, x0))

    def int(self, name, lo, hi):
        return int(self._get(name, lo))

    def concrete(self, v):
        return int(v)

    def real(self, name, lo=-1, hi=1):
        return float(self._get(name, 0.5))

    def reals(self, name, shape, lo=-1, hi=1):
        return self._arr(name, shape)

    def cplx(self, name, shape=(), lo=-1, hi=1, active=None):
        if shape == ():
            v = self._get(name, [0.5, 0.25])
            return complex(v[0], v[1])
        return self._arr(name, shape, True)

    def _arr(self, name, shape, cx=False):
        d = self._in.get(name)
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        if d is None:
            return np.zeros(shape, dtype=np.complex128 if cx else np.float64)
        v = np.array([complex(*x) for x in d['v']] if d['cx'] else d['v'],
                     dtype=np.complex128 if d['cx'] else np.float64)
        return v.reshape(d['shape'])

    def ieee(self, name, shape=(), cx=False, finite=True, bound=None, nonzero=False):
        if shape == ():
            v = self._get(name, 1.0)
            return complex(*v) if cx else float(v)
        return self._arr(name, shape, cx)

    def mkcomplex(self, re, im):
        return complex(re, im)

    def symvec(self, name, nmax, mmax):
        n = self.ncoef(nmax, mmax)
        return np.random.RandomState(len(name) + 17 * ord(name[-1])).permutation(n) + 1 + 1j * np.arange(n, 0, -1)

    def andb(self, *cs):
        return all(bool(c) for c in cs)

    def orb(self, *cs):
        return any(bool(c) for c in cs)

    def notb(self, c):
        return not c

    def val(self, v):
        return v

    def assume(self, cond):
        if not cond:
            raise PathEnd()

    constrain = assume

    def output(self):
        return sys.stdout.getvalue()

    def complex_text(self):
        pass

    def shown(self, label, text, want, digits):
        try:
            x = complex(text)
        except ValueError:
            return self.true('%s: a number' % label, False)
        self.claims += 1
        for p, q in ((x.real, complex(want).real), (x.imag, complex(want).imag)):
            if not (p == q or abs(p - q) <= 0.6 * 10.0 ** (1 - digits) * abs(q)):
                raise Violation(label, 'shows %s for %r' % (text, complex(want)))

    def plots(self, fn):
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        from matplotlib.axes import Axes
        from matplotlib.figure import FigureBase as Figure
        from mpl_toolkits.mplot3d import Axes3D
        calls, saved, depth = [], [], [0]

        def wrap(cls, name):
            f = cls.__dict__[name]

            def g(self_, *a, **k):
                if not depth[0] and name != 'colorbar':
                    calls.append((name, tuple(np.array(x) if isinstance(x, (np.ndarray, list, tuple)) else x for x in a), dict(k)))
                depth[0] += 1
                try:
                    return f(self_, *a, **k)
                finally:
                    depth[0] -= 1
            saved.append((cls, name, f))
            setattr(cls, name, g)
        wrap(Axes, 'plot')
        wrap(Axes, 'pcolormesh')
        wrap(Axes3D, 'plot_surface')
        wrap(Axes3D, 'plot')
        wrap(Figure, 'colorbar')        # draws an image of its own
        try:
            fn()
        finally:
            for cls, name, f in saved:
                setattr(cls, name, f)
            plt.close('all')
        return calls

    def clear_output(self):
        sys.stdout.seek(0)
        sys.stdout.truncate()

    def write_file(self, name, text):
        with open(self.path(name), 'w') as f:
            f.write(text)

    def path(self, name):
        return os.path.join(self._tmp, name)

    def read_file(self, name):
        with open(self.path(name)) as f:
            return f.read()

    def known_finding(self, key):
        return True

    def true(self, label, cond):
        self.claims += 1
        if not bool(cond):
            raise Violation(label, 'claim false')

    def iff(self, label, a, b):
        self.true(label, bool(a) == bool(b))

    def same(self, label, got, want):
        a, b = np.asarray(got), np.asarray(want)
        self.claims += 1
        if a.shape != b.shape:
            raise Violation(label, 'shape %s instead of %s' % (a.shape, b.shape))
        if a.dtype.kind in 'fc' or b.dtype.kind in 'fc':
            a, b = np.ascontiguousarray(a, dtype=np.complex128), np.ascontiguousarray(b, dtype=np.complex128)
            # numerical equality, telling signed zeros apart, nan equal to nan
            ok = True
            for x, y in ((a.real, b.real), (a.imag, b.imag)):
                ok = ok & ((x == y) & (np.signbit(x) == np.signbit(y)) | (x != x) & (y != y))
        else:
            ok = a == b
        if not np.all(ok):
            raise Violation(label, 'got %r want %r' % (a[~np.asarray(ok)].reshape(-1)[:1], b[~np.asarray(ok)].reshape(-1)[:1])
                            if a.ndim else 'got %r want %r' % (a, b))

    def close(self, label, got, want, tol=1e-10):
        self.claims += 1
        a, b = np.asarray(got), np.asarray(want)
        if a.shape != b.shape:
            raise Violation(label, 'shape %s instead of %s' % (a.shape, b.shape))
        if a.size == 0:
            return
        if a.dtype.kind == 'b':
            a = a.astype(int)
        if b.dtype.kind == 'b':
            b = b.astype(int)
        with np.errstate(all='ignore'):
            d = np.abs(a - b)
            bad = ~(d <= tol * 0.9 + 1e-300) & ~((a == b) | ((a != a) & (b != b)))
        if np.any(bad):
            raise Violation(label, 'differs by %r' % (np.max(np.where(bad, d, 0)),))
