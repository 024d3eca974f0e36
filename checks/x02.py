"""X02 purity"""
from .run import Case
from .common import sym_matrix, weights

WHAT = ('histories op1, op2, op1 over scalar and vector coefficients and patterns with symbolic contents, op2 a symbolic choice among all operations: no operand '
        'changes, the second op1 gives the result of the first; results overwritten afterwards leave the operands alone and operands overwritten leave results '
        'alone; and long sequences of transforms of different sizes, each compared with the reference for its own data.')
BOUNDS = ('every operation as op1 and op2 (%d operations; thorough: histories of four operations); nmax = 2, mmax 0, 1 and 2 (thorough also nmax 3), grids 4x2, 4x6 and 5x6; '
          'every entry a free complex number except for the operations with square roots, where few entries are free; sequences: every transform, all sizes with 3..8 rows (thorough 12), up and down and down and up')
OUTSIDE = 'longer mixed histories; in-place routines (window, assignment, the Fourier-domain operators)'


class World(object):
    def __init__(self, h, nmax, mmax, R, C, free=None):
        sp, np = h.sp, h.np
        self.h = h
        self.dim = (nmax, mmax, R, C)
        L = h.ncoef(nmax, mmax)
        # k, l: few free entries; the rest fixed
        def vec(name, n):
            # entries of the samples stay away from zero, so that the zero tests of double_sphere do not fork
            if free is None:
                return h.cplx(name, n) + (0 if name[0] in 'cdvw' else 1.5)
            return h.cplx(name, n, active=[1, n - 1][:free]) + (1 + 0.25j) * np.arange(1, n + 1)
        self.c = sp.ScalarCoefs(vec('c', L), nmax, mmax)
        self.d = sp.ScalarCoefs(vec('d', L), nmax, mmax)
        self.v = sp.VectorCoefs(vec('v1', L), vec('v2', L), nmax, mmax)
        self.w = sp.VectorCoefs(vec('w1', L), vec('w2', L), nmax, mmax)
        g = lambda name: vec(name, R * C).reshape((R, C))
        self.p = sp.ScalarPatternUniform(g('p'), doublesphere=False)
        self.q = sp.ScalarPatternUniform(g('q'), doublesphere=False)
        self.P = sp.TransversePatternUniform(g('P1'), g('P2'), doublesphere=False)
        self.Q = sp.TransversePatternUniform(g('Q1'), g('Q2'), doublesphere=False)
        self.raw = g('raw')
        self.k = h.cplx('k') if free is None else 2.5

    NAMES = 'c d v w p q P Q raw'.split()

    def all(self):
        return [self.snap(getattr(self, n)) for n in self.NAMES]

    def snap(self, x):
        h, sp, np = self.h, self.h.sp, self.h.np
        if isinstance(x, sp.ScalarCoefs):
            return ('coef %d %d' % (x.nmax, x.mmax), [h.vec_of(x)])
        if isinstance(x, sp.VectorCoefs):
            return ('vcoef %d %d' % (x.nmax, x.mmax), list(h.vecs_of(x)))
        if isinstance(x, sp.ScalarPatternUniform):
            return ('patt', [np.array(x.doublesphere), np.array(x.cdata)])
        if isinstance(x, sp.TransversePatternUniform):
            return ('vpatt', [np.array(y) for y in (x.theta_double, x.phi_double, x.theta, x.phi)])
        if x is None or isinstance(x, (str, bool)):
            return (str(x), [])
        if isinstance(x, tuple):
            r = [self.snap(y) for y in x]
            return ('tuple', [z for y in r for z in y[1]])
        return ('array', [np.array(x) + 0j])

    def equal(self, label, a, b):
        h = self.h
        h.true(label + ': kind and sizes', a[0] == b[0] and len(a[1]) == len(b[1]))
        for x, y in zip(a[1], b[1]):
            h.true(label + ': shape', tuple(x.shape) == tuple(y.shape))
            h.close(label, x, y, 1e-12)

    def unchanged(self, label, before):
        for n, a in zip(self.NAMES, before):
            self.equal('%s: %s unchanged' % (label, n), self.snap(getattr(self, n)), a)

    def overwrite(self, x):
        h, sp = self.h, self.h.sp
        if isinstance(x, (sp.ScalarCoefs, sp.VectorCoefs)):
            for i, (n, m) in enumerate(h.ref.modes(x.nmax, x.mmax)):
                if isinstance(x, sp.ScalarCoefs):
                    x[n, m] = 100.0 + i
                elif n:
                    x[n, m] = (100.0 + i, 200.0 + i)
        elif isinstance(x, sp.ScalarPatternUniform):
            x.cdata[...] = 300.0
        elif isinstance(x, sp.TransversePatternUniform):
            x.theta[...] = 300.0
            x.phi[...] = 400.0
        elif hasattr(x, 'shape') and getattr(x, 'shape', ()) != ():
            x[...] = 500.0
        elif isinstance(x, tuple):
            for y in x:
                self.overwrite(y)
        else:
            return False
        return True


def _file(w, fn, n, *objs):
    for i, o in enumerate(objs):
        fn(o, w.h.path('%s%d.txt' % (n, i)))


def _py(w, fn):
    if not w.h.use_cext(False):
        return None
    try:
        return fn()
    finally:
        w.h.use_cext(True)


# name -> (function, needs few free entries)
OPS = {
    'spht': (lambda w, s: s.spht(w.p, w.dim[0], w.dim[1]), 0),
    'vspht': (lambda w, s: s.vspht(w.P, w.dim[0], w.dim[1]), 0),
    'ispht': (lambda w, s: s.ispht(w.c, w.dim[2], w.dim[3]), 0),
    'vispht': (lambda w, s: s.vispht(w.v, w.dim[2], w.dim[3]), 0),
    'spht_py': (lambda w, s: _py(w, lambda: s.spht(w.p, w.dim[0], w.dim[1])), 0),
    'vspht_py': (lambda w, s: _py(w, lambda: s.vspht(w.P, w.dim[0], w.dim[1])), 0),
    'ispht_py': (lambda w, s: _py(w, lambda: s.ispht(w.c, w.dim[2], w.dim[3])), 0),
    'vispht_py': (lambda w, s: _py(w, lambda: s.vispht(w.v, w.dim[2], w.dim[3])), 0),
    'spht_slow': (lambda w, s: s.spht_slow(w.p, w.dim[0], w.dim[1]), 0),
    'ispht_slow': (lambda w, s: s.ispht_slow(w.c, w.dim[2], w.dim[3]), 0),
    'c+d': (lambda w, s: w.c + w.d, 0), 'c-d': (lambda w, s: w.c - w.d, 0), 'c*d': (lambda w, s: w.c * w.d, 1), 'c/2': (lambda w, s: w.c / 2.0, 0),
    'c*k': (lambda w, s: w.c * w.k, 1), '3-c': (lambda w, s: 3 - w.c, 0), '2*c': (lambda w, s: 2 * w.c, 0), 'c+1': (lambda w, s: w.c + 1, 0),
    'v+w': (lambda w, s: w.v + w.w, 0), 'v-w': (lambda w, s: w.v - w.w, 0), 'v*w': (lambda w, s: w.v * w.w, 1), '2j*v': (lambda w, s: 2j * w.v, 0),
    'v/2': (lambda w, s: w.v / 2, 0), '1-v': (lambda w, s: 1 - w.v, 0),
    'p+q': (lambda w, s: w.p + w.q, 0), 'p-q': (lambda w, s: w.p - w.q, 0), 'p*q': (lambda w, s: w.p * w.q, 1), 'p*2': (lambda w, s: w.p * 2, 0),
    '1-p': (lambda w, s: 1 - w.p, 0), 'p/2': (lambda w, s: w.p / 2, 0),
    'P+Q': (lambda w, s: w.P + w.Q, 0), 'P-Q': (lambda w, s: w.P - w.Q, 0), '2*P': (lambda w, s: 2 * w.P, 0), 'P/2': (lambda w, s: w.P / 2, 0),
    'c same': (lambda w, s: (0 + w.c, w.c + 0, w.c - 0, w.c * 1, 1 * w.c, w.c / 1, 0.0 - w.c), 0),
    'v same': (lambda w, s: (0 + w.v, w.v + 0, w.v - 0, w.v * 1, 1 * w.v, w.v / 1, 0.0 - w.v), 0),
    'p same': (lambda w, s: (0 + w.p, w.p + 0, w.p - 0, w.p * 1, 1 * w.p, w.p / 1, 0.0 - w.p), 0),
    'P same': (lambda w, s: (0 + w.P, w.P + 0, w.P - 0, w.P * 1, 1 * w.P, w.P / 1, 0.0 - w.P), 0),
    'copy': (lambda w, s: w.c.copy(), 0), 'vcopy': (lambda w, s: w.v.copy(), 0), 'cut': (lambda w, s: w.c[0:1, :], 0), 'cutfull': (lambda w, s: w.c[0:w.dim[0], :], 0),
    'continue': (lambda w, s: s.continue_sphere(w.raw, 1), 0), 'double': (lambda w, s: s.double_sphere(w.p.doublesphere, 1), 1),
    'L2': (lambda w, s: (s.L2_coef(w.c), s.L2_coef(w.v), s.L2_patt(w.p), s.L2_patt(w.P)), 1),
    'LInf': (lambda w, s: (s.LInf_coef(w.c), s.LInf_coef(w.v), s.LInf_patt(w.p), s.LInf_patt(w.P)), 1),
    'absc': (lambda w, s: s.abs(w.c), 1), 'absp': (lambda w, s: s.abs(w.p), 1), 'mag2': (lambda w, s: (s.mag2(w.c), s.mag2(w.v), s.mag2(w.p), s.mag2(w.P)), 1),
    'mag': (lambda w, s: (s.mag(w.c), s.mag(w.v), s.mag(w.p), s.mag(w.P)), 1), 'compare': (lambda w, s: s.compare_relative(w.c, w.d), 1),
    'power': (lambda w, s: (w.c.power(), w.c.angular_power_spectrum()), 1),
    'save': (lambda w, s: (_file(w, s.file.save_coef, 'c', w.c), _file(w, s.file.save_patt, 'p', w.p))[0], 2),
    'print': (lambda w, s: (s.pretty_coefs(w.c), str(w.c), repr(w.c), str(w.p), repr(w.p), repr(w.v), repr(w.P))[0], 2),
    'props': (lambda w, s: (w.c.size, w.p.nrows, w.P.ncols, w.p.is_symmetric, w.P.is_symmetric, w.p.single_val, w.P.single_val)[:3], 2),
}
ORDER = sorted(OPS)
BOUNDS = BOUNDS % len(OPS)


def history(h, op, nmax, mmax, R, C, group, extra=None):
    """op, symbolically chosen other, op"""
    w = World(h, nmax, mmax, R, C, [None, 1, 0][OPS[op][1]] if group is None else group)
    mine = [o for o in ORDER if group is not None and OPS[o][1] <= 2 or group is None and OPS[o][1] == 0]
    fn = OPS[op][0]
    before = w.all()
    r1 = w.snap(fn(w, h.sp))
    w.unchanged(op, before)
    i = h.int('op2', 0, len(mine) - 1)
    for j, o in enumerate(mine):
        if bool(i == j):
            OPS[o][0](w, h.sp)
            break
    w.unchanged('%s, %s' % (op, o), before)
    if extra is not None:
        OPS[extra][0](w, h.sp)
        w.unchanged('%s, %s, %s' % (op, o, extra), before)
    r2 = w.snap(fn(w, h.sp))
    w.unchanged('%s, %s, %s' % (op, o, op), before)
    w.equal('%s after %s: same result' % (op, o), r2, r1)


def alias(h, op, nmax, mmax, R, C):
    w = World(h, nmax, mmax, R, C, [None, 1, 0][OPS[op][1]])
    fn = OPS[op][0]
    before = w.all()
    r = fn(w, h.sp)
    r1 = w.snap(r)
    w.unchanged(op, before)
    if not w.overwrite(r):
        return
    w.unchanged('%s, then result overwritten' % op, before)
    r = fn(w, h.sp)
    w.equal('%s after the first result was overwritten' % op, w.snap(r), r1)
    for n in w.NAMES:
        w.overwrite(getattr(w, n))
    w.equal('%s, then operands overwritten' % op, w.snap(r), r1)


def sequence(h, kind, rows, cols, updown):
    """transforms of many sizes one after the other: each gives the result of its own data, whatever ran before"""
    sp, ref, np = h.sp, h.ref, h.np
    u, w = h.cplx('u', 2), h.cplx('w', 2)
    if kind.endswith('py'):
        if not h.use_cext(False):
            h.true('single back end', True)
            return
    sizes = [(R, C, n, m) for R in rows for C in cols for n in range(0, R - 1) for m in sorted({0, min(n, C // 2 - 1)})]
    sizes = [z for z in sizes if z[2] >= 1] if 'vsp' in kind or 'visp' in kind else sizes
    if updown:
        sizes = sizes[::-1]
    for R, C, n, m in sizes + sizes[::-1][1:]:
        D, L = 2 * R - 2, h.ncoef(n, m)
        tag = '%s %dx%d n%d m%d: ' % (kind, R, C, n, m)
        fn = getattr(sp, kind[:-3] if kind.endswith('_py') else kind)
        if kind.startswith('spht'):
            M = sym_matrix(R, C, 1)
            d = h.lin(M.dot(weights(M.shape[1], 2)), u)
            c = fn(sp.ScalarPatternUniform(d.reshape((D, C)), doublesphere=True), n, m)
            h.close(tag + 'coefficients', h.vec_of(c, n, m), h.lin(ref.scalar_analysis(D, C, n, m), d), 1e-10)
        elif kind.startswith('vspht'):
            M = sym_matrix(R, C, -1)
            t, q = (h.lin(M.dot(weights(M.shape[1], 2, i)), x) for i, x in enumerate((u, w)))
            c = fn(sp.TransversePatternUniform(t.reshape((D, C)), q.reshape((D, C)), doublesphere=True), n, m)
            A = ref.vector_analysis(D, C, n, m)
            d1, d2 = h.vecs_of(c, n, m)
            h.close(tag + 'first component', d1, h.lin(A[0], t) + h.lin(A[1], q), 1e-10)
            h.close(tag + 'second component', d2, h.lin(A[2], t) + h.lin(A[3], q), 1e-10)
        elif kind.startswith('ispht'):
            v = h.lin(weights(L, 2), u)
            p = fn(h.coefs(v.copy(), n, m), R, C)
            h.close(tag + 'pattern', p.doublesphere, h.lin(ref.scalar_synth(R, C, n, m, True), v).reshape((D, C)), 1e-10)
        else:
            a, b = h.lin(weights(L, 2, 1), u), h.lin(weights(L, 2, 2), w)
            p = fn(h.vcoefs(a.copy(), b.copy(), n, m), R, C)
            T1, T2, P1, P2 = ref.vector_synth(R, C, n, m, True)
            h.close(tag + 'theta', p.theta_double, (h.lin(T1, a) + h.lin(T2, b)).reshape((D, C)), 1e-10)
            h.close(tag + 'phi', p.phi_double, (h.lin(P1, a) + h.lin(P2, b)).reshape((D, C)), 1e-10)


KINDS = ('spht', 'spht_py', 'spht_slow', 'ispht', 'ispht_py', 'ispht_slow', 'vspht', 'vspht_py', 'vispht', 'vispht_py')


def cases(tier):
    T = tier == 'thorough'
    out = []

    def add(f, **k):
        c = Case('%s-%s' % (f.__name__, '-'.join(str(b) for a, b in k.items())), f, k, timeout=900 if T else 300)
        c.weight = 10 if f is history else 20
        out.append(c)
    for kd in KINDS:
        for updown in (False, True):
            add(sequence, kind=kd, rows=range(3, 13 if T else 9), cols=(2, 4, 6) if T else (4,), updown=updown)
            out[-1].name = 'sequence-%s-%d' % (kd, updown)
    dims = [(2, 1, 4, 6), (2, 2, 5, 6), (2, 0, 4, 2)] + ([(3, 2, 6, 8)] if T else [])
    for d in dims:
        k = dict(zip(('nmax', 'mmax', 'R', 'C'), d))
        for o in ORDER:
            add(alias, op=o, **k)
            if d[1] and (d == dims[0] or T):
                if OPS[o][1] == 0:
                    add(history, op=o, group=None, **k)
                add(history, op=o, group=0, **k)
                if T:
                    for e in ORDER[::3]:
                        add(history, op=o, group=0, extra=e, **k)
    return out
