"""K01 verification routines"""
import numpy
from .run import Case
from .n01 import dyadic

WHAT = ('reference files whose numbers are symbolic are handed to the verification routines; the returned norms are compared with the norms '
        'of the difference between the public transform of one file and the other file.')
BOUNDS = ('nmax <= 5 (thorough 8), all mmax, minimal and larger grids, every number in every file free (plus cases with 1-2 free numbers)')
ASSUMES = ['norm functions (decided by N01) abstracted to an arbitrary positive function of the contents']
OUTSIDE = 'reference data that is zero; rounding below 1e-9; malformed files'


def num(x):
    return '{0:.16e},{1:.16e}'.format(x.real, x.imag)


def patt_text(a, order=0):
    R, C = a.shape
    idx = [(i, j) for i in range(R) for j in range(C)]
    if order:
        idx = [(i, j) for j in range(C) for i in range(R)][::-1]
    return '%d,%d\n' % (R, C) + ''.join('%d,%d,%s\n' % (i, j, num(a[i, j])) for i, j in idx)


def coef_text(v, nmax, mmax):
    return '%d,%d\n' % (nmax, mmax) + ''.join(num(v[i]) + '\n' for i in range(v.shape[0]))


def data(h, name, N, active, salt):
    b = dyadic(N, salt) + 1j * dyadic(N, salt + 50)
    b[b == 0] = 0.5
    act = list(range(N)) if active == 'all' else sorted(set(a % N for a in active))
    b[act] = 3            # away from zero: the zero tests of double_sphere do not fork
    return h.val(b) + h.cplx(name, N, -2, 2, active=act) if act else h.val(b)


def pattern(h, name, R, C, active, salt, sgn=1):
    """samples that are a continuous field at the poles are not required"""
    return data(h, name, R * C, active, salt).reshape((R, C))


NORMS = ('L2_coef', 'LInf_coef', 'L2_patt', 'LInf_patt')


class Norms(object):
    """In the symbolic run the norm functions (decided by N01) are replaced by an arbitrary positive function of the contents: equal or opposite contents
    give the same value, everything else is free."""

    def __init__(self, h):
        self.h = h
        self.saved = {}
        self.seen = []

    def __enter__(self):
        if self.h.symbolic:
            for n in NORMS:
                self.saved[n] = getattr(self.h.sp, n)
                setattr(self.h.sp, n, lambda x, n=n: self.norm(n, x))
        return self

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(self.h.sp, n, f)

    def norm(self, name, x):
        h, sp = self.h, self.h.sp
        if isinstance(x, sp.ScalarCoefs) and 'coef' in name:
            vs = [h.vec_of(x)]
        elif isinstance(x, sp.VectorCoefs) and 'coef' in name:
            vs = list(h.vecs_of(x))
        elif isinstance(x, sp.ScalarPatternUniform) and 'patt' in name:
            vs = [x.doublesphere.reshape(-1)]
        elif isinstance(x, sp.TransversePatternUniform) and 'patt' in name:
            vs = [x.theta_double.reshape(-1), x.phi_double.reshape(-1)]
        else:
            return self.saved[name](x)
        rows = []
        for v in vs:
            v = h.np.asarray(v)
            if v.mode == 'O':
                return self.saved[name](x)
            rows.append(numpy.atleast_2d(v.aff()))
        m = max(r.shape[1] for r in rows)
        key = numpy.vstack([numpy.pad(r, ((0, 0), (0, m - r.shape[1]))) for r in rows])
        for n, k, v in self.seen:
            if n == name and k.shape[0] == key.shape[0]:
                w = max(k.shape[1], key.shape[1])
                a, b = (numpy.pad(z, ((0, 0), (0, w - z.shape[1]))) for z in (k, key))
                if min(abs(a - b).max(), abs(a + b).max()) < 1e-11:
                    return v
        v = h.real('norm%d' % len(self.seen), 0.25, 4)
        self.seen.append((name, key, v))
        return v


def check(h, res, diff, ref, refactive):
    """diff, ref: objects; their norms are what N01 establishes"""
    sp = h.sp
    coef = isinstance(diff, (sp.ScalarCoefs, sp.VectorCoefs))
    L2, LI = (sp.L2_coef, sp.LInf_coef) if coef else (sp.L2_patt, sp.LInf_patt)
    d2, di, r2, ri = L2(diff), LI(diff), L2(ref), LI(ref)
    h.true('four numbers', len(res) == 4)
    for name, got, want in zip(('L2 of the difference', 'LInf of the difference', 'relative L2', 'relative LInf'), res, (d2, di, d2 / r2, di / ri)):
        h.close(name, got, want, 1e-9)


def scalar(h, **k):
    with Norms(h):
        scalar1(h, **k)


def vector(h, **k):
    with Norms(h):
        vector1(h, **k)


def scalar1(h, which, nmax, mmax, R, C, pa, ca, order=0):
    sp = h.sp
    N = h.ncoef(nmax, mmax)
    p = pattern(h, 'p', R, C, pa, 1)
    c = data(h, 'c', N, ca, 2)
    h.write_file('p.txt', patt_text(p, order))
    h.write_file('c.txt', coef_text(c, nmax, mmax))
    vf = h.mod('verify')
    patt = sp.ScalarPatternUniform(p.copy(), doublesphere=False)
    coef = h.coefs(c.copy(), nmax, mmax)
    if which == 'spht':
        r = vf.verify_spht(h.path('p.txt'), h.path('c.txt'))
        got = h.vec_of(sp.spht(patt, nmax, mmax))
        check(h, r, h.coefs(h.vec_of(coef) - got, nmax, mmax), coef, ca)
    else:
        r = vf.verify_ispht(h.path('p.txt'), h.path('c.txt'))
        got = sp.ispht(coef, R, C)
        check(h, r, sp.ScalarPatternUniform(patt.doublesphere - got.doublesphere, doublesphere=True), patt, pa)


def vector1(h, which, nmax, mmax, R, C, pa, ca, order=0):
    sp = h.sp
    N = h.ncoef(nmax, mmax)
    p, q = pattern(h, 'p', R, C, pa, 1), pattern(h, 'q', R, C, pa if pa == 'all' else [a + 3 for a in pa], 3)
    c, d = data(h, 'c', N, ca, 2), data(h, 'd', N, ca if ca == 'all' else [a + 1 for a in ca], 4)
    for n, x in (('p1', p), ('p2', q)):
        h.write_file(n + '.txt', patt_text(x, order))
    for n, x in (('c1', c), ('c2', d)):
        h.write_file(n + '.txt', coef_text(x, nmax, mmax))
    vf = h.mod('verify')
    patt = sp.TransversePatternUniform(p.copy(), q.copy(), doublesphere=False)
    coef = h.vcoefs(c.copy(), d.copy(), nmax, mmax)
    r = getattr(vf, 'verify_' + which)(h.path('p1.txt'), h.path('p2.txt'), h.path('c1.txt'), h.path('c2.txt'))
    if which == 'vspht':
        a, b = h.vecs_of(coef)
        x, y = h.vecs_of(sp.vspht(patt, nmax, mmax))
        check(h, r, h.vcoefs(a - x, b - y, nmax, mmax), coef, ca)
    else:
        g = sp.vispht(coef, R, C)
        check(h, r, sp.TransversePatternUniform(patt.theta_double - g.theta_double, patt.phi_double - g.phi_double, doublesphere=True), patt, pa)


def fdata(h, nmax, mmax, rows, cols, fa, ca, order=0):
    np = h.np
    N = h.ncoef(nmax, mmax)
    f = data(h, 'f', rows * cols, fa, 5).reshape((rows, cols))
    c = data(h, 'c', N, ca, 2)
    h.write_file('f.txt', patt_text(f, order))
    h.write_file('c.txt', coef_text(c, nmax, mmax))
    g = h.mod('verify').verify_fdata(h.path('f.txt'), h.path('c.txt'))
    want = h.mod('pysphi').sc_to_fc(c.copy(), nmax, mmax, rows, cols)
    h.close('largest deviation', g, np.max(np.abs(f - want)), 1e-9)


def cases(tier):
    T = tier == 'thorough'
    out = []
    seen = set()

    def add(f, **k):
        name = '%s-%s' % (f.__name__, '-'.join(str(b).replace(' ', '') for a, b in k.items()))
        if name in seen:
            return
        seen.add(name)
        c = Case(name, f, k, timeout=900 if T else 200)
        out.append(c)
    for nmax in range(0, 9 if T else 6):
        for mmax in range(0, nmax + 1):
            for er, ec in ((0, 0), (1, 2)):
                R, C = nmax + 2 + er, 2 * mmax + 2 + ec
                k = dict(nmax=nmax, mmax=mmax, R=R, C=C)
                s = nmax + 2 * mmax + er
                for f, ws in ((scalar, ('spht', 'ispht')), (vector, ('vspht', 'vispht'))):
                    if f is vector and nmax == 0:
                        continue
                    for w in ws:
                        add(f, which=w, pa=[s + C], ca=[], order=er, **k)
                        add(f, which=w, pa=[], ca=[s + 1], order=er, **k)
                        add(f, which=w, pa='all', ca='all', order=er, **k)
                        if nmax < 3 and er == 0:
                            add(f, which=w, pa=[s + 2], ca=[s], **k)
                D = 2 * R - 2
                if nmax < 2:
                    add(fdata, nmax=nmax, mmax=mmax, rows=D, cols=C, fa='all', ca='all')
                add(fdata, nmax=nmax, mmax=mmax, rows=D, cols=C, fa=[s], ca=[], order=er)
                add(fdata, nmax=nmax, mmax=mmax, rows=D, cols=C, fa=[], ca=[s])
                add(fdata, nmax=nmax, mmax=mmax, rows=D, cols=C, fa=[s + 1], ca=[s + 1])
    return out
