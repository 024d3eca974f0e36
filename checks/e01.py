"""E01 compiled and pure-Python back ends agree"""
from .run import Case
from .common import weights

WHAT = ('The same symbolic data is sent through the C extension (LLVM IR of /repo/src) and through the Python routines; the difference of '
        'the results is the claim.  Tables (ynnm, ynunm, SData) are compared under free amplitudes.')
BOUNDS = ('data: all entries complex solver variables in [-1,1]^2 at small sizes (nmax <= 5, rows <= 14, columns <= 12; thorough nmax <= 8), '
          '6 complex variables spread over all entries at sizes up to nmax 64 (thorough 128); even and odd row counts for sc_to_fc, arbitrary '
          '(also asymmetric) Fourier data for fc_to_sc; tables: all |m| <= n+1, n <= 40 (thorough 120) and selected n up to 300; tolerance 1e-10')
OUTSIDE = 'larger sizes; rounding beyond the tolerance'


def data(h, name, N, groups, salt=0):
    if groups is None or groups >= N:
        return h.cplx(name, N)
    return h.lin(weights(N, groups, salt), h.cplx(name, groups))


def fc2sc(h, nrows, ncols, nmax, mmax, groups=None, tol=1e-10):
    np = h.np
    cs, ps = h.mod('csphi'), h.mod('pysphi')
    f = data(h, 'f', nrows * ncols, groups).reshape((nrows, ncols))
    sc = np.zeros(h.ncoef(nmax, mmax), dtype=np.complex128)
    cs.fc_to_sc(f.copy(), sc, nmax, mmax)
    py = ps.fc_to_sc(f.copy(), nmax, mmax)
    h.close('C fc_to_sc = Python fc_to_sc', sc, py, tol)


def sc2fc(h, nrows, ncols, nmax, mmax, groups=None, tol=1e-10):
    np = h.np
    cs, ps = h.mod('csphi'), h.mod('pysphi')
    v = data(h, 'v', h.ncoef(nmax, mmax), groups)
    fd = np.zeros([nrows, ncols], dtype=np.complex128)
    cs.sc_to_fc(fd, v.copy(), nmax, mmax)
    py = ps.sc_to_fc(v.copy(), nmax, mmax, nrows, ncols)
    h.close('C sc_to_fc = Python sc_to_fc', fd, py, tol)


def entry(h, what, R, C, nmax, mmax, groups=None, tol=1e-10):
    """public entry points with both back ends and the slow variants"""
    sp, np = h.sp, h.np
    res = []
    D = 2 * R - 2
    if what in ('spht', 'vspht'):
        d = data(h, 'x', D * C, groups).reshape((D, C))
        e = data(h, 'y', D * C, groups, 1).reshape((D, C))
    else:
        v = data(h, 'x', h.ncoef(nmax, mmax), groups)
        w = data(h, 'y', h.ncoef(nmax, mmax), groups, 1)
    for flag in (True, False):
        if not h.use_cext(flag):
            break
        if what == 'spht':
            res.append((h.vec_of(sp.spht(sp.ScalarPatternUniform(d.copy(), doublesphere=True), nmax, mmax), nmax, mmax),))
        elif what == 'vspht':
            c = sp.vspht(sp.TransversePatternUniform(d.copy(), e.copy(), doublesphere=True), nmax, mmax)
            res.append(h.vecs_of(c, nmax, mmax))
        elif what == 'ispht':
            res.append((sp.ispht(sp.ScalarCoefs(v.copy(), nmax, mmax), R, C).doublesphere,))
        else:
            p = sp.vispht(sp.VectorCoefs(v.copy(), w.copy(), nmax, mmax), R, C)
            res.append((p.theta_double, p.phi_double))
    h.use_cext(True)
    if what == 'spht':
        res.append((h.vec_of(sp.spht_slow(sp.ScalarPatternUniform(d.copy(), doublesphere=True), nmax, mmax), nmax, mmax),))
    elif what == 'ispht':
        res.append((sp.ispht_slow(sp.ScalarCoefs(v.copy(), nmax, mmax), R, C).doublesphere,))
    for r in res[1:]:
        for a, b in zip(res[0], r):
            h.close('%s: back ends agree' % what, b, a, tol)


def tables(h, ns, over=2, tol=1e-11):
    """ynnm and ynunm of both back ends for all orders of the degrees ns"""
    np = h.np
    cs, ps = h.mod('csphi'), h.mod('pysphi')
    for n in ns:
        L = n + 1 + over
        u = h.reals('u%d' % n, L)
        ca, pa = [], []
        for m in range(-n - 1, n + 2):
            y = np.ones(L, dtype=np.float64)
            cs.ynunm(n, m, y)
            z = ps.ynunm(n, m, L)
            ca += [u * y, u[0] * cs.ynnm(n, m) + u[1] * 0]
            pa += [u * z, u[0] * ps.ynnm(n, m) + u[1] * 0]
        h.close('ynunm/ynnm tables agree, degree %d' % n, np.hstack(ca), np.hstack(pa), tol)


def stable(h, nrows, nmax, tol=1e-13):
    np = h.np
    cs, ps = h.mod('csphi'), h.mod('pysphi')
    for Q in (cs.FindQ(nrows + nmax), ps.smallest_prime_factor(nrows + nmax)):
        Q = int(Q)
        s = np.ones(Q, dtype=np.complex128)
        cs.SData(s, nrows, nmax)
        z = ps.s_data(nrows, nmax, Q)
        u = h.cplx('u%d' % Q, Q)
        h.close('sine-integral weights agree', u * s, u * z, tol)


def cases(tier):
    out = []
    seen = set()
    T = tier == 'thorough'

    def add(fn, weight=0, **k):
        name = '%s-%s' % (fn.__name__, '-'.join('%s%s' % (a[:2], b) for a, b in k.items() if not isinstance(b, (list, range))))
        if fn is tables:
            name += '-%d-%d' % (k['ns'][0], k['ns'][-1])
        if name in seen:
            return
        seen.add(name)
        c = Case(name, fn, k, timeout=900 if T else 300)
        c.weight = weight
        out.append(c)
    N = 8 if T else 5
    for n in range(0, N + 1):
        for m in range(0, n + 1):
            for nr in (2 * n + 2, 2 * n + 4, 2 * n + 8):
                for nc in (2 * m + 2, 2 * m + 6):
                    if nr * nc <= 140 or T:
                        add(fc2sc, nr * nc, nrows=nr, ncols=nc, nmax=n, mmax=m)
            for nr in (2 * n + 1, 2 * n + 2, 2 * n + 3, 2 * n + 6):
                for nc in (2 * m + 2, 2 * m + 4, 2 * m + 3):
                    if nc % 2 == 0 or nr % 2 == 0 and False:
                        add(sc2fc, nr * nc, nrows=nr, ncols=nc, nmax=n, mmax=m)
    for n in range(1, 6 if T else 4):
        for m in range(0, n + 1):
            for what in ('spht', 'ispht', 'vspht', 'vispht'):
                add(entry, 20, what=what, R=n + 2, C=2 * m + 2, nmax=n, mmax=m)
                add(entry, 20, what=what, R=n + 4, C=2 * m + 6, nmax=n, mmax=m)
    big = [(8, 8), (10, 3), (13, 13), (16, 9), (20, 20), (24, 1), (31, 5), (32, 32), (47, 3), (64, 6), (64, 64)]
    if T:
        big += [(100, 10), (128, 128), (90, 45)]
    for n, m in big:
        add(sc2fc, n * n, nrows=2 * n + 1, ncols=2 * m + 4, nmax=n, mmax=m, groups=6)
        for nr in (2 * n + 2, 2 * n + 6) + ((2 * n + 10,) if n < 40 else ()):
            add(fc2sc, n * n, nrows=nr, ncols=2 * m + 2 + 2 * (nr % 3), nmax=n, mmax=m, groups=6)
            add(sc2fc, n * n, nrows=nr, ncols=2 * m + 2 + 2 * (nr % 3), nmax=n, mmax=m, groups=6)
        if n <= 32:
            for what in ('spht', 'ispht', 'vspht', 'vispht'):
                add(entry, n * n, what=what, R=n + 3, C=2 * m + 4, nmax=n, mmax=m, groups=4)
    step = 5
    for n in range(0, 121 if T else 41, step):
        add(tables, n, ns=list(range(n, n + step)))
    for n in (64, 101, 150, 200) + ((256, 300) if T else ()):
        add(tables, 3 * n, ns=[n])
    for nr in list(range(2, 30, 2)) + [64, 102, 130]:
        for nmax in sorted(set([0, 1, nr // 4, max(nr // 2 - 1, 0)])):
            add(stable, 0, nrows=nr, nmax=nmax)
    return out
