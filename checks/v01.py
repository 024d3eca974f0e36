"""V01 inverse vector transform = vector spherical-harmonic sum"""
from .run import Case
from .common import weights

WHAT = ('vispht (C extension and Python back end) against the sum of the vector harmonics of Jackson, X1 = L Y/sqrt(n(n+1)) and '
        'X2 = i r x X1, computed independently in extended precision.')
BOUNDS = ('coefficients: real, single-precision and strided storage at nmax 1, 3, 4; both components of every mode complex solver variables in [-1,1]^2 for nmax <= 9 (thorough 13), for larger sizes '
          'every entry a fixed multiple of one of 4+4 complex variables; all 0 <= mmax <= nmax, nrows = nmax+2..nmax+7 (thorough nmax+10), ncols = 2mmax+2..2mmax+10 (thorough 2mmax+18) '
          'at small nmax, selected sizes up to nmax 130 (thorough 300); tolerance 1e-10 (1e-9 from nmax 60)')
OUTSIDE = 'larger sizes; rounding beyond the tolerance'


def synth(h, nmax, mmax, nrows, ncols, kind='fast', groups=None, tol=1e-10, store=None):
    sp, ref, np = h.sp, h.ref, h.np
    if kind == 'py' and not h.use_cext(False):
        h.true('single back end', True)
        return
    N = h.ncoef(nmax, mmax)
    R = nmax + 2 if nrows is None else nrows
    C = 2 * mmax + 2 if ncols is None else ncols
    if groups is None:
        v1, v2 = (h.reals('a', N), h.reals('b', N)) if store == 'real' else (h.cplx('a', N), h.cplx('b', N))
        T1, T2, P1, P2 = ref.vector_synth(R, C, nmax, mmax, True)
        wt = h.lin(T1, v1) + h.lin(T2, v2)
        wp = h.lin(P1, v1) + h.lin(P2, v2)
    else:
        npx = __import__('numpy')
        W1, W2 = weights(N, groups, 1), weights(N, groups, 2)
        u1, u2 = h.cplx('a', groups), h.cplx('b', groups)
        v1, v2 = h.lin(W1, u1), h.lin(W2, u2)
        Z = npx.zeros((N, groups))
        th, ph = ref.vsynth_apply(R, C, nmax, mmax, npx.hstack([W1, Z]), npx.hstack([Z, W2]))
        u = np.concatenate([u1, u2])
        wt = h.lin(th.reshape(-1, 2 * groups), u)
        wp = h.lin(ph.reshape(-1, 2 * groups), u)
    s1, s2 = v1.copy(), v2.copy()
    if store in ('stride', 'rev'):
        k = 2 if store == 'stride' else -1
        b1, b2 = np.zeros(N * abs(k), dtype=np.complex128), np.zeros(N * abs(k), dtype=np.complex128)
        b1[::k], b2[::k] = v1, v2
        s1, s2 = b1[::k], b2[::k]
    if store == 'single':
        s1, s2 = s1.astype(np.complex64), s2.astype(np.complex64)
        tol = 1e-5
    c = h.vcoefs(s1, s2, nmax, mmax)
    kw = {}
    if nrows is not None:
        kw['nrows'] = nrows
    if ncols is not None:
        kw['ncols'] = ncols
    p = sp.vispht(c, **kw)
    h.true('pattern size', p.nrows == R and p.ncols == C)
    wt, wp = wt.reshape((2 * R - 2, C)), wp.reshape((2 * R - 2, C))
    h.close('theta component', p.theta, wt[:R], tol)
    h.close('phi component', p.phi, wp[:R], tol)
    h.close('doubled theta component', p.theta_double, wt, tol)
    h.close('doubled phi component', p.phi_double, wp, tol)


def cases(tier):
    out = []
    seen = set()

    def add(kind, n, m, R, C, **k):
        key = (kind, n, m, R, C)
        if key in seen:
            return
        seen.add(key)
        c = Case('%s-n%d-m%d-%sx%s' % (kind, n, m, R or 'd', C or 'd'), synth,
                 dict(nmax=n, mmax=m, nrows=R, ncols=C, kind=kind, **k), timeout=900 if tier == 'thorough' else 300)
        c.weight = n * n
        out.append(c)
    T = tier == 'thorough'
    for n in range(1, 14 if T else 10):
        for m in range(0, n + 1):
            for kind in ('fast', 'py'):
                add(kind, n, m, None, None)
    for n in range(1, 5):
        for m in range(0, n + 1):
            for dr, dc in [(a, b) for a in range(9 if T else 6) for b in range(0, 18 if T else 10, 2)]:
                for kind in ('fast', 'py'):
                    add(kind, n, m, n + 2 + dr, 2 * m + 2 + dc)
    for n, m in ((3, 2), (4, 4)):
        add('fast', n, m, n + 4, None)
        add('fast', n, m, None, 2 * m + 6)
    for n, m in ((1, 1), (3, 2), (4, 4)):
        for store in ('real', 'stride', 'rev', 'single'):
            for kind in ('fast', 'py'):
                out.append(Case('%s-n%d-m%d-%s' % (kind, n, m, store), synth, dict(nmax=n, mmax=m, nrows=n + 3, ncols=2 * m + 4, kind=kind, store=store)))
    big = [(9, 4), (12, 12), (15, 3), (16, 16), (20, 11), (25, 25), (33, 1), (32, 32), (40, 7), (48, 0), (64, 9), (101, 2), (64, 64), (128, 20), (77, 33), (130, 0)]
    if T:
        big += [(90, 90), (200, 4), (128, 128), (57, 56), (300, 1)]
    for n, m in big:
        tol = 1e-10 if n < 60 else 1e-9
        add('fast', n, m, None, None, groups=4, tol=tol)
        add('fast', n, m, n + 2 + n % 5, 2 * m + 4 + 2 * (n % 3), groups=4, tol=tol)
        if n <= 25 or n <= (80 if T else 40):
            add('py', n, m, None, None, groups=4, tol=tol)
    return out
