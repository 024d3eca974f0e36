"""V03 forward vector transform = projection of the interpolant of arbitrary antisymmetric samples"""
from .run import Case
from .common import sym_matrix, weights

WHAT = ('vspht on tangential patterns whose samples are free, against the quadrature of conj(X1), conj(X2) times the trigonometric '
        'interpolants (Gauss-Legendre reference data, independent of the code).')
BOUNDS = ('samples: every independent sample of both doubled components a complex solver variable in [-1,1]^2 for nrows <= 8 (thorough 11) and '
          'ncols <= 10 (thorough 14), larger grids (up to 101 rows, thorough 180) with samples driven by 6+6 complex variables; all requested 0 <= mmax <= nmax; '
          'tolerance 1e-10')
OUTSIDE = 'larger grids; samples given through the constructor are free in [0.25,1]^2 away from the poles and fixed at the poles'


def analyse(h, R, C, nmax, mmax, kind='fast', src='double', groups=None, tol=1e-10):
    sp, ref, np = h.sp, h.ref, h.np
    if kind == 'py' and not h.use_cext(False):
        h.true('single back end', True)
        return
    D = 2 * R - 2
    M = sym_matrix(R, C, -1)
    comp = []
    for i, name in enumerate(('t', 'p')):
        if src == 'double':
            if groups is None:
                d = h.lin(M, h.cplx(name, M.shape[1])).reshape((D, C))
            else:
                d = h.lin(M.dot(weights(M.shape[1], groups, i)), h.cplx(name, groups)).reshape((D, C))
            comp.append(d)
        else:
            a = np.zeros((R, C), dtype=np.complex128)
            if R > 2:
                a[1:R - 1, :] = h.cplx(name, (R - 2) * C, 0.25, 1).reshape((R - 2, C))
            else:
                h.cplx(name, 1)
            for q, s in ((0, 0.5 - 0.25j), (R - 1, -0.75 + 1j)):
                a[q, :C // 2] = s * (1 + i)
                a[q, C // 2:] = -s * (1 + i)
            comp.append(a)
    if src == 'double':
        p = sp.TransversePatternUniform(comp[0].copy(), comp[1].copy(), doublesphere=True)
    else:
        p = sp.TransversePatternUniform(comp[0].copy(), comp[1].copy())
        full = []
        for a in comp:
            d = np.zeros((D, C), dtype=np.complex128)
            d[0:R] = a
            for i in range(R, D):
                for j in range(C):
                    d[i, j] = -a[D - i, (j + C // 2) % C]
            full.append(d)
        comp = full
    c = sp.vspht(p, nmax, mmax)
    A1t, A1p, A2t, A2p = ref.vector_analysis(D, C, nmax, mmax)
    t, q = comp[0].reshape(D * C), comp[1].reshape(D * C)
    d1, d2 = h.vecs_of(c, nmax, mmax)
    h.close('first component = projections', d1, h.lin(A1t, t) + h.lin(A1p, q), tol)
    h.close('second component = projections', d2, h.lin(A2t, t) + h.lin(A2p, q), tol)
    h.close('monopole of the first component', c.scoef1[0, 0], 0.0, 0.0)
    h.close('monopole of the second component', c.scoef2[0, 0], 0.0, 0.0)
    h.close('pattern unchanged', p.theta_double, comp[0], 0.0)
    h.close('pattern unchanged', p.phi_double, comp[1], 0.0)


def cases(tier):
    out = []
    seen = set()

    def add(kind, R, C, n, m, src='double', **k):
        key = (kind, R, C, n, m, src)
        if key in seen or n > R - 2 or m > n or m > C // 2 - 1 or n < 0 or m < 0:
            return
        seen.add(key)
        c = Case('%s-%dx%d-n%d-m%d-%s' % (kind, R, C, n, m, src), analyse, dict(R=R, C=C, nmax=n, mmax=m, kind=kind, src=src, **k),
                 timeout=900 if tier == 'thorough' else 300)
        c.weight = R * C
        out.append(c)
    T = tier == 'thorough'
    for R in range(2, 12 if T else 9):
        for C in range(2, 15 if T else 11, 2):
            for n in range(0, R - 1):
                for m in range(0, min(n, C // 2 - 1) + 1):
                    if R > (9 if T else 6) and (n + m + R + C // 2) % 3:
                        continue
                    add('fast', R, C, n, m)
                    add('py', R, C, n, m)
            add('fast', R, C, R - 2, min(R - 2, C // 2 - 1), src='array')
            add('py', R, C, R - 2, min(R - 2, C // 2 - 1), src='array')
    for R, C, n, m in [(9, 16, 7, 7), (12, 10, 10, 4), (17, 34, 15, 15), (20, 6, 18, 2), (33, 20, 31, 9), (34, 30, 20, 14), (50, 4, 48, 1)] + \
            [(66, 34, 64, 16), (101, 20, 99, 9)] + ([(66, 80, 64, 39), (82, 40, 70, 19), (180, 8, 178, 3)] if T else []):
        add('fast', R, C, n, m, groups=6)
        if R <= (66 if T else 34) and R * C <= 4000:
            add('py', R, C, n, m, groups=6)
    return out
