"""S03 forward scalar transform = projection of the interpolant of arbitrary symmetric samples"""
from .run import Case
from .common import sym_matrix, weights

WHAT = ('spht / spht_slow on patterns whose samples are free, against the quadrature of conj(Y_nm) times the trigonometric interpolant '
        '(Gauss-Legendre reference data, independent of the code).')
BOUNDS = ('samples: every independent sample of the doubled sphere a complex solver variable in [-1,1]^2 for nrows <= 9 (thorough 12) and '
          'ncols <= 12 (thorough 16), larger grids (up to 130 rows, thorough 258) with samples driven by 8 complex variables; all requested 0 <= mmax <= nmax; '
          'tolerance 1e-10')
OUTSIDE = 'larger grids; samples given through the constructor are free in [0.25,1]^2 away from the poles and fixed at the poles (zero samples: see D01)'


def analyse(h, R, C, nmax, mmax, kind='fast', src='double', groups=None, tol=1e-10):
    sp, ref, np = h.sp, h.ref, h.np
    if kind == 'py' and not h.use_cext(False):
        h.true('single back end', True)
        return
    D = 2 * R - 2
    M = sym_matrix(R, C, 1)
    if src == 'double':
        if groups is None:
            d = h.lin(M, h.cplx('x', M.shape[1])).reshape((D, C))
        else:
            d = h.lin(M.dot(weights(M.shape[1], groups)), h.cplx('x', groups)).reshape((D, C))
        p = sp.ScalarPatternUniform(d.copy(), doublesphere=True)
    else:
        a = np.zeros((R, C), dtype=np.complex128)
        if R > 2:
            a[1:R - 1, :] = h.cplx('x', (R - 2) * C, 0.25, 1).reshape((R - 2, C))
        else:
            h.cplx('x', 1)
        a[0, :] = 0.5 - 0.25j
        a[R - 1, :] = -0.75 + 1j
        p = sp.ScalarPatternUniform(a)
        d = np.zeros((D, C), dtype=np.complex128)
        d[0:R] = a
        for i in range(R, D):
            for j in range(C):
                d[i, j] = a[D - i, (j + C // 2) % C]
    if kind == 'slow':
        c = sp.spht_slow(p, nmax, mmax)
    else:
        c = sp.spht(p, nmax, mmax)
    A = ref.scalar_analysis(D, C, nmax, mmax)
    h.close('coefficients = projections', h.vec_of(c, nmax, mmax), h.lin(A, d.reshape(D * C)), tol)
    h.close('pattern unchanged', p.doublesphere, d, 0.0)


def cases(tier):
    out = []
    seen = set()

    def add(kind, R, C, n, m, src='double', **k):
        key = (kind, R, C, n, m, src)
        if key in seen or n > R - 2 or m > n or m > C // 2 - 1 or n < 0 or m < 0:
            return
        seen.add(key)
        c = Case('%s-%dx%d-n%d-m%d-%s' % (kind, R, C, n, m, src), analyse, dict(R=R, C=C, nmax=n, mmax=m, kind=kind, src=src, **k),
                 timeout=900 if tier == 'thorough' else 300)
        c.weight = R * C
        out.append(c)
    T = tier == 'thorough'
    for R in range(2, 13 if T else 10):
        for C in range(2, 17 if T else 13, 2):
            for n in range(0, R - 1):
                for m in range(0, min(n, C // 2 - 1) + 1):
                    if R > (10 if T else 7) and (n + m + R + C // 2) % 3:
                        continue
                    add('fast', R, C, n, m)
                    add('py', R, C, n, m)
                    add('slow', R, C, n, m)
            add('fast', R, C, R - 2, min(R - 2, C // 2 - 1), src='array')
            add('py', R, C, R - 2, min(R - 2, C // 2 - 1), src='array')
    for R, C, n, m in [(9, 16, 7, 7), (12, 10, 10, 4), (17, 34, 15, 15), (20, 6, 18, 2), (33, 20, 31, 9), (34, 30, 20, 14), (50, 4, 48, 1),
                       (66, 12, 64, 5), (66, 12, 33, 3)] + \
            [(66, 68, 64, 33), (100, 50, 90, 24), (130, 20, 128, 9)] + ([(66, 80, 64, 39), (82, 60, 80, 29), (258, 8, 256, 3), (180, 40, 170, 19)] if T else []):
        add('fast', R, C, n, m, groups=8)
        if R <= (66 if T else 34) and R * C <= 6000:
            add('slow', R, C, n, m, groups=8)
            add('py', R, C, n, m, groups=8)
    return out
