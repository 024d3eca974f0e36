"""H01 single harmonics are orthonormal and agree everywhere"""
import numpy as rnp
from .run import Case

WHAT = ('The tables of Fourier coefficients of Y_nm (C and Python) under free amplitudes: Gram operator by Gauss-Legendre quadrature, and the '
        'represented functions against the independent recurrence; sph_harmonic_tp against the synthesis of a single mode with free amplitude '
        'and against the recurrence.')
BOUNDS = ('amplitudes: real solver variables in [-1,1], one per degree n = |m|..N; N <= 24 all orders, selected orders up to N = 256 (thorough 600); '
          'sph_harmonic_tp: all |m| <= n <= 7 on several grids, selected n up to 200 (thorough 400); tolerance 1e-10 (1e-9 from n 60)')
OUTSIDE = 'larger degrees; rounding beyond the tolerance'


def gram(h, m, N, backend, nlo=None, tol=1e-10):
    np, ref = h.np, h.ref
    nlo = abs(m) if nlo is None else max(nlo, abs(m))
    ns = list(range(nlo, N + 1))
    rows = []
    for n in ns:
        if backend == 'py':
            y = h.mod('pysphi').ynunm(n, m, N + 1)
        else:
            y = np.ones(N + 1, dtype=np.float64)
            h.mod('csphi').ynunm(n, m, y)
        rows.append(y)
    T = np.array(rows)
    t, w = ref.gauss(2 * N + 30)
    nu = rnp.arange(1, N + 1)
    # function values: i^m (y_0 + sum_{nu>0} y_nu (e^{i nu t} + (-1)^m e^{-i nu t}))
    E = rnp.vstack([rnp.ones(len(t)), rnp.exp(1j * rnp.outer(nu, t)) + (-1) ** m * rnp.exp(-1j * rnp.outer(nu, t))]) * 1j ** (m % 4)
    V = np.dot(T, E)                                       # n x t
    a = h.reals('a', len(ns))
    f = np.dot(a, V)
    P = rnp.asarray(ref.plm(abs(m), N, rnp.cos(t), rnp.sin(t)), dtype=float) * ref.cs(m)
    h.close('represented function = combination of harmonics', f, np.dot(a, P[nlo - abs(m):]), tol)
    back = np.dot(np.conj(V) * (2 * rnp.pi * w * rnp.sin(t)), f)
    h.close('projections return the amplitudes', back, a + 0j, tol)


def harmonic(h, n, m, nrows, ncols, nmax=None, mmax=None, tol=1e-10):
    sp, np, ref = h.sp, h.np, h.ref
    Y = sp.sph_harmonic_tp(nrows, ncols, n, m)
    a = h.cplx('a')
    h.true('grid size', Y.shape == (nrows, ncols))
    R = ref.Grid(nrows, ncols, n)
    h.close('sph_harmonic_tp = Y_nm', Y * a, ref.c128(R.Y(n, m)) * a, tol)
    if nmax is not None and nrows >= nmax + 2 and ncols >= 2 * mmax + 2:
        c = sp.zeros_coefs(nmax, mmax)
        c[n, m] = a
        h.close('sph_harmonic_tp = synthesis of the single mode', Y * a, sp.ispht(c, nrows, ncols).cdata, tol)


def cases(tier):
    out = []
    T = tier == 'thorough'
    NB = 24
    for m in range(-NB, NB + 1):
        for b in ('py', 'c'):
            out.append(Case('gram-%s-m%d-N%d' % (b, m, NB), gram, dict(m=m, N=NB, backend=b)))
    for N in (40, 64, 101, 150, 200, 256) + ((320, 400, 600) if T else ()):
        for m in sorted(set([0, 1, -1, 2, -3, 7, N // 2, -(N // 2) - 1, N - 1, -N, N])):
            for b in ('py', 'c'):
                c = Case('gram-%s-m%d-N%d' % (b, m, N), gram, dict(m=m, N=N, backend=b, nlo=max(abs(m), N - 12), tol=1e-10 if N < 60 else 1e-9),
                         timeout=600)
                c.weight = N
                out.append(c)
    for n in range(0, 12 if T else 8):
        for m in range(-n, n + 1):
            for k, (R, C, q) in enumerate(((n + 2, 2 * abs(m) + 2, 0), (n + 3, 2 * abs(m) + 6, 0), (n + 4, 2 * n + 6, 1), (2, 2, 9), (3, 5, 9), (n + 2, 7, 9), (5, 1, 9))):
                out.append(Case('Y-n%d-m%d-%dx%d-%d' % (n, m, R, C, k), harmonic,
                                dict(n=n, m=m, nrows=R, ncols=C, nmax=n + q if q < 9 else None, mmax=min(n + q, abs(m) + q) if q < 9 else None)))
    for n, m in [(20, 3), (21, -21), (33, 16), (40, 0), (41, -1), (60, 30), (80, 80), (100, -5), (120, 61), (150, 3), (200, 0), (200, 150)] + ([(300, 1), (400, -40)] if T else []):
        out.append(Case('Y-n%d-m%d' % (n, m), harmonic, dict(n=n, m=m, nrows=n + 2, ncols=2 * abs(m) + 4, nmax=n, mmax=abs(m), tol=1e-10 if n < 60 else 1e-9)))
    return out
