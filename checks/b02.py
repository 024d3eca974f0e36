"""B02 spherical Bessel functions of the first kind"""
from fractions import Fraction
from .run import Case
from .b01 import yref

WHAT = ('sbesselj (with its continued fraction unrolled until the solver shows that the loop has ended), the arrays and the Hankel functions executed on '
        'a symbolic real x, with sin(x), cos(x) free reals s^2 + c^2 = 1; results are rational functions of x, s, c; the claims are polynomial '
        'inequalities decided for every x of an interval: j_0 = s/x, j_1, and the ratios j_n/j_(n-1) against the downward recurrence from far above.')
BOUNDS = ('x in [-LIM, -0.001] and [0.001, LIM], cut into intervals; quick: LIM = 1.5 for N <= 3, 1 for '
          'N <= 6, 0.5 for N <= 10; thorough: LIM = 8, N <= 20; larger and integer arguments at selected points (sin and cos free), Hankel functions there up to N = 65 (thorough 120); relative tolerance 1e-10')
OUTSIDE = 'larger |x|; rounding inside the loops; the value of sin and cos beyond s^2 + c^2 = 1'
TOL = 1e-10


def series(x, n):
    """j_n(x) in rational arithmetic"""
    x = Fraction(x)
    P = 10 ** 120
    t = Fraction(1)
    for k in range(n + 1):
        t = t * (x if k < n else 1) / (2 * k + 1)
    s, k = Fraction(0), 0
    while t:
        s += t
        k += 1
        t = t * (-x * x / 2) / (k * (2 * n + 2 * k + 1))
        t = Fraction(round(t * P), P)
    return float(s)


def ladder(x, nmax, K):
    """f_n proportional to j_n, n = 0..nmax, from nmax + K downward"""
    a, b = 0, 1
    f = {nmax + K: 1}
    for n in range(nmax + K, 0, -1):
        a, b = b, (2 * n + 1) / x * b - a
        if n - 1 <= nmax:
            f[n - 1] = b
    return [f[n] for n in range(nmax + 1)]


def check_j(h, x, j, N, K, tag=''):
    h.true(tag + 'N values', j.shape == (N,))
    s, c = h.np.sin(x), h.np.cos(x)
    if not h.symbolic:
        r = [series(x, n) for n in range(N + 1)]
        for n in range(N):
            h.rel(tag + 'j_%d' % n, j[n], r[n], 2e-11, scale=r[max(0, n - 1):n + 2])
        return
    h.rel(tag + 'j_0', j[0], s / x)
    if N == 1:
        return
    f = ladder(x, N - 1, K)
    # j_1 is either the formula or the ratio times j_0
    d = j[1] - (s / x - c) / x
    e = j[1] * f[0] - j[0] * f[1]
    t = TOL * TOL
    h.true(tag + 'j_1', h.orb(d * d <= t * (j[0] * j[0] + j[1] * j[1]),
                              e * e <= t * (j[0] * j[0] + j[1] * j[1]) * (f[0] * f[0] + f[1] * f[1])))
    for n in range(2, N):
        u, v = j[n], j[n - 1]
        q = u / v if not h.known_zero(v) else None
        if q is None:
            continue
        # |q - f_n/f_(n-1)| small against 1 + |q|
        e = q * f[n - 1] - f[n]
        h.true(tag + 'j_%d / j_%d' % (n, n - 1), e * e <= t * (1 + q * q) * (f[n] * f[n] + f[n - 1] * f[n - 1]))


def depth(hi, nmax):
    """terms after nmax until the continued fraction has converged for |x| <= hi"""
    k, p = 0, 1.0
    while p > 1e-13 or k < 2:
        k += 1
        p *= (hi / (2.0 * (nmax + k) + 1)) ** 2 if hi < 2 * (nmax + k) + 1 else 1
    return k + 1


def interval(h, name, lo, hi):
    return h.ratvar(name, lo, hi)


def jn(h, N, lo, hi):
    h.branch_timeout(20000)
    x = interval(h, 'x', lo, hi)
    j = h.mod('sbessel').sbesselj(x, N)
    check_j(h, x, j, N, depth(max(abs(lo), abs(hi)), N - 1))


def point(h, N, x0):
    """fixed argument, every value of its sine and cosine"""
    h.branch_timeout(20000)
    x = h.ratpoint('x', x0)
    j = h.mod('sbessel').sbesselj(x, N)
    check_j(h, x, j, N, int(1.5 * abs(x0)) + 60)


def array(h, N, k):
    sb = h.mod('sbessel')
    xs = [interval(h, 'x%d' % i, *[(0.5, 0.6), (-0.3, -0.2), (1.0, 1.1)][i]) for i in range(k)]
    a = sb.sbesselj_array(xs, N)
    h.true('one column per argument', a.shape == (N, k))
    for i, x in enumerate(xs):
        check_j(h, x, a[:, i], N, depth(1.2, N - 1), 'column %d: ' % i)


def ints(h, N, k):
    """integer arguments"""
    sb = h.mod('sbessel')
    xs = [h.concrete(h.int('x%d' % i, 1, 6)) for i in range(k)]
    a = sb.sbesselj_array(xs, N)
    h.true('one column per argument', a.shape == (N, k))
    for i, x in enumerate(xs):
        r, v = sb.sbesselj(x + 0.0, N), sb.sbesselj(x, N)
        for n in range(N):
            h.close('j_%d(x_%d), integer argument' % (n, i), a[n, i], r[n], 1e-9)
            h.close('j_%d, integer argument' % n, v[n], r[n], 1e-9)


def hankel(h, N, kind, lo, hi):
    sb = h.mod('sbessel')
    x = interval(h, 'x', lo, hi)
    g = (sb.sbesselh1 if kind == 1 else sb.sbesselh2)(x, N)
    h.true('N values', g.shape == (N,))
    j, y = sb.sbesselj(x, N), sb.sbessely(x, N)
    r = yref(h, x, N)
    for n in range(N):
        h.rel('y_%d' % n, y[n], r[n], scale=r[max(0, n - 1):n + 1])
    if not h.symbolic:
        for n in range(N):
            sc = abs(j[n]) + abs(y[n])
            h.true('h_%d' % n, bool(abs(g[n] - (j[n] + (1j if kind == 1 else -1j) * y[n])) <= 1e-12 * sc))
        return
    for n in range(N):
        h.true('h_%d real part = j_%d' % (n, n), g[n].real == j[n])
        h.true('h_%d imaginary part' % n, g[n].imag == (y[n] if kind == 1 else -y[n]))


def hpoint(h, N, kind, x0):
    """many orders at a fixed argument, every value of its sine and cosine"""
    sb = h.mod('sbessel')
    h.branch_timeout(20000)
    x = h.ratpoint('x', x0)
    g = (sb.sbesselh1 if kind == 1 else sb.sbesselh2)(x, N)
    h.true('N values', g.shape == (N,))
    j, y = sb.sbesselj(x, N), sb.sbessely(x, N)
    for n in range(N):
        if h.symbolic:
            h.true('h_%d real part = j_%d' % (n, n), g[n].real == j[n])
            h.true('h_%d imaginary part' % n, g[n].imag == (y[n] if kind == 1 else -y[n]))
        else:
            h.true('h_%d' % n, bool(abs(g[n] - (j[n] + (1j if kind == 1 else -1j) * y[n])) <= 1e-12 * (abs(j[n]) + abs(y[n]))))


def cases(tier):
    out = []
    T = tier == 'thorough'
    cuts = [0.001, 0.25, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0] + ([k / 2.0 for k in range(7, 17)] if T else [])
    for N in list(range(1, 11)) + ([12, 15, 20] if T else []):
        for lo, hi in zip(cuts, cuts[1:]):
            for s in (1, -1):
                if not T and (hi > (1.5 if N <= 3 else 1 if N <= 6 else 0.5) or s < 0 and hi not in (0.25, 1.0)):
                    continue
                a, b = (lo, hi) if s == 1 else (-hi, -lo)
                out.append(Case('jn-%d-[%g,%g]' % (N, a, b), jn, dict(N=N, lo=a, hi=b), timeout=3000 if T else 400))
    for N in (2, 3, 6, 10, 20, 40) + ((60, 80) if T else ()):
        for x0 in (0.5 ** 10, -2.5, 7.0, -20.25, 60.0, 100.0) + ((0.5 ** 27, 13.5, -200.0, 400.0) if T else ()):
            out.append(Case('point-%d-%g' % (N, x0), point, dict(N=N, x0=x0), timeout=900 if T else 300))
    for N in (1, 2, 5):
        for k in (1, 2):
            out.append(Case('ints-%d-%d' % (N, k), ints, dict(N=N, k=k)))
    for N in (1, 2, 3, 5):
        for k in (1, 2, 3):
            if not T and N * k > 6:
                continue
            out.append(Case('array-%d-%d' % (N, k), array, dict(N=N, k=k), timeout=300))
        for kind in (1, 2) if T or N < 3 else ():
            out.append(Case('hankel-%d-%d' % (N, kind), hankel, dict(N=N, kind=kind, lo=0.5, hi=0.75), timeout=300))
            out.append(Case('hankel-%d-%d-neg' % (N, kind), hankel, dict(N=N, kind=kind, lo=-0.75, hi=-0.5), timeout=300))
    for N in (4, 11, 25, 45, 65) + ((90, 120) if T else ()):
        for x0 in (0.75, -30.5, 60.0):
            for kind in (1, 2):
                out.append(Case('hankel-%d-%d-at%g' % (N, kind, x0), hpoint, dict(N=N, kind=kind, x0=x0), timeout=900 if T else 300))
    return out
