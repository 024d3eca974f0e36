"""B01 spherical Bessel functions of the second kind"""
from .run import Case

WHAT = ('sbessely, sbessely_array and the Hankel functions executed on a symbolic argument: x is a free real, sin(x) and cos(x) are free reals s, c with '
        's^2 + c^2 = 1, every result is a rational function of x, s, c; the claims are the identities with the recurrence.')
BOUNDS = 'every real x in [-100, 100] without 0; N = 1..30 (thorough 80); arrays of 1 to 4 free arguments; integer arguments and arrays of integers at selected values'
OUTSIDE = 'rounding, overflow; larger N'


def yref(h, x, N):
    s, c = h.np.sin(x), h.np.cos(x)
    y = [-c / x]
    if N > 1:
        y.append(-c / (x * x) - s / x)
    for n in range(2, N):
        y.append((2 * n - 1) / x * y[n - 1] - y[n - 2])
    return y


def nb(y, n):
    return y[max(0, n - 1):n + 1]


def arg(h, name, neg):
    x = h.ratvar(name, -100, 0) if neg else h.ratvar(name, 0, 100)
    h.assume(x != 0)
    return x


def yn(h, N, neg):
    x = arg(h, 'x', neg)
    sb = h.mod('sbessel')
    y = sb.sbessely(x, N)
    h.true('N values', y.shape == (N,))
    r = yref(h, x, N)
    for n in range(N):
        h.rel('y_%d' % n, y[n], r[n], scale=nb(r, n))


def array(h, N, k):
    sb = h.mod('sbessel')
    xs = [arg(h, 'x%d' % i, i % 2) for i in range(k)]
    a = sb.sbessely_array(xs, N)
    h.true('one column per argument', a.shape == (N, k))
    for i, x in enumerate(xs):
        r = yref(h, x, N)
        for n in range(N):
            h.rel('y_%d(x_%d)' % (n, i), a[n, i], r[n], scale=nb(r, n))


def ints(h, N, k):
    """integer arguments"""
    sb = h.mod('sbessel')
    xs = [h.int('x%d' % i, 1, 50) for i in range(k)]
    a = sb.sbessely_array(xs, N)
    h.true('one column per argument', a.shape == (N, k))
    for i, x in enumerate(xs):
        r, v = sb.sbessely(x + 0.0, N), sb.sbessely(x, N)
        for n in range(N):
            h.close('y_%d(x_%d), integer argument' % (n, i), a[n, i], r[n], 1e-9)
            h.close('y_%d, integer argument' % n, v[n], r[n], 1e-9)


def cases(tier):
    out = []
    for N in list(range(1, 31)) + ([40, 60, 80] if tier == 'thorough' else []):
        for neg in (0, 1):
            out.append(Case('yn-%d-%s' % (N, 'neg' if neg else 'pos'), yn, dict(N=N, neg=neg)))
    for N in (1, 2, 3, 5):
        for k in (1, 2):
            out.append(Case('ints-%d-%d' % (N, k), ints, dict(N=N, k=k)))
    for N in (1, 2, 3, 6) + ((20,) if tier == 'thorough' else ()):
        for k in (1, 2, 3, 4):
            out.append(Case('array-%d-%d' % (N, k), array, dict(N=N, k=k)))
    return out
