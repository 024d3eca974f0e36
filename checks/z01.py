"""Z01 contents of the factories"""
from .run import Case

WHAT = ('zeros/ones/random factories of coefficients and patterns executed symbolically: constants read at symbolic n, m (row, column); random '
        'contents with the random numbers drawn, mu and sigma as solver variables: every entry is mu + sigma times a combination of the draws, and '
        'the combinations are orthonormal (so the entries are independent normal numbers of mean mu and deviation sigma).')
BOUNDS = ('constants: all 0 <= mmax <= nmax <= 6 (thorough 10), patterns with 2..7 rows and 2..8 columns; random: nmax <= 4 (thorough 6), patterns up to 5 x 6; '
          'unknown type numbers -4..6; every draw in [-3, 3] (patterns: [0.1, 3]), mu in [-2, 2], sigma in [0, 3]')
OUTSIDE = 'larger sizes; the distribution numpy.random draws from; the rows at the poles of random patterns (averaged to be consistent: D01)'
TRUSTED = ['numpy.random.normal and relatives return independent standard normal numbers']


def entries_c(h, c, nmax, mmax, vec):
    np = h.np
    if not vec:
        return h.vec_of(c, nmax, mmax)
    a, b = h.vecs_of(c, nmax, mmax)
    return np.concatenate([a[1:], b[1:]])


def entries_p(h, p, R, C, vec):
    np = h.np
    a = [p.theta, p.phi] if vec else [p.array]
    return np.concatenate([x[1:R - 1, :].reshape((R - 2) * C) for x in a])


def const_coefs(h, which, nmax, mmax, vec):
    sp = h.sp
    f = {'zeros': sp.zeros_coefs, 'ones': sp.ones_coefs}[which]
    w = 1.0 if which == 'ones' else 0.0
    c = f(nmax, mmax, *((sp.vector,) if vec else ()))
    h.true('sizes', c.nmax == nmax and c.mmax == mmax)
    n, m = h.int('n', 0, nmax), h.int('m', -mmax, mmax)
    h.constrain(h.andb(m <= n, -m <= n))
    if vec:
        if nmax == 0:
            return
        h.constrain(n >= 1)
        for v in c[n, m]:
            h.true('c[n,m] is %d' % w, v == w)
        c[n, m] = (h.cplx('x'), h.cplx('y'))
    else:
        h.true('c[n,m] is %d' % w, c[n, m] == w)
        c[n, m] = h.cplx('x')
    # the next one is not affected by what happened to the first
    c = f(nmax, mmax, sp.vector if vec else sp.scalar)
    e = entries_c(h, c, nmax, mmax, vec)
    h.same('all modes', e, h.np.zeros(e.shape[0], dtype=h.np.complex128) + w)


def const_patt(h, which, R, C, vec):
    sp = h.sp
    f = {'zeros': sp.zeros_patt_uniform, 'ones': sp.ones_patt_uniform}[which]
    w = 1.0 if which == 'ones' else 0.0
    want = h.np.zeros((R, C), dtype=h.np.complex128) + w
    for k in range(2):
        p = f(R, C, *((sp.vector,) if vec else () if k else (sp.scalar,)))
        h.true('sizes', p.nrows == R and p.ncols == C)
        for a in ([p.theta, p.phi] if vec else [p.array, p.cdata]):
            h.true('shape', tuple(a.shape) == (R, C))
            h.same('all samples', a, want)
        if not k:
            i, j = h.concrete(h.int('i', 0, R - 1)), h.concrete(h.int('j', 0, C - 1))
            for a in ([p.theta, p.phi] if vec else [p.array]):
                a[i, j] = 5 + 2j


def rnd(h, make, entries, musig):
    """make(mu, sigma) under given random numbers"""
    np = h.np
    x0, st = h.draws(None, lambda: entries(make(0.0, 1.0)))
    K, N = st.used, x0.shape[0]
    h.true('normal random numbers, from no fixed seed', st.kinds <= {'normal'})
    cols = []
    for k in range(K):
        d = np.zeros(K)
        d[k] = 1.0
        x, _ = h.draws(d, lambda: entries(make(0.0, 1.0)))
        cols.append(x - x0)
    A = [[complex(cols[k][i]) for k in range(K)] for i in range(N)]
    import numpy
    A = numpy.array(A).reshape(N, K)
    # real and imaginary parts of all entries
    B = numpy.concatenate([A.real, A.imag])
    w = h.reals('w', 2 * N)
    h.close('entries are uncorrelated, of deviation 1', h.lin(B @ B.T, w), w, 1e-9)
    # numbers without influence on the entries are fixed (they end at the poles of a pattern)
    d = h.reals('d', K, -3 if musig else 0.1, 3)
    for k in range(K):
        if not A[:, k].any():
            d[k] = 1.0
    x, _ = h.draws(d, lambda: entries(make(0.0, 1.0)))
    h.close('every entry a combination of the random numbers drawn', x, h.lin(A, d), 1e-9)
    if not musig:
        return
    for mu, sg in ((0.5, 2.0), (-1.75, 0.25)):
        x, _ = h.draws(d, lambda: entries(make(mu, sg)))
        h.close('mu + sigma * draw at mu = %g, sigma = %g' % (mu, sg), x, h.lin(A, d) * sg + (mu + mu * 1j), 1e-9)
    mu, sg = h.real('mu', -2, 2), h.real('sigma', 0, 3)
    for k in [None] + list(range(K)):
        e = np.zeros(K)
        if k is not None:
            e[k] = 1.0
        x, _ = h.draws(e, lambda: entries(make(mu, sg)))
        want = np.zeros(N, dtype=np.complex128) + mu + mu * 1j
        if k is not None:
            want = want + h.val(A[:, k].copy()) * sg
        h.close('mean mu and deviation sigma', x, want, 1e-9)


def random_coefs(h, nmax, mmax, vec):
    sp = h.sp

    def make(mu, sg):
        if isinstance(mu, float) and mu == 0.0 and not vec:
            c = sp.random_coefs(nmax, mmax)
        elif isinstance(mu, float) and mu == 0.0:
            c = sp.random_coefs(nmax, mmax, coef_type=sp.vector)
        else:
            c = sp.random_coefs(nmax, mmax, mu, sg, coef_type=sp.vector if vec else sp.scalar)
        h.true('sizes', c.nmax == nmax and c.mmax == mmax)
        return c
    rnd(h, make, lambda c: entries_c(h, c, nmax, mmax, vec), True)


def random_patt(h, R, C, vec):
    sp = h.sp

    def make(mu, sg):
        p = sp.random_patt_uniform(R, C, sp.vector) if vec else sp.random_patt_uniform(R, C)
        h.true('sizes', p.nrows == R and p.ncols == C)
        return p
    rnd(h, make, lambda p: entries_p(h, p, R, C, vec), False)


def unknown(h, which):
    sp = h.sp
    t = h.int('t', -4, 6)
    h.constrain(h.andb(t != 0, t != 1))
    t = h.concrete(t)
    f = getattr(sp, which)
    h.raises('unknown type is a TypeError', TypeError, lambda: f(4, 2, coef_type=t) if which.endswith('coefs') else f(4, 2, patt_type=t))


def cases(tier):
    T = tier == 'thorough'
    out = []
    for vec in (False, True):
        v = 'v' if vec else 's'
        for nmax in range(0, 11 if T else 7):
            for mmax in range(0, nmax + 1):
                for w in ('zeros', 'ones'):
                    out.append(Case('%s-%s-n%d-m%d' % (w, v, nmax, mmax), const_coefs, dict(which=w, nmax=nmax, mmax=mmax, vec=vec)))
                if (nmax or not vec) and nmax <= (6 if T else 4):
                    out.append(Case('random-%s-n%d-m%d' % (v, nmax, mmax), random_coefs, dict(nmax=nmax, mmax=mmax, vec=vec)))
        for R in range(2, 8):
            for C in range(2, 9, 2):
                for w in ('zeros', 'ones'):
                    out.append(Case('%s-%s-%dx%d' % (w, v, R, C), const_patt, dict(which=w, R=R, C=C, vec=vec)))
                if 2 < R <= 5 and C <= 6:
                    out.append(Case('random-%s-%dx%d' % (v, R, C), random_patt, dict(R=R, C=C, vec=vec)))
    for f in ('zeros_coefs', 'ones_coefs', 'random_coefs', 'zeros_patt_uniform', 'ones_patt_uniform', 'random_patt_uniform'):
        out.append(Case('unknown-' + f, unknown, dict(which=f)))
    return out
