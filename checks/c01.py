"""C01 one storage place per mode"""
from .run import Case

WHAT = ('c[n,m] and c[n,m] = value of scalar and vector coefficient objects executed with symbolic n and m (and, in the size-* cases, '
        'symbolic nmax and mmax over storage of symbolic length held in SMT arrays).')
BOUNDS = ('size-* cases: all 0 <= mmax <= nmax <= 12 (thorough 24), all n, m within 3 of the valid range, arbitrary content; content cases: every '
          'mode free, nmax <= 3 (thorough 5)')
OUTSIDE = 'larger sizes; index types other than int'


def valid(h, n, m, nmax, mmax):
    return h.andb(n >= 0, n <= nmax, m <= n, -m <= n, m <= mmax, -m <= mmax)


def get(h, c, n, m, vec):
    """value(s) of a mode or None when rejected with AttributeError"""
    try:
        v = c[n, m]
    except AttributeError:
        return None
    return v if vec else (v,)


def sizes(h, N, m, vec):
    """symbolic nmax, mmax; one write, one read"""
    nmax, mmax = h.int('nmax', 0, N), h.int('mmax', 0, N)
    h.constrain(mmax <= nmax)
    n, n2, m2 = h.int('n', -2, N + 3), h.int('n2', -2, N + 3), h.int('m2', -N - 3, N + 3)
    v = h.symvec('v', nmax, mmax)
    c = h.vcoefs(v, h.symvec('u', nmax, mmax), nmax, mmax) if vec else h.coefs(v, nmax, mmax)
    h.true('size', c.size == nmax + 1 + mmax * (2 * nmax + 1 - mmax))
    ok2 = valid(h, n2, m2, nmax, mmax)
    ok = valid(h, n, m, nmax, mmax)
    if vec:
        ok2, ok = h.andb(ok2, n2 > 0), h.andb(ok, n > 0)
    old = get(h, c, n2, m2, vec)
    h.iff('readable exactly when the mode exists', ok2, old is not None)
    w = tuple(h.cplx('w%d' % i) for i in range(2 if vec else 1))
    try:
        c[n, m] = w if vec else w[0]
        acc = True
    except AttributeError:
        acc = False
    h.iff('assignable exactly when the mode exists', ok, acc)
    if old is None:
        return
    new = get(h, c, n2, m2, vec)
    h.true('still readable', new is not None)
    hit = h.andb(acc, n == n2, m == m2)
    for i in range(len(w)):
        for part in ('real', 'imag'):
            a, b, o = (getattr(x, part) for x in (new[i], w[i], old[i]))
            h.true('read returns the last assignment, other modes unchanged',
                   h.orb(h.andb(hit, a == b), h.andb(h.notb(hit), a == o)))


def content(h, nmax, mmax, vec):
    """every mode free; symbolic write position; all modes read"""
    np = h.np
    N = h.ncoef(nmax, mmax)
    v, u = h.cplx('v', N), h.cplx('u', N)
    c = h.vcoefs(v.copy(), u.copy(), nmax, mmax) if vec else h.coefs(v.copy(), nmax, mmax)
    ms = [p for p in h.ref.modes(nmax, mmax) if p[0] or not vec]
    h.true('number of modes', len(ms) == c.size - (1 if vec else 0))
    h.true('sizes', c.nmax == nmax and c.mmax == mmax)
    n, m = h.int('n', -2, nmax + 2), h.int('m', -mmax - 2, mmax + 2)
    w = (h.cplx('w0'), h.cplx('w1'))
    rd = lambda: [x for p in ms for x in (c[p] if vec else (c[p],))]
    old = rd()
    try:
        c[n, m] = w if vec else w[0]
        acc = True
    except AttributeError:
        acc = False
    ok = valid(h, n, m, nmax, mmax)
    h.iff('assignable exactly when the mode exists', h.andb(ok, n > 0) if vec else ok, acc)
    new = rd()
    k = 2 if vec else 1
    for i, p in enumerate(ms):
        hit = bool(h.andb(n == p[0], m == p[1])) and acc
        for j in range(k):
            h.same('mode %s' % (p,), h.np.array([new[k * i + j]]), h.np.array([w[j] if hit else old[k * i + j]]))


def fill(h, nmax, mmax, vec):
    """writing every mode in a scrambled order and reading all of them"""
    sp = h.sp
    c = sp.zeros_coefs(nmax, mmax, sp.vector if vec else sp.scalar)
    ms = [p for p in h.ref.modes(nmax, mmax) if p[0] or not vec]
    N = len(ms)
    w, x = h.cplx('w', max(N, 1)), h.cplx('x', max(N, 1))
    for i in sorted(range(N), key=lambda i: (i * 37 + 11) % 101):
        c[ms[i]] = (w[i], x[i]) if vec else w[i]
    for i, p in enumerate(ms):
        g = c[p] if vec else (c[p],)
        for j, a in enumerate(g):
            h.same('mode %s' % (p,), h.np.array([a]), h.np.array([(w, x)[j][i]]))


def cases(tier):
    out = []
    T = tier == 'thorough'
    N = 24 if T else 12
    for vec in (0, 1):
        for m in range(-N - 1, N + 2):
            c = Case('size-%s-m%d' % ('sv'[vec], m), sizes, dict(N=N, m=m, vec=vec), timeout=3000 if T else 300, max_paths=50000)
            c.weight = abs(m)
            out.append(c)
        for nmax in range(0, 6 if T else 4):
            for mmax in range(0, nmax + 1):
                out.append(Case('content-%s-n%d-m%d' % ('sv'[vec], nmax, mmax), content, dict(nmax=nmax, mmax=mmax, vec=vec)))
        for nmax in range(vec, 13 if T else 9):
            for mmax in range(0, nmax + 1):
                out.append(Case('fill-%s-n%d-m%d' % ('sv'[vec], nmax, mmax), fill, dict(nmax=nmax, mmax=mmax, vec=vec)))
    return out
