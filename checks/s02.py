"""S02 forward scalar transform recovers coefficients"""
from .run import Case
from .common import coef_vec

WHAT = ('spht / spht_slow applied to the result of ispht / ispht_slow: the recovered coefficients as affine forms in the given ones; '
        'subset, superset and default sizes.')
BOUNDS = ('coefficients: every entry a complex solver variable in [-1,1]^2 for nmax <= 11 (thorough 17), for larger sizes every '
          'entry a fixed multiple of one of 6 complex solver variables; all 0 <= mmax <= nmax at small sizes with several grids, '
          'selected sizes up to nmax 200 (thorough 400); requested sizes below, equal to and above the content; tolerance 1e-10 (1e-9 from nmax 60)')
OUTSIDE = 'larger sizes; rounding beyond the tolerance'


def roundtrip(h, nmax, mmax, nrows, ncols, n2, m2, kind='fast', groups=None, tol=1e-10):
    sp, ref, np = h.sp, h.ref, h.np
    if kind == 'py' and not h.use_cext(False):
        h.true('single back end', True)
        return
    N = h.ncoef(nmax, mmax)
    v, W = coef_vec(h, 'c', N, groups)
    c = h.coefs(v.copy(), nmax, mmax)
    if kind == 'slow':
        p = sp.ispht_slow(c, nrows, ncols)
    else:
        kw = {}
        if nrows is not None:
            kw['nrows'] = nrows
        if ncols is not None:
            kw['ncols'] = ncols
        p = sp.ispht(c, **kw)
    if kind == 'slow':
        d = sp.spht_slow(p, n2, m2)
    elif n2 is None and m2 is None:
        d = sp.spht(p)
    elif m2 is None:
        d = sp.spht(p, nmax=n2)
    elif n2 is None:
        d = sp.spht(p, mmax=m2)
    else:
        d = sp.spht(p, n2, m2)
    en = p.nrows - 2 if n2 is None else n2
    em = (p.ncols // 2 - 1 if n2 is None else n2) if m2 is None else m2
    h.true('sizes', d.nmax == en and d.mmax == em)
    pos = {nm: k for k, nm in enumerate(ref.modes(nmax, mmax))}
    ms = ref.modes(en, em)
    want = np.zeros(len(ms), dtype=np.complex128)
    src = [(i, pos[nm]) for i, nm in enumerate(ms) if nm in pos]
    want[[i for i, _ in src]] = v[[k for _, k in src]]
    h.close('recovered = given', h.vec_of(d), want, tol)
    h.close('given coefficients unchanged', h.vec_of(c), v, 0.0)


def cases(tier):
    out = []
    seen = set()

    def add(kind, n, m, R, C, n2, m2, **k):
        key = (kind, n, m, R, C, n2, m2)
        if key in seen:
            return
        seen.add(key)
        c = Case('%s-n%d-m%d-%sx%s-to-%s-%s' % (kind, n, m, R or 'd', C or 'd', n2, m2), roundtrip,
                 dict(nmax=n, mmax=m, nrows=R, ncols=C, n2=n2, m2=m2, kind=kind, **k), timeout=900 if tier == 'thorough' else 300)
        c.weight = n * n
        out.append(c)
    T = tier == 'thorough'
    for n in range(0, 18 if T else 12):
        for m in range(0, n + 1):
            add('fast', n, m, None, None, None, None)
            add('fast', n, m, None, None, n, m)
            add('py', n, m, None, None, n, m)
            add('slow', n, m, n + 2, 2 * m + 2, n, m)
            if m == n:
                add('fast', n, m, None, None, n, None)
    for n in range(0, 8 if T else 5):
        for m in range(0, n + 1):
            for dr, dc in ((0, 2), (1, 0), (2, 6), (3, 4)):
                R, C = n + 2 + dr, 2 * m + 2 + dc
                for n2, m2 in ((n, m), (R - 2, min(C // 2 - 1, R - 2)), (max(n - 1, 0), min(m, max(n - 1, 0))), (n, max(m - 1, 0)), (1, 0)):
                    if n2 <= R - 2 and m2 <= C // 2 - 1 and m2 <= n2:
                        for kind in ('fast', 'py', 'slow'):
                            add(kind, n, m, R, C, n2, m2)
                if C // 2 - 1 <= R - 2:
                    add('fast', n, m, R, C, None, None)
                add('fast', n, m, R, C, None, min(m, R - 2))
    # fewer orders or degrees than the pattern holds
    for n, m in ((6, 2), (7, 7), (8, 5)) + (((10, 10), (12, 6)) if T else ()):
        for R, C in ((n + 2, 2 * m + 2), (n + 5, 2 * m + 6)):
            for n2 in range(0, n + 1):
                for m2 in sorted(set([0, 1, 2, m // 2, m - 1, m])):
                    if m2 <= min(n2, m):
                        add('fast', n, m, R, C, n2, m2)
                        if n2 in (m2, n):
                            add('slow', n, m, R, C, n2, m2)
                            add('py', n, m, R, C, n2, m2)
    big = [(9, 4), (12, 12), (15, 3), (16, 16), (20, 11), (25, 25), (33, 1), (32, 32), (40, 7), (41, 41), (48, 0), (64, 64), (65, 5),
           (90, 2), (128, 10), (200, 10), (77, 33), (130, 1), (180, 0), (101, 101)]
    if T:
        big += [(128, 128), (150, 60), (300, 4), (180, 180), (57, 56), (400, 0)]
    for n, m in big:
        tol = 1e-10 if n < 60 else 1e-9
        add('fast', n, m, None, None, n, m, groups=6, tol=tol)
        add('fast', n, m, n + 2 + n % 5, 2 * m + 4 + 2 * (n % 3), n, m, groups=6, tol=tol)
        add('fast', n, m, n + 2 + n % 5, 2 * m + 2, n - 3, min(m, n - 3), groups=6, tol=tol)
        add('fast', n, m, n + 5, 2 * m + 6, n + 3, m + 2, groups=6, tol=tol)
        if n <= 25 or n <= (80 if T else 50):
            add('slow', n, m, n + 2, 2 * m + 2, n, m, groups=6, tol=tol)
            add('py', n, m, None, None, n, m, groups=6, tol=tol)
    return out
