"""V02 forward vector transform recovers coefficients"""
from .run import Case
from .common import weights

WHAT = 'vspht applied to the result of vispht: recovered coefficients as affine forms in the given ones; subset, superset and default sizes.'
BOUNDS = ('coefficients: both components of every mode complex solver variables in [-1,1]^2 for nmax <= 9 (thorough 13), for larger sizes '
          'every entry a fixed multiple of one of 4+4 complex variables; selected sizes up to nmax 130 (thorough 250); requested sizes below, '
          'equal to and above the content; tolerance 1e-10 (1e-9 from nmax 60)')
OUTSIDE = 'larger sizes; rounding beyond the tolerance'


def roundtrip(h, nmax, mmax, nrows, ncols, n2, m2, kind='fast', groups=None, tol=1e-10):
    sp, ref, np = h.sp, h.ref, h.np
    if kind == 'py' and not h.use_cext(False):
        h.true('single back end', True)
        return
    N = h.ncoef(nmax, mmax)
    if groups is None:
        v1, v2 = h.cplx('a', N), h.cplx('b', N)
    else:
        v1, v2 = h.lin(weights(N, groups, 1), h.cplx('a', groups)), h.lin(weights(N, groups, 2), h.cplx('b', groups))
    c = h.vcoefs(v1.copy(), v2.copy(), nmax, mmax)
    kw = {}
    if nrows is not None:
        kw['nrows'] = nrows
    if ncols is not None:
        kw['ncols'] = ncols
    p = sp.vispht(c, **kw)
    kw = {}
    if n2 is not None:
        kw['nmax'] = n2
    if m2 is not None:
        kw['mmax'] = m2
    d = sp.vspht(p, **kw)
    en = p.nrows - 2 if n2 is None else n2
    em = (p.ncols // 2 - 1 if n2 is None else n2) if m2 is None else m2
    h.true('sizes', d.nmax == en and d.mmax == em)
    pos = {nm: k for k, nm in enumerate(ref.modes(nmax, mmax)) if nm[0]}
    ms = ref.modes(en, em)
    src = [(i, pos[nm]) for i, nm in enumerate(ms) if nm in pos]
    gi, gv = [i for i, _ in src], [k for _, k in src]
    d1, d2 = h.vecs_of(d)
    for name, got, v in (('first', d1, v1), ('second', d2, v2)):
        want = np.zeros(len(ms), dtype=np.complex128)
        want[gi] = v[gv]
        h.close('%s component recovered' % name, got, want, tol)
    h.close('monopole of the first component', d.scoef1[0, 0], 0.0, 0.0)
    h.close('monopole of the second component', d.scoef2[0, 0], 0.0, 0.0)


def cases(tier):
    out = []
    seen = set()

    def add(kind, n, m, R, C, n2, m2, **k):
        key = (kind, n, m, R, C, n2, m2)
        if key in seen:
            return
        seen.add(key)
        c = Case('%s-n%d-m%d-%sx%s-to-%s-%s' % (kind, n, m, R or 'd', C or 'd', n2, m2), roundtrip,
                 dict(nmax=n, mmax=m, nrows=R, ncols=C, n2=n2, m2=m2, kind=kind, **k), timeout=900 if tier == 'thorough' else 300)
        c.weight = n * n
        out.append(c)
    T = tier == 'thorough'
    for n in range(1, 14 if T else 10):
        for m in range(0, n + 1):
            add('fast', n, m, None, None, None, None)
            add('fast', n, m, None, None, n, m)
            add('py', n, m, None, None, n, m)
            if m == n:
                add('fast', n, m, None, None, n, None)
    for n in range(1, 8 if T else 5):
        for m in range(0, n + 1):
            for dr, dc in ((0, 2), (1, 0), (2, 6), (3, 4)):
                R, C = n + 2 + dr, 2 * m + 2 + dc
                for n2, m2 in ((n, m), (R - 2, min(C // 2 - 1, R - 2)), (max(n - 1, 0), min(m, max(n - 1, 0))), (n, max(m - 1, 0)), (1, 0)):
                    if n2 <= R - 2 and m2 <= C // 2 - 1 and m2 <= n2:
                        for kind in ('fast', 'py'):
                            add(kind, n, m, R, C, n2, m2)
                if C // 2 - 1 <= R - 2:
                    add('fast', n, m, R, C, None, None)
                add('fast', n, m, R, C, None, min(m, R - 2))
    # fewer orders or degrees than the pattern holds
    for n, m in ((6, 2), (7, 7)) + (((10, 10), (12, 6)) if T else ()):
        for R, C in ((n + 2, 2 * m + 2), (n + 5, 2 * m + 6)):
            for n2 in range(1, n + 1):
                for m2 in sorted(set([0, 1, 2, m // 2, m - 1, m])):
                    if m2 <= min(n2, m):
                        add('fast', n, m, R, C, n2, m2)
                        if n2 in (m2, n):
                            add('py', n, m, R, C, n2, m2)
    big = [(9, 4), (12, 12), (15, 3), (16, 16), (20, 11), (25, 25), (33, 1), (32, 32), (40, 7), (48, 0), (65, 5), (101, 2), (64, 64), (77, 33), (130, 1)]
    if T:
        big += [(90, 90), (150, 10), (128, 128), (57, 56), (250, 0)]
    for n, m in big:
        tol = 1e-10 if n < 60 else 1e-9
        add('fast', n, m, None, None, n, m, groups=4, tol=tol)
        add('fast', n, m, n + 2 + n % 5, 2 * m + 4 + 2 * (n % 3), n, m, groups=4, tol=tol)
        add('fast', n, m, n + 2 + n % 5, 2 * m + 2, n - 3, min(m, n - 3), groups=4, tol=tol)
        add('fast', n, m, n + 5, 2 * m + 6, n + 3, m + 2, groups=4, tol=tol)
        if n <= 25 or n <= (80 if T else 40):
            add('py', n, m, None, None, n, m, groups=4, tol=tol)
    return out
