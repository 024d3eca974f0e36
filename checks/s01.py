"""S01 inverse scalar transform = spherical-harmonic sum on the grid"""
from .run import Case
from .common import coef_vec

WHAT = ('Inverse scalar transforms (ispht with the C extension, ispht with the Python back end, ispht_slow) against the '
        'spherical-harmonic sum computed by an independent recurrence in extended precision.')
BOUNDS = ('coefficients: every entry a complex solver variable in [-1,1]^2 for nmax <= 11 (thorough 17), for larger sizes every '
          'entry a fixed multiple of one of 6 complex solver variables; sizes: all 0 <= mmax <= nmax, nrows = nmax+2..nmax+7 (thorough nmax+10), '
          'ncols = 2mmax+2..2mmax+10 (thorough 2mmax+18) at nmax <= 4, selected sizes up to nmax 256 (thorough 511); tolerance 1e-10 (1e-9 from nmax 60)')
OUTSIDE = 'larger sizes; rounding beyond the tolerance; coefficients of magnitude above 1 follow by linearity only'


def synth(h, nmax, mmax, nrows, ncols, kind='ispht', groups=None, store='plain', tol=1e-10):
    sp, ref, np = h.sp, h.ref, h.np
    if kind == 'py' and not h.use_cext(False):
        h.true('single back end', True)
        return
    N = h.ncoef(nmax, mmax)
    R = nmax + 2 if nrows is None else nrows
    C = 2 * mmax + 2 if ncols is None else ncols
    if store == 'real':
        v, W = h.reals('c', N), None
    else:
        v, W = coef_vec(h, 'c', N, groups)
    vec = v.copy()
    if store == 'stride':
        big = np.zeros(2 * N, dtype=np.complex128)
        big[::2] = v
        vec = big[::2]
    elif store == 'rev':
        big = np.zeros(N, dtype=np.complex128)
        big[::-1] = v
        vec = big[::-1]
    c = h.coefs(vec, nmax, mmax)
    if kind == 'slow':
        p = sp.ispht_slow(c, R, C)
    else:
        kw = {}
        if nrows is not None:
            kw['nrows'] = nrows
        if ncols is not None:
            kw['ncols'] = ncols
        p = sp.ispht(c, **kw)
    h.true('pattern size', p.nrows == R and p.ncols == C)
    if groups is None:
        want = h.lin(ref.scalar_synth(R, C, nmax, mmax, True), v).reshape((2 * R - 2, C))
    else:
        M = ref.synth_apply(R, C, nmax, mmax, W)
        want = h.lin(M.reshape(-1, groups), h_u(h, groups)).reshape((2 * R - 2, C))
    h.close('pattern = sum of harmonics', p.cdata, want[:R], tol)
    h.close('doubled sphere = sum of harmonics', p.doublesphere, want, tol)


def h_u(h, groups):
    """the free values behind coef_vec(groups)"""
    return h.inputs['c'][1] if h.symbolic else h.cplx('c', groups)


def cases(tier):
    out = []
    seen = set()

    def add(kind, n, m, R, C, **k):
        key = (kind, n, m, R, C, k.get('store'), k.get('groups'))
        if key in seen:
            return
        seen.add(key)
        name = '%s-n%d-m%d-%sx%s%s' % (kind, n, m, R or 'd', C or 'd', '-' + k['store'] if 'store' in k else '')
        c = Case(name, synth, dict(nmax=n, mmax=m, nrows=R, ncols=C, kind=kind, **k), timeout=900 if tier == 'thorough' else 300)
        c.weight = n * n
        out.append(c)
    T = tier == 'thorough'
    for n in range(0, 18 if T else 12):
        for m in range(0, n + 1):
            for kind in ('ispht', 'slow', 'py'):
                add(kind, n, m, None, None)
    for n in range(0, 5):
        for m in range(0, n + 1):
            for dr, dc in [(a, b) for a in range(9 if T else 6) for b in range(0, 18 if T else 10, 2)]:
                for kind in ('ispht', 'slow', 'py'):
                    add(kind, n, m, n + 2 + dr, 2 * m + 2 + dc)
    for n, m in ((2, 1), (3, 3), (4, 2)):
        for store in ('real', 'stride', 'rev'):
            for kind in ('ispht', 'slow', 'py'):
                add(kind, n, m, None, None, store=store)
        add('ispht', n, m, n + 3, None)
        add('ispht', n, m, None, 2 * m + 6)
    big = [(9, 4), (12, 12), (15, 3), (16, 16), (20, 11), (25, 25), (33, 1), (32, 32), (40, 7), (41, 41), (48, 0), (65, 5),
           (64, 64), (101, 2), (128, 20), (90, 90), (200, 10), (150, 60), (77, 33), (130, 1), (256, 0)]
    if T:
        big += [(128, 128), (300, 5), (180, 180), (220, 110), (400, 2), (57, 56), (99, 98), (511, 0)]
    for n, m in big:
        tol = 1e-10 if n < 60 else 1e-9
        add('ispht', n, m, None, None, groups=6, tol=tol)
        add('ispht', n, m, n + 2 + n % 5, 2 * m + 4 + 2 * (n % 3), groups=6, tol=tol)
        if n <= 25 or n <= (80 if T else 50):
            add('slow', n, m, n + 2, 2 * m + 2, groups=6, tol=tol)
            add('py', n, m, None, None, groups=6, tol=tol)
    return out
