"""D01 patterns keep their samples and carry the symmetry"""
from .run import Case
from .common import lemmas

WHAT = ('pattern constructors executed on grids of IEEE doubles (SMT floating point) and of free reals; the inverse transforms and factories (normal '
        'random draws as free variables) executed symbolically.')
BOUNDS = ('IEEE grids 2..4 x 2..6 (thorough 2..6 x 2..8) with all finite samples of magnitude <= 1e300, pole rows consistent or free; zero samples '
          'at selected places and, on 2 x 2 and 3 x 2 grids, anywhere; real grids up to 12 x 12; other storage orders, and other element types with fixed values; inverse transforms nmax <= 4 with every mode free, up to nmax 20 with '
          '5 free combinations')
OUTSIDE = 'nan, infinities and magnitudes above 1e300; larger grids'
ASSUMES = ['IEEE addition rounded to nearest commutes with negation (lemma decided for half precision; all other identities used are decided for doubles)',
           'random draws are finite reals (np.random.normal)']

OTHER = {1: 'scalar', -1: 'vector'}


def build(h, a, b, sym, **kw):
    if sym == 1:
        p = h.sp.ScalarPatternUniform(a.copy(), **kw)
        return p, [(p.doublesphere, p.array, p.cdata, a)]
    p = h.sp.TransversePatternUniform(a.copy(), b.copy(), **kw)
    t, q = p.doublesphere
    x, y = p.array
    return p, [(p.theta_double, p.theta, x, a), (p.phi_double, p.phi, y, b), (t, p.theta, x, a), (q, p.phi, y, b)]


def eq(h, u, v):
    """numerically equal complex values"""
    return h.andb(u.real == v.real, u.imag == v.imag) if h.symbolic else (u == v)


def symmetric(h, d, R, C, sym, label='symmetry'):
    D = 2 * R - 2
    h.true('doubled rows', tuple(d.shape) == (D, C))
    for i in range(D):
        for j in range(C):
            u, v = d[(D - i) % D, (j + C // 2) % C], d[i, j]
            h.true('%s at %d,%d' % (label, i, j), eq(h, u, v if sym == 1 else -v))


def grid(h, name, R, C, sym, poles, zero, nz=True):
    """IEEE grid; poles: 'consistent', 'free'"""
    np = h.np
    x = h.ieee(name, R * C, cx=True, bound=1e300, nonzero=nz)
    a = np.zeros((R, C), dtype=np.complex128)
    for i in range(R):
        for j in range(C):
            a[i, j] = x[i * C + j]
    if poles == 'consistent':
        for i in (0, R - 1):
            for j in range(C // 2):
                v = a[i, j]
                a[i, j + C // 2] = v if sym == 1 else -v
    if zero == 'pairs':
        # consistent poles with zero parts, a different kind at each pair
        for k, (i, j) in enumerate([(i, j) for j in range(C // 2) for i in (0, R - 1)]):
            z = -0.0 if k // 3 % 2 else 0.0
            v = a[i, j]
            v = h.mkcomplex(z, v.imag) if k % 3 == 0 else h.mkcomplex(v.real, z) if k % 3 == 1 else h.mkcomplex(z, 0.0)
            a[i, j] = v
            a[i, j + C // 2] = v if sym == 1 else -v
        return a
    for k, (i, j) in enumerate(zero or []):
        z = 0.0 if k % 2 else -0.0
        a[i, j] = h.mkcomplex(z, 0.0) if k % 3 == 0 else (h.mkcomplex(z, a[i, j].imag) if k % 3 == 1 else h.mkcomplex(a[i, j].real, z))
    return a


def ieee(h, R, C, sym, poles, zero=None, nz=True):
    a = grid(h, 'x', R, C, sym, poles, zero, nz)
    b = grid(h, 'y', R, C, sym, poles, None, nz) if sym == -1 else None
    p, views = build(h, a, b, sym)
    h.true('shape', (p.nrows, p.ncols) == (R, C) and tuple(p.shape) == (R, C))
    for d, front, alias, src in views[:1 if sym == 1 else 2]:
        for i in range(R):
            if i in (0, R - 1) and poles != 'consistent':
                continue
            for j in range(C):
                h.true('sample %d,%d kept' % (i, j), eq(h, front[i, j], src[i, j]))
        symmetric(h, d, R, C, sym)


def stored(h, R, C, sym, kind):
    """other element types (fixed values) and storage orders of the given grid"""
    np = h.np
    if kind in ('fortran', 'stride', 'reversed', 'real'):
        n = R * C
        mk = h.reals if kind == 'real' else h.cplx
        a, b = mk('x', n, 0.1, 1), mk('y', n, 0.1, 1)
        if kind == 'fortran':
            a, b = [v.reshape((C, R)).T for v in (a, b)]
        elif kind == 'stride':
            c = np.zeros((2 * R, 2 * C), dtype=np.complex128)
            d = np.zeros((2 * R, 2 * C), dtype=np.complex128)
            c[::2, ::2], d[::2, ::2] = a.reshape((R, C)), b.reshape((R, C))
            a, b = c[::2, ::2], d[::2, ::2]
        else:
            a, b = a.reshape((R, C)), b.reshape((R, C))
            if kind == 'reversed':
                a, b = a[::-1, ::-1], b[::-1, ::-1]
        cls = h.sp.ScalarPatternUniform if sym == 1 else h.sp.TransversePatternUniform
        p = cls(a) if sym == 1 else cls(a, b)
    else:
        v = [[(37 * (i * C + j) + 200) % (128 if kind == 'int8' else 256) if (i + j) % 3 else 0 for j in range(C)] for i in range(R)]
        for i in (0, R - 1):
            for j in range(C // 2):
                v[i][j + C // 2] = v[i][j] if sym == 1 else (0 if kind in ('uint8', 'bool') else -v[i][j])
                if sym == -1 and kind in ('uint8', 'bool'):
                    v[i][j] = 0
        a = np.array(v, dtype=getattr(np, kind) if kind != 'bool' else bool)
        b = a
        cls = h.sp.ScalarPatternUniform if sym == 1 else h.sp.TransversePatternUniform
        p = cls(a) if sym == 1 else cls(a, b)
    src = [np.array(a, dtype=np.complex128)] + ([np.array(b, dtype=np.complex128)] if sym == -1 else [])
    ds = [(p.doublesphere, p.array)] if sym == 1 else [(p.theta_double, p.theta), (p.phi_double, p.phi)]
    for (d, front), s in zip(ds, src):
        fixed = kind not in ('fortran', 'stride', 'reversed', 'real')
        r = slice(None) if fixed else slice(1, R - 1)
        h.close('samples kept', np.array(front, dtype=np.complex128)[r, :], s[r, :], 0)
        D = 2 * R - 2
        h.true('doubled rows', tuple(d.shape) == (D, C))
        m = np.zeros((D, C), dtype=np.complex128)
        for i in range(D):
            for j in range(C):
                m[i, j] = d[(D - i) % D, (j + C // 2) % C] * sym
        h.close('symmetry', m, np.array(d, dtype=np.complex128), 1e-14)


def real(h, R, C, sym):
    """free reals (samples between 0.1 and 1, so that the zero tests do not split the path)"""
    np = h.np
    a, b = h.cplx('x', R * C, 0.1, 1).reshape((R, C)), h.cplx('y', R * C, 0.1, 1).reshape((R, C))
    p, views = build(h, a, b, sym)
    h.true('shape', (p.nrows, p.ncols) == (R, C))
    for d, front, alias, src in views:
        h.close('front rows', front[1:R - 1, :], src[1:R - 1, :], 0)
        h.same('views agree', front, alias)
        h.same('front = first rows of the doubled sphere', front, d[0:R, :])
        D = 2 * R - 2
        h.true('doubled rows', tuple(d.shape) == (D, C))
        m = np.zeros((D, C), dtype=np.complex128)
        for i in range(D):
            for j in range(C):
                m[i, j] = d[(D - i) % D, (j + C // 2) % C] * sym
        h.close('symmetry', m, d, 1e-14)
        for i in (0, R - 1):
            w = np.zeros(C, dtype=np.complex128)
            for j in range(C):
                w[j] = (src[i, j] + sym * src[i, (j + C // 2) % C]) / 2
            h.close('pole row = its symmetric part', front[i, :], w, 1e-14)


def given(h, R, C, sym):
    """doublesphere=True keeps the given array"""
    D = 2 * R - 2
    a, b = h.cplx('x', D * C).reshape((D, C)), h.cplx('y', D * C).reshape((D, C))
    p, views = build(h, a, b, sym, doublesphere=True)
    h.true('shape', (p.nrows, p.ncols) == (R, C))
    for d, front, alias, src in views:
        h.same('doubled sphere as given', d, src)
        h.same('front', front, src[0:R, :])
        h.same('front', alias, src[0:R, :])


def factory(h, which, R, C, sym):
    sp, np = h.sp, h.np
    if which == 'random' and not h.symbolic:
        np.random.seed(5)
    if which == 'random' and h.symbolic and (R, C) != (2, 2):
        # zero samples are a case of their own (2 x 2)
        h.ctx.flags['rand_range'] = (0.1, 8)
    f = {'zeros': sp.zeros_patt_uniform, 'ones': sp.ones_patt_uniform, 'random': sp.random_patt_uniform}[which]
    p = f(R, C, sp.scalar if sym == 1 else sp.vector)
    h.true('shape', (p.nrows, p.ncols) == (R, C))
    ds = [p.doublesphere] if sym == 1 else [p.theta_double, p.phi_double]
    D = 2 * R - 2
    for d in ds:
        h.true('doubled rows', tuple(d.shape) == (D, C))
        if which != 'random':
            h.same('values', d[1:R - 1, :], np.zeros((R - 2, C), dtype=np.complex128) + (1 if which == 'ones' else 0))
        if which == 'ones' and sym == -1 and h.known_finding('ones-vector-symmetry'):
            continue
        m = np.zeros((D, C), dtype=np.complex128)
        for i in range(D):
            for j in range(C):
                m[i, j] = d[(D - i) % D, (j + C // 2) % C] * sym
        h.close('symmetry', m, d, 1e-13)


def inverse(h, nmax, mmax, R, C, sym, groups=None):
    from .common import coef_vec
    sp, np = h.sp, h.np
    N = h.ncoef(nmax, mmax)
    v, _ = coef_vec(h, 'v', N, groups)
    if sym == 1:
        p = sp.ispht(h.coefs(v.copy(), nmax, mmax), R, C)
        ds = [p.doublesphere]
    else:
        w, _ = coef_vec(h, 'w', N, groups, 2)
        p = sp.vispht(h.vcoefs(v.copy(), w.copy(), nmax, mmax), R, C)
        ds = [p.theta_double, p.phi_double]
    D = 2 * R - 2
    h.true('shape', (p.nrows, p.ncols) == (R, C))
    for d in ds:
        m = np.zeros((D, C), dtype=np.complex128)
        for i in range(D):
            for j in range(C):
                m[i, j] = d[(D - i) % D, (j + C // 2) % C] * sym
        h.close('symmetry', m, d, 1e-10)


def cases(tier):
    out = [Case('ieee-lemmas', lemmas)]
    T = tier == 'thorough'
    for sym in (1, -1):
        s = OTHER[sym][0]
        for R in range(2, 7 if T else 5):
            for C in range(2, 9 if T else 7, 2):
                for poles in ('consistent', 'free'):
                    out.append(Case('ieee-%s-%dx%d-%s' % (s, R, C, poles), ieee, dict(R=R, C=C, sym=sym, poles=poles), timeout=700, qt=120000))
                z = [(i, j) for i in range(R) for j in range(C) if (i * 5 + j * 3) % 4 == 0 and 0 < i < R - 1]
                out.append(Case('ieee-%s-%dx%d-zeros' % (s, R, C), ieee, dict(R=R, C=C, sym=sym, poles='consistent', zero=z), timeout=700, qt=120000))
                z = [(i, j) for i in (0, R - 1) for j in range(C) if (i + j * 3) % 2 == 0]
                out.append(Case('ieee-%s-%dx%d-polezeros' % (s, R, C), ieee, dict(R=R, C=C, sym=sym, poles='free', zero=z), timeout=700, qt=120000))
        for R, C in [(2, 2), (2, 4), (3, 6), (4, 4)] + ([(5, 8)] if T else []):
            out.append(Case('ieee-%s-%dx%d-pairs' % (s, R, C), ieee, dict(R=R, C=C, sym=sym, poles='consistent', zero='pairs'), timeout=700, qt=120000))
        for R, C in [(2, 4), (4, 6), (5, 4)]:
            for k in ('fortran', 'stride', 'reversed', 'real', 'uint8', 'int8', 'int64', 'float32', 'complex64', 'bool'):
                out.append(Case('stored-%s-%dx%d-%s' % (s, R, C, k), stored, dict(R=R, C=C, sym=sym, kind=k)))
        for R, C in [(2, 2), (3, 6), (4, 4), (5, 8), (6, 2), (8, 10), (12, 12)]:
            out.append(Case('real-%s-%dx%d' % (s, R, C), real, dict(R=R, C=C, sym=sym)))
            out.append(Case('given-%s-%dx%d' % (s, R, C), given, dict(R=R, C=C, sym=sym)))
            for w in ('zeros', 'ones', 'random'):
                out.append(Case('%s-%s-%dx%d' % (w, s, R, C), factory, dict(which=w, R=R, C=C, sym=sym)))
        for n in range(0 if sym == 1 else 1, 7 if T else 5):
            for m in range(0, n + 1):
                for er, ec in ((0, 0), (1, 2), (3, 4)):
                    out.append(Case('inverse-%s-n%d-m%d-%d%d' % (s, n, m, er, ec), inverse,
                                    dict(nmax=n, mmax=m, R=n + 2 + er, C=2 * m + 2 + ec, sym=sym)))
        for n, m, R, C in [(8, 8, 10, 18), (12, 3, 15, 8), (20, 20, 22, 42)] + ([(40, 40, 42, 82)] if T else []):
            out.append(Case('inverse-%s-n%d-m%d' % (s, n, m), inverse, dict(nmax=n, mmax=m, R=R, C=C, sym=sym, groups=5)))
    return out
