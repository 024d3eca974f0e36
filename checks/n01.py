"""N01 norms, magnitudes and power"""
import numpy
from .run import Case

WHAT = ('the norm, magnitude, power and comparison functions executed on symbolic objects; square roots and maxima are solver variables with their '
        'defining constraints, the claims are polynomial (the square of the result against the sum of squares, bounds and attainment for maxima).')
BOUNDS = ('sums and magnitudes: every value free up to nmax 3 (thorough 5) and 4 x 6 patterns, up to nmax 12 / 10 x 8 with 3 free values at every third '
          'position and fixed others; maxima: up to 4 free values, and 2 free values at each position among fixed ones up to nmax 6 / 5 x 6')
OUTSIDE = 'overflow and underflow of the squares; larger sizes'


def fixed(N, salt=0):
    r = numpy.random.RandomState(5 + salt)
    return (0.2 + 0.5 * r.rand(N)) * numpy.exp(2j * numpy.pi * r.rand(N))


def dyadic(N, salt=0):
    return numpy.random.RandomState(7 + salt).randint(-7, 8, N) / 8.0


def vals(h, name, N, active, salt=0, exact=False):
    if active is None:
        return h.cplx(name, N, -2, 2)
    act = sorted(set(k % N for k in active))
    b = dyadic(N, salt) + 0j if exact else fixed(N, salt)
    b[act] = 0
    return h.val(b) + h.cplx(name, N, -2, 2, active=act)


def obj(h, kind, size, active, name='v', exact=False):
    """object, its stored values (list of 1 or 2 flat arrays)"""
    sp = h.sp
    if kind in ('sc', 'vc'):
        nmax, mmax = size
        N = h.ncoef(nmax, mmax)
        v = vals(h, name, N, active, ord(name), exact)
        if kind == 'sc':
            return h.coefs(v.copy(), nmax, mmax), [v]
        w = vals(h, name + '2', N, None if active is None else [a + 1 for a in active], 1)
        v[0] = 0
        w[0] = 0
        return h.vcoefs(v.copy(), w.copy(), nmax, mmax), [v, w]
    R, C = size
    D = 2 * R - 2
    v = vals(h, name, D * C, active)
    if kind == 'sp':
        return sp.ScalarPatternUniform(v.copy().reshape((D, C)), doublesphere=True), [v]
    w = vals(h, name + '2', D * C, None if active is None else [a + 1 for a in active], 1)
    return sp.TransversePatternUniform(v.copy().reshape((D, C)), w.copy().reshape((D, C)), doublesphere=True), [v, w]


def sq(x):
    return x.real * x.real + x.imag * x.imag


def total(h, vs):
    t = 0
    for v in vs:
        for i in range(v.shape[0]):
            t = t + sq(v[i])
    return t


def near(h, label, a, b, tol):
    h.true(label, h.andb(a - b <= tol, b - a <= tol))


def unchanged(h, kind, o, vs):
    if kind == 'sc':
        got = [h.vec_of(o)]
    elif kind == 'vc':
        got = [h.vec_of(o.scoef1), h.vec_of(o.scoef2)]
    elif kind == 'sp':
        got = [o.doublesphere.reshape(-1)]
    else:
        got = [o.theta_double.reshape(-1), o.phi_double.reshape(-1)]
    for g, v in zip(got, vs):
        h.same('object unchanged', g, v)


def l2(h, kind, size, active):
    o, vs = obj(h, kind, size, active)
    sp = h.sp
    g = (sp.L2_coef if kind in ('sc', 'vc') else sp.L2_patt)(o)
    h.true('L2 not negative', g >= 0)
    near(h, 'L2 squared = sum of squares', g * g, total(h, vs), 1e-9)
    unchanged(h, kind, o, vs)


def linf(h, kind, size, active):
    o, vs = obj(h, kind, size, active)
    sp = h.sp
    g = (sp.LInf_coef if kind in ('sc', 'vc') else sp.LInf_patt)(o)
    h.true('LInf not negative', g >= 0)
    gg = g * g
    eps = 1e-9
    if len(vs) == 1:
        q = [sq(vs[0][i]) for i in range(vs[0].shape[0])]
        for i, x in enumerate(q):
            h.true('LInf >= |value %d|' % i, gg >= x - eps)
        h.true('LInf is attained', h.orb(*[gg <= x + eps for x in q]))
        return
    # the maxima of the components are the solver variables that the scalar cases establish
    m = [h.np.max(h.np.abs(v)) for v in vs]
    near(h, 'LInf^2 = max|a|^2 + max|b|^2', gg, m[0] * m[0] + m[1] * m[1], eps)
    if sum(v.shape[0] for v in vs) <= 4:
        qa, qb = ([sq(v[i]) for i in range(v.shape[0])] for v in vs)
        for i, x in enumerate(qa):
            h.true('LInf^2 >= |a_%d|^2 + every |b|^2' % i, h.andb(*[gg >= x + y - eps for y in qb]))
        h.true('LInf is attained', h.orb(*[gg <= x + y + eps for x in qa for y in qb]))


def power(h, size, active):
    np = h.np
    o, vs = obj(h, 'sc', size, active)
    nmax, mmax = size
    near(h, 'power = sum of squares', o.power(), total(h, vs), 1e-9)
    s = o.angular_power_spectrum()
    h.true('one value per degree', h.len(s) == nmax + 1)
    ms = h.ref.modes(nmax, mmax)
    for n in range(nmax + 1):
        t = 0
        for i, p in enumerate(ms):
            if p[0] == n:
                t = t + sq(vs[0][i])
        near(h, 'spectrum of degree %d' % n, s[n], t, 1e-9)
    unchanged(h, 'sc', o, vs)


def mags(h, kind, size, active):
    """abs, mag and mag2 value by value"""
    sp, np = h.sp, h.np
    o, vs = obj(h, kind, size, active)
    fs = [('mag', sp.mag, 1), ('mag2', sp.mag2, 2)]
    if kind in ('sc', 'sp'):
        fs.append(('abs', sp.abs, 1))
    for name, f, pw in fs:
        g = f(o)
        if kind in ('sc', 'vc'):
            h.true('%s: sizes' % name, g.nmax == size[0] and g.mmax == size[1])
            g = h.vec_of(g)
            idx = list(range(g.shape[0]))
        else:
            R, C = size
            h.true('%s: shape' % name, tuple(g.shape) == (R, C))
            g = g.reshape(-1)
            idx = list(range(R * C))
        for i in idx:
            x = g[i]
            t = 0
            for v in vs:
                t = t + sq(v[i])
            if pw == 2:
                near(h, '%s value %d' % (name, i), x.real, t, 1e-9)
            else:
                h.true('%s value %d not negative' % (name, i), x.real >= 0)
                near(h, '%s value %d' % (name, i), x.real * x.real, t, 1e-9)
            h.true('%s value %d real' % (name, i), x.imag == 0)
    unchanged(h, kind, o, vs)


def relative(h, size, active):
    a, va = obj(h, 'sc', size, active, 'a', True)
    b, vb = obj(h, 'sc', size, active, 'b', True)
    va, vb = va[0], vb[0]
    N = va.shape[0]
    h.constrain(sq(va[0]) >= 0.25)
    r = h.sp.compare_relative(a, b)
    num = den = 0
    for i in range(N):
        num = num + abs(va[i] - vb[i])
        den = den + abs(va[i])
    near(h, 'relative difference', r, num / den, 1e-9)
    unchanged(h, 'sc', a, [va])
    unchanged(h, 'sc', b, [vb])


def badtype(h):
    sp = h.sp
    for f in (sp.mag, sp.mag2, sp.abs):
        for o in (None, 'x', 1.5, [1.0]):
            h.raises('%s of %r' % (f.__name__, o), TypeError, lambda: f(o))


def cases(tier):
    out = []
    T = tier == 'thorough'
    small = {'sc': [(n, m) for n in range(0, 6 if T else 4) for m in range(0, n + 1)], 'sp': [(2, 2), (2, 4), (3, 2), (3, 4), (4, 6)]}
    small['vc'] = [p for p in small['sc'] if p[0]]
    small['vp'] = small['sp']
    large = {'sc': [(5, 2), (6, 6), (8, 0), (12, 3)], 'vc': [(5, 2), (6, 6), (12, 3)], 'sp': [(5, 8), (7, 4), (10, 8)], 'vp': [(5, 8), (7, 4), (10, 8)]}
    fs = (l2, mags)
    for kind in ('sc', 'vc', 'sp', 'vp'):
        for fn in fs:
            for s in small[kind]:
                out.append(Case('%s-%s-%dx%d' % (fn.__name__, kind, s[0], s[1]), fn, dict(kind=kind, size=s, active=None)))
            for s in large[kind]:
                N = s[0] * s[1] + s[0] + 1
                for k in range(0, N, 1 if T else max(3, N // 8)):
                    out.append(Case('%s-%s-%dx%d-a%d' % (fn.__name__, kind, s[0], s[1], k), fn, dict(kind=kind, size=s, active=[k, k + 1, 2 * k + 3])))
    for s in small['sc']:
        out.append(Case('power-%dx%d' % s, power, dict(size=s, active=None)))
    for s in large['sc']:
        N = (s[0] + 1) + s[1] * (2 * s[0] + 1 - s[1])
        for k in range(0, N, 1 if T else max(3, N // 10)):
            out.append(Case('power-%dx%d-a%d' % (s[0], s[1], k), power, dict(size=s, active=[k, k + 1, N - 1 - k])))
    for s in [(0, 0), (1, 0), (1, 1), (2, 1)]:
        out.append(Case('relative-%dx%d' % s, relative, dict(size=s, active=None)))
    for s in [(3, 2), (5, 5)]:
        N = (s[0] + 1) + s[1] * (2 * s[0] + 1 - s[1])
        for k in range(0, N, 1 if T else 4):
            out.append(Case('relative-%dx%d-a%d' % (s[0], s[1], k), relative, dict(size=s, active=[0, k])))
    for kind, ss in (('sc', [(0, 0), (1, 0), (2, 0), (1, 1)]), ('vc', [(1, 0), (2, 0)]), ('sp', [(2, 2)]), ('vp', [(2, 2)])):
        for s in ss:
            out.append(Case('linf-%s-%dx%d' % (kind, s[0], s[1]), linf, dict(kind=kind, size=s, active=None), timeout=300))
    for kind, ss in (('sc', [(3, 2), (6, 4)]), ('vc', [(3, 2), (3, 3)]), ('sp', [(3, 4), (5, 6)]), ('vp', [(3, 4)])):
        for s in ss:
            N = (2 * s[0] - 2) * s[1] if kind[1] == 'p' else (s[0] + 1) + s[1] * (2 * s[0] + 1 - s[1])
            for k in range(0, N, 1 if T or N < 20 else 5):
                out.append(Case('linf-%s-%dx%d-a%d' % (kind, s[0], s[1], k), linf, dict(kind=kind, size=s, active=[k, k + N // 2]), timeout=300))
    out.append(Case('badtype', badtype))
    return out
