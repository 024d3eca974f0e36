"""D02 symmetry diagnostics"""
import numpy
from .run import Case

WHAT = ('single_val and is_symmetric executed on doubled spheres in which one or two samples are free complex numbers and the others are fixed symmetric '
        'values (or zeros); every position of the free samples is a case.')
BOUNDS = ('doubled spheres of patterns up to 4 x 6 (thorough 6 x 8): every position of one free sample, and pairs of free samples at selected '
          'positions; zero mirror partners; single_val within a factor 2 of a threshold excluded for is_symmetric')
OUTSIDE = 'more than two asymmetric pairs at once; rounding of the relative deviation'


def base(R, C, sym, salt=0):
    """exactly symmetric dyadic values, nonzero"""
    D = 2 * R - 2
    r = numpy.random.RandomState(11 + salt)
    d = numpy.zeros((D, C), dtype=complex)
    for i in range(D):
        for j in range(C):
            if d[i, j] == 0:
                v = complex([1, -1, 1j, -1j][r.randint(4)]) * [0.5, 1, 2][r.randint(3)]
                d[i, j] = v
                d[(D - i) % D, (j + C // 2) % C] = v * sym
    return d


def sq(x):
    return x.real * x.real + x.imag * x.imag


def patt(h, d, other, sym, comp):
    sp = h.sp
    if sym == 1:
        return sp.ScalarPatternUniform(d, doublesphere=True)
    return sp.TransversePatternUniform(*((d, other) if comp == 0 else (other, d)), doublesphere=True)


def check_value(h, label, sv, pairs):
    """sv = max over pairs (s, t) of |s-t|/|s|, 1 where s = 0 and t != 0"""
    h.true(label + ': not negative', sv >= 0)
    tol = 1e-7
    att = [sv <= tol]
    for s, t in pairs:
        zs, zt = bool(s == 0), bool(t == 0)
        if zs and zt:
            continue
        if zs:
            h.true(label + ': at least 1 for a nonzero sample with a zero mirror', sv >= 1 - tol)
            att.append(h.andb(sv <= 1 + tol, sv >= 1 - tol))
            continue
        r = h.np.abs(s - t) / h.np.abs(s)
        h.true(label + ': bounds the deviation', sv >= r - tol)
        att.append(h.andb(sv <= r + tol))
    h.true(label + ': attained', h.orb(*att))


def one(h, R, C, sym, pos, comp, zero=False, pos2=None):
    h.branch_timeout(150)
    D = 2 * R - 2
    b = base(R, C, sym, comp)
    mir = lambda p: ((D - p[0]) % D, (p[1] + C // 2) % C)
    b2 = base(R, C, sym, comp + 5)
    ps = [pos] + ([pos2] if pos2 else [])
    for p in ps:
        if zero:
            b[mir(p)] = 0
        b[p] = 0
    d = h.val(b.copy())
    act = sorted(p[0] * C + p[1] for p in ps)
    z = h.cplx('z', D * C, -3, 3, active=act)
    d = d + z.reshape((D, C))
    d0 = d * 1
    p = patt(h, d, h.val(b2.copy()), sym, comp)
    sv = p.single_val
    if sym == -1:
        h.true('other component symmetric', sv[1 - comp] == 0)
        sv = sv[comp]
    pairs = []
    for q in ps:
        t, s = d0[q], d0[mir(q)]
        pairs += [(s, t * sym), (t, s * sym)]
    check_value(h, 'single_val', sv, pairs)
    h.same('pattern unchanged', d, d0)
    thr = 1e-14 if sym == 1 else 1e-13
    h.constrain(h.orb(sv <= thr / 2, sv >= thr * 2))
    h.iff('is_symmetric', sv <= thr, p.is_symmetric)


def both(h, R, C, p1, p2):
    """one free sample in each component of a tangential pattern"""
    h.branch_timeout(150)
    D = 2 * R - 2
    bs = [base(R, C, -1, 1), base(R, C, -1, 2)]
    ds = []
    for k, p in enumerate((p1, p2)):
        bs[k][p] = 0
        ds.append(h.val(bs[k].copy()) + h.cplx('z%d' % k, D * C, -3, 3, active=[p[0] * C + p[1]]).reshape((D, C)))
    p = patt(h, ds[0], ds[1], -1, 0)
    sv = p.single_val
    pick = []
    for k, q in enumerate((p1, p2)):
        t, s = ds[k][q], ds[k][(D - q[0]) % D, (q[1] + C // 2) % C]
        check_value(h, 'component %d' % k, sv[k], [(s, -t), (t, -s)])
    for v in sv:
        h.constrain(h.orb(v <= 0.5e-13, v >= 2e-13))
    h.iff('is_symmetric', h.andb(sv[0] <= 1e-13, sv[1] <= 1e-13), p.is_symmetric)


def cases(tier):
    out = []
    T = tier == 'thorough'
    sizes = [(2, 2), (2, 4), (3, 2), (3, 4), (4, 6)] + ([(5, 4), (6, 8)] if T else [])
    for R, C in sizes:
        D = 2 * R - 2
        for sym in (1, -1):
            for comp in ((0,) if sym == 1 else (0, 1)):
                for i in range(D):
                    for j in range(C):
                        if R * C > 12 and (i + j) % 2 and not T:
                            continue
                        t = '%s%d-%dx%d-%d-%d' % ('vs'[sym == 1], comp, R, C, i, j)
                        out.append(Case('one-' + t, one, dict(R=R, C=C, sym=sym, pos=(i, j), comp=comp), timeout=400))
                        if i <= 2 and j <= 1:
                            out.append(Case('zero-' + t, one, dict(R=R, C=C, sym=sym, pos=(i, j), comp=comp, zero=True), timeout=400))
            if R * C >= 8:
                for p, q in [((0, 0), (D - 1, 1)), ((1, 1), (R - 1, 0)), ((1, 0), (1, 1)), ((D - 1, C - 1), (0, 0))]:
                    out.append(Case('two-%s-%dx%d-%d%d%d%d' % (('vs'[sym == 1], R, C) + p + q), one,
                                    dict(R=R, C=C, sym=sym, pos=p, comp=0, pos2=q), timeout=400))
        for p, q in [((0, 0), (D - 1, 1)), ((1, 1), (0, 0)), ((1, 0), (1, 1))]:
            out.append(Case('both-%dx%d-%d%d%d%d' % ((R, C) + p + q), both, dict(R=R, C=C, p1=p, p2=q), timeout=400))
    return out
