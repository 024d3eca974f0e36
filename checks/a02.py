"""A02 arithmetic on patterns"""
from .run import Case
from .a01 import OPS, NPNUM, number

WHAT = ('the four operators with a pattern, and with real, complex and integer numbers on either side, executed on patterns whose every sample of the '
        'doubled sphere is free; the reference applies the operator to each sample.')
BOUNDS = ('patterns 2..5 x 2..6 (thorough 2..8 x 2..10) with every sample and number free, up to 20 x 12 for + and - and for products with a fixed '
          'number; numpy scalars of seven types at fixed values; size mismatches for symbolic sizes up to 6 x 8')
OUTSIDE = 'larger grids; element-wise division by a sample that is zero'


def make(h, name, R, C, vec, cont):
    n = (R if cont else 2 * R - 2) * C
    sh = (R if cont else 2 * R - 2, C)
    lo = 0.1 if cont else -1            # building from a grid treats zero samples separately (D01)
    v = h.cplx(name, n, lo, 1).reshape(sh)
    if vec:
        return h.sp.TransversePatternUniform(v.copy(), h.cplx(name + '2', n, lo, 1).reshape(sh).copy(), doublesphere=not cont)
    return h.sp.ScalarPatternUniform(v.copy(), doublesphere=not cont)


def parts(p, vec):
    return [x * 1 for x in ((p.theta_double, p.phi_double) if vec else (p.doublesphere,))]


def nonzero(h, ps):
    for p in ps:
        for v in p.reshape(-1):
            h.constrain(v.real * v.real + v.imag * v.imag > 0.01)


def check(h, label, r, want, vec, R, C, cls):
    h.true('type', isinstance(r, cls))
    h.true('shape', tuple(r.shape) == (R, C))
    for j, (g, w) in enumerate(zip(parts(r, vec), want)):
        h.close('%s component %d' % (label, j), g, w, 1e-12)
    views = (r.theta, r.phi) if vec else (r.array,)
    for g, w in zip(views, want):
        h.close('%s: front of the sphere' % label, g, w[0:R, :], 1e-12)


def each(h, op, x, y):
    np = h.np
    sh = tuple(x.shape if hasattr(x, 'shape') and x.shape else y.shape)
    f = lambda v: v.reshape(-1) if hasattr(v, 'shape') and v.shape else v
    x, y = f(x), f(y)
    n = sh[0] * sh[1]
    w = np.zeros(n, dtype=np.complex128)
    at = lambda v, i: v[i] if hasattr(v, 'shape') and v.shape else v
    for i in range(n):
        w[i] = OPS[op](at(x, i), at(y, i))
    return w.reshape(sh)


def pattpatt(h, op, R, C, vec, cont=False):
    a, b = make(h, 'a', R, C, vec, cont), make(h, 'b', R, C, vec, cont)
    pa, pb = parts(a, vec), parts(b, vec)
    if op == 'div':
        nonzero(h, pb)
    r = OPS[op](a, b)
    check(h, 'pattern %s pattern' % op, r, [each(h, op, x, y) for x, y in zip(pa, pb)], vec, R, C, type(a))
    for p, q in zip(parts(a, vec) + parts(b, vec), pa + pb):
        h.same('operands unchanged', p, q)


def pattnum(h, op, R, C, vec, kind, left):
    a = make(h, 'a', R, C, vec, False)
    x = number(h, kind)
    pa = parts(a, vec)
    if left and op == 'div':
        nonzero(h, pa)
    zero = kind in ('real', 'cplx') and op == 'div' and not left and bool(x == 0)
    try:
        r = OPS[op](x, a) if left else OPS[op](a, x)
        err = False
    except ZeroDivisionError:
        r, err = None, True
    h.true('ZeroDivisionError exactly when dividing by zero', err == zero)
    for p, q in zip(parts(a, vec), pa):
        h.same('operand unchanged', p, q)
    if r is None:
        return
    y = x.item() if kind in NPNUM and kind != 'bool' else x
    want = [each(h, op, y, p) if left else each(h, op, p, y) for p in pa]
    check(h, 'number' if left else 'pattern', r, want, vec, R, C, type(a))


def mismatch(h, op, vec, N):
    sp = h.sp
    r1, c1 = h.int('r1', 2, N), h.int('c1', 1, N // 2)
    r2, c2 = h.int('r2', 2, N), h.int('c2', 1, N // 2)
    k = [h.concrete(x) for x in (r1, c1, r2, c2)]
    t = sp.vector if vec else sp.scalar
    a, b = sp.ones_patt_uniform(k[0], 2 * k[1], t), sp.ones_patt_uniform(k[2], 2 * k[3], t)
    try:
        OPS[op](a, b)
        bad = False
    except ValueError:
        bad = True
    h.iff('ValueError exactly when the shapes differ', h.orb(r1 != r2, c1 != c2), bad)
    h.true('operands keep their shapes', (a.nrows, a.ncols, b.nrows, b.ncols) == (k[0], 2 * k[1], k[2], 2 * k[3]))


def badtype(h, op, vec):
    sp = h.sp
    t = sp.vector if vec else sp.scalar
    a = make(h, 'a', 3, 4, vec, False)
    pa = parts(a, vec)
    others = [None, 'x', [1.0], (1.0, 2.0), {}, object(), sp.zeros_coefs(2, 1, t), sp.zeros_patt_uniform(3, 4, sp.scalar if vec else sp.vector)]
    for i, o in enumerate(others):
        h.raises('pattern %s other type %d' % (op, i), TypeError, lambda: OPS[op](a, o))
        if i < 6:
            h.raises('other type %d %s pattern' % (i, op), TypeError, lambda: OPS[op](o, a))
    for z in (0, 0.0, 0j, -0.0):
        if op == 'div':
            h.raises('division by %r' % z, ZeroDivisionError, lambda: a / z)
    for p, q in zip(parts(a, vec), pa):
        h.same('operand unchanged', p, q)


def cases(tier):
    out = []
    T = tier == 'thorough'
    for vec in (0, 1):
        s = 'sv'[vec]
        for op in OPS:
            for R in range(2, 9 if T else 6):
                for C in range(2, 11 if T else 7, 2):
                    out.append(Case('patt-%s-%s-%dx%d' % (s, op, R, C), pattpatt, dict(op=op, R=R, C=C, vec=vec)))
                    if R <= 3 and C <= 4 or T:
                        if op != 'div':
                            out.append(Case('pattc-%s-%s-%dx%d' % (s, op, R, C), pattpatt, dict(op=op, R=R, C=C, vec=vec, cont=True)))
                        for kind in ('real', 'cplx', 'int', 'frac', 'fixc'):
                            for left in (0, 1):
                                out.append(Case('num-%s-%s-%dx%d-%s-%d' % (s, op, R, C, kind, left), pattnum,
                                                dict(op=op, R=R, C=C, vec=vec, kind=kind, left=left)))
            for R, C in [(7, 8), (12, 10), (20, 12)]:
                if op in ('add', 'sub'):
                    out.append(Case('patt-%s-%s-%dx%d' % (s, op, R, C), pattpatt, dict(op=op, R=R, C=C, vec=vec)))
                out.append(Case('num-%s-%s-%dx%d-fixed' % (s, op, R, C), pattnum, dict(op=op, R=R, C=C, vec=vec, kind='fixc', left=0)))
            for kind in NPNUM:
                for left in (0, 1):
                    out.append(Case('num-%s-%s-%s-%d' % (s, op, kind, left), pattnum, dict(op=op, R=3, C=4, vec=vec, kind=kind, left=left)))
            out.append(Case('mismatch-%s-%s' % (s, op), mismatch, dict(op=op, vec=vec, N=8 if T else 6), timeout=1200, max_paths=20000))
            out.append(Case('badtype-%s-%s' % (s, op), badtype, dict(op=op, vec=vec)))
    seen = {}
    for c in out:
        seen.setdefault(c.name, c)
    return list(seen.values())
