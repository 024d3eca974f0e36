"""A01 arithmetic on coefficient objects"""
import numpy
from .run import Case

WHAT = ('the four operators with an object, and with real, complex and integer numbers on either side, executed on objects with every mode free; '
        'the reference applies the operator to each mode.')
BOUNDS = ('nmax <= 4 (thorough 7) with every mode and number free, nmax up to 12 (thorough 30) for + and - and for products with a fixed number; numpy scalars of seven types at fixed values; size '
          'mismatches for symbolic sizes up to 6')
OUTSIDE = 'larger sizes; element-wise division by a mode whose value is zero'

NPNUM = {'float64': numpy.float64(-0.75), 'float32': numpy.float32(1.5), 'int64': numpy.int64(-3), 'uint8': numpy.uint8(3),
         'complex64': numpy.complex64(0.5 - 1.25j), 'complex128': numpy.complex128(-0.5 + 1j), 'bool': True}

OPS = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'div': lambda a, b: a / b}


def make(h, name, nmax, mmax, vec):
    N = h.ncoef(nmax, mmax)
    v = h.cplx(name, N)
    if vec:
        return h.vcoefs(v.copy(), h.cplx(name + '2', N), nmax, mmax)
    return h.coefs(v.copy(), nmax, mmax)


def parts(h, c, vec):
    return [h.vec_of(x) for x in ((c.scoef1, c.scoef2) if vec else (c,))]


def number(h, kind):
    if kind == 'real':
        return h.real('x', -2, 2)
    if kind == 'cplx':
        return h.cplx('x')
    if kind == 'int':
        return 3
    if kind == 'frac':
        return -0.75
    if kind in NPNUM:
        return NPNUM[kind]
    return complex(0.5, -1.25)


def check(h, label, r, want, vec, nmax, mmax, cls):
    h.true('type', isinstance(r, cls))
    h.true('sizes', r.nmax == nmax and r.mmax == mmax)
    got = parts(h, r, vec)
    for j, (g, w) in enumerate(zip(got, want)):
        if vec:
            w[0] = 0
        h.close('%s component %d' % (label, j), g, w, 1e-12)


def objobj(h, op, nmax, mmax, vec):
    np = h.np
    a, b = make(h, 'a', nmax, mmax, vec), make(h, 'b', nmax, mmax, vec)
    pa, pb = parts(h, a, vec), parts(h, b, vec)
    if op == 'div':
        for p in pb:
            for i in range(1 if vec else 0, p.shape[0]):
                h.constrain(p[i].real * p[i].real + p[i].imag * p[i].imag > 0.01)
    r = OPS[op](a, b)
    want = []
    for x, y in zip(pa, pb):
        w = np.zeros(x.shape[0], dtype=np.complex128)
        for i in range(x.shape[0]):
            if vec and i == 0:
                continue
            w[i] = OPS[op](x[i], y[i])
        want.append(w)
    check(h, 'object %s object' % op, r, want, vec, nmax, mmax, type(a))
    for p, q in zip(parts(h, a, vec) + parts(h, b, vec), pa + pb):
        h.same('operands unchanged', p, q)


def objnum(h, op, nmax, mmax, vec, kind, left):
    np = h.np
    a = make(h, 'a', nmax, mmax, vec)
    x = number(h, kind)
    y = x.item() if kind in NPNUM and kind != 'bool' else x
    pa = parts(h, a, vec)
    if left and op == 'div':
        for p in pa:
            for i in range(1 if vec else 0, p.shape[0]):
                h.constrain(p[i].real * p[i].real + p[i].imag * p[i].imag > 0.01)
    zero = kind in ('real', 'cplx') and op == 'div' and not left and bool(x == 0)
    try:
        r = OPS[op](x, a) if left else OPS[op](a, x)
        err = None
    except ZeroDivisionError:
        r, err = None, True
    h.true('ZeroDivisionError exactly when dividing by zero', (err is not None) == zero)
    for p, q in zip(parts(h, a, vec), pa):
        h.same('operand unchanged', p, q)
    if r is None:
        return
    want = []
    for p in pa:
        w = np.zeros(p.shape[0], dtype=np.complex128)
        for i in range(p.shape[0]):
            if vec and i == 0:
                continue
            w[i] = OPS[op](y, p[i]) if left else OPS[op](p[i], y)
        want.append(w)
    check(h, 'number' if left else 'object', r, want, vec, nmax, mmax, type(a))


def mismatch(h, op, vec, N):
    """symbolic sizes of the second operand"""
    sp = h.sp
    n1, m1 = h.int('n1', 0, N), h.int('m1', 0, N)
    n2, m2 = h.int('n2', 0, N), h.int('m2', 0, N)
    h.constrain(h.andb(m1 <= n1, m2 <= n2))
    k = (h.concrete(n1), h.concrete(m1), h.concrete(n2), h.concrete(m2))
    t = sp.vector if vec else sp.scalar
    a, b = sp.ones_coefs(k[0], k[1], t), sp.ones_coefs(k[2], k[3], t)
    try:
        if vec:
            r = OPS['add' if op == 'div' else op](a, b)
        else:
            r = OPS[op](a, b)
        bad = False
    except ValueError:
        bad = True
    h.iff('ValueError exactly when the sizes differ', h.orb(n1 != n2, m1 != m2), bad)
    h.true('operands keep their sizes', (a.nmax, a.mmax, b.nmax, b.mmax) == k)


def badtype(h, op, vec):
    sp = h.sp
    t = sp.vector if vec else sp.scalar
    a = make(h, 'a', 2, 1, vec)
    pa = parts(h, a, vec)
    others = [None, 'x', [1.0], (1.0, 2.0), {}, object(), sp.zeros_patt_uniform(4, 4, t), sp.zeros_coefs(2, 1, sp.scalar if vec else sp.vector)]
    for i, o in enumerate(others):
        h.raises('object %s other type %d' % (op, i), TypeError, lambda: OPS[op](a, o))
        if i < 6:
            h.raises('other type %d %s object' % (i, op), TypeError, lambda: OPS[op](o, a))
    for z in (0, 0.0, 0j, -0.0):
        if op == 'div':
            h.raises('division by %r' % z, ZeroDivisionError, lambda: a / z)
    for p, q in zip(parts(h, a, vec), pa):
        h.same('operand unchanged', p, q)


def cases(tier):
    out = []
    T = tier == 'thorough'
    for vec in (0, 1):
        s = 'sv'[vec]
        for op in OPS:
            for n in range(0, 8 if T else 5):
                for m in range(0, n + 1):
                    if vec and n == 0:
                        continue
                    out.append(Case('objobj-%s-%s-n%d-m%d' % (s, op, n, m), objobj, dict(op=op, nmax=n, mmax=m, vec=vec)))
                    if n <= (4 if T else 3):
                        for kind in ('real', 'cplx', 'int', 'frac', 'fixc'):
                            for left in (0, 1):
                                out.append(Case('num-%s-%s-n%d-m%d-%s-%d' % (s, op, n, m, kind, left), objnum,
                                                dict(op=op, nmax=n, mmax=m, vec=vec, kind=kind, left=left)))
            for n, m in [(8, 3), (12, 12)] + ([(30, 4)] if T else []):
                if op in ('add', 'sub'):
                    out.append(Case('objobj-%s-%s-n%d-m%d' % (s, op, n, m), objobj, dict(op=op, nmax=n, mmax=m, vec=vec)))
                out.append(Case('num-%s-%s-n%d-m%d-fixed' % (s, op, n, m), objnum, dict(op=op, nmax=n, mmax=m, vec=vec, kind='fixc', left=0)))
            for kind in NPNUM:
                for left in (0, 1):
                    out.append(Case('num-%s-%s-%s-%d' % (s, op, kind, left), objnum, dict(op=op, nmax=2, mmax=1, vec=vec, kind=kind, left=left)))
            out.append(Case('mismatch-%s-%s' % (s, op), mismatch, dict(op=op, vec=vec, N=6 if T else 4), timeout=1200, max_paths=20000))
            out.append(Case('badtype-%s-%s' % (s, op), badtype, dict(op=op, vec=vec)))
    return out
