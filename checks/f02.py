"""F02 saving and loading patterns"""
from .run import Case
from .common import lemmas

WHAT = ('save_patt followed by load_patt, and load_patt / load_vpatt / load_fdata on text in their format with the lines in different orders, '
        'through virtual files; values are IEEE doubles of the SMT floating-point theory.')
BOUNDS = ('values: all IEEE doubles of magnitude <= 1e300 (Fourier data: all but nan), samples away from the poles free, pole rows consistent; '
          'patterns 2..5 x 2..6 (thorough 2..7 x 2..8) and 12 x 10; Fourier data up to 8 x 8')
OUTSIDE = 'nan; magnitudes above 1e300 (averaging overflows); larger grids'
ASSUMES = ['IEEE addition rounded to nearest commutes with negation (lemma decided for half precision; all other identities used are decided for doubles)',
           'printf-style formatting with 17 significant digits followed by float() is the identity on doubles; inf and -inf print as such']


def samples(h, name, R, C, sym, zero=None):
    """R x C samples, free away from the poles, pole rows consistent with the symmetry sign"""
    np = h.np
    a = np.zeros((R, C), dtype=np.complex128)
    x = h.ieee(name, (R - 2) * C + C, cx=True, bound=1e300, nonzero=True)
    if zero:
        z = [v for k, v in (('+', 0.0), ('-', -0.0)) if k in zero][0]
        for k in range(x.shape[0]):
            if zero[1] in 'rb' or k % 2:
                x[k] = h.mkcomplex(z, z if zero[1] == 'b' else x[k].imag)
            else:
                x[k] = h.mkcomplex(x[k].real, z)
    for i in range(R - 2):
        for j in range(C):
            a[i + 1, j] = x[i * C + j]
    for q, row in ((0, 0), (1, R - 1)):
        for j in range(C // 2):
            v = x[(R - 2) * C + q * (C // 2) + j]
            a[row, j] = v
            a[row, j + C // 2] = v if sym == 1 else -v
    return a


def equal(h, label, got, want):
    """numerically equal (the two zeros are the same sample)"""
    h.true(label + ': shape', tuple(got.shape) == tuple(want.shape))
    for i in range(want.shape[0]):
        for j in range(want.shape[1]):
            h.true('%s [%d,%d]' % (label, i, j), (got[i, j].real == want[i, j].real) & (got[i, j].imag == want[i, j].imag)
                   if h.symbolic else got[i, j] == want[i, j])


ORDERS = {
    'row': lambda R, C: [(i, j) for i in range(R) for j in range(C)],
    'col': lambda R, C: [(i, j) for j in range(C) for i in range(R)],
    'rev': lambda R, C: [(i, j) for i in range(R) for j in range(C)][::-1],
    'mix': lambda R, C: sorted([(i, j) for i in range(R) for j in range(C)], key=lambda p: (p[0] * 7 + p[1] * 5) % 11),
}


def text(a, R, C, order):
    t = ['%d,%d' % (R, C)]
    for i, j in ORDERS[order](R, C):
        t.append('%d,%d,' % (i, j) + '{0:.16e},{1:.16e}'.format(a[i, j].real, a[i, j].imag))
    return '\n'.join(t) + '\n'


def roundtrip(h, R, C, zero=None):
    fl, sp, np = h.mod('file'), h.sp, h.np
    a = samples(h, 'x', R, C, 1, zero)
    p = sp.ScalarPatternUniform(a.copy())
    before = p.array.copy()
    fn = h.path('p.txt')
    fl.save_patt(p, fn)
    q = fl.load_patt(fn)
    h.true('shape', q.nrows == R and q.ncols == C)
    equal(h, 'loaded = saved', q.array, before)
    equal(h, 'loaded = given', q.array, a)
    h.same('saved pattern unchanged', p.array, before)


def load1(h, R, C, order):
    fl, sp = h.mod('file'), h.sp
    a = samples(h, 'x', R, C, 1)
    h.write_file('p.txt', text(a, R, C, order))
    q = fl.load_patt(h.path('p.txt'))
    equal(h, 'samples at the named places', q.array, a)


def load2(h, R, C, order):
    fl, sp = h.mod('file'), h.sp
    a, b = samples(h, 'x', R, C, -1), samples(h, 'y', R, C, -1)
    h.write_file('t.txt', text(a, R, C, order))
    h.write_file('p.txt', text(b, R, C, list(ORDERS)[(list(ORDERS).index(order) + 1) % len(ORDERS)]))
    q = fl.load_vpatt(h.path('t.txt'), h.path('p.txt'))
    equal(h, 'theta = first file', q.theta, a)
    equal(h, 'phi = second file', q.phi, b)


def fdata(h, R, C, order):
    fl, np = h.mod('file'), h.np
    a = h.ieee('x', R * C, cx=True, finite=False).reshape((R, C))
    h.write_file('f.txt', text(a, R, C, order))
    d = fl.load_fdata(h.path('f.txt'))
    h.same('entries at the named places', d, a)


def cases(tier):
    out = [Case('ieee-lemmas', lemmas)]
    T = tier == 'thorough'
    for R in range(2, 8 if T else 6):
        for C in range(2, 9 if T else 7, 2):
            out.append(Case('roundtrip-%dx%d' % (R, C), roundtrip, dict(R=R, C=C), timeout=700, qt=120000))
            for o in ORDERS:
                if o == 'row' or R + C <= 8 or T:
                    out.append(Case('load-%dx%d-%s' % (R, C, o), load1, dict(R=R, C=C, order=o), timeout=700, qt=120000))
                    out.append(Case('vload-%dx%d-%s' % (R, C, o), load2, dict(R=R, C=C, order=o), timeout=700, qt=120000))
            for z in ('+r', '-r', '+i', '-i', '+b', '-b'):
                # components that are zero (every other sample, all real parts, or both parts everywhere)
                out.append(Case('roundtrip-%dx%d-zero%s' % (R, C, z), roundtrip, dict(R=R, C=C, zero=z), timeout=700, qt=120000))
    out.append(Case('roundtrip-12x10', roundtrip, dict(R=12, C=10), timeout=700, qt=120000))
    for R in (1, 2, 3, 5, 8):
        for C in (1, 2, 3, 4, 8):
            for o in ORDERS:
                out.append(Case('fdata-%dx%d-%s' % (R, C, o), fdata, dict(R=R, C=C, order=o)))
    return out
