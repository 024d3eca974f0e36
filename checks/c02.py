"""C02 slices, truncations and reshaped views"""
from .run import Case

WHAT = ('c[:,m], c[n,:], c[0:k,:], the assignments to c[:,m] and c[n,:] and the list / 2-D forms executed with every mode free and symbolic m, n, k '
        'and, in the size-* cases, with symbolic nmax and mmax over storage of symbolic length.')
BOUNDS = ('size-* cases: all 0 <= mmax <= nmax <= 10 (thorough 20); others: nmax <= 4 (thorough 7) with every mode free and slice positions up to 3 '
          'outside the object; list and 2-D forms also up to nmax 12')
OUTSIDE = 'larger sizes; slices with explicit start, stop or step other than 0:k'

ALL = slice(None, None, None)


def make(h, nmax, mmax, vec, a='v', b='u'):
    N = h.ncoef(nmax, mmax)
    v = h.cplx(a, N)
    if vec:
        return h.vcoefs(v.copy(), h.cplx(b, N), nmax, mmax)
    return h.coefs(v.copy(), nmax, mmax)


def tup(x, vec):
    return x if vec else (x,)


def mode(c, n, m, vec):
    """value(s) of a mode; vector monopoles read from the components"""
    if not vec:
        return (c[n, m],)
    return (c.scoef1[n, m], c.scoef2[n, m])


def snapshot(h, c, vec):
    return {p: mode(c, p[0], p[1], vec) for p in h.ref.modes(c.nmax, c.mmax)}


def compare(h, label, c, want, vec):
    for p in want:
        g = mode(c, p[0], p[1], vec)
        for j in range(len(g)):
            h.same('%s, mode %s' % (label, p), h.np.array([g[j]]), h.np.array([want[p][j]]))


def read(h, nmax, mmax, vec):
    np = h.np
    c = make(h, nmax, mmax, vec)
    before = snapshot(h, c, vec)
    # columns
    m = h.int('m', -mmax - 3, mmax + 3)
    try:
        col = tup(c[:, m], vec)
    except AttributeError:
        col = None
    h.iff('column readable exactly when |m| <= mmax', h.andb(m <= mmax, m >= -mmax), col is not None)
    if col is not None:
        mm = h.concrete(m)
        for j, x in enumerate(col):
            h.true('column length', h.len(x) == nmax - abs(mm) + 1)
            h.same('column %d' % mm, np.array(x) * 1, np.array([before[n, mm][j] for n in range(abs(mm), nmax + 1)]))
    compare(h, 'reading changes nothing', c, before, vec)


def readrow(h, nmax, mmax, vec):
    np = h.np
    c = make(h, nmax, mmax, vec)
    before = snapshot(h, c, vec)
    n = h.int('n', -3, nmax + 3)
    try:
        row = tup(c[n, :], vec)
    except AttributeError:
        row = None
    lo = 1 if vec else 0
    h.iff('row readable exactly when the degree exists', h.andb(n >= lo, n <= nmax), row is not None)
    if row is not None:
        nn = h.concrete(n)
        k = min(nn, mmax)
        for j, x in enumerate(row):
            h.true('row length', h.len(x) == 2 * k + 1)
            h.same('row %d' % nn, np.array(x) * 1, np.array([before[nn, q][j] for q in range(-k, k + 1)]))
    compare(h, 'reading changes nothing', c, before, vec)


def setcol(h, nmax, mmax, extra):
    """c[:,m] = vals with the right number of values (extra 0) or not"""
    np = h.np
    c = make(h, nmax, mmax, False)
    before = snapshot(h, c, False)
    m = h.int('m', -mmax - 2, mmax + 2)
    mm = h.concrete(m)
    L = max(nmax - abs(mm) + 1, 1) + extra
    if L < 0:
        return
    w = h.cplx('w', max(L, 1))[0:L]
    try:
        c[:, m] = w
        acc = True
    except AttributeError:
        acc = False
    h.true('column assignable exactly when it exists and the length fits', acc == (abs(mm) <= mmax and extra == 0))
    want = dict(before)
    if acc:
        for n in range(abs(mm), nmax + 1):
            want[n, mm] = (w[n - abs(mm)],)
    compare(h, 'after assigning a column', c, want, False)


def setrow(h, nmax, mmax, extra):
    np = h.np
    c = make(h, nmax, mmax, False)
    before = snapshot(h, c, False)
    n = h.int('n', -2, nmax + 2)
    nn = h.concrete(n)
    k = min(max(nn, 0), mmax)
    L = 2 * k + 1 + extra
    if L < 0:
        return
    w = h.cplx('w', max(L, 1))[0:L]
    try:
        c[n, :] = w
        acc = True
    except AttributeError:
        acc = False
    h.true('row assignable exactly when it exists and the length fits', acc == (0 <= nn <= nmax and extra == 0))
    want = dict(before)
    if acc:
        for q in range(-k, k + 1):
            want[nn, q] = (w[q + k],)
    compare(h, 'after assigning a row', c, want, False)


def trunc(h, nmax, mmax, vec):
    np = h.np
    c = make(h, nmax, mmax, vec)
    before = snapshot(h, c, vec)
    k = h.int('k', -3, nmax + 3)
    try:
        t = c[0:k, :]
    except AttributeError:
        t = None
    h.iff('truncation accepted exactly for 0 <= k <= nmax', h.andb(k >= 0, k <= nmax), t is not None)
    if t is not None:
        kk = h.concrete(k)
        h.true('sizes', t.nmax == kk and t.mmax == min(kk, mmax))
        want = {p: before[p] for p in h.ref.modes(kk, min(kk, mmax))}
        compare(h, 'truncation', t, want, vec)
        h.true('number of values', t.size == len(want))
    compare(h, 'source unchanged', c, before, vec)


def forms(h, nmax, mmax, vec):
    """the list of columns, the list of rows and the 2-D array"""
    np = h.np
    c = make(h, nmax, mmax, vec)
    ref = snapshot(h, c, vec)
    if not all(hasattr(c, a) for a in ('_reshape_n_vecs', '_reshape_m_vecs', '_array_2d_repr')):
        return          # internal helpers: nothing to state once they are renamed
    cols, rows, arr = (tup(x, vec) for x in (c._reshape_n_vecs(), c._reshape_m_vecs(), c._array_2d_repr()))
    order = [0] + [s * m for m in range(1, mmax + 1) for s in (-1, 1)]
    for j in range(len(cols)):
        h.true('number of columns', len(cols[j]) == 2 * mmax + 1)
        for i, m in enumerate(order):
            h.same('column list, m=%d' % m, np.array(cols[j][i]) * 1, np.array([ref[n, m][j] for n in range(abs(m), nmax + 1)]))
        h.true('number of rows', len(rows[j]) == nmax + 1)
        for n in range(nmax + 1):
            k = min(n, mmax)
            h.same('row list, n=%d' % n, np.array(rows[j][n]) * 1, np.array([ref[n, q][j] for q in range(-k, k + 1)]))
        want = np.zeros((nmax + 1, 2 * mmax + 1), dtype=np.complex128)
        for (n, m) in ref:
            want[n, mmax + m] = ref[n, m][j]
        h.same('2-D form', arr[j], want)


def sizes(h, N, m, what):
    """symbolic nmax and mmax: one column read or written, one mode compared"""
    nmax, mmax = h.int('nmax', 0, N), h.int('mmax', 0, N)
    h.constrain(mmax <= nmax)
    c = h.coefs(h.symvec('v', nmax, mmax), nmax, mmax)
    k = h.int('k', 0, N)
    a = abs(m)
    h.constrain(k + a <= nmax)
    if what == 'read':
        try:
            col = c[:, m]
        except AttributeError:
            col = None
        h.iff('column readable exactly when |m| <= mmax', mmax >= a, col is not None)
        if col is None:
            return
        h.true('column length', h.len(col) == nmax - a + 1)
        x, y = col[k], c[k + a, m]
        h.true('column entry', h.andb(x.real == y.real, x.imag == y.imag))
    elif what == 'write':
        if not bool(mmax >= a):
            return
        c2 = h.coefs(h.symvec('u', nmax, mmax), nmax, mmax)
        m2, n2 = h.int('m2', -N, N), h.int('n2', 0, N)
        h.constrain(h.andb(m2 <= mmax, -m2 <= mmax, m2 <= n2, -m2 <= n2, n2 <= nmax))
        old = c[n2, m2]
        c[:, m] = c2[:, m]
        new = c[n2, m2]
        src = c2[k + a, m]
        x = c[k + a, m]
        h.true('assigned column', h.andb(x.real == src.real, x.imag == src.imag))
        h.true('other columns unchanged', h.orb(m2 == m, h.andb(new.real == old.real, new.imag == old.imag)))
    else:
        if not bool(mmax >= a):
            return
        q = h.int('q', 0, N)
        h.constrain(q <= nmax)
        t = c[0:q, :]
        h.true('sizes', h.andb(t.nmax == q, h.orb(h.andb(q <= mmax, t.mmax == q), h.andb(q > mmax, t.mmax == mmax))))
        if not bool(k + a <= q):
            return
        x, y = t[k + a, m], c[k + a, m]
        h.true('truncation keeps the mode', h.andb(x.real == y.real, x.imag == y.imag))


def cases(tier):
    out = []
    T = tier == 'thorough'
    N = 20 if T else 10
    big = dict(timeout=3000 if T else 300, max_paths=50000)
    for m in range(-N, N + 1):
        for what in ('read', 'write'):
            c = Case('size-%s-m%d' % (what, m), sizes, dict(N=N, m=m, what=what), **big)
            c.weight = 50 + abs(m)
            out.append(c)
    for nmax in range(0, 8 if T else 5):
        for mmax in range(0, nmax + 1):
            for vec in (0, 1):
                t = '%s-n%d-m%d' % ('sv'[vec], nmax, mmax)
                out.append(Case('col-' + t, read, dict(nmax=nmax, mmax=mmax, vec=vec)))
                out.append(Case('row-' + t, readrow, dict(nmax=nmax, mmax=mmax, vec=vec)))
                out.append(Case('trunc-' + t, trunc, dict(nmax=nmax, mmax=mmax, vec=vec)))
            for e in (-1, 0, 1, 3):
                out.append(Case('setcol-n%d-m%d-e%d' % (nmax, mmax, e), setcol, dict(nmax=nmax, mmax=mmax, extra=e)))
                out.append(Case('setrow-n%d-m%d-e%d' % (nmax, mmax, e), setrow, dict(nmax=nmax, mmax=mmax, extra=e)))
    for nmax in list(range(0, 13 if T else 8)) + [12]:
        for mmax in range(0, nmax + 1):
            for vec in (0, 1):
                out.append(Case('forms-%s-n%d-m%d' % ('sv'[vec], nmax, mmax), forms, dict(nmax=nmax, mmax=mmax, vec=vec)))
    seen = {}
    for c in out:
        seen.setdefault(c.name, c)
    return list(seen.values())
