"""C03 windowing"""
from .run import Case

WHAT = 'ScalarCoefs.window executed with every mode and every window value free (products are polynomial terms).'
BOUNDS = 'nmax <= 6, all mmax, every mode and window value free; nmax up to 24 (thorough 48) with free modes and a fixed window, or the reverse'
OUTSIDE = 'larger sizes; windows of another length than nmax+1'


def window(h, nmax, mmax, wkind, ckind='free'):
    np = h.np
    N = h.ncoef(nmax, mmax)
    from .common import weights
    import numpy
    v = h.cplx('v', N) if ckind == 'free' else h.val(weights(N, 1, 3)[:, 0].copy())
    if wkind == 'cplx':
        w = h.cplx('w', nmax + 1)
    elif wkind == 'real':
        w = h.reals('w', nmax + 1)
    else:
        w = h.val(numpy.round(numpy.cos(numpy.arange(nmax + 1) * 1.7 + 0.3), 6))
    c = h.coefs(v.copy(), nmax, mmax)
    other = c.copy()
    w0 = w.copy()
    r = c.window(w)
    h.true('returns nothing', r is None)
    h.true('sizes', c.nmax == nmax and c.mmax == mmax)
    ms = h.ref.modes(nmax, mmax)
    want = np.zeros(N, dtype=np.complex128)
    for i, (n, m) in enumerate(ms):
        want[i] = other[n, m] * w0[n]
    h.close('modes multiplied by the window value of their degree', h.vec_of(c), want, 1e-12)
    h.same('copy unchanged', h.vec_of(other), v)
    h.same('window unchanged', w, w0)


def cases(tier):
    out = []
    T = tier == 'thorough'
    for n in range(0, 9 if T else 7):
        for m in range(0, n + 1):
            for k in ('cplx', 'real', 'const'):
                out.append(Case('window-%s-n%d-m%d' % (k, n, m), window, dict(nmax=n, mmax=m, wkind=k)))
    for n, m in [(9, 4), (12, 12), (24, 5), (24, 24)] + ([(48, 10), (48, 48)] if T else []):
        out.append(Case('window-const-n%d-m%d' % (n, m), window, dict(nmax=n, mmax=m, wkind='const')))
        out.append(Case('window-fixed-n%d-m%d' % (n, m), window, dict(nmax=n, mmax=m, wkind='cplx', ckind='fixed')))
    return out
