"""F01 saving and loading coefficients"""
import os
from .run import Case

WHAT = ('save_coef followed by load_coef (and load_vcoef on text in its format) through virtual files: every number written is a symbolic text '
        'token, every value an IEEE double of the SMT floating-point theory; the claim is bit equality.')
BOUNDS = ('values: all IEEE doubles except nan (finite and infinite, both zeros, subnormals) in real and imaginary part of every mode; all '
          '0 <= mmax <= nmax <= 6 (thorough 10) and selected sizes up to nmax 40')
OUTSIDE = 'nan; larger sizes; the number formatting itself is taken to be correctly rounded (Python guarantees it): >= 17 significant digits convert back exactly'
ASSUMES = ['printf-style formatting with 17 significant digits followed by float() is the identity on doubles; inf and -inf print as such']


def coef(h, nmax, mmax, twice=False):
    np, fl, sp = h.np, h.mod('file'), h.sp
    N = h.ncoef(nmax, mmax)
    v = h.ieee('v', N, cx=True, finite=False)
    c = sp.ScalarCoefs(v.copy(), nmax, mmax)
    fn = h.path('coef.txt')
    if twice:
        # an older, longer file of the same name is replaced
        fl.save_coef(sp.ones_coefs(nmax + 2, mmax), fn)
    fl.save_coef(c, fn)
    d = fl.load_coef(fn)
    h.true('sizes', d.nmax == nmax and d.mmax == mmax)
    h.same('values', h.vec_of(d, nmax, mmax), h.vec_of(c, nmax, mmax))
    h.same('saved object unchanged', h.vec_of(c, nmax, mmax), v)


def vcoef(h, nmax, mmax):
    np, fl, sp = h.np, h.mod('file'), h.sp
    N = h.ncoef(nmax, mmax)
    a, b = h.ieee('a', N - 1, cx=True, finite=False), h.ieee('b', N - 1, cx=True, finite=False)
    dr = h.ieee('dir')
    txt = ['%d,%d,' % (nmax, mmax) + '{0:.16e}'.format(dr)]
    for blk in (a, b):
        if blk is b:
            txt.append('break')
        txt.append('0.0,0.0')
        for k in range(N - 1):
            txt.append('{0:.16e},{1:.16e}'.format(blk[k].real, blk[k].imag))
    h.write_file('vc.txt', '\n'.join(txt) + '\n')
    c, g = fl.load_vcoef(h.path('vc.txt'))
    h.true('sizes', c.nmax == nmax and c.mmax == mmax)
    h.same('directivity', g, dr)
    if N > 1:
        ms = h.ref.modes(nmax, mmax)[1:]
        for k, (n, m) in enumerate(ms):
            p, q = c[n, m]
            h.same('first component', p, a[k])
            h.same('second component', q, b[k])


def cases(tier):
    out = []
    T = tier == 'thorough'
    sizes = [(n, m) for n in range(0, 11 if T else 7) for m in range(0, n + 1)] + [(12, 3), (16, 16), (20, 0), (40, 2)]
    for n, m in sizes:
        out.append(Case('coef-n%d-m%d' % (n, m), coef, dict(nmax=n, mmax=m)))
        if n:
            out.append(Case('vcoef-n%d-m%d' % (n, m), vcoef, dict(nmax=n, mmax=m)))
    out.append(Case('coef-overwrite', coef, dict(nmax=3, mmax=2, twice=True)))
    return out
