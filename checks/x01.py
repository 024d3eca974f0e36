"""X01 sizes"""
import numpy
from .run import Case

WHAT = ('constructors with symbolic nmax, mmax and symbolic length of the storage vector; factories with symbolic sizes; forward transforms of patterns with '
        'symbolic nmax and mmax (given or omitted); inverse transforms with symbolic nrows and ncols: accepted exactly when the documented conditions hold, '
        'ValueError otherwise with no transform routine called, and results of exactly the requested sizes.')
BOUNDS = ('constructors: all nmax, mmax <= 24 (thorough 60) and every length; factories: mmax > nmax anywhere below 10^6, valid nmax <= 5; forward: patterns with '
          '2..7 rows and 2..12 columns (thorough 2..10, 2..18; also odd), every nmax, mmax in 0..10^6; inverse: nmax <= 4 (thorough 7), every mmax, every nrows, ncols '
          'in 0..10^6 that is invalid, valid ones up to nmax+5 and 2*mmax+8; both back ends')
OUTSIDE = 'negative or non-integer sizes; forward transform of a wide pattern with both sizes omitted'
BIG = 10 ** 6


class Counter(object):
    """counts calls of the transform routines of both back ends"""

    def __init__(self, h):
        self.n = 0
        self.undo = []
        for m in ('csphi', 'pysphi'):
            try:
                mod = h.mod(m)
            except ImportError:
                continue
            for f in ('fc_to_sc', 'sc_to_fc'):
                if hasattr(mod, f):
                    self.wrap(mod, f)

    def wrap(self, mod, f):
        g = getattr(mod, f)

        def w(*a, **k):
            self.n += 1
            return g(*a, **k)
        self.undo.append((mod, f, g))
        setattr(mod, f, w)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for mod, f, g in self.undo:
            setattr(mod, f, g)


def attempt(h, fn):
    """(result, rejected)"""
    try:
        return fn(), False
    except ValueError:
        return None, True


def ctor(h, N, vec):
    nmax, mmax, L = h.int('nmax', 0, N), h.int('mmax', 0, N + 2), h.int('L', 0, (N + 2) ** 2)
    L2 = h.int('L2', 0, (N + 2) ** 2) if vec else L
    if h.symbolic:
        mk = lambda s, n: h.sarray.SymVec.fresh(s, n.e)
    else:
        mk = lambda s, n: numpy.zeros(n, dtype=complex)
    ok = h.andb(mmax <= nmax, L == h.ncoef(nmax, mmax), L2 == L)
    c, bad = attempt(h, lambda: h.sp.VectorCoefs(mk('v', L), mk('u', L2), nmax, mmax) if vec else h.sp.ScalarCoefs(mk('v', L), nmax, mmax))
    h.iff('accepted exactly when the storage has the right length and mmax <= nmax', ok, not bad)
    if not bad:
        h.true('sizes', h.andb(c.nmax == nmax, c.mmax == mmax))


def maker(h, which, vec, hi):
    sp = h.sp
    nmax, mmax = h.int('nmax', 0, hi), h.int('mmax', 0, hi)
    if hi > 100:
        h.constrain(mmax > nmax)
    f = getattr(sp, which + '_coefs')
    if vec is None:
        c, bad = attempt(h, lambda: f(nmax, mmax))
    else:
        c, bad = attempt(h, lambda: f(nmax, mmax, coef_type=sp.vector if vec else sp.scalar))
    h.iff('accepted exactly when mmax <= nmax', mmax <= nmax, not bad)
    if not bad:
        check_coefs(h, c, nmax, mmax, bool(vec))


def check_coefs(h, c, nmax, mmax, vec):
    h.true('requested sizes', h.andb(c.nmax == nmax, c.mmax == mmax))
    h.true('kind', isinstance(c, h.sp.VectorCoefs if vec else h.sp.ScalarCoefs))
    h.true('number of coefficients', c.size == h.ncoef(nmax, mmax))
    # the extreme modes exist, the next ones do not
    for n, m in ((nmax, mmax), (nmax, -mmax)):
        if not vec or bool(nmax > 0):
            c[n, m]
    for n, m in ((nmax + 1, 0), (nmax, mmax + 1), (nmax, -mmax - 1)):
        h.raises('no mode beyond the sizes', AttributeError, lambda: c[n, m])


def patt(h, which, vec, hi):
    sp = h.sp
    nrows, ncols = h.int('nrows', 2, hi), h.int('ncols', 1, hi)
    if hi > 100:
        h.constrain(ncols % 2 == 1)
    f = getattr(sp, which + '_patt_uniform')
    if vec is None:
        p, bad = attempt(h, lambda: f(nrows, ncols))
    else:
        p, bad = attempt(h, lambda: f(nrows, ncols, patt_type=sp.vector if vec else sp.scalar))
    h.iff('accepted exactly when ncols is even', ncols % 2 == 0, not bad)
    if not bad:
        check_patt(h, p, nrows, ncols, bool(vec))


def check_patt(h, p, nrows, ncols, vec):
    h.true('requested sizes', h.andb(p.nrows == nrows, p.ncols == ncols))
    h.true('kind', isinstance(p, h.sp.TransversePatternUniform if vec else h.sp.ScalarPatternUniform))
    for a in ((p.theta, p.phi) if vec else (p.cdata,)):
        h.true('shape of the samples', h.andb(a.shape[0] == nrows, a.shape[1] == ncols, h.len(a.shape) == 2))
    for a in ((p.theta_double, p.phi_double) if vec else (p.doublesphere,)):
        h.true('shape of the doubled samples', h.andb(a.shape[0] == 2 * nrows - 2, a.shape[1] == ncols))


def forward(h, fn, R, C, given, cext):
    """given: which of nmax, mmax are passed, and how"""
    sp = h.sp
    if not h.use_cext(cext):
        return h.true('no such back end', True)
    vec = fn == 'vspht'
    D = 2 * R - 2
    z = h.val(numpy.zeros((D, C), dtype=complex))
    p = sp.TransversePatternUniform(z, z.copy(), doublesphere=True) if vec else sp.ScalarPatternUniform(z, doublesphere=True)
    nmax, mmax = h.int('nmax', 0, BIG), h.int('mmax', 0, BIG)
    kw, args = {}, ()
    if given == 'positional':
        args = (nmax, mmax)
    elif given == 'none':
        args = (None, None)
    else:
        kw = dict((k, v) for k, v in (('nmax', nmax), ('mmax', mmax)) if k[0] in given)
    f = getattr(sp, fn)
    gn = given == 'positional' or 'n' in given.replace('none', '')
    gm = given == 'positional' or 'm' in given
    en = nmax if gn else R - 2
    em = mmax if gm else (nmax if gn else C // 2 - 1)
    ok = h.andb(em <= en, en <= R - 2, 2 * em < C, C % 2 == 0)
    with Counter(h) as k:
        c, bad = attempt(h, lambda: f(p, *args, **kw))
        h.iff('accepted exactly when the sizes fit the pattern', ok, not bad)
        if bad:
            h.true('rejected before anything is computed', k.n == 0)
    h.use_cext(True)
    if not bad:
        check_coefs(h, c, en, em, vec)


def inverse(h, fn, nmax, mmax, given, cext):
    sp = h.sp
    if not h.use_cext(cext):
        return h.true('no such back end', True)
    vec = fn == 'vispht'
    z = h.val(numpy.zeros(h.ncoef(nmax, mmax), dtype=complex))
    c = sp.VectorCoefs(z, z.copy(), nmax, mmax) if vec else sp.ScalarCoefs(z, nmax, mmax)
    nrows, ncols = h.int('nrows', 0, BIG), h.int('ncols', 0, BIG)
    args, kw = (), {}
    if given == 'positional':
        args = (nrows, ncols)
    elif given == 'none':
        args = (None, None)
    else:
        kw = dict((k, v) for k, v in (('nrows', nrows), ('ncols', ncols)) if k[1] in given)
    gr = given == 'positional' or 'r' in given
    gc = given == 'positional' or 'c' in given
    er = nrows if gr else nmax + 2
    ec = ncols if gc else 2 * mmax + 2
    ok = h.andb(er >= nmax + 2, ec >= 2 * mmax + 2, ec % 2 == 0)
    h.constrain(h.orb(h.notb(ok), h.andb(er <= nmax + 5, ec <= 2 * mmax + 8)))
    h.constrain(h.orb(er != nmax + 1, ec <= 2 * mmax + 8))
    # keep an invalid case small enough to compute if it is accepted
    h.constrain(h.orb(er <= 12, er < nmax + 2, ec > 40, ec % 2 == 1, ec < 2 * mmax + 2))
    with Counter(h) as k:
        p, bad = attempt(h, lambda: getattr(sp, fn)(c, *args, **kw))
        if not bad and not vec and bool(h.andb(er == nmax + 1, ec >= 2 * mmax + 2, ec % 2 == 0)) and h.known_finding('nrows-eq-nmax-plus-1'):
            pass
        else:
            h.iff('accepted exactly when the grid can hold the coefficients', ok, not bad)
        if bad:
            h.true('rejected before anything is computed', k.n == 0)
    h.use_cext(True)
    if not bad:
        check_patt(h, p, er, ec, vec)


def cases(tier):
    T = tier == 'thorough'
    out = []

    def add(f, weight=1, **k):
        c = Case('%s-%s' % (f.__name__, '-'.join(str(b) for a, b in k.items())), f, k, timeout=900 if T else 300, flags={} if f is ctor else {'rand_range': (0.25, 1)} if k.get('which') == 'random' else {'unique': True})
        c.weight = weight
        out.append(c)
    for vec in (False, True):
        add(ctor, 100, N=60 if T else 24, vec=vec)
    for which in ('zeros', 'ones', 'random'):
        for vec in (None, False, True):
            for hi in (6 if T else 4, BIG):
                add(maker, 50, which=which, vec=vec, hi=hi)
            for hi in (10 if T else 6, BIG):
                add(patt, 50, which=which, vec=vec, hi=hi)
    for fn in ('spht', 'vspht', 'spht_slow'):
        for R in range(2, 11 if T else 8):
            for C in list(range(2, 19 if T else 13, 2)) + [3, 7]:
                for cext in (True, False):
                    if fn == 'spht_slow' and cext:
                        continue
                    for given in ('nm', 'n', 'm', '', 'none', 'positional'):
                        if fn == 'spht_slow' and given not in ('nm', 'positional'):
                            continue
                        if given in ('', 'none') and (C // 2 - 1 > R - 2):
                            continue
                        if given == 'none' and (R > 4 or C > 6) or given == 'positional' and (R + C) % 3:
                            continue
                        add(forward, R * C, fn=fn, R=R, C=C, given=given, cext=cext)
    for fn in ('ispht', 'vispht', 'ispht_slow'):
        for nmax in range(0, 8 if T else 5):
            for mmax in range(0, nmax + 1):
                for cext in (True, False):
                    if fn == 'ispht_slow' and cext:
                        continue
                    for given in ('rc', 'r', 'c', '', 'none', 'positional'):
                        if fn == 'ispht_slow' and given not in ('rc', 'positional'):
                            continue
                        if given in ('none', 'positional') and nmax > 2:
                            continue
                        add(inverse, nmax * 10, fn=fn, nmax=nmax, mmax=mmax, given=given, cext=cext)
    return out
