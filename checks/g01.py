"""G01 plots"""
import numpy
from .run import Case

WHAT = ('the plotting functions executed on symbolic patterns and coefficients against a recorder in place of matplotlib; every array handed to plot_surface, '
        'pcolormesh and plot is compared with the documented surface, image and curves for all values at once.')
BOUNDS = ('plot_mag_on_sphere: every sample free; otherwise 2-3 free samples or modes at each position among fixed others: surfaces for 2 <= nrows <= 5, ncols 2..6 (thorough 7 x 8), real magnitudes (plot_mag_on_sphere) and scalar and transverse '
          'patterns (plot_sphere_mag); images and curves for all 0 <= mmax <= nmax <= 4 (thorough 7)')
OUTSIDE = 'what matplotlib draws from the arrays; colours, labels, the invisible bounding box; simple_plot (fixed nmax 48, 100 x 100)'
ASSUMES = ['pcolormesh: corner arrays one larger than the values are cell edges; arrays of the same size are cell centres (matplotlib >= 3.5)']


def one(h, calls, kind):
    c = [q for q in calls if q[0] == kind]
    h.true('%s drawn once' % kind, len(c) == 1)
    return c[0]


def check_surface(h, call, R, C, mags):
    """mags[i][j]: list of real parts whose root of squares is the radius, or a real radius"""
    np = h.np
    X, Y, Z = call[1][:3]
    for a in (X, Y, Z):
        h.true('surface: shape', tuple(a.shape) == (R, C + 1))
    for i in range(R):
        th = numpy.pi * i / (R - 1)
        for j in range(C + 1):
            ph = 2 * numpy.pi * j / C
            d = (numpy.sin(th) * numpy.cos(ph), numpy.sin(th) * numpy.sin(ph), numpy.cos(th))
            m = mags[i][j % C]
            for q, (a, u) in enumerate(zip((X, Y, Z), d)):
                lab = 'surface %s[%d,%d]' % ('xyz'[q], i, j)
                if isinstance(m, list):
                    s = 0
                    for p in m:
                        s = s + p * p
                    v = a[i, j]
                    if abs(u) < 1e-12:
                        h.true(lab, h.andb(v <= 1e-9, v >= -1e-9))
                    else:
                        v = v * (1 / u)
                        h.true(lab, h.andb(v >= -1e-9, v * v - s <= 1e-9, s - v * v <= 1e-9))
                else:
                    h.close(lab, a[i, j], m * u, 1e-9)


def mag(h, R, C):
    ps = h.mod('plot_sphere')
    T = h.reals('T', (R, C), 0, 2)
    t0 = T.copy()
    calls = h.plots(lambda: ps.plot_mag_on_sphere(T))
    check_surface(h, one(h, calls, 'plot_surface'), R, C, [[t0[i, j] for j in range(C)] for i in range(R)])
    h.same('array unchanged', T, t0)


def sphere(h, R, C, vec, active):
    np, sp, ps = h.np, h.sp, h.mod('plot_sphere')
    D = 2 * R - 2
    from .n01 import vals
    v = vals(h, 'v', D * C, active)
    d = v.reshape((D, C))
    if vec:
        w = vals(h, 'w', D * C, [k + 1 for k in active], 3)
        e = w.reshape((D, C))
        p = sp.TransversePatternUniform(d.copy(), e.copy(), doublesphere=True)
    else:
        p = sp.ScalarPatternUniform(d.copy(), doublesphere=True)
    calls = h.plots(lambda: ps.plot_sphere_mag(p))
    mags = []
    for i in range(R):
        mags.append([])
        for j in range(C):
            ps_ = [d[i, j].real, d[i, j].imag]
            if vec:
                ps_ += [e[i, j].real, e[i, j].imag]
            mags[-1].append(ps_)
    check_surface(h, one(h, calls, 'plot_surface'), R, C, mags)
    if vec:
        h.same('pattern unchanged', p.theta_double, d)
        h.same('pattern unchanged', p.phi_double, e)
    else:
        h.same('pattern unchanged', p.doublesphere, d)


def grid(h, x, y, z, kw):
    """centre coordinates and value of every cell pcolormesh draws"""
    nr, nc = z.shape
    shading = kw.get('shading', 'auto')
    h.true('image: shading', shading in ('auto', 'flat', 'nearest') or shading is None)
    for v, ax in ((x, 0), (y, 1)):
        if len(v.shape) == 2:
            for i in range(v.shape[0]):
                for j in range(v.shape[1]):
                    h.true('image: straight grid', float(v[i, j]) == float(v[0, j] if ax == 0 else v[i, 0]))
    x = [x[0, j] for j in range(x.shape[1])] if len(x.shape) == 2 else [x[j] for j in range(x.shape[0])]
    y = [y[i, 0] for i in range(y.shape[0])] if len(y.shape) == 2 else [y[i] for i in range(y.shape[0])]
    if len(x) == nc + 1 and len(y) == nr + 1:
        x = [(a + b) / 2.0 for a, b in zip(x[:-1], x[1:])]
        y = [(a + b) / 2.0 for a, b in zip(y[:-1], y[1:])]
    else:
        h.true('image: shapes', len(x) == nc and len(y) == nr and shading != 'flat')
    return x, y


def image(h, nmax, mmax, active=None):
    np, ps = h.np, h.mod('plot_sphere')
    from .n01 import vals
    N = h.ncoef(nmax, mmax)
    v = vals(h, 'v', N, active)
    c = h.coefs(v.copy(), nmax, mmax)
    calls = h.plots(lambda: ps.pcolor_coefs(c))
    _, a, k = one(h, calls, 'pcolormesh')
    h.true('image: arguments', len(a) == 3)
    x, y = grid(h, a[0], a[1], a[2], k)
    z = a[2]
    place = dict((nm, q) for q, nm in enumerate(h.ref.modes(nmax, mmax)))
    seen = set()
    for i in range(z.shape[0]):
        for j in range(z.shape[1]):
            n, m = float(y[i]), float(x[j])
            nm = (int(round(n)), int(round(m)))
            h.true('image: cells centred on modes', abs(n - nm[0]) < 1e-9 and abs(m - nm[1]) < 1e-9)
            h.true('image: one cell for each (m,n)', nm not in seen)
            seen.add(nm)
            if nm in place:
                q = place[nm]
                root(h, 'image: |c[%d,%d]|' % nm, z[i, j], v[q])
            else:
                h.close('image: no mode at %d,%d' % nm, z[i, j], 0.0, 0.0)
    lo, hi = k.get('vmin'), k.get('vmax')
    if lo is not None and hi is not None:
        # no value beyond the ends of the colour scale
        cells = [z[i, j] for i in range(z.shape[0]) for j in range(z.shape[1])]
        h.true('image: colour scale', h.andb(*([lo <= q for q in cells] + [q <= hi for q in cells])))
    h.true('image: every mode drawn', all(nm in seen for nm in place))
    h.same('coefficients unchanged', h.vec_of(c, nmax, mmax), v)


def root(h, label, got, val):
    s = val.real * val.real + val.imag * val.imag
    h.true(label, h.andb(got >= 0, got * got - s <= 1e-9, s - got * got <= 1e-9))


def curves(h, nmax, mmax, active=None):
    np, ps = h.np, h.mod('plot_sphere')
    from .n01 import vals
    N = h.ncoef(nmax, mmax)
    v = vals(h, 'v', N, active)
    c = h.coefs(v.copy(), nmax, mmax)
    calls = [q for q in h.plots(lambda: ps.plot_coefs(c)) if q[0] == 'plot']
    lines = []
    for _, a, k in calls:
        h.true('curve: abscissa and ordinate', len(a) >= 2)
        x, y = a[0], a[1]
        if len(y.shape) == 2:
            for j in range(y.shape[1]):
                lines.append((x, [y[i, j] for i in range(y.shape[0])]))
        else:
            lines.append((x, [y[i] for i in range(y.shape[0])]))
    h.true('curves: one for each order', len(lines) == 2 * mmax + 1)
    place = dict((nm, q) for q, nm in enumerate(h.ref.modes(nmax, mmax)))
    for m in range(-mmax, mmax + 1):
        x, y = lines[m + mmax]
        at = {}
        h.true('curve: lengths', x.shape[0] == len(y))
        for i in range(len(y)):
            at[float(x[i])] = y[i]
        for n in range(abs(m), nmax + 1):
            h.true('curve m=%d: point at n=%d' % (m, n), float(n) in at)
            root(h, 'curve: |c[%d,%d]|' % (n, m), at[float(n)], v[place[n, m]])
    h.same('coefficients unchanged', h.vec_of(c, nmax, mmax), v)


def cases(tier):
    out = []
    T = tier == 'thorough'
    for R in range(2, 8 if T else 6):
        for C in range(2, 9 if T else 7, 2):
            out.append(Case('mag-%dx%d' % (R, C), mag, dict(R=R, C=C)))
            D = 2 * R - 2
            for vec in (False, True):
                step = 2 if vec else 3
                for s in range(0, D * C, step):
                    if s // C < R:
                        out.append(Case('sphere-%s-%dx%d-%d' % ('v' if vec else 's', R, C, s), sphere,
                                        dict(R=R, C=C, vec=vec, active=list(range(s, min(s + step, D * C))))))
    for n in range(0, 8 if T else 5):
        for m in range(0, n + 1):
            N = (n + 1) + m * (2 * n + 1 - m)
            for k in range(0, N, 3):
                out.append(Case('image-n%d-m%d-%d' % (n, m, k), image, dict(nmax=n, mmax=m, active=[k, k + 1, k + 2])))
                out.append(Case('curves-n%d-m%d-%d' % (n, m, k), curves, dict(nmax=n, mmax=m, active=[k, k + 1, k + 2])))
    return out
