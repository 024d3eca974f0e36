"""Independent reference data: orthonormal spherical harmonics (Condon-Shortley phase) and vector harmonics on a grid,
from the three-term recurrence in the degree, in extended precision.  Nothing here uses the code under test."""
import functools
import math
import numpy as np

LD = np.longdouble
PI = LD('3.14159265358979323846264338327950288')


def modes(nmax, mmax):
    """(n, m) in the storage order of the library: m = 0, -1, 1, -2, 2, ..."""
    out = [(n, 0) for n in range(nmax + 1)]
    for m in range(1, mmax + 1):
        out += [(n, -m) for n in range(m, nmax + 1)]
        out += [(n, m) for n in range(m, nmax + 1)]
    return out


def plm(m, nmax, x, s, drop_s=False):
    """P[n] for n = m..nmax (m >= 0): Y_nm = cs(m) P[n](cos t) e^{im phi}; with drop_s divided by sin t (m >= 1)"""
    x = np.asarray(x, dtype=LD)
    s = np.asarray(s, dtype=LD)
    p = np.full(x.shape, LD(1) / np.sqrt(4 * PI), dtype=LD)
    for k in range(1, m + 1):
        p = p * np.sqrt(LD(2 * k + 1) / LD(2 * k))
        if not (drop_s and k == 1):
            p = p * s
    out = [p]
    if nmax > m:
        out.append(np.sqrt(LD(2 * m + 3)) * x * p)
    for l in range(m + 2, nmax + 1):
        A = np.sqrt(LD(4 * l * l - 1) / LD(l * l - m * m))
        B = np.sqrt(LD((l - 1) ** 2 - m * m) / LD(4 * (l - 1) ** 2 - 1))
        out.append(A * (x * out[-1] - B * out[-2]))
    return np.array(out)


def cs(m):
    return -1 if m > 0 and m % 2 else 1


class Grid(object):
    """theta_i = i*pi/(nrows-1) for all rows of the doubled sphere (2*nrows-2 rows) or only the front"""

    def __init__(self, nrows, ncols, nmax, double=False):
        R = 2 * (nrows - 1) if double else nrows
        i = np.arange(R)
        # exact zeros at the poles
        self.x = np.array([_cospi(k, nrows - 1) for k in i], dtype=LD)
        self.s = np.array([_sinpi(k, nrows - 1) for k in i], dtype=LD)
        self.nmax = nmax
        self.ncols = ncols
        self.cosp = np.array([_cospi(2 * k, ncols) for k in range(ncols)], dtype=LD)
        self.sinp = np.array([_sinpi(2 * k, ncols) for k in range(ncols)], dtype=LD)
        self._p = {}
        self._q = {}

    def p(self, n, m):
        a = abs(m)
        if n < a:
            return np.zeros(self.x.shape, dtype=LD)
        if a not in self._p:
            self._p[a] = plm(a, self.nmax, self.x, self.s)
        return self._p[a][n - a] * cs(m)

    def p_over_s(self, n, m):
        a = abs(m)
        if a not in self._q:
            self._q[a] = plm(a, self.nmax, self.x, self.s, True)
        return self._q[a][n - a] * cs(m)

    def e(self, m):
        """e^{i m phi_j}, exact reduction"""
        k = (m * np.arange(self.ncols)) % self.ncols
        return self.cosp[k].astype(np.clongdouble) + 1j * self.sinp[k].astype(np.clongdouble)

    def Y(self, n, m):
        return self.p(n, m)[:, None] * self.e(m)[None, :]

    def dP(self, n, m):
        """theta derivative of p(n, m)"""
        # e^{-i phi} L+ - e^{i phi} L- :  dY/dt = (c+ e^{-i phi} Y_{m+1} - c- e^{i phi} Y_{m-1}) / 2
        r = np.zeros(self.x.shape, dtype=LD)
        if m + 1 <= n:
            r = r + np.sqrt(LD((n - m) * (n + m + 1))) * self.p(n, m + 1)
        if m - 1 >= -n:
            r = r - np.sqrt(LD((n + m) * (n - m + 1))) * self.p(n, m - 1)
        return r / 2

    def X(self, n, m):
        """(X1 theta, X1 phi, X2 theta, X2 phi)"""
        N = 1 / np.sqrt(LD(n * (n + 1)))
        e = self.e(m)[None, :]
        D = (self.dP(n, m) * N)[:, None] * e
        if m == 0:
            S = np.zeros(D.shape, dtype=np.clongdouble)
        else:
            S = 1j * m * (self.p_over_s(n, m) * N)[:, None] * e
        return 1j * S, -1j * D, -D, -S


def _cospi(k, d):
    """cos(pi*k/d) with exact symmetry and exact zeros"""
    k = k % (2 * d)
    if k > d:
        k = 2 * d - k
    if 2 * k > d:
        return -_cospi(d - k, d)
    if 2 * k == d:
        return LD(0)
    return np.cos(PI * LD(k) / LD(d))


def _sinpi(k, d):
    k = k % (2 * d)
    if k > d:
        return -_sinpi(k - d, d)
    if k == 0 or k == d:
        return LD(0)
    if 2 * k > d:
        k = d - k
    return np.sin(PI * LD(k) / LD(d))


def c128(a):
    return np.asarray(a).astype(np.complex128)


@functools.lru_cache(maxsize=None)
def scalar_synth(nrows, ncols, nmax, mmax, double=False):
    """matrix (rows*cols) x modes with the values of Y_nm"""
    g = Grid(nrows, ncols, nmax, double)
    return np.array([c128(g.Y(n, m)).reshape(-1) for n, m in modes(nmax, mmax)]).T.copy()


def synth_apply(nrows, ncols, nmax, mmax, W):
    """doubled-sphere values (rows x cols x G) of the coefficient vectors that are the columns of W (modes x G)"""
    g = Grid(nrows, ncols, nmax, True)
    ms = modes(nmax, mmax)
    G = W.shape[1]
    out = np.zeros((len(g.x), ncols, G), dtype=np.complex128)
    pos = {nm: k for k, nm in enumerate(ms)}
    for m in range(-mmax, mmax + 1):
        P = np.array([g.p(n, m) for n in range(abs(m), nmax + 1)]).astype(np.float64)       # n x rows
        c = W[[pos[n, m] for n in range(abs(m), nmax + 1)]]
        e = g.e(m).astype(np.complex128)
        out += (P.T @ c)[:, None, :] * e[None, :, None]
    return out


def vsynth_apply(nrows, ncols, nmax, mmax, W1, W2):
    """doubled-sphere theta and phi values for the coefficient pairs (W1 column, W2 column)"""
    g = Grid(nrows, ncols, nmax, True)
    ms = modes(nmax, mmax)
    G = W1.shape[1]
    th = np.zeros((len(g.x), ncols, G), dtype=np.complex128)
    ph = np.zeros_like(th)
    pos = {nm: k for k, nm in enumerate(ms)}
    for m in range(-mmax, mmax + 1):
        ns = list(range(max(abs(m), 1), nmax + 1))
        N = np.array([1 / np.sqrt(LD(n * (n + 1))) for n in ns])
        D = (np.array([g.dP(n, m) for n in ns]) * N[:, None]).astype(np.float64).T
        S = np.zeros(D.shape, dtype=np.complex128)
        if m:
            S = 1j * m * (np.array([g.p_over_s(n, m) for n in ns]) * N[:, None]).astype(np.float64).T
        k = [pos[n, m] for n in ns]
        e = g.e(m).astype(np.complex128)[None, :, None]
        a, b = W1[k], W2[k]
        th += (1j * (S @ a) - D @ b)[:, None, :] * e
        ph += (-1j * (D @ a) - S @ b)[:, None, :] * e
    return th, ph


@functools.lru_cache(maxsize=None)
def vector_synth(nrows, ncols, nmax, mmax, double=False):
    """four matrices: theta<-a1, theta<-a2, phi<-a1, phi<-a2 (monopole columns zero)"""
    g = Grid(nrows, ncols, nmax, double)
    cols = [[], [], [], []]
    R = len(g.x)
    for n, m in modes(nmax, mmax):
        if n == 0:
            v = [np.zeros(R * ncols, dtype=np.complex128)] * 4
        else:
            x1t, x1p, x2t, x2p = g.X(n, m)
            v = [c128(a).reshape(-1) for a in (x1t, x2t, x1p, x2p)]
        for k in range(4):
            cols[k].append(v[k])
    return [np.array(c).T.copy() for c in cols]


@functools.lru_cache(maxsize=None)
def gauss(N):
    x, w = np.polynomial.legendre.leggauss(N)
    t = np.pi * (x + 1) / 2
    return t, w * np.pi / 2


@functools.lru_cache(maxsize=None)
def scalar_analysis(drows, ncols, nmax, mmax):
    """modes x (drows*ncols): integral of conj(Y_nm) times the trigonometric interpolant of doubled-sphere samples,
    with the Nyquist latitude frequency dropped"""
    N = drows // 2 + nmax + 24
    t, w = gauss(N)
    nu = np.fft.fftfreq(drows, 1.0 / drows)
    keep = nu != -drows // 2
    keep[drows // 2] = False
    E = np.exp(1j * np.outer(t, nu)) * keep[None, :]             # value at t from theta-frequency coefficients
    i = np.arange(drows)
    DF = np.exp(-2j * np.pi * np.outer(nu, i) / drows) / drows   # samples -> frequencies
    T = E @ DF                                                   # samples on a meridian -> value at t
    rows = []
    x, s = np.cos(t), np.sin(t)
    pl = {a: plm(a, nmax, x, s).astype(float) for a in range(mmax + 1)}
    for n, m in modes(nmax, mmax):
        g = (2 * np.pi * w * s * pl[abs(m)][n - abs(m)] * cs(m)) @ T      # per meridian frequency m
        ph = np.exp(-2j * np.pi * ((m * np.arange(ncols)) % ncols) / ncols) / ncols
        rows.append((g[:, None] * ph[None, :]).reshape(-1))
    return np.array(rows)


@functools.lru_cache(maxsize=None)
def vector_analysis(drows, ncols, nmax, mmax):
    """four matrices a1<-theta, a1<-phi, a2<-theta, a2<-phi: integrals of conj(X1), conj(X2) against the interpolants"""
    N = drows // 2 + nmax + 24
    t, w = gauss(N)
    nu = np.fft.fftfreq(drows, 1.0 / drows)
    keep = np.ones(drows)
    keep[drows // 2] = 0
    E = np.exp(1j * np.outer(t, nu)) * keep[None, :]
    DF = np.exp(-2j * np.pi * np.outer(nu, np.arange(drows)) / drows) / drows
    T = E @ DF
    g = Grid.__new__(Grid)
    g.x, g.s, g.nmax, g.ncols, g._p, g._q = np.cos(t).astype(LD), np.sin(t).astype(LD), nmax, ncols, {}, {}
    out = [[], [], [], []]
    for n, m in modes(nmax, mmax):
        ph = np.exp(-2j * np.pi * ((m * np.arange(ncols)) % ncols) / ncols) / ncols
        if n == 0:
            z = np.zeros(drows * ncols, dtype=np.complex128)
            for k in range(4):
                out[k].append(z)
            continue
        Nn = 1 / math.sqrt(n * (n + 1))
        D = g.dP(n, m).astype(float) * Nn
        S = 1j * m * (g.p_over_s(n, m).astype(float) if m else np.zeros(len(t))) * Nn
        comps = [1j * S, -1j * D, -D + 0j, -S]      # X1 theta, X1 phi, X2 theta, X2 phi
        for k in range(4):
            v = (2 * np.pi * w * np.sin(t) * np.conj(comps[k])) @ T
            out[k].append((v[:, None] * ph[None, :]).reshape(-1))
    return [np.array(o) for o in out]
