"""O01 Fourier-domain operators"""
import numpy as rnp
from .run import Case
from .common import weights

WHAT = ('Each operator of ops.py on free Fourier data; input and output are evaluated as functions of (theta, phi) on a grid fine enough to '
        'determine them, and compared with the multiplied / divided / differentiated function.')
BOUNDS = ('Fourier data: every entry inside the band a complex solver variable in [-1,1]^2 for 4..14 rows and 2..10 columns (even), 6 complex '
          'variables spread over all entries up to 202 x 202 (thorough 402 x 202); tolerance 1e-9 at small sizes, 2e-14 x rows x columns x max(rows, columns) above (values grow with the number of frequencies)')
OUTSIDE = 'odd numbers of rows or columns (excluded by the documentation); frequencies at the edge of the band, which the operators document as dropped'


def freqs(n):
    return rnp.array(list(range(0, (n + 1) // 2)) + list(range(-(n // 2), 0)))


def band(h, name, R, C, bt, bp, groups):
    """free data with |row frequency| <= bt and |column frequency| <= bp"""
    np = h.np
    nu, mu = freqs(R), freqs(C)
    rows = [i for i in range(R) if abs(nu[i]) <= bt]
    cols = [j for j in range(C) if abs(mu[j]) <= bp]
    n = len(rows) * len(cols)
    if groups is None or groups >= n:
        x = h.cplx(name, n)
    else:
        x = h.lin(weights(n, groups, len(name)), h.cplx(name, groups))
    a = np.zeros((R, C), dtype=np.complex128)
    x = x.reshape((len(rows), len(cols)))
    for q, i in enumerate(rows):
        a[i, cols] = x[q]
    return a


class Ev(object):
    def __init__(self, R, C):
        self.t = (2 * rnp.pi * (rnp.arange(R + 3) + 0.37)) / (R + 3)
        self.p = (2 * rnp.pi * (rnp.arange(C + 3) + 0.11)) / (C + 3)
        self.R, self.C = R, C

    def f(self, h, F, dt=0, dp=0):
        R, C = F.shape
        nu, mu = freqs(R), freqs(C)
        A = rnp.exp(1j * rnp.outer(self.t, nu)) * (1j * nu) ** dt
        B = rnp.exp(1j * rnp.outer(self.p, mu)) * (1j * mu) ** dp
        return h.np.dot(h.np.dot(A, F), B.T)

    def sin(self):
        return rnp.sin(self.t)[:, None]


def times_sin(h, G):
    """Fourier data of g sin(theta) (independent of ops)"""
    np = h.np
    R = G.shape[0]
    nu = freqs(R)
    pos = {int(v): i for i, v in enumerate(nu)}
    M = rnp.zeros((R, R), dtype=complex)
    for v, i in pos.items():
        if v - 1 in pos:
            M[i, pos[v - 1]] += 1 / 2j
        if v + 1 in pos:
            M[i, pos[v + 1]] -= 1 / 2j
    return np.dot(M, G)


def op(h, what, R, C, groups=None, extra=2, tol=1e-9):
    np, ops = h.np, h.mod('ops')
    ev = Ev(R + (extra if what == 'pad' else 0), C)
    B, P = R // 2, C // 2
    if what == 'sin':
        F = band(h, 'f', R, C, B - 2, P, groups)
        G = F.copy()
        ops.sin_fc(G)
        h.close('sin_fc multiplies by sin(theta)', ev.f(h, G), ev.f(h, F) * ev.sin(), tol)
    elif what == 'divsin':
        G = band(h, 'g', R, C, B - 2, P, groups)
        F = times_sin(h, G)
        ops.divsin_fc(F)
        h.close('divsin_fc divides by sin(theta)', F, G, tol)
    elif what == 'dtheta':
        F = band(h, 'f', R, C, B - 1, P, groups)
        G = F.copy()
        ops.dtheta_fc(G)
        h.close('dtheta_fc differentiates in theta', ev.f(h, G), ev.f(h, F, dt=1), tol)
    elif what == 'dphi':
        F = band(h, 'f', R, C, B, P - 1, groups)
        G = F.copy()
        ops.dphi_fc(G)
        h.close('dphi_fc differentiates in phi', ev.f(h, G), ev.f(h, F, dp=1), tol)
    elif what == 'L':
        g = band(h, 'g', R, C, B - 2, P - 1, groups)
        F = times_sin(h, g)
        F[:, 0] = band(h, 'z', R, 1, B - 1, 1, groups)[:, 0]
        g[:, 0] = 0
        a, b = ops.L_fc(F.copy())
        h.close('L_fc theta component', ev.f(h, a), 1j * ev.f(h, g, dp=1), tol)
        h.close('L_fc phi component', ev.f(h, b), -1j * ev.f(h, F, dt=1), tol)
    elif what == 'sinLdot':
        T = band(h, 't', R, C, B - 2, P - 1, groups)
        Q = band(h, 'pp', R, C, B - 2, P - 1, groups)
        out = ops.sinLdot_fc(T.copy(), Q.copy())
        want = 1j * (ev.f(h, T, dp=1) - (rnp.cos(ev.t)[:, None] * ev.f(h, Q) + ev.sin() * ev.f(h, Q, dt=1)))
        h.close('sinLdot_fc', ev.f(h, out), want, tol)
    elif what == 'fix':
        F = band(h, 'f', R, C, B, P, groups)
        G = F.copy()
        ops.fix_even_row_data_fc(G)
        want = F.copy()
        want[B, :] = 0
        h.close('fix_even_row_data_fc drops exactly the highest frequency', G, want, 0.0)
    elif what == 'pad':
        F = band(h, 'f', R, C, B - 1, P, groups)
        big = np.zeros((R + extra, C), dtype=np.complex128)
        big[:, :] = 3.0 - 2.0j
        G = F.copy()
        ops.pad_rows_fdata(G, big)
        want = np.zeros((R + extra, C), dtype=np.complex128)
        nu, nb = freqs(R), list(freqs(R + extra))
        for i in range(R):
            if abs(nu[i]) <= B - 1:
                want[nb.index(nu[i])] = F[i]
        h.close('padding keeps every frequency', big, want, 0.0)
        h.close('padding does not change its input', G, F, 0.0)


def cases(tier):
    out = []
    T = tier == 'thorough'
    whats = ('sin', 'divsin', 'dtheta', 'dphi', 'L', 'sinLdot', 'fix', 'pad')
    for w in whats:
        for R in range(4, 21 if T else 15, 2):
            for C in range(2, 15 if T else 11, 2):
                out.append(Case('%s-%dx%d' % (w, R, C), op, dict(what=w, R=R, C=C)))
                if w == 'pad':
                    for e in (0, 4, 3):
                        out.append(Case('pad-%dx%d-+%d' % (R, C, e), op, dict(what=w, R=R, C=C, extra=e)))
        for R, C in ((30, 28), (64, 34), (66, 2), (102, 100), (202, 20), (202, 202)) + (((402, 202), (130, 256)) if T else ()):
            c = Case('%s-%dx%d' % (w, R, C), op, dict(what=w, R=R, C=C, groups=6, tol=max(1e-9, 2e-14 * R * C * max(R, C))), timeout=600)
            c.weight = R * C
            out.append(c)
    return out
