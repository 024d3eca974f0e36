"""Inputs shared by the transform checks"""
import os
import numpy as np

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


def weights(N, G, salt=0):
    """N x G matrix with one nonzero (modulus about 1) per row: entry k of a vector is w_k * u[k mod G]"""
    r = np.random.RandomState(977 * SEED + salt)
    W = np.zeros((N, G), dtype=np.complex128)
    w = (0.5 + 0.5 * r.rand(N)) * np.exp(2j * np.pi * r.rand(N))
    W[np.arange(N), (np.arange(N) + np.arange(N) // G) % G] = w
    return W


def coef_vec(h, name, N, groups=None, salt=0):
    """coefficient vector: every entry free, or (groups) every entry a fixed multiple of one of a few free values"""
    if groups is None:
        return h.cplx(name, N), None
    W = weights(N, groups, salt)
    return h.lin(W, h.cplx(name, groups)), W


def sym_matrix(R, C, sgn):
    """(2R-2)*C x free matrix: doubled-sphere data with symmetry sgn from its free samples"""
    D = 2 * R - 2
    key = {}
    rows = []
    nfree = 0
    for i in range(D):
        for j in range(C):
            k = ((D - i) % D, (j + C // 2) % C)
            if k in key:
                f, s = key[k]
                key[i, j] = (f, s * sgn)
            else:
                key[i, j] = (nfree, 1)
                nfree += 1
    M = np.zeros((D * C, nfree))
    for (i, j), (f, s) in key.items():
        M[i * C + j, f] = s
    return M


def trips(nlo, nhi, extra_rows=(0,), extra_cols=(0,)):
    for n in range(nlo, nhi + 1):
        for m in range(0, n + 1):
            for r in extra_rows:
                for c in extra_cols:
                    yield n, m, n + 2 + r, 2 * m + 2 + c


def lemmas(h):
    """the identities of IEEE arithmetic that the engine applies while it builds terms"""
    if not h.symbolic:
        return
    from eng import core
    h.ctx.has_fp = True
    for name, cs in core.fp_lemmas():
        h.true(name, core.SymBool(h.z3.Not(h.z3.And(cs))))
