"""E02 memory safety of the C extension"""
import ctypes
import os
import subprocess
import numpy
from .run import Case
from eng import cbmc, csym, core

WHAT = ('CBMC on csphi.c (FFT replaced by its contract: it reads and writes exactly nfft elements of the given arrays) and on kiss_fft.c itself: '
        'every array access inside its object, no use after free, no double free, everything freed at the end, no signed overflow, no division by zero; '
        'array contents are arbitrary. Use of uninitialised memory: the compiled IR executed symbolically with malloc returning memory filled with a '
        'free variable; the solver shows that no result depends on it.')
BOUNDS = ('fc_to_sc, sc_to_fc: concrete sizes up to nmax 6 (thorough 14), minimal and larger grids, symbolic contents; single routines with symbolic sizes; '
          'FFT: every length 1..48 (thorough 1..160 and larger ones), both directions, in and out of place, strides 1-3')
OUTSIDE = 'sizes beyond these; failing malloc; the SWIG wrapper; element counts beyond int'
ASSUMES = ['sqrt, sin, cos, pow return arbitrary finite values where the code does not use them as integers']

STUBS = r'''
#include <stdlib.h>
#include <string.h>
#include <math.h>
#ifdef REPLAY
#include <stdio.h>
static long n_alloc = 0;
static void *cnt_malloc(size_t n){ void *p = malloc(n); if(p){ n_alloc++; memset(p, 1, n); } return p; }
static void cnt_free(void *p){ if(p) n_alloc--; free(p); }
#define ASSERT(c, t) do { if(!(c)) { printf("WRONG %s\n", t); exit(3); } } while(0)
#define ASSUME(c) do { if(!(c)) exit(0); } while(0)
#define DONE if(n_alloc){ printf("LEAK of %ld blocks\n", n_alloc); exit(3); } return 0
#define INT(v, lo, hi) int v = in_##v
#define calloc(a, b) memset(cnt_malloc((a) * (b)), 0, (a) * (b))
#define malloc cnt_malloc
#define free cnt_free
#else
double nondet_double(void);
int nondet_int(void);
static double ipart(double x) { int n = (int)x; return x < n ? n - 1.0 : (double)n; }
double sqrt(double x)
{
    if (x >= 0.0 && x < 1e6 && x == ipart(x)) {
        int n = (int)x, k = 0;
        while ((k + 1) * (k + 1) <= n) k++;
        return k * k == n ? (double)k : k + 0.5;
    }
    double r = nondet_double();
    __CPROVER_assume(r >= 0.0 && r < 1e300);
    return r;
}
double floor(double x) { return ipart(x); }
double sin(double x) { return nondet_double(); }
double cos(double x) { return nondet_double(); }
double pow(double a, double b)
{
    if (a == -1.0 && b == ipart(b)) return ((long)b) % 2 ? -1.0 : 1.0;
    return nondet_double();
}
#define ASSERT(c, t) __CPROVER_assert(c, t)
#define ASSUME(c) __CPROVER_assume(c)
#define DONE return 0
#define INT(v, lo, hi) int in_##v = nondet_int(); int v = in_##v; __CPROVER_assume(v >= (lo) && v <= (hi))
#endif
'''

FFT_STUB = r'''
#include "csphi.h"
#ifndef REPLAY
struct cfg { int n; };
kiss_fft_cfg kiss_fft_alloc(int nfft, int inv, void *mem, size_t *len)
{
    __CPROVER_assert(nfft >= 1, "length of the FFT is positive");
    __CPROVER_assert(mem == 0 && len == 0, "FFT state allocated by the library");
    struct cfg *c = malloc(sizeof(struct cfg));
    c->n = nfft;
    return (kiss_fft_cfg)c;
}
void kiss_fft(kiss_fft_cfg k, const kiss_fft_cpx *a, kiss_fft_cpx *b)
{
    int n = ((struct cfg *)k)->n;
    __CPROVER_assert(__CPROVER_r_ok(a, n * sizeof(*a)), "the FFT reads inside its input");
    __CPROVER_assert(__CPROVER_w_ok(b, n * sizeof(*b)), "the FFT writes inside its output");
}
#include "csphi.c"
#else
#include "kiss_fft.c"
#include "csphi.c"
#endif
'''

TRANSFORM = STUBS + FFT_STUB + r'''
int main(void)
{
    int L = NM + 1 + MM * (2 * NM + 1 - MM);
    SCOMPLEX *fd = malloc(sizeof(SCOMPLEX) * NR * NC), *sc = malloc(sizeof(SCOMPLEX) * L);
    CALL(fd, NR, NC, sc, L, NM, MM);
    free(fd);
    free(sc);
    DONE;
}
'''

KISS = STUBS + r'''
#include "kiss_fft.c"
#define W (1 + (N - 1) * STRIDE)
#ifdef REPLAY
int main(void)
{
    kiss_fft_cfg c = kiss_fft_alloc(N, INV, 0, 0);
    kiss_fft_cpx *a = malloc(sizeof(*a) * W), *b = malloc(sizeof(*b) * N);
    kiss_fft_stride(c, a, INPLACE ? a : b, STRIDE);
    free(a); free(b); free(c);
    DONE;
}
#else
/* the state in a typed object of exactly the size that kiss_fft_alloc asks for */
static struct { struct kiss_fft_state s;
#if N > 1
    kiss_fft_cpx rest[N - 1];
#endif
} buf;
int main(void)
{
    size_t len = 0;
    kiss_fft_alloc(N, INV, 0, &len);
    __CPROVER_assert(len >= sizeof(struct kiss_fft_state) + (N - 1) * sizeof(kiss_fft_cpx), "room for the twiddle factors");
    len = sizeof(buf);
    kiss_fft_cfg c = kiss_fft_alloc(N, INV, &buf, &len);
    __CPROVER_assert(c != 0, "the state fits");
    kiss_fft_cpx *a = malloc(sizeof(*a) * W), *b = malloc(sizeof(*b) * N);
    kiss_fft_stride(c, a, INPLACE ? a : b, STRIDE);
    free(a); free(b);
    DONE;
}
#endif
'''

# single routines with symbolic sizes
YN = STUBS + FFT_STUB + r'''
int main(void)
{
    INT(len, 1, 10); INT(n, 0, 9); INT(m, -11, 11);
    ASSUME(n < len);
    SFLOAT *y = malloc(sizeof(SFLOAT) * len);
    ynunm(n, m, y, len);
    free(y);
    DONE;
}
'''
SD = STUBS + FFT_STUB + r'''
int main(void)
{
    INT(q, 1, 24); INT(rows, 2, 14); INT(nmax, 0, 8);
    ASSUME(rows % 2 == 0 && nmax <= rows / 2 - 1 && q >= rows + nmax);
    SCOMPLEX *s = malloc(sizeof(SCOMPLEX) * q);
    SData(s, q, rows, nmax);
    free(s);
    DONE;
}
'''
FM = STUBS + FFT_STUB + r'''
int main(void)
{
    INT(nmax, 0, 3); INT(m, -3, 3); INT(rows, 2, 10); INT(cols, 2, 4); INT(col, 0, 3);
    ASSUME(abs(m) <= nmax && nmax <= rows / 2 - 1 && col < cols);
    SFLOAT *y = malloc(sizeof(SFLOAT) * (nmax + 1));
    SCOMPLEX *v = malloc(sizeof(SCOMPLEX) * (nmax + 1 - abs(m))), *fd = malloc(sizeof(SCOMPLEX) * rows * cols);
    fcvec_m_sc(v, m, nmax, fd, rows, cols, col, y, nmax + 1);
    free(y); free(v); free(fd);
    DONE;
}
'''
HK = STUBS + FFT_STUB + r'''
int main(void)
{
    INT(nmax, 0, 3); INT(m, -3, 3); INT(rows, 2, 8); INT(cols, 2, 6); INT(q, 2, 14);
    ASSUME(rows % 2 == 0 && cols % 2 == 0 && abs(m) <= nmax && nmax <= rows / 2 - 1 && 2 * abs(m) < cols && q >= rows + nmax);
    SCOMPLEX *h = malloc(sizeof(SCOMPLEX) * (nmax + 1)), *s = malloc(sizeof(SCOMPLEX) * q), *f = malloc(sizeof(SCOMPLEX) * q),
             *fd = malloc(sizeof(SCOMPLEX) * rows * cols);
    kiss_fft_cfg a = kiss_fft_alloc(q, 0, 0, 0), b = kiss_fft_alloc(q, 1, 0, 0);
    hkm_fc(fd, rows, cols, nmax, m, h, nmax + 1, s, q, f, q, a, b);
    free(h); free(s); free(f); free(fd); free(a); free(b);
    DONE;
}
'''


def bmc(res, case, known):
    P = case.params
    r = cbmc.check(P['src'], P['defs'], P['unwind'], timeout=case.timeout - 5, extra=P.get('extra', ()))
    res['cfuncs'] = P['funcs']
    res['paths'] = 1
    res['claims'] = r.props
    res['wall'] = r.wall
    if r.status == 'proved':
        res['reach'] = 1
        return
    if r.status == 'refuted':
        # an unwinding assertion alone means that the bound is too small (or that the loop never ends)
        mem = [f for f in r.failed if '.unwind.' not in f[0] and '.recursion' not in f[0]]
        res['status'] = 'violation'
        res['cands'] = [{'label': p, 'detail': d, 'inputs': i} for p, d, i in (mem or r.failed)[:6]]
        return
    res['status'] = 'undecided'
    res['detail'] = r.detail


def bmc_replay(case, d, root):
    P = case.params
    defs = dict(P['defs'])
    defs.update(d['inputs'] or {})
    for k in P.get('ints', ()):
        defs.setdefault('in_' + k, 0)
    bad, txt = cbmc.sanitized(P['src'], defs)
    return txt if bad else None


bmc.custom = True
bmc.replay = bmc_replay

# ------------------------------------------------------------------ uninitialised memory


_rt = {}


def real_fill(fill):
    """the real sources with a malloc that fills with a given double; a shared library"""
    if 'lib' not in _rt:
        d = os.getcwd()
        src = os.path.join(d, 'fill.c')
        with open(src, 'w') as f:
            f.write('#include <stdlib.h>\n#include <string.h>\n#include <math.h>\ndouble fillv;\n'
                    'static void *fm(size_t n){ double *p = malloc(n + 8); for(size_t i = 0; i < n / 8; i++) p[i] = fillv; return p; }\n'
                    '#define malloc fm\n#include "kiss_fft.c"\n#include "csphi.c"\n')
        so = os.path.join(d, 'fill.so')
        subprocess.check_call(['gcc', '-O1', '-w', '-shared', '-fPIC', '-I' + csym.SRC, src, '-o', so, '-lm'])
        _rt['lib'] = ctypes.CDLL(so)
    ctypes.c_double.in_dll(_rt['lib'], 'fillv').value = fill
    return _rt['lib']


def transform(h, call, NM, MM, NR, NC):
    np = h.np
    L = NM + 1 + MM * (2 * NM + 1 - MM)
    r = numpy.random.RandomState(3)
    fill = [h.real('fill', -2, 2), h.real('fill2', -2, 2)]
    act = sorted(set([0, NC * NR - 1, NC + 1]) & set(range(NR * NC)))
    fd = h.val(r.rand(NR, NC) + 1j * r.rand(NR, NC)) if call == 'fc_to_sc' else h.val(numpy.zeros((NR, NC), complex))
    sc = h.val(r.rand(L) + 1j * r.rand(L)) if call == 'sc_to_fc' else h.val(numpy.zeros(L, complex))
    if call == 'fc_to_sc':
        fd = fd + h.cplx('f', NR * NC, -1, 1, active=act).reshape((NR, NC))
    else:
        sc = sc + h.cplx('c', L, -1, 1, active=[0, L - 1])
    out = []
    for v in fill:
        f, s = fd.copy(), sc.copy()
        if h.symbolic:
            h.ctx.flags['c_fill'] = v
            try:
                getattr(h.mod('csphi'), call)(f, s, NM, MM)
            finally:
                h.ctx.flags['c_fill'] = None
        else:
            lib = real_fill(v)
            p = lambda a: a.ctypes.data_as(ctypes.c_void_p)
            getattr(lib, call)(p(f), NR, NC, p(s), L, NM, MM)
        out.append((f, s))
    (f1, s1), (f2, s2) = out
    h.close('Fourier data independent of uninitialised memory', f1, f2, 1e-9)
    h.close('coefficients independent of uninitialised memory', s1, s2, 1e-9)


def sizes(tier):
    T = tier == 'thorough'
    out = []
    for nm in range(0, 15 if T else 7):
        for mm in sorted(set([0, nm // 2, nm])) if nm > 3 else range(nm + 1):
            out.append((nm, mm, nm + 2, 2 * mm + 2))
            if nm < 5 or T:
                out.append((nm, mm, nm + 3, 2 * mm + 4))
            if nm in (1, 2, 4):
                out.append((nm, mm, nm + 6, 2 * mm + 2))
                out.append((nm, mm, nm + 2, 2 * mm + 10))
    return out


def cases(tier):
    T = tier == 'thorough'
    out = []
    X = ['csphi.c:' + f for f in ('fc_to_sc', 'sc_to_fc', 'bnm_fc', 'hkm_fc', 'fcvec_m_sc', 'ynunm', 'ynnm', 'FindQ', 'SData')]
    for nm, mm, nr, nc in sizes(tier):
        R = 2 * nr - 2
        for call in ('fc_to_sc', 'sc_to_fc'):
            c = Case('%s-%d-%d-%dx%d' % (call, nm, mm, R, nc), bmc,
                     dict(src=TRANSFORM, defs=dict(NM=nm, MM=mm, NR=R, NC=nc, CALL=call), unwind=R + nm + 40, funcs=X), timeout=3000 if T else 300)
            c.weight = nm * nm * (mm + 1)
            out.append(c)
            out.append(Case('uninit-%s-%d-%d-%dx%d' % (call, nm, mm, R, nc), transform, dict(call=call, NM=nm, MM=mm, NR=R, NC=nc)))
    K = ['kiss_fft.c:' + f for f in ('kiss_fft_alloc', 'kf_factor', 'kiss_fft_stride', 'kf_work', 'kf_bfly2', 'kf_bfly3', 'kf_bfly4', 'kf_bfly5',
                                     'kf_bfly_generic')]
    for N in list(range(1, 161 if T else 49)) + ([243, 256, 300, 400, 625] if T else []):
        for inv, ip, st in [(N % 2, N % 3 == 0, 1)] if N > 16 and not T else [(0, 0, 1), (1, 1, 1), (0, 0, 2), (1, 1, 3)]:
            c = Case('fft-%d-%d-%d-%d' % (N, inv, ip, st), bmc,
                     dict(src=KISS, defs=dict(N=N, INV=int(inv), INPLACE=int(ip), STRIDE=st), unwind=max(N + 4, 12), funcs=K), timeout=3000 if T else 300)
            c.weight = N
            out.append(c)
    for name, src, ints, u, f in (('ynunm', YN, 'len n m', 14, ['csphi.c:ynunm', 'csphi.c:ynnm']), ('SData', SD, 'q rows nmax', 30, ['csphi.c:SData']),
                                  ('fcvec_m_sc', FM, 'nmax m rows cols col', 12, ['csphi.c:fcvec_m_sc']),
                                  ('hkm_fc', HK, 'nmax m rows cols q', 16, ['csphi.c:hkm_fc'])):
        c = Case('sizes-' + name, bmc, dict(src=src, defs={}, unwind=u, funcs=f, ints=ints.split()), timeout=3000 if T else 400)
        c.optional = True
        c.weight = 1000
        out.append(c)
    return out
