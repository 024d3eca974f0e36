"""E03 bundled FFT and its length selection"""
import numpy
from .run import Case
from .common import weights

WHAT = ('kiss_fft (LLVM IR of /repo/src executed symbolically) on vectors whose entries are free complex variables; the difference to the DFT sum is the '
        'claim, forward and inverse, in and out of place, with strides (also both together).  FindQ, kiss_fft_next_fast_size (LLVM IR) and smallest_prime_factor (Python) on a '
        'symbolic length: the result equals the smallest admissible number not below it.')
BOUNDS = ('FFT: every length 1..128 (thorough 1..400) with every entry free, selected lengths up to 2048 (every entry a multiple of one of 6 free values); '
          'lengths searched: every S in 1..1024 (thorough 1..8192); tolerance 1e-10 times the length')
OUTSIDE = 'larger lengths; rounding below the tolerance'


def smooth(ps, limit):
    out = {1}
    for p in ps:
        for v in list(out):
            while v * p <= limit:
                v *= p
                out.add(v)
    return sorted(out)


def dft(h, N, inv, inplace=False, stride=None, groups=None):
    np = h.np
    W = N if stride is None else (N - 1) * stride + 1
    if groups is None:
        x = h.cplx('x', W)
    else:
        x = h.lin(weights(W, groups), h.cplx('x', groups))
    y = h.fft(x, inv, inplace, stride)
    k = numpy.arange(N)
    M = numpy.exp((2j if inv else -2j) * numpy.pi * (numpy.outer(k, k) % N) / N)
    if W > N:
        x = x[::stride]
    h.close('FFT of length %d is the DFT' % N, y, h.lin(M, x), 1e-10 * N)


def length(h, fn, lo, hi):
    ps = (2, 3, 5, 7) if fn == 'smallest_prime_factor' else (2, 3, 5)
    tab = smooth(ps, 4 * hi + 16)
    S = h.int('S', lo, hi)
    if fn == 'smallest_prime_factor':
        q = h.mod('pysphi').smallest_prime_factor(S)
    else:
        q = h.cint(fn, S, bounds=(lo, hi))
    rel = [t for t in tab if t >= lo][:sum(lo <= t <= hi for t in tab) + 1]
    ok = False
    prev = lo - 1
    for t in rel:
        ok = h.orb(ok, h.andb(S > prev, S <= t, q == t))
        prev = t
    h.true('%s returns the smallest admissible length' % fn, ok)


def cases(tier):
    T = tier == 'thorough'
    out = []

    def add(f, weight, **k):
        c = Case('%s-%s' % (f.__name__, "-".join('%s%s' % (a[:2], b) for a, b in k.items())), f, k, timeout=900 if T else 300, flags={'unique': True} if f is length else None)
        c.weight = weight
        out.append(c)
    for N in range(1, 401 if T else 129):
        for inv in (0, 1):
            add(dft, N * N, N=N, inv=inv)
        if N <= 64:
            add(dft, N * N, N=N, inv=N % 2, inplace=True)
            add(dft, N * N, N=N, inv=(N + 1) % 2, stride=2 + N % 3)
            if N % 4 == 1 or N < 13:
                add(dft, N * N, N=N, inv=N % 2, inplace=True, stride=2 + N % 2)
    for N in (135, 144, 160, 169, 180, 192, 200, 225, 240, 243, 250, 256, 289, 300, 320, 343, 360, 375, 384, 400, 405, 432, 450, 480, 486, 500, 512, 600, 625,
              640, 648, 675, 720, 729, 750, 768, 800, 900, 960, 1000, 1024) + ((1080, 1125, 1250, 1280, 1296, 1331, 1500, 1536, 2000, 2048) if T else ()):
        for inv in (0, 1):
            add(dft, N * 20, N=N, inv=inv, groups=6)
    w = 16
    for fn in ('FindQ', 'kiss_fft_next_fast_size', 'smallest_prime_factor'):
        for lo in range(1, 8192 if T else 1024, w):
            add(length, lo * 30, fn=fn, lo=lo, hi=lo + w - 1)
    return out
