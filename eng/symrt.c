/* Run-time support for the instrumented C extension.
 *
 * Every floating-point operation of the LLVM IR of csphi.c / kiss_fft.c is replaced by a call into this file.
 * A double whose top 16 bits are 0xFFFA denotes a node of the arena below: a real affine form
 * c0 + sum coef[j]*x[lo+j] over the solver's variables.  0xFFFB denotes a Python object (handled by call-back).
 * All other doubles are ordinary numbers and are computed natively.
 */
#include <math.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

typedef uint64_t u64;
typedef struct { double c0; int lo, hi; double *co; } node;

static node *nodes = 0;
static long nn = 0, cap = 0;
static char **blocks = 0;
static int nblocks = 0, cblocks = 0;
static size_t used = 0, blksz = 0;
static long nops = 0;
static int maxlen = 0;

typedef u64 (*cb_t)(int op, u64 a, u64 b);
static cb_t callback = 0;

enum { OP_ADD, OP_SUB, OP_MUL, OP_DIV, OP_NEG, OP_FPTOSI, OP_SINGLE, OP_CMP = 100, OP_FN = 200 };

static inline u64 bits(double d) { u64 u; memcpy(&u, &d, 8); return u; }
static inline double dbl(u64 u) { double d; memcpy(&d, &u, 8); return d; }
#define TAG(u) ((u) >> 48)
/* a stale handle (uninitialised memory) is an ordinary NaN */
#define ISA(u) (TAG(u) == 0xFFFA && (long)IDX(u) < nn)
#define ISG(u) (TAG(u) == 0xFFFB)
#define SYMB(u) (ISA(u) || ISG(u))
#define IDX(u) ((u) & 0xFFFFFFFFFFFFULL)

static double *co_alloc(size_t n)
{
    size_t need = n * sizeof(double);
    if (!nblocks || used + need > blksz) {
        if (nblocks == cblocks) {
            cblocks = cblocks ? 2 * cblocks : 64;
            blocks = realloc(blocks, cblocks * sizeof(char *));
        }
        blksz = need > (1 << 20) ? need : (1 << 20);
        blocks[nblocks++] = malloc(blksz);
        used = 0;
    }
    double *p = (double *)(blocks[nblocks - 1] + used);
    used += need;
    return p;
}

static u64 newnode(double c0, int lo, int hi, double *co)
{
    if (nn == cap) {
        cap = cap ? 2 * cap : 4096;
        nodes = realloc(nodes, cap * sizeof(node));
    }
    nodes[nn].c0 = c0; nodes[nn].lo = lo; nodes[nn].hi = hi; nodes[nn].co = co;
    if (hi - lo > maxlen) maxlen = hi - lo;
    return (0xFFFAULL << 48) | (u64)(nn++);
}

/* drop leading / trailing zeros; a constant becomes an ordinary double */
static double finish(double c0, int lo, int hi, double *co)
{
    while (lo < hi && *co == 0.0) { lo++; co++; }
    while (lo < hi && co[hi - lo - 1] == 0.0) hi--;
    if (lo >= hi) return c0;
    return dbl(newnode(c0, lo, hi, co));
}

static double lin(double a, u64 x, double b, u64 y)
{
    /* a*x + b*y, at least one affine node */
    node *p = ISA(x) ? &nodes[IDX(x)] : 0, *q = ISA(y) ? &nodes[IDX(y)] : 0;
    double c0 = a * (p ? p->c0 : dbl(x)) + b * (q ? q->c0 : dbl(y));
    int lo, hi, j;
    if (p && q) { lo = p->lo < q->lo ? p->lo : q->lo; hi = p->hi > q->hi ? p->hi : q->hi; }
    else { node *r = p ? p : q; lo = r->lo; hi = r->hi; }
    double *co = co_alloc(hi - lo);
    memset(co, 0, (hi - lo) * sizeof(double));
    if (p) for (j = p->lo; j < p->hi; j++) co[j - lo] = a * p->co[j - p->lo];
    if (q) for (j = q->lo; j < q->hi; j++) co[j - lo] += b * q->co[j - q->lo];
    return finish(c0, lo, hi, co);
}

static double scale(u64 x, double s, int div)
{
    node *p = &nodes[IDX(x)];
    int j, n = p->hi - p->lo;
    double *co = co_alloc(n);
    if (div) for (j = 0; j < n; j++) co[j] = p->co[j] / s;
    else for (j = 0; j < n; j++) co[j] = p->co[j] * s;
    return finish(div ? p->c0 / s : p->c0 * s, p->lo, p->hi, co);
}

static double general(int op, u64 a, u64 b) { return dbl(callback(op, a, b)); }

double sr_fadd(double x, double y)
{
    u64 a = bits(x), b = bits(y);
    if (!SYMB(a) && !SYMB(b)) return x + y;
    nops++;
    if (ISG(a) || ISG(b) || (!ISA(a) && !isfinite(x)) || (!ISA(b) && !isfinite(y))) return general(OP_ADD, a, b);
    return lin(1.0, a, 1.0, b);
}

double sr_fsub(double x, double y)
{
    u64 a = bits(x), b = bits(y);
    if (!SYMB(a) && !SYMB(b)) return x - y;
    nops++;
    if (ISG(a) || ISG(b) || (!ISA(a) && !isfinite(x)) || (!ISA(b) && !isfinite(y))) return general(OP_SUB, a, b);
    return lin(1.0, a, -1.0, b);
}

double sr_fmul(double x, double y)
{
    u64 a = bits(x), b = bits(y);
    if (!SYMB(a) && !SYMB(b)) return x * y;
    nops++;
    if (ISA(a) && !SYMB(b) && isfinite(y)) return scale(a, y, 0);
    if (ISA(b) && !SYMB(a) && isfinite(x)) return scale(b, x, 0);
    return general(OP_MUL, a, b);
}

double sr_fdiv(double x, double y)
{
    u64 a = bits(x), b = bits(y);
    if (!SYMB(a) && !SYMB(b)) return x / y;
    nops++;
    if (ISA(a) && !SYMB(b) && isfinite(y) && y != 0.0) return scale(a, y, 1);
    return general(OP_DIV, a, b);
}

double sr_fneg(double x)
{
    u64 a = bits(x);
    if (!SYMB(a)) return -x;
    nops++;
    if (ISA(a)) return scale(a, -1.0, 0);
    return general(OP_NEG, a, 0);
}

/* predicates: bit 0 eq, bit 1 gt, bit 2 lt, bit 3 unordered */
int sr_fcmp(int pred, double x, double y)
{
    u64 a = bits(x), b = bits(y);
    if (!SYMB(a) && !SYMB(b)) {
        int r = (x != x || y != y) ? 8 : x < y ? 4 : x > y ? 2 : 1;
        return (pred & r) != 0;
    }
    nops++;
    return (int)callback(OP_CMP + pred, a, b);
}

long sr_fptosi(double x)
{
    u64 a = bits(x);
    if (!SYMB(a)) return (long)x;
    return (long)callback(OP_FPTOSI, a, 0);
}

float sr_fptrunc(double x)
{
    u64 a = bits(x);
    if (!SYMB(a)) return (float)x;
    callback(OP_SINGLE, a, 0);
    return 0.0f;
}

#define FN1(name, k) double sr_##name(double x) { u64 a = bits(x); return SYMB(a) ? general(OP_FN + k, a, 0) : name(x); }
#define FN2(name, k) double sr_##name(double x, double y) { u64 a = bits(x), b = bits(y); \
    return (SYMB(a) || SYMB(b)) ? general(OP_FN + k, a, b) : name(x, y); }
FN1(sqrt, 0) FN1(sin, 1) FN1(cos, 2) FN1(floor, 3) FN1(ceil, 4) FN1(fabs, 5) FN1(exp, 6) FN1(log, 7) FN1(tan, 8)
FN1(trunc, 9) FN1(round, 10) FN1(rint, 11) FN1(atan, 12)
FN2(pow, 20) FN2(atan2, 21) FN2(fmod, 22) FN2(hypot, 23) FN2(fmax, 24) FN2(fmin, 25) FN2(copysign, 26)

/* ------------------------------------------------------------------ interface to Python */
void sr_set_callback(cb_t f) { callback = f; }
void sr_reset(void)
{
    int i;
    for (i = 0; i < nblocks; i++) free(blocks[i]);
    nblocks = 0; used = 0; blksz = 0; nn = 0;
}
long sr_nops(void) { return nops; }
long sr_nodes(void) { return nn; }
int sr_maxlen(void) { return maxlen; }

/* rows of n+1 doubles (constant, coefficients) -> tagged doubles */
void sr_import(const double *rows, long nrows, int n, double *out)
{
    long i;
    for (i = 0; i < nrows; i++) {
        const double *r = rows + i * (n + 1);
        double *co = co_alloc(n);
        memcpy(co, r + 1, n * sizeof(double));
        out[i] = finish(r[0], 0, n, co);
    }
}

/* returns 0: all plain; 1: affine present; 2: Python objects present */
int sr_scan(const double *v, long n)
{
    long i; int r = 0;
    for (i = 0; i < n; i++) {
        u64 a = bits(v[i]);
        if (ISG(a)) return 2;
        if (ISA(a)) r = 1;
    }
    return r;
}

void sr_export(const double *v, long nrows, int n, double *rows)
{
    long i;
    for (i = 0; i < nrows; i++) {
        u64 a = bits(v[i]);
        double *r = rows + i * (n + 1);
        memset(r, 0, (n + 1) * sizeof(double));
        if (ISA(a)) {
            node *p = &nodes[IDX(a)];
            r[0] = p->c0;
            memcpy(r + 1 + p->lo, p->co, (p->hi - p->lo) * sizeof(double));
        } else r[0] = v[i];
    }
}

/* malloc of the instrumented code: optionally filled with one value */
static int fill_on = 0;
static double fill_val;

void sr_set_fill(int on, const double *v) { fill_on = on; fill_val = *v; }

void *sr_malloc(size_t n)
{
    double *p = malloc(n + 8);
    if (p && fill_on) {
        size_t i;
        for (i = 0; i < n / 8; i++) p[i] = fill_val;
    }
    return p;
}
