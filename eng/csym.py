"""Symbolic execution of the C extension.

/repo/src/csphi.c and kiss_fft.c are compiled to LLVM IR by clang, every floating-point instruction of the IR is
replaced by a call into symrt.c (affine forms over the solver's variables), and the result is linked with the
SWIG wrapper into an extension module with the same interface as the real one.
"""
import ctypes
import hashlib
import importlib.machinery
import importlib.util
import os
import re
import shutil
import subprocess
import sysconfig
import tempfile
import types
import numpy as np
from . import core, sarray, shim
from .core import Ctx, Sym, SInt, SymBool, Unsupported
from .sarray import SA

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
CLANG = 'clang-18' if shutil.which('clang-18') else 'clang'
CACHE = os.path.join(tempfile.gettempdir(), 'spherepy-verif-%d' % os.getuid())

C_FILES = ['csphi.c', 'kiss_fft.c']
PRED = {'oeq': 1, 'ogt': 2, 'oge': 3, 'olt': 4, 'ole': 5, 'one': 6, 'ord': 7, 'uno': 8, 'ueq': 9, 'ugt': 10,
        'uge': 11, 'ult': 12, 'ule': 13, 'une': 14}
FN1 = ['sqrt', 'sin', 'cos', 'floor', 'ceil', 'fabs', 'exp', 'log', 'tan', 'trunc', 'round', 'rint', 'atan']
FN2 = {'pow': 20, 'atan2': 21, 'fmod': 22, 'hypot': 23, 'fmax': 24, 'fmin': 25, 'copysign': 26}
LIBM = FN1 + list(FN2)


def src_files():
    out = []
    for f in sorted(os.listdir(SRC)):
        if f.endswith(('.c', '.h')):
            out.append(os.path.join(SRC, f))
    return out


def digest(extra=()):
    h = hashlib.sha256()
    for f in src_files() + list(extra):
        h.update(f.encode())
        h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise RuntimeError('%s failed:\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout


def cached_dir(key, make):
    """directory CACHE/key, created atomically by make(tmpdir)"""
    d = os.path.join(CACHE, key)
    if os.path.isdir(d):
        return d
    os.makedirs(CACHE, exist_ok=True)
    t = tempfile.mkdtemp(prefix='build-', dir=CACHE)
    try:
        make(t)
        try:
            os.rename(t, d)
        except OSError:
            if not os.path.isdir(d):
                raise
    finally:
        if os.path.isdir(t):
            shutil.rmtree(t)
    return d


# ------------------------------------------------------------------ IR rewriting

class Rewriter(object):
    def __init__(self):
        self.count = {}
        self.need = set()

    def hit(self, k):
        self.count[k] = self.count.get(k, 0) + 1

    def line(self, ln):
        if '@malloc(' in ln:
            # memory contents are chosen by the harness
            self.hit('malloc')
            ln = re.sub(r'^declare .*@malloc\(.*$', 'declare ptr @sr_malloc(i64)', ln).replace('@malloc(', '@sr_malloc(')
            return re.sub(r' #\d+', '', ln)
        m = re.match(r'^(\s*%[\w.]+ = )(fadd|fsub|fmul|fdiv) (?:(?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) )*'
                     r'double (\S+), (\S+?)(,? ![^\n]*)?$', ln)
        if m:
            self.hit(m.group(2))
            self.need.add('declare double @sr_%s(double, double)' % m.group(2))
            return '%scall double @sr_%s(double %s, double %s)' % (m.group(1), m.group(2), m.group(3), m.group(4))
        m = re.match(r'^(\s*%[\w.]+ = )fneg double (\S+)\s*$', ln)
        if m:
            self.hit('fneg')
            self.need.add('declare double @sr_fneg(double)')
            return '%scall double @sr_fneg(double %s)' % (m.group(1), m.group(2))
        m = re.match(r'^(\s*)(%[\w.]+) = fcmp (\w+) double (\S+), (\S+?)\s*$', ln)
        if m:
            self.hit('fcmp')
            self.need.add('declare i32 @sr_fcmp(i32, double, double)')
            ind, d, p, a, b = m.groups()
            if p not in PRED:
                raise Unsupported('fcmp ' + p)
            t = '%sr' + d[1:].replace('.', '_') + '.cmp'
            return ('%s%s = call i32 @sr_fcmp(i32 %d, double %s, double %s)\n%s%s = trunc i32 %s to i1'
                    % (ind, t, PRED[p], a, b, ind, d, t))
        m = re.match(r'^(\s*)(%[\w.]+) = fpto([su])i double (\S+) to i(\d+)\s*$', ln)
        if m:
            self.hit('fptosi')
            self.need.add('declare i64 @sr_fptosi(double)')
            ind, d, _, a, w = m.groups()
            t = '%sr' + d[1:].replace('.', '_') + '.fpi'
            c = '%s%s = call i64 @sr_fptosi(double %s)\n' % (ind, t, a)
            if w == '64':
                return c + '%s%s = add i64 %s, 0' % (ind, d, t)
            return c + '%s%s = trunc i64 %s to i%s' % (ind, d, t, w)
        m = re.match(r'^(\s*%[\w.]+ = )fptrunc double (\S+) to float\s*$', ln)
        if m:
            self.need.add('declare float @sr_fptrunc(double)')
            return '%scall float @sr_fptrunc(double %s)' % (m.group(1), m.group(2))
        m = re.search(r'call [^@]*double @(?:llvm\.)?(\w+)(?:\.f64)?\(', ln)
        if m and m.group(1) in LIBM:
            self.hit('libm')
            f = m.group(1)
            self.need.add('declare double @sr_%s(%s)' % (f, 'double' if f in FN1 else 'double, double'))
            ln = re.sub(r'@(?:llvm\.)?%s(?:\.f64)?\(' % f, '@sr_%s(' % f, ln)
            return re.sub(r'\)(\s*#\d+)?(,.*)?$', ')', ln)
        return ln

    def text(self, s):
        out = [self.line(l) for l in s.split('\n')]
        out.extend(sorted(self.need))
        r = '\n'.join(out)
        bad = re.search(r'^\s*%[\w.]+ = (fadd|fsub|fmul|fdiv|frem|fneg|fcmp)\b[^\n]*\bdouble\b[^\n]*$', r, re.M)
        if bad:
            raise Unsupported('IR instruction not instrumented: ' + bad.group(0))
        bad = re.search(r'^\s*%[\w.]+ = (tail |musttail )?call [^\n]*double @(?!sr_|ynnm|[a-z_]+_fc)(\w[\w.]*)\([^\n]*$',
                        r, re.M)
        if bad and 'declare double @%s' % bad.group(2) in r:
            raise Unsupported('external floating-point call not instrumented: ' + bad.group(0))
        return r


def py_flags():
    inc = sysconfig.get_paths()['include']
    return ['-I' + inc, '-I' + np.get_include(), '-I' + SRC]


def build_sym():
    key = 'sym-' + digest([os.path.join(HERE, 'symrt.c'), os.path.abspath(__file__)])

    def make(t):
        objs = []
        for f in C_FILES:
            b = os.path.join(t, f[:-2])
            run([CLANG, '-O1', '-S', '-emit-llvm', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off',
                 '-fno-builtin', '-fno-math-errno', '-fPIC', '-w', '-I' + SRC, os.path.join(SRC, f), '-o', b + '.ll'])
            rw = Rewriter()
            s = rw.text(open(b + '.ll').read())
            open(b + '.sym.ll', 'w').write(s)
            run([CLANG, '-O1', '-c', '-fPIC', '-ffp-contract=off', '-fno-builtin', '-w', b + '.sym.ll', '-o', b + '.o'])
            objs.append(b + '.o')
            open(b + '.ops', 'w').write(repr(rw.count))
        run([CLANG, '-O2', '-c', '-fPIC', '-ffp-contract=off', os.path.join(HERE, 'symrt.c'), '-o',
             os.path.join(t, 'symrt.o')])
        run([CLANG, '-O0', '-DNDEBUG', '-c', '-fPIC', '-w'] + py_flags() + [os.path.join(SRC, 'csphi_wrap.c'), '-o',
                                                                 os.path.join(t, 'wrap.o')])
        run([CLANG, '-shared'] + objs + [os.path.join(t, 'symrt.o'), os.path.join(t, 'wrap.o'), '-lm', '-o',
                                         os.path.join(t, '_csphi.so')])
    return os.path.join(cached_dir(key, make), '_csphi.so')


# ------------------------------------------------------------------ the module seen by the code under test

class CModule(types.ModuleType):
    def __init__(self, path):
        types.ModuleType.__init__(self, '_csphi')
        self.__dict__['__file__'] = path
        loader = importlib.machinery.ExtensionFileLoader('_csphi', path)
        spec = importlib.util.spec_from_file_location('_csphi', path, loader=loader)
        m = importlib.util.module_from_spec(spec)
        loader.exec_module(m)
        self.__dict__['_m'] = m
        lib = ctypes.CDLL(path)
        self.__dict__['_lib'] = lib
        lib.sr_nops.restype = ctypes.c_long
        lib.sr_nodes.restype = ctypes.c_long
        CB = ctypes.CFUNCTYPE(ctypes.c_uint64, ctypes.c_int, ctypes.c_uint64, ctypes.c_uint64)
        self.__dict__['_cb'] = CB(self._callback)
        lib.sr_set_callback(self._cb)
        self.__dict__['_objs'] = []
        self.__dict__['_err'] = []
        self.__dict__['_depth'] = 0

    def __getattr__(self, name):
        a = getattr(self.__dict__['_m'], name)
        if callable(a) and not isinstance(a, type):
            def f(*args, **kw):
                return self._call(a, args, kw)
            f.__name__ = name
            return f
        return a

    # ------------------------------------------------------------ objects
    def _val(self, u):
        tag = u >> 48
        i = u & 0xFFFFFFFFFFFF
        if tag == 0xFFFB:
            return self._objs[i]
        if tag == 0xFFFA:
            n = Ctx.cur.nvar
            row = np.zeros(n + 1)
            v = np.array([u], dtype=np.uint64).view(np.float64)
            self._lib.sr_export(_p(v), ctypes.c_long(1), n, _p(row))
            return Sym('f', row.astype(np.complex128))
        return np.array([u], dtype=np.uint64).view(np.float64)[0]

    def _bits(self, v):
        if isinstance(v, Sym) and v.is_const():
            v = v.const()
        if isinstance(v, SInt):
            v = Sym.of(v)
        if isinstance(v, (Sym, core.FPv)):
            self._objs.append(v)
            return (0xFFFB << 48) | (len(self._objs) - 1)
        return int(np.array([float(v)]).view(np.uint64)[0])

    def _callback(self, op, a, b):
        try:
            if self._err:
                return 0
            x = self._val(a)
            if op in (4, 5, 6):
                if op == 4:
                    return self._bits(-x)
                if op == 5:
                    v = int(core.trunc(x))
                    return v & 0xFFFFFFFFFFFFFFFF
                raise Unsupported('single precision in C')
            if 200 <= op < 220:
                return self._bits(sarray.call_scalar(FN1[op - 200], None, [x]))
            y = self._val(b)
            if op < 4:
                r = [lambda: x + y, lambda: x - y, lambda: x * y, lambda: x / y][op]()
                return self._bits(r)
            if 100 <= op < 200:
                p = op - 100
                if bool(x < y):
                    r = 4
                elif bool(x == y):
                    r = 1
                else:
                    r = 2
                return 1 if p & r else 0
            name = [k for k, v in FN2.items() if v == op - 200][0]
            if name == 'pow':
                return self._bits(x ** y)
            raise Unsupported('C function %s of a symbolic value' % name)
        except BaseException as e:      # noqa
            self._err.append(e)
            return 0

    # ------------------------------------------------------------ calls
    def to_c(self, a):
        """SA -> numpy array of the same dtype / contiguity holding tagged doubles; None if nothing symbolic"""
        dt = a.dtype
        flat = a.idx.reshape(-1)
        if dt == np.complex128 or dt == np.float64:
            w = 2 if dt == np.complex128 else 1
            if a.mode == 'C':
                data = np.ascontiguousarray(a.conc()).reshape(-1).view(np.float64).copy()
            elif a.mode == 'A':
                c = a.aff().reshape(flat.size, -1)
                n = c.shape[1] - 1
                rows = np.empty((flat.size * w, n + 1))
                if w == 2:
                    rows[0::2] = c.real
                    rows[1::2] = c.imag
                else:
                    rows[:] = c.real
                rows = np.ascontiguousarray(rows)
                data = np.empty(flat.size * w)
                self._lib.sr_import(_p(rows), ctypes.c_long(flat.size * w), n, _p(data))
            else:
                u = np.empty(flat.size * w, dtype=np.uint64)
                for i, v in enumerate(a.obj().reshape(-1)):
                    if w == 2:
                        u[2 * i] = self._bits(v.real)
                        u[2 * i + 1] = self._bits(v.imag)
                    else:
                        u[i] = self._bits(v)
                data = u.view(np.float64)
            arr = data.view(dt).reshape(a.shape)
        else:
            arr = np.zeros(a.shape, dtype=dt) if a.mode != 'C' else a.conc().copy()
        if not a.contiguous() and arr.size > 1:
            big = np.zeros(arr.shape[:-1] + (arr.shape[-1] * 2,), dtype=arr.dtype)
            big[..., ::2] = arr
            arr = big[..., ::2]
        return arr

    def from_c(self, arr):
        if arr.dtype not in (np.dtype(np.complex128), np.dtype(np.float64)):
            return sarray.from_np(arr)
        w = 2 if arr.dtype == np.complex128 else 1
        v = np.ascontiguousarray(arr).reshape(-1).view(np.float64)
        k = self._lib.sr_scan(_p(v), ctypes.c_long(v.size))
        if k == 0:
            return sarray.from_np(arr.copy())
        if k == 1:
            n = Ctx.cur.nvar
            rows = np.empty((v.size, n + 1))
            self._lib.sr_export(_p(v), ctypes.c_long(v.size), n, _p(rows))
            c = rows[0::2] + 1j * rows[1::2] if w == 2 else rows.astype(np.complex128)
            if np.all(np.isfinite(c)):
                return sarray.from_aff(c.reshape(arr.shape + (n + 1,)), arr.dtype)
        out = np.empty(arr.size, dtype=object)
        u = v.view(np.uint64)
        for i in range(arr.size):
            if w == 2:
                re, im = self._val(int(u[2 * i])), self._val(int(u[2 * i + 1]))
                if isinstance(re, sarray.SCAL) or isinstance(im, sarray.SCAL):
                    re, im = Sym.of(re), Sym.of(im)
                    out[i] = Sym('c', None, re.re, im.re)
                else:
                    out[i] = np.complex128(complex(re, im))
            else:
                out[i] = self._val(int(u[i]))
        return sarray.from_obj(out.reshape(arr.shape), arr.dtype)

    def _call(self, fn, args, kw):
        c = Ctx.cur
        if c is not None:
            h = c.hooks.get('c_call')
            if h is not None:
                h(fn.__name__, args)
        a2, back = [], []
        for a in args:
            if isinstance(a, sarray.PartView):
                a = a.mat()
            if isinstance(a, SA):
                arr = self.to_c(a)
                back.append((a, arr))
                a2.append(arr)
            elif isinstance(a, SInt):
                a2.append(int(a))
            elif isinstance(a, Sym):
                raise TypeError("in method '%s', argument of type 'int'" % fn.__name__)
            else:
                a2.append(shim.unwrap(a))
        del self._err[:]
        self._lib.sr_set_callback(self._cb)
        fill = c.flags.get('c_fill') if c is not None else None
        if fill is not None:
            row = np.zeros((1, c.nvar + 1))
            row[0, :len(fill.aff)] = fill.aff.real
            v = np.empty(1)
            self._lib.sr_import(_p(row), ctypes.c_long(1), c.nvar, _p(v))
            self._lib.sr_set_fill(ctypes.c_int(1), _p(v))
        try:
            r = fn(*a2, **kw)
        finally:
            if fill is not None:
                self._lib.sr_set_fill(ctypes.c_int(0), _p(v))
        if self._err:
            e = self._err[0]
            del self._err[:]
            raise e
        for a, arr in back:
            n = self.from_c(arr)
            a[...] = n
        core.STATS.assumptions.add('C extension: LLVM IR of csphi.c and kiss_fft.c executed symbolically')
        if isinstance(r, np.ndarray):
            r = self.from_c(r)
        elif isinstance(r, (list, tuple)):
            r = type(r)(self.from_c(x) if isinstance(x, np.ndarray) else x for x in r)
        if c is not None and not c.flags.get('c_keep'):
            self._lib.sr_reset()
            del self._objs[:]
        return r


def fft(lib, x, out, inverse, stride):
    """run kiss_fft of a shared library on complex128 arrays (out may be x)"""
    n = out.size
    ln = ctypes.c_size_t(0)
    lib.kiss_fft_alloc.restype = ctypes.c_void_p
    lib.kiss_fft_alloc(ctypes.c_int(n), ctypes.c_int(int(inverse)), None, ctypes.byref(ln))
    ln = ctypes.c_size_t(max(ln.value, 264 + 16 * n))
    mem = np.zeros(ln.value // 8 + 2)
    cfg = lib.kiss_fft_alloc(ctypes.c_int(n), ctypes.c_int(int(inverse)), _p(mem), ctypes.byref(ln))
    if not cfg:
        raise Unsupported('kiss_fft_alloc refuses the memory it asked for')
    if stride is None:
        lib.kiss_fft(ctypes.c_void_p(cfg), _p(x), _p(out))
    else:
        lib.kiss_fft_stride(ctypes.c_void_p(cfg), _p(x), _p(out), ctypes.c_int(stride))


def sym_fft(x, inverse, inplace, stride):
    m = module()
    a = m.to_c(x)
    out = a[:-(-a.size // (stride or 1))] if inplace else np.zeros(-(-a.size // (stride or 1)), dtype=np.complex128)
    del m._err[:]
    m._lib.sr_set_callback(m._cb)
    fft(m._lib, a, out, inverse, stride)
    if m._err:
        raise m._err[0]
    r = m.from_c(out)
    m._lib.sr_reset()
    del m._objs[:]
    core.STATS.assumptions.add('C extension: LLVM IR of csphi.c and kiss_fft.c executed symbolically')
    return r


def _p(a):
    return a.ctypes.data_as(ctypes.c_void_p)


_mod = None


def module():
    global _mod
    if _mod is None:
        _mod = CModule(build_sym())
    return _mod
