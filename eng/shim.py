"""The world the code under test is executed in: numpy, builtins, imports, files, stdout, plotting."""
import builtins
import io
import math as _math
import os
import re
import types
import numpy as np
import z3
from . import core, sarray
from .core import Sym, SInt, SymBool, FPv, Ctx, Unsupported
from .sarray import SA, SymVec, SCAL, has_sym, wrap, undt


# ---------------------------------------------------------------------------------------------- numpy

def unwrap(x):
    """symbolic-world value without symbolic content -> real numpy value"""
    if isinstance(x, SA):
        if isinstance(x, sarray.PartView):
            x = x.mat()
        return x.conc().copy() if isinstance(x.conc(), np.ndarray) else x.conc()
    if isinstance(x, tuple):
        return tuple(unwrap(v) for v in x) if type(x) is tuple else x
    if isinstance(x, list):
        return [unwrap(v) for v in x]
    if isinstance(x, dict):
        return {k: unwrap(v) for k, v in x.items()}
    if isinstance(x, DType):
        return x._real_type
    if isinstance(x, Func):
        return x._f
    return x


def to_obj(x):
    if isinstance(x, SA):
        if isinstance(x, sarray.PartView):
            x = x.mat()
        return x.obj() if x.symbolic() else x.conc()
    if isinstance(x, SymVec):
        return x.to_sa().obj()
    if isinstance(x, SCAL):
        return x
    if isinstance(x, tuple):
        return tuple(to_obj(v) for v in x)
    if isinstance(x, list):
        if has_sym(x) and not any(isinstance(v, (SA, list, tuple)) for v in x):
            t = np.empty(len(x), dtype=object)
            for i, v in enumerate(x):
                t[i] = v
            return t
        return [to_obj(v) for v in x]
    if isinstance(x, dict):
        return {k: to_obj(v) for k, v in x.items()}
    if isinstance(x, DType):
        return x._real_type
    if isinstance(x, Func):
        return x._f
    return x


_KWOBJ = ('out',)


def generic(f, args, kw):
    name = getattr(f, '__name__', str(f))
    if isinstance(f, np.ufunc):
        if any(isinstance(a, (SA, SymVec) + SCAL) or isinstance(a, (list, tuple, np.ndarray)) for a in args):
            kw2 = dict(kw)
            if len(args) > f.nin:
                kw2['out'] = args[f.nin]
            return sarray.ufunc(f, '__call__', args[:f.nin], kw2)
    if not has_sym(args) and not has_sym(kw):
        out = kw.get('out')
        if isinstance(out, SA):
            kw = dict(kw)
            kw.pop('out')
            r = wrap(f(*unwrap(args), **unwrap(kw)))
            out[...] = r
            return out
        a2 = unwrap(args)
        with np.errstate(all='ignore'):
            r = f(*a2, **unwrap(kw))
        # functions that modify their first argument
        if r is None and args and isinstance(args[0], SA) and isinstance(a2[0], np.ndarray):
            args[0][...] = a2[0]
            return None
        return wrap(r)
    out = kw.get('out')
    kw = {k: v for k, v in kw.items() if k != 'out'}
    dt = None
    if kw.get('dtype') is not None:
        dt = np.dtype(undt(kw['dtype']))
        kw = dict(kw)
        kw.pop('dtype')
    try:
        a2 = to_obj(args)
        r = f(*a2, **to_obj(kw))
    except (Unsupported, core.Inconclusive):
        raise
    except (TypeError, AttributeError, NotImplementedError) as e:
        raise Unsupported('numpy.%s on symbolic data (%s)' % (name, e))
    if r is None and args and isinstance(args[0], SA) and isinstance(a2[0], np.ndarray):
        args[0][...] = sarray.from_obj(np.asarray(a2[0], dtype=object))
        return None
    r = wrap(r)
    if dt is not None and isinstance(r, SA):
        r = r.astype(dt)
    if out is not None:
        out[...] = r
        return out
    return r


def _shape(s):
    if isinstance(s, (SInt, int, np.integer)):
        return s
    if isinstance(s, SA):
        return tuple(int(v) for v in s)
    return tuple(s) if isinstance(s, (list, tuple)) else s


def _filled(fn, val):
    def f(shape, dtype=float, order='C', **kw):
        shape = _shape(shape)
        c = Ctx.cur
        if c is not None:
            h = c.hooks.get('alloc')
            if h is not None:
                r = h(shape, dtype)
                if r is not None:
                    return r
            s1 = shape[0] if isinstance(shape, tuple) and len(shape) == 1 else shape
            if c.flags.get('symvec') and isinstance(s1, SInt) and not z3.is_int_value(z3.simplify(s1.e)):
                if bool(SymBool(s1.e < 0)):
                    raise ValueError('negative dimensions are not allowed')
                v = Sym.of(complex(val))
                return SymVec(s1.e, lambda i: v)
        if isinstance(shape, tuple):
            shape = tuple(sh if not isinstance(sh, SInt) else int(sh) for sh in shape)
        elif isinstance(shape, SInt):
            shape = int(shape)
        return sarray.from_np(fn(shape, dtype=undt(dtype)))
    f.__name__ = fn.__name__
    return f


def _like(fn):
    def f(a, dtype=None, **kw):
        if isinstance(a, SymVec):
            v = Sym.of(0j if fn is np.zeros else 1 + 0j)
            return SymVec(a.length, lambda i: v)
        a = sarray.lift(a)
        return sarray.from_np(fn(a.shape, dtype=undt(dtype) if dtype is not None else a.dtype))
    return f


def np_full(shape, val, dtype=None, **kw):
    v = sarray.lift(val)
    dt = np.dtype(undt(dtype)) if dtype is not None else v.dtype
    r = sarray.from_np(np.zeros(unwrap(_shape(shape)), dtype=dt))
    r[...] = val
    return r


def np_copy(a, order='K', **kw):
    if isinstance(a, SymVec):
        return a.copy()
    return sarray.array(a)


def np_asarray(a, dtype=None, **kw):
    if isinstance(a, SymVec):
        return a
    if isinstance(a, SA) and (dtype is None or np.dtype(undt(dtype)) == a.dtype):
        return a
    return sarray.array(a, dtype)


def np_ascontig(a, dtype=None, **kw):
    if isinstance(a, SymVec):
        return a
    a = np_asarray(a, dtype)
    if a.ndim == 0:
        a = a.reshape(1)
    return a if a.contiguous() else a.copy()


def np_require(a, dtype=None, requirements=None, **kw):
    return np_ascontig(a, dtype)


def np_array(a, dtype=None, copy=True, **kw):
    if isinstance(a, SymVec):
        return a.copy() if copy else a
    kw.pop('order', None)
    kw.pop('subok', None)
    if isinstance(a, SymRange):
        a = list(a)
    if isinstance(a, range):
        a = list(a)
    return sarray.array(a, dtype, copy, **kw)


def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    if not isinstance(a, (SA, list, tuple, np.ndarray, SymVec) + SCAL):
        a = list(a)
    return sarray.reduce_sum(sarray.lift(a), axis, dtype, out, keepdims)


def np_mean(a, axis=None, **kw):
    return sarray.lift(a).mean(axis, **kw)


def np_max(a, axis=None, out=None, keepdims=False, **kw):
    return sarray.reduce_ext(sarray.lift(a), axis, keepdims, True)


def np_min(a, axis=None, out=None, keepdims=False, **kw):
    return sarray.reduce_ext(sarray.lift(a), axis, keepdims, False)


def np_any(a, axis=None, **kw):
    return sarray.reduce_bool(sarray.lift(a), axis, False, z3.Or)


def np_all(a, axis=None, **kw):
    return sarray.reduce_bool(sarray.lift(a), axis, False, z3.And)


def np_real(a):
    if isinstance(a, (SA,) + SCAL):
        return a.real
    return wrap(np.real(unwrap(a)))


def np_imag(a):
    if isinstance(a, (SA,) + SCAL):
        return a.imag
    return wrap(np.imag(unwrap(a)))


def np_where(c, *ab):
    if not ab:
        return generic(np.where, (sarray.lift(c).concrete_or_fork(),), {})
    a, b = ab
    cl = sarray.lift(c)
    if cl.mode == 'C':
        if not has_sym([a, b]):
            return wrap(np.where(cl.conc(), unwrap(a), unwrap(b)))
        al, bl = sarray.lift(a), sarray.lift(b)
        shp = np.broadcast(cl.idx, al.idx, bl.idx).shape
        r = sarray.from_np(np.zeros(shp, dtype=np.result_type(al.dtype, bl.dtype)))
        m = np.broadcast_to(cl.conc(), shp)
        r[m] = SA(al.st, np.broadcast_to(al.idx, shp))[m]
        r[~m] = SA(bl.st, np.broadcast_to(bl.idx, shp))[~m]
        return r
    al, bl = sarray.lift(a), sarray.lift(b)
    shp = np.broadcast(cl.idx, al.idx, bl.idx).shape
    co = np.broadcast_to(cl.obj(), shp).reshape(-1)
    ao = np.broadcast_to(al.obj(), shp).reshape(-1)
    bo = np.broadcast_to(bl.obj(), shp).reshape(-1)
    out = np.empty(co.size, dtype=object)
    for i in range(co.size):
        out[i] = ite(co[i], ao[i], bo[i])
    return sarray.from_obj(out.reshape(shp), np.result_type(al.dtype, bl.dtype))


def ite(c, a, b):
    if not isinstance(c, SCAL):
        return a if c else b
    t = core.as_bool_term(c)
    if isinstance(a, FPv) or isinstance(b, FPv) or not (_fin(a) and _fin(b)):
        return a if bool(SymBool(t)) else b
    if all(isinstance(v, (SInt, int, np.integer)) for v in (a, b)):
        return SInt(z3.If(t, SInt._l(a), SInt._l(b)))
    a, b = Sym.of(a), Sym.of(b)
    k = 'c' if 'c' in (a.kind, b.kind) else 'f'
    return Sym(k, None, z3.If(t, a.re, b.re), None if k == 'f' else z3.If(t, a.im, b.im))


def _fin(v):
    return isinstance(v, SCAL) or bool(np.isfinite(v))


def fft_wrap(f, two):
    name = f.__name__

    def g(a, *args, **kw):
        args, kw = unwrap(args), unwrap(kw)
        if not has_sym(a):
            return wrap(f(unwrap(a), *args, **kw))
        a = sarray.lift(a)
        if not a.is_affine():
            raise Unsupported('FFT of nonlinear symbolic data')
        d = a.aff()
        nd = a.ndim
        if two:
            keys = ['s', 'axes', 'norm']
        else:
            keys = ['n', 'axis', 'norm']
        for k, v in zip(keys, args):
            kw[k] = v
        if two:
            axes = kw.get('axes')
            if axes is None:
                if name.endswith('2'):
                    axes = (-2, -1)
                elif kw.get('s') is not None:
                    axes = tuple(range(-len(kw['s']), 0))
                else:
                    axes = tuple(range(nd))
            kw['axes'] = tuple(x % nd if x < 0 else x for x in axes)
        else:
            ax = kw.get('axis', -1)
            kw['axis'] = ax % nd if ax < 0 else ax
        if name.startswith('rfft') or name == 'ihfft':
            d = d.real
        r = f(d, **kw)
        dt = np.dtype(np.float64) if name.startswith('irfft') or name == 'hfft' else np.dtype(np.complex128)
        return sarray.from_aff(np.asarray(r, dtype=np.complex128), dt)
    g.__name__ = name
    return g


def np_dot(a, b, out=None):
    if isinstance(a, SCAL) or isinstance(b, SCAL):
        return a * b
    return matprod(np.dot, a, b)


def matprod(f, a, b):
    if not has_sym(a) and not has_sym(b):
        return wrap(f(unwrap(a), unwrap(b)))
    a, b = sarray.lift(a), sarray.lift(b)
    # concrete x affine
    if a.mode == 'C' and b.is_affine() and a.ndim <= 2 and b.ndim <= 2 and a.ndim >= 1 and b.ndim >= 1:
        d = b.aff()
        x = a.conc()
        if b.ndim == 1:
            r = np.tensordot(x, d, axes=([x.ndim - 1], [0]))
        else:
            r = np.tensordot(x, d, axes=([x.ndim - 1], [0]))
        r = sarray.from_aff(np.asarray(r, dtype=np.complex128), np.result_type(a.dtype, b.dtype))
        return r if r.ndim else sarray.scal(r)
    if b.mode == 'C' and a.is_affine() and a.ndim <= 2 and b.ndim <= 2 and a.ndim >= 1 and b.ndim >= 1:
        d = a.aff()
        x = b.conc()
        d2 = np.moveaxis(d, -1, 0)
        r = np.moveaxis(np.matmul(d2, x), 0, -1)
        r = sarray.from_aff(np.asarray(r, dtype=np.complex128), np.result_type(a.dtype, b.dtype))
        return r if r.ndim else sarray.scal(r)
    r = f(a.obj(), b.obj())
    if isinstance(r, np.ndarray):
        return sarray.from_obj(r)
    return r


def np_matmul(a, b, **kw):
    return matprod(np.matmul, a, b)


def np_vdot(a, b):
    return np_dot(sarray.lift(a).ravel().conj(), sarray.lift(b).ravel())


def np_einsum(*args, **kw):
    kw.pop('optimize', None)
    if not has_sym(args):
        return wrap(np.einsum(*unwrap(args), **kw))
    ops = list(args)
    if isinstance(ops[0], str):
        # one affine operand: carry the coefficient axis along
        ls = [sarray.lift(o) for o in ops[1:]]
        sy = [i for i, o in enumerate(ls) if o.symbolic()]
        spec = ops[0].replace(' ', '')
        if len(sy) == 1 and ls[sy[0]].is_affine() and '...' not in spec and 'Z' not in spec:
            if '->' in spec:
                lhs, rhs = spec.split('->')
            else:
                lhs = spec
                cnt = {}
                for ch in lhs.replace(',', ''):
                    cnt[ch] = cnt.get(ch, 0) + 1
                rhs = ''.join(sorted(ch for ch in cnt if cnt[ch] == 1))
            parts = lhs.split(',')
            parts[sy[0]] += 'Z'
            data = [o.aff() if i == sy[0] else o.conc() for i, o in enumerate(ls)]
            r = np.einsum(','.join(parts) + '->' + rhs + 'Z', *data)
            dt = np.result_type(*[o.dtype for o in ls])
            r = sarray.from_aff(np.asarray(r, dtype=np.complex128), dt)
            return r if r.ndim else sarray.scal(r)
    objs = []
    for o in ops[1:]:
        v = sarray.lift(o).obj()
        objs.append(v)
    r = np.einsum(ops[0], *objs, **kw)
    return wrap(r) if isinstance(r, np.ndarray) else r


def np_mod(a, b):
    return sarray.ufunc(np.remainder, '__call__', (a, b), {})


def np_linalg_norm(x, ord=None, axis=None, keepdims=False):
    if not has_sym(x):
        return wrap(np.linalg.norm(unwrap(x), ord, axis, keepdims))
    a = abs(sarray.lift(x))
    if ord in (None, 2, 'fro') and (ord is None or a.ndim == 1 or ord == 'fro'):
        s = sarray.reduce_sum(a * a, axis, None, None, keepdims)
        return sarray.ufunc(np.sqrt, '__call__', (s,), {})
    if ord == np.inf and a.ndim == 1:
        return a.max()
    if ord == 1 and a.ndim == 1:
        return a.sum()
    raise Unsupported('linalg.norm')


def np_isscalar(x):
    return isinstance(x, SCAL) or np.isscalar(x)


def np_iscomplexobj(x):
    if isinstance(x, (SA,) + SCAL):
        return x.dtype.kind == 'c'
    return np.iscomplexobj(unwrap(x))


def np_allclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    return bool(np_isclose(a, b, rtol, atol).all()) if has_sym([a, b]) else np.allclose(unwrap(a), unwrap(b), rtol, atol, **kw)


def np_isclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    if not has_sym([a, b]):
        return wrap(np.isclose(unwrap(a), unwrap(b), rtol, atol, **kw))
    a, b = sarray.lift(a), sarray.lift(b)
    return abs(a - b) <= atol + rtol * abs(b)


def np_array_equal(a, b, **kw):
    a, b = sarray.lift(a), sarray.lift(b)
    if a.shape != b.shape:
        return False
    return bool((a == b).all())


def np_median(*a, **k):
    raise Unsupported('median')


def np_iterable(f):
    def g(a, *args, **kw):
        return generic(f, (a,) + args, kw)
    return g


def np_shape(a):
    return a.shape if hasattr(a, 'shape') else np.shape(unwrap(a))


def np_size(a, axis=None):
    a = sarray.lift(a)
    return a.size if axis is None else a.shape[axis]


def np_ndim(a):
    return a.ndim if hasattr(a, 'ndim') else np.ndim(unwrap(a))


def np_result_type(*a):
    b = []
    for x in a:
        if isinstance(x, (SA,) + SCAL):
            b.append(x.dtype)
        else:
            b.append(undt(x))
    return np.result_type(*b)


def np_nditer(a, *args, **kw):
    raise Unsupported('nditer')


def np_ndenumerate(a):
    a = sarray.lift(a)
    for ix in np.ndindex(*a.shape):
        yield ix, a[ix]


def np_dtype(x, *a, **k):
    return np.dtype(undt(x), *a, **k)


def np_copyto(dst, src, **kw):
    if kw.get('where', True) is not True:
        raise Unsupported('copyto where')
    dst[...] = src


def np_fill_diagonal(a, v):
    n = min(a.shape)
    for i in range(n):
        a[i, i] = v


def np_reshape(a, s, *k, **kw):
    return sarray.lift(a).reshape(s)


def np_transpose(a, axes=None):
    a = sarray.lift(a)
    return a.transpose(axes) if axes is not None else a.T


def np_view(f):
    """functions returning a view: apply to the index array"""
    def g(a, *args, **kw):
        if isinstance(a, SymVec):
            a = a.to_sa()
        a = sarray.lift(a)
        return SA(a.st, f(a.idx, *unwrap(args), **unwrap(kw)))
    return g


def np_split(f):
    def g(a, *args, **kw):
        a = sarray.lift(a)
        return [SA(a.st, i) for i in f(a.idx, *unwrap(args), **unwrap(kw))]
    return g


def np_shuffle(f):
    """position-only functions with fresh results (roll, flip, repeat, tile ...)"""
    def g(a, *args, **kw):
        a = sarray.lift(a)
        return SA(a.st, f(a.idx, *unwrap(args), **unwrap(kw))).copy()
    return g


def np_concat(f):
    def g(seq, *args, **kw):
        if not isinstance(seq, (list, tuple)):
            seq = [v for v in seq]
        dt = kw.pop('dtype', None)
        if any(isinstance(s, SymVec) for s in seq):
            seq = [s.to_sa() if isinstance(s, SymVec) else s for s in seq]
        if not has_sym(list(seq)):
            r = wrap(f(unwrap(tuple(seq)), *unwrap(args), **unwrap(kw)))
        else:
            ls = [sarray.lift(s) for s in seq]
            # merge into one store
            dts = np.result_type(*[l.dtype for l in ls])
            off = 0
            idxs = []
            aff = all(l.is_affine() for l in ls) and dts.kind in 'fc'
            parts = []
            for l in ls:
                if aff:
                    parts.append((lambda m, k: m.reshape(k, m.shape[-1]))(l.aff(), l.size))
                else:
                    parts.append(l.obj().reshape(-1))
                idxs.append(np.arange(off, off + l.size).reshape(l.shape))
                off += l.size
            data = np.concatenate(parts, axis=0)
            idx = f(idxs, *unwrap(args), **unwrap(kw))
            if aff:
                r = SA(sarray.Store('A', dts, np.ascontiguousarray(data[idx.reshape(-1)])),
                       np.arange(idx.size).reshape(idx.shape))
            else:
                o = np.empty(idx.size, dtype=object)
                for p, i in enumerate(idx.reshape(-1)):
                    o[p] = data[i]
                r = sarray.from_obj(o.reshape(idx.shape), dts)
        if dt is not None:
            r = r.astype(dt)
        return r
    return g


def np_pad(a, width, mode='constant', **kw):
    if not has_sym(a) or mode != 'constant' or kw.get('constant_values', 0) != 0:
        if has_sym(a) and mode != 'constant':
            a = sarray.lift(a)
            return SA(a.st, np.pad(a.idx, unwrap(width), mode=mode, **unwrap(kw))).copy()
        return generic(np.pad, (a, width, mode), kw)
    a = sarray.lift(a)
    tag = np.pad(np.arange(a.size).reshape(a.shape), unwrap(width), mode='constant', constant_values=-1)
    r = sarray.from_np(np.zeros(tag.shape, dtype=a.dtype))
    m = tag >= 0
    r[m] = SA(a.st, a.idx.reshape(-1)[tag[m]])
    return r


def np_loadtxt(fname, *args, **kw):
    raise Unsupported('loadtxt')


class Func(object):
    """a numpy function seen from the code under test"""

    def __init__(self, f, impl):
        self._f = f
        self._impl = impl
        self.__name__ = getattr(f, '__name__', 'f')
        self.__doc__ = None

    def __call__(self, *args, **kw):
        if Ctx.cur is not None:
            h = Ctx.cur.hooks.get('np')
            if h is not None:
                h(self.__name__, args, kw)
        return self._impl(*args, **kw)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        a = getattr(self._f, n)
        if isinstance(self._f, np.ufunc) and n in ('reduce', 'accumulate', 'outer', 'at', 'reduceat'):
            uf = self._f

            def m(*args, **kw):
                return sarray._ufunc_method(uf, n, args, dict(kw), kw.get('out'))
            return m
        return a


class DTypeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._real_type)


class DType(object):
    """np.complex128 and friends: usable as dtype, as constructor and in isinstance"""

    def __init__(self, t):
        self._real_type = t
        self.__name__ = t.__name__

    @property
    def dtype(self):
        return np.dtype(self._real_type)

    def __call__(self, x=0, *a):
        if isinstance(x, SymVec):
            x = x.to_sa()
        if isinstance(x, SA):
            if x.ndim == 0 and not x.symbolic():
                return self._real_type(x.conc())
            return x.astype(self._real_type)
        if isinstance(x, SCAL):
            return sarray.cast_scalar(x, np.dtype(self._real_type))
        if isinstance(x, (list, tuple)) and has_sym(x):
            return sarray.array(x, self._real_type)
        if isinstance(x, str) and self._real_type in (np.float64,):
            return parse_float(x)
        return wrap(self._real_type(unwrap(x), *a))

    def __eq__(self, o):
        return undt(o) == self._real_type

    def __hash__(self):
        return hash(self._real_type)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self._real_type, n)


SPECIAL = {}


def special(*names):
    def d(f):
        for n in names:
            SPECIAL[n] = f
        return f
    return d


def _build_specials():
    S = SPECIAL
    S['zeros'] = _filled(np.zeros, 0.0)
    S['ones'] = _filled(np.ones, 1.0)
    S['empty'] = _filled(np.zeros, 0.0)
    S['zeros_like'] = _like(np.zeros)
    S['ones_like'] = _like(np.ones)
    S['empty_like'] = _like(np.zeros)
    S['full'] = np_full
    S['full_like'] = lambda a, v, dtype=None, **k: np_full(sarray.lift(a).shape, v, dtype or a.dtype)
    S['copy'] = np_copy
    S['array'] = np_array
    S['asarray'] = S['asanyarray'] = np_asarray
    S['ascontiguousarray'] = np_ascontig
    S['require'] = np_require
    S['sum'] = np_sum
    S['mean'] = S['average'] = np_mean
    S['max'] = S['amax'] = S['nanmax'] = np_max
    S['min'] = S['amin'] = S['nanmin'] = np_min
    S['any'] = np_any
    S['all'] = np_all
    S['real'] = np_real
    S['imag'] = np_imag
    S['where'] = np_where
    S['dot'] = np_dot
    S['inner'] = lambda a, b: np_dot(a, b) if sarray.lift(a).ndim == 1 and sarray.lift(b).ndim == 1 else generic(np.inner, (a, b), {})
    S['matmul'] = np_matmul
    S['vdot'] = np_vdot
    S['einsum'] = np_einsum
    S['isscalar'] = np_isscalar
    S['iscomplexobj'] = np_iscomplexobj
    S['isrealobj'] = lambda x: not np_iscomplexobj(x)
    S['allclose'] = np_allclose
    S['isclose'] = np_isclose
    S['array_equal'] = np_array_equal
    S['shape'] = np_shape
    S['size'] = np_size
    S['ndim'] = np_ndim
    S['result_type'] = np_result_type
    S['ndenumerate'] = np_ndenumerate
    S['copyto'] = np_copyto
    S['fill_diagonal'] = np_fill_diagonal
    S['reshape'] = np_reshape
    S['transpose'] = np_transpose
    S['nditer'] = np_nditer
    for n in ('ravel', 'swapaxes', 'moveaxis', 'rollaxis', 'expand_dims', 'squeeze', 'flip', 'fliplr', 'flipud',
              'rot90', 'diagonal', 'broadcast_to', 'atleast_1d', 'atleast_2d'):
        S[n] = np_view(getattr(np, n))
    for n in ('roll', 'repeat', 'tile', 'take', 'delete', 'resize'):
        S[n] = np_shuffle(getattr(np, n))
    for n in ('split', 'array_split', 'hsplit', 'vsplit'):
        S[n] = np_split(getattr(np, n))
    for n in ('concatenate', 'hstack', 'vstack', 'stack', 'row_stack', 'column_stack', 'dstack', 'block'):
        if n != 'block':
            S[n] = np_concat(getattr(np, n))
    S['pad'] = np_pad
    S['loadtxt'] = S['genfromtxt'] = S['fromstring'] = S['fromiter'] = np_loadtxt


_build_specials()

FFT2 = ('fft2', 'ifft2', 'fftn', 'ifftn', 'rfft2', 'irfft2', 'rfftn', 'irfftn')
FFT1 = ('fft', 'ifft', 'rfft', 'irfft', 'hfft', 'ihfft')


def call_np(func, args, kw):
    n = getattr(func, '__name__', '')
    mod = getattr(func, '__module__', '') or ''
    if 'fft' in mod and n in FFT1 + FFT2:
        return fft_wrap(func, n in FFT2)(*args, **kw)
    if n in SPECIAL and getattr(np, n, None) is func:
        return SPECIAL[n](*args, **kw)
    return generic(func, tuple(args), dict(kw))


class NPModule(types.ModuleType):
    """stand-in for numpy (and its submodules)"""

    def __init__(self, real, specials, path='numpy'):
        types.ModuleType.__init__(self, path)
        self.__dict__['_real'] = real
        self.__dict__['_specials'] = specials
        self.__dict__['_path'] = path
        self.__dict__['_cache'] = {}

    def __getattr__(self, n):
        if n.startswith('__') and n not in ('__version__',):
            raise AttributeError(n)
        c = self._cache
        if n in c:
            return c[n]
        v = self._make(n)
        c[n] = v
        return v

    def _make(self, n):
        real = getattr(self._real, n)
        if self._path == 'numpy':
            if n == 'fft':
                sp = {}
                for k in FFT1:
                    sp[k] = fft_wrap(getattr(np.fft, k), False)
                for k in FFT2:
                    sp[k] = fft_wrap(getattr(np.fft, k), True)
                return NPModule(np.fft, sp, 'numpy.fft')
            if n == 'random':
                return NPModule(np.random, RANDOM, 'numpy.random')
            if n == 'linalg':
                return NPModule(np.linalg, {'norm': np_linalg_norm}, 'numpy.linalg')
            if n in ('mgrid', 'ogrid', 'r_', 'c_', 's_', 'index_exp'):
                return Grid(real, n)
            if n == 'dtype':
                return np_dtype
            if n == 'ndarray':
                return NDARRAY
            if n == 'vectorize':
                return Vectorize
        if isinstance(real, types.ModuleType):
            return NPModule(real, {}, self._path + '.' + n)
        if n in self._specials:
            return Func(real, self._specials[n])
        if isinstance(real, type):
            if issubclass(real, np.generic):
                return DType(real)
            return real
        if isinstance(real, np.ufunc):
            return Func(real, lambda *a, **k: generic(real, a, k))
        if callable(real):
            return Func(real, lambda *a, **k: generic(real, a, k))
        return real


class Grid(object):
    def __init__(self, real, n):
        self.real = real
        self.n = n

    def __getitem__(self, k):
        if self.n in ('s_', 'index_exp'):
            return self.real[k]
        if self.n in ('r_', 'c_') and has_sym(k):
            if self.n == 'r_' and isinstance(k, tuple) and not any(isinstance(v, str) for v in k):
                return SPECIAL['concatenate']([SPECIAL['atleast_1d'](v) for v in k])
            raise Unsupported('np.' + self.n)
        return wrap(self.real[unwrap(k) if not isinstance(k, slice) else k])


class NDArrayProxy(object):
    __name__ = 'ndarray'
    _is_ndarray = True

    def __call__(self, *a, **k):
        return SPECIAL['zeros'](*a, **k)


NDARRAY = NDArrayProxy()


class Vectorize(object):
    def __init__(self, f, otypes=None, **kw):
        self.f = f
        self.otypes = otypes

    def __call__(self, *args):
        ls = [sarray.lift(a) for a in args]
        b = np.broadcast(*[l.idx for l in ls])
        objs = [np.broadcast_to(l.obj(), b.shape).reshape(-1) for l in ls]
        out = np.empty(objs[0].size, dtype=object)
        for i in range(out.size):
            out[i] = self.f(*[o[i] for o in objs])
        return sarray.from_obj(out.reshape(b.shape))


def _rand(size, kind='normal'):
    """arbitrary real numbers, or the ones of the stream a check has laid out"""
    c = Ctx.cur
    shp = size if isinstance(size, tuple) else (() if size is None else (size,))
    shp = tuple(int(s) for s in shp)
    n = int(np.prod(shp)) if shp else 1
    st = c.flags.get('draws')
    if st is not None:
        r = st.take(n, shp, kind)
        return r if shp else sarray.scal(sarray.lift(r))
    j0 = c.nvar
    for i in range(n):
        c.var('rnd%d' % c.nvar, *c.flags.get('rand_range', ()))
    d = np.zeros((n, c.nvar + 1), dtype=np.complex128)
    d[np.arange(n), np.arange(n) + j0 + 1] = 1.0
    r = SA(sarray.Store('A', np.dtype(np.float64), d), np.arange(n).reshape(shp))
    STATS_STUB.add('numpy.random returns arbitrary reals')
    return r if shp else sarray.scal(r)


STATS_STUB = core.STATS.assumptions

def _seeded(*a, **k):
    st = Ctx.cur.flags.get('draws') if Ctx.cur else None
    if st is not None and any(v is not None for v in list(a) + list(k.values())):
        st.kinds.add('fixed seed')


class RandomSource(object):
    """RandomState / Generator"""

    def __init__(self, *a, **k):
        _seeded(*a, **k)

    def __getattr__(self, n):
        if n in DRAW:
            return DRAW[n]
        raise Unsupported('random.%s' % n)


DRAW = {
    'normal': lambda loc=0.0, scale=1.0, size=None: _rand(size) * scale + loc,
    'standard_normal': lambda size=None, *a: _rand(size),
    'randn': lambda *s: _rand(tuple(s) if s else None),
    'rand': lambda *s: _rand(tuple(s) if s else None, 'uniform'),
    'random': lambda size=None: _rand(size, 'uniform'),
    'random_sample': lambda size=None: _rand(size, 'uniform'),
    'uniform': lambda low=0.0, high=1.0, size=None: _rand(size, 'uniform'),
    'seed': _seeded,
}
RANDOM = dict(DRAW, default_rng=RandomSource, RandomState=RandomSource)

NP = NPModule(np, SPECIAL)


# ---------------------------------------------------------------------------------------------- builtins

class SymRange(object):
    """range with symbolic bounds: iterating forks on the bound"""

    def __init__(self, *a):
        if len(a) == 1:
            self.start, self.stop, self.step = 0, a[0], 1
        elif len(a) == 2:
            self.start, self.stop, self.step = a[0], a[1], 1
        else:
            self.start, self.stop, self.step = a
        if isinstance(self.step, SInt):
            self.step = int(self.step)

    def __iter__(self):
        i = self.start
        n = 0
        lim = Ctx.cur.flags.get('loop_bound', 4000)
        while bool(i < self.stop if self.step > 0 else i > self.stop):
            yield i
            i = i + self.step
            n += 1
            if n > lim:
                raise core.Inconclusive('loop bound %d' % lim)

    def __len__(self):
        return len(list(iter(self)))

    def __getitem__(self, k):
        return self.start + k * self.step

    def __reversed__(self):
        return reversed(list(iter(self)))


class _RangeMeta(type):
    def __call__(cls, *a):
        a2 = []
        for v in a:
            if isinstance(v, SA):
                v = v._one()
            if isinstance(v, Sym):
                raise TypeError("'numpy.float64' object cannot be interpreted as an integer")
            if isinstance(v, SInt):
                s = z3.simplify(v.e)
                if z3.is_int_value(s):
                    v = s.as_long()
            a2.append(v)
        if any(isinstance(v, SInt) for v in a2):
            return SymRange(*a2)
        return range(*a2)

    def __instancecheck__(cls, x):
        return isinstance(x, (range, SymRange))


class sym_range(metaclass=_RangeMeta):
    pass


def s_len(x):
    f = getattr(x, '__symlen__', None)
    if f is not None:
        return f()
    return len(x)


_FLOATS = (float, np.floating, np.float64)


def _types(t):
    if isinstance(t, tuple):
        r = []
        for v in t:
            r.extend(_types(v))
        return r
    if isinstance(t, types.UnionType):
        r = []
        for v in t.__args__:
            r.extend(_types(v))
        return r
    return [t]


def s_isinstance(x, t):
    for v in _types(t):
        if isinstance(v, DType):
            v = v._real_type
        if v is NDARRAY or getattr(v, '_is_ndarray', False):
            if isinstance(x, (SA, SymVec, np.ndarray)):
                return True
            continue
        if v is sym_int:
            v = int
        elif v is sym_float:
            v = float
        elif v is sym_complex:
            v = complex
        elif v is sym_range:
            if isinstance(x, (range, SymRange)):
                return True
            continue
        if isinstance(x, (Sym, FPv)):
            # numpy scalar: np.float64 is a float, np.complex128 is a complex
            rt = np.complex128 if x.kind == 'c' else np.float64
            try:
                if issubclass(rt, v):
                    return True
            except TypeError:
                pass
            if isinstance(x, v):
                if v in (Sym, FPv):
                    return True
                import numbers
                if v in (numbers.Number, numbers.Complex) or (v is numbers.Real and x.kind == 'f'):
                    return True
            continue
        if isinstance(x, SInt):
            if v in (int, object) or isinstance(x, v):
                return True
            continue
        if isinstance(x, SymBool):
            if v in (bool, np.bool_, int):
                return True
            continue
        if isinstance(x, v):
            return True
    return False


class _IntMeta(type):
    def __call__(cls, x=0, *a):
        if isinstance(x, SA):
            x = x._one()
        if isinstance(x, SInt):
            return x
        if isinstance(x, SymBool):
            return x._num()
        if isinstance(x, Sym):
            if x.is_const():
                return int(x.const().real)
            return core.trunc(x)
        if isinstance(x, str) and Ctx.cur is not None:
            t = Ctx.cur.tokens.get(x.strip())
            if t is not None:
                v = t[0]
                if isinstance(v, SInt):
                    return v
                raise ValueError('invalid literal for int(): %r' % x)
        return int(x, *a)

    def __instancecheck__(cls, x):
        return isinstance(x, (int, SInt))

    def __getattr__(cls, n):
        return getattr(int, n)


class sym_int(metaclass=_IntMeta):
    _real_type = int


_DIG = re.compile(r'^\s*' + core.TOK.replace('%d', r'(\d+)').replace('%s', r'([^\u27e7]*)') + r'\s*$')


def parse_float(s):
    """float(text): exact for a token printed with enough digits, otherwise a nearby arbitrary value"""
    c = Ctx.cur
    if c is None:
        return float(s)
    t = s.strip() if isinstance(s, str) else s
    m = _DIG.match(t) if isinstance(t, str) else None
    if not m:
        if isinstance(t, str) and '\u27e6' in t:
            raise ValueError('could not convert string to float: %r' % t)
        return float(s)
    v, spec = c.tokens[t]
    if isinstance(v, SInt):
        return Sym.of(v)
    if v.kind == 'c':
        raise ValueError('could not convert string to float: complex')
    d = digits_of(spec)
    if d is None:
        raise Unsupported('number format %r' % spec)
    kind, p = d
    STATS_STUB.add('text with >= 17 significant digits (or repr) converts back to the same double')
    if kind == 'exact' or (kind == 'sig' and p >= 17):
        return v
    c.flags['rounded_text'] = True
    if isinstance(v, FPv):
        # too few digits for some doubles: continue with one of those
        for w in (0.1 + 0.2, 1.2345678901234567e-20, 2.0 ** 1000 / 3, -1.7976931348623157e+308, 5e-324):
            try:
                y = float(format(w, spec))
            except ValueError:
                raise Unsupported('number format %r' % spec)
            if y != w:
                t = v.re == core.fpv(w)
                if c.check(t) == z3.sat:
                    c.add(t)
                    return y
        raise Unsupported('number format %r' % spec)
    # value rounded to p significant digits (or p decimals)
    y = c.fresh_real('parsed')
    if kind == 'sig':
        e = c.fresh_real('rel')
        c.add(e >= -core.rv(0.5 * 10.0 ** (1 - p)), e <= core.rv(0.5 * 10.0 ** (1 - p)))
        c.add(y == v.re * (1 + e))
    else:
        c.add(y - v.re <= core.rv(0.5 * 10.0 ** (-p)), v.re - y <= core.rv(0.5 * 10.0 ** (-p)))
    return Sym('f', None, y)


def digits_of(spec):
    """format spec -> ('exact',0) | ('sig', n) | ('dec', n)"""
    if spec in ('', 'r', 's'):
        return ('exact', 0)
    m = re.match(r'^(?:.?[<>^=])?[ +\-]?z?#?0?(\d*)(?:\.(\d+))?([eEfFgGn]?)$', spec)
    if not m:
        return None
    p = m.group(2)
    t = m.group(3)
    if p is None:
        if t == '':
            return ('exact', 0)
        p = 6
    p = int(p)
    if t in ('e', 'E'):
        return ('sig', p + 1)
    if t in ('f', 'F'):
        return ('dec', p)
    return ('sig', max(p, 1))


_PCT = re.compile(r'%(?:\((\w+)\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrsa%])')
SYMBOLIC = (core.Sym, core.SInt, core.FPv)


def percent(a, b):
    """a % b; text formatting of symbolic values gives text tokens"""
    if type(a) is not str:
        return a % b
    vals = b if isinstance(b, tuple) else tuple(b.values()) if isinstance(b, dict) else (b,)
    if not any(isinstance(v, SYMBOLIC) or (isinstance(v, sarray.SA) and v.ndim == 0) for v in vals):
        return a % b
    it = iter(vals)

    def one(m):
        name, flags, width, prec, t = m.groups()
        if t == '%':
            return '%'
        if width == '*':
            width = str(next(it))
        if prec == '*':
            prec = str(next(it))
        v = b[name] if name else next(it)
        if isinstance(v, sarray.SA) and v.ndim == 0:
            v = v._one()
        if isinstance(v, SYMBOLIC):
            if t in 'di' and not isinstance(v, core.SInt):
                raise Unsupported('%d of a symbolic real number')
            if t in 'rsa':
                return str(v) if t == 's' else repr(v)
            if t in 'eEfFgG' and getattr(v, 'kind', 'f') == 'c':
                raise TypeError('must be real number, not complex')
            spec = ('+' if '+' in flags else '') + ('.' + prec if prec else '') + ('d' if t in 'diu' else t)
            return format(v, spec)
        return ('%' + flags + (width or '') + ('.' + prec if prec else '') + t) % (v,)
    return _PCT.sub(one, a)


class _FloatMeta(type):
    def __call__(cls, x=0.0):
        if isinstance(x, SA):
            x = x._one()
        if isinstance(x, SInt):
            return Sym.of(x)
        if isinstance(x, SymBool):
            return Sym.of(x._num())
        if isinstance(x, (Sym, FPv)):
            if x.kind == 'c':
                if isinstance(x, Sym) and x.is_const():
                    return float(x.const().real)
                return x.real
            return x
        if isinstance(x, str):
            return parse_float(x)
        return float(x)

    def __instancecheck__(cls, x):
        return isinstance(x, float) or (isinstance(x, (Sym, FPv)) and x.kind == 'f')

    def __getattr__(cls, n):
        return getattr(float, n)


class sym_float(metaclass=_FloatMeta):
    _real_type = float


class _ComplexMeta(type):
    def __call__(cls, re=0.0, im=None):
        if isinstance(re, SA):
            re = re._one()
        if isinstance(im, SA):
            im = im._one()
        if isinstance(re, str):
            c = Ctx.cur
            t = c.tokens.get(re.strip()) if c is not None else None
            if t is not None:
                return t[0]
            return complex(re)
        if isinstance(re, FPv) or isinstance(im, FPv):
            a = FPv.lift(re)
            if im is None:
                return a.cx()
            b = FPv.lift(im)
            if a.im is None and b.im is None:
                return FPv(a.re, b.re)
            raise Unsupported('complex(complex, ...)')
        if isinstance(re, SCAL) or isinstance(im, SCAL):
            a = Sym.of(re) + 0j
            if im is None:
                return a
            return a + 1j * Sym.of(im)
        if im is None:
            return complex(re)
        return complex(re, im)

    def __instancecheck__(cls, x):
        return isinstance(x, complex) or (isinstance(x, (Sym, FPv)) and x.kind == 'c')

    def __getattr__(cls, n):
        return getattr(complex, n)


class sym_complex(metaclass=_ComplexMeta):
    _real_type = complex


def s_open(path, mode='r', *a, **k):
    c = Ctx.cur
    path = os.fspath(path)
    if c is None:
        if any(m in mode for m in 'wax+'):
            raise Unsupported('file written while importing')
        return open(path, mode, *a, **k)
    if 'w' in mode or 'a' in mode or 'x' in mode:
        h = c.hooks.get('open_w')
        if h:
            h(path)
        f = VFile(c, path, c.fs.get(path, '') if 'a' in mode else '')
        return f
    if path in c.fs:
        t = c.fs[path]
        if 'b' in mode:
            raise Unsupported('binary read')
        return io.StringIO(t)
    if os.path.isabs(path) and os.path.exists(path) and path.endswith('.json'):
        return open(path, mode, *a, **k)
    raise FileNotFoundError(2, 'No such file or directory', path)


class VFile(io.StringIO):
    def __init__(self, c, path, init):
        io.StringIO.__init__(self)
        self.c = c
        self.path = path
        self.write(init)
        c.fs[path] = init

    def close(self):
        if not self.closed:
            self.c.fs[self.path] = self.getvalue()
        io.StringIO.close(self)

    def flush(self):
        if not self.closed:
            self.c.fs[self.path] = self.getvalue()

    def __exit__(self, *a):
        self.close()


def s_print(*args, **kw):
    c = Ctx.cur
    f = kw.get('file')
    txt = kw.get('sep', ' ')
    if txt is None:
        txt = ' '
    end = kw.get('end', '\n')
    line = txt.join(str(a) for a in args) + (end if end is not None else '\n')
    if f is not None and hasattr(f, 'write'):
        f.write(line)
        return
    if c is not None:
        c.out.append(line)


def s_abs(x):
    return abs(x)


def s_round(x, n=None):
    if isinstance(x, SInt):
        return x
    if isinstance(x, SCAL):
        raise Unsupported('round of a symbolic value')
    return round(x) if n is None else round(x, n)


def s_max(*a, **k):
    return _ext(True, a, k)


def s_min(*a, **k):
    return _ext(False, a, k)


def _ext(is_max, a, k):
    vals = list(a[0]) if len(a) == 1 else list(a)
    if any(isinstance(v, (Sym, SInt)) for v in vals) and not k and \
            all(isinstance(v, (Sym, SInt, int, float, np.number)) for v in vals):
        if len(vals) == 2 and all(isinstance(v, (SInt, int, np.integer)) for v in vals):
            p, q = SInt._l(vals[0]), SInt._l(vals[1])
            return SInt(z3.If(p >= q, p, q) if is_max else z3.If(p <= q, p, q))
        return sarray.sym_max(vals, is_max)
    return (max if is_max else min)(vals, **k)


def s_sum(it, start=0):
    r = start
    for v in it:
        r = r + v
    return r


def s_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SInt):
            return sym_int
        if isinstance(x, SA):
            return NDARRAY
        return type(x)
    return type(*a)


def s_divmod(a, b):
    return (a // b, a % b)


def s_pow(a, b, m=None):
    return a ** b if m is None else pow(a, b, m)


def s_issubclass(a, t):
    ts = []
    for v in _types(t):
        ts.append(undt(v))
    return issubclass(undt(a), tuple(ts))


def s_sorted(it, **k):
    return sorted(it, **k)


def s_str(x='', *a):
    return str(x, *a)


# ---------------------------------------------------------------------------------------------- math

class MathModule(types.ModuleType):
    def __init__(self, real):
        types.ModuleType.__init__(self, real.__name__)
        self.__dict__['_real'] = real

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        real = getattr(self._real, n)
        if not callable(real):
            return real

        def f(*args):
            args = tuple(v._one() if isinstance(v, SA) and v.size == 1 else v for v in args)
            if not any(isinstance(v, SCAL) for v in args):
                return real(*[unwrap(v) for v in args])
            x = args[0]
            if n == 'sqrt':
                return core.sqrt(x)
            if n == 'fabs':
                return abs(Sym.of(x))
            if n in ('floor', 'ceil', 'trunc'):
                if isinstance(x, SInt):
                    return x
                if n == 'trunc':
                    return core.trunc(x)
                t = x.re
                return SInt(z3.ToInt(t)) if n == 'floor' else SInt(-z3.ToInt(-t))
            if n in ('sin', 'cos', 'exp'):
                return core.trig(n, Sym.of(x))
            if n == 'pow':
                return args[0] ** args[1]
            if n == 'hypot':
                return core.sqrt(x * x + args[1] * args[1])
            if n == 'fmod' and isinstance(x, SInt):
                return x - args[1] * core.trunc(x / args[1])
            if n in ('isnan', 'isinf'):
                return sarray.UN[n](x)
            if n == 'isfinite':
                return sarray._isfin(x)
            if n == 'copysign':
                return sarray.BINF['copysign'](*args)
            if n == 'prod' or n == 'fsum':
                raise Unsupported('math.' + n)
            if isinstance(x, SInt):
                return real(*[int(v) if isinstance(v, SInt) else v for v in args])
            raise Unsupported('math.%s of a symbolic value' % n)
        return f


def make_builtins(imp):
    b = dict(vars(builtins))
    b.update({'isinstance': s_isinstance, 'issubclass': s_issubclass, 'len': s_len, 'range': sym_range,
              'int': sym_int, 'float': sym_float, 'complex': sym_complex, 'open': s_open, 'print': s_print,
              'max': s_max, 'min': s_min, 'sum': s_sum, 'round': s_round, 'divmod': s_divmod, 'pow': s_pow,
              'type': s_type, '__import__': imp})
    return b
