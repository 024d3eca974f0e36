"""Symbolic numpy arrays.

A Store is a flat buffer of a declared dtype holding
  'C' concrete numbers (ndarray), 'A' affine forms (size x (nvar+1) complex coefficients) or 'G' arbitrary scalars.
An SA is an index array into a Store, so that views alias exactly like numpy views.
"""
import numpy as np
import operator
import z3
from . import core
from .core import Sym, SInt, SymBool, FPv, Ctx, Unsupported

SCAL = (Sym, SInt, SymBool, FPv)


def undt(d):
    """dtype proxies of the shim -> real numpy types"""
    t = getattr(d, '_real_type', None)
    return t if t is not None else d


class Store(object):
    __slots__ = ('mode', 'dtype', 'data', 'opaque')

    def __init__(self, mode, dtype, data):
        self.mode = mode
        self.dtype = dtype
        self.data = data

    @property
    def size(self):
        return self.data.shape[0]

    def to_a(self):
        if self.mode == 'C':
            if self.dtype.kind not in 'fcbiu':
                raise Unsupported('dtype %s' % self.dtype)
            if not np.all(np.isfinite(self.data)):
                self.to_g()
                return
            k = Ctx.cur.nvar + 1
            d = np.zeros((self.data.shape[0], k), dtype=np.complex128)
            d[:, 0] = self.data
            self.data = d
            self.mode = 'A'

    def to_g(self):
        if self.mode == 'C':
            d = np.empty(self.data.shape[0], dtype=object)
            for i, v in enumerate(self.data):
                d[i] = v
            self.data = d
        elif self.mode == 'A':
            kind = 'c' if self.dtype.kind == 'c' else 'f'
            d = np.empty(self.data.shape[0], dtype=object)
            nz = self.data[:, 1:].any(axis=1)
            ty = self.dtype.type
            for i in range(self.data.shape[0]):
                if nz[i]:
                    d[i] = Sym(kind, self.data[i])
                else:
                    v = self.data[i, 0]
                    d[i] = ty(v) if kind == 'c' else ty(v.real)
            self.data = d
        self.mode = 'G'


def pad_cols(d, k):
    if d.shape[-1] == k:
        return d
    r = np.zeros(d.shape[:-1] + (k,), dtype=d.dtype)
    r[..., :d.shape[-1]] = d
    return r


def scalar_kind_dtype(v):
    if isinstance(v, Sym):
        return np.dtype(np.complex128 if v.kind == 'c' else np.float64)
    if isinstance(v, FPv):
        return np.dtype(np.float64 if v.im is None else np.complex128)
    if isinstance(v, SInt):
        return np.dtype(np.int64)
    if isinstance(v, SymBool):
        return np.dtype(bool)
    return None


def cast_scalar(v, dt):
    """symbolic scalar -> element of dtype dt (numpy scalar / array semantics)"""
    k = dt.kind
    if k == 'O':
        return v
    if isinstance(v, SymBool):
        if k == 'b':
            return v
        v = v._num()
    if isinstance(v, SInt):
        if k in 'iu':
            return v
        if k == 'b':
            return v != 0
        v = Sym.of(v)
    if isinstance(v, FPv):
        if k == 'c':
            return v.cx()
        if k == 'f':
            return v.real
        raise Unsupported('cast of IEEE value to %s' % dt)
    if k == 'c':
        r = v if v.kind == 'c' else (core.mk('c', v.aff) if v.aff is not None else Sym('c', None, v.re, z3.RealVal(0)))
        if dt.itemsize < 16:
            r = round_single(r)
        return r
    if k == 'f':
        r = v.real
        if dt.itemsize < 8:
            r = round_single(r)
        return r
    if k in 'iu':
        return core.trunc(v.real)
    if k == 'b':
        return v != 0
    raise Unsupported('cast to %s' % dt)


def round_single(v):
    if not isinstance(v, Sym):
        return v
    if v.aff is not None:
        return core.mk(v.kind, v.aff.astype(np.complex64).astype(np.complex128))
    # an arbitrary relative error of single precision size
    c = Ctx.cur
    def f(t):
        e = c.fresh_real('single')
        c.add(e >= -core.rv(6e-8), e <= core.rv(6e-8))
        return t * (1 + e)
    return Sym(v.kind, None, f(v.re), None if v.kind == 'f' else f(v.im))


# ---------------------------------------------------------------------------------------------- SA

class Flags(object):
    def __init__(self, c):
        self.c_contiguous = c
        self.contiguous = c
        self.f_contiguous = c
        self.writeable = True
        self.owndata = True

    def __getitem__(self, k):
        return getattr(self, {'C_CONTIGUOUS': 'c_contiguous', 'C': 'c_contiguous'}.get(k, k.lower()))


def _ix(k):
    """replace symbolic integers / booleans / SA in an index expression"""
    if isinstance(k, tuple):
        return tuple(_ix(x) for x in k)
    if isinstance(k, SInt):
        return int(k)
    if isinstance(k, slice):
        f = lambda v: int(v) if isinstance(v, SInt) else v
        return slice(f(k.start), f(k.stop), f(k.step))
    if isinstance(k, SA):
        return k.concrete_or_fork()
    if isinstance(k, list):
        return [_ix(x) for x in k]
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, Sym):
        raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or '
                         'boolean arrays are valid indices')
    return k


class SA(object):
    __slots__ = ('st', 'idx')
    __array_priority__ = 2000
    __hash__ = None

    def __init__(self, st, idx):
        self.st = st
        self.idx = idx

    # -------------------------------------------------------------- content
    @property
    def mode(self):
        return self.st.mode

    def symbolic(self):
        return self.st.mode != 'C'

    def conc(self):
        return self.st.data[self.idx]

    def aff(self):
        """coefficients, shape + (nvar+1,)"""
        st = self.st
        k = Ctx.cur.nvar + 1
        if st.mode == 'A':
            st.data = pad_cols(st.data, k)
            return st.data[self.idx]
        if st.mode == 'C':
            d = np.zeros(self.idx.shape + (k,), dtype=np.complex128)
            d[..., 0] = st.data[self.idx]
            return d
        raise Unsupported('not affine')

    def is_affine(self):
        if self.st.mode == 'G':
            return False
        if self.st.mode == 'C':
            return self.st.dtype.kind in 'fciub' and bool(np.all(np.isfinite(self.st.data[self.idx])))
        return True

    def obj(self):
        """object array of scalars"""
        st = self.st
        if st.mode == 'G':
            if self.idx.ndim == 0:
                out = np.empty((), dtype=object)
                out[()] = st.data[int(self.idx)]
                return out
            return st.data[self.idx]
        out = np.empty(self.idx.shape, dtype=object)
        f = out.reshape(-1)
        ii = self.idx.reshape(-1)
        if st.mode == 'C':
            for p, i in enumerate(ii):
                f[p] = st.data[i]
        else:
            st.data = pad_cols(st.data, Ctx.cur.nvar + 1)
            kind = 'c' if st.dtype.kind == 'c' else 'f'
            ty = st.dtype.type
            sel = st.data[ii]
            nz = sel[:, 1:].any(axis=1)
            for p in range(len(ii)):
                if nz[p]:
                    f[p] = Sym(kind, sel[p])
                else:
                    f[p] = ty(sel[p, 0]) if kind == 'c' else ty(sel[p, 0].real)
        return out

    def elem(self, i):
        st = self.st
        if st.mode == 'A':
            v = st.data[i]
            kind = 'c' if st.dtype.kind == 'c' else 'f'
            if v[1:].any():
                return Sym(kind, v.copy())
            return st.dtype.type(v[0]) if kind == 'c' else st.dtype.type(v[0].real)
        return st.data[i]

    def concrete_or_fork(self):
        if self.st.mode == 'C':
            return self.conc()
        o = self.obj()
        if self.dtype.kind == 'b':
            return np.array([bool(v) for v in o.reshape(-1)], dtype=bool).reshape(o.shape)
        if self.dtype.kind in 'iu':
            return np.array([int(v) for v in o.reshape(-1)], dtype=int).reshape(o.shape)
        raise Unsupported('concrete value of a symbolic array needed')

    # -------------------------------------------------------------- attributes
    @property
    def dtype(self):
        return self.st.dtype

    @property
    def shape(self):
        return self.idx.shape

    @shape.setter
    def shape(self, s):
        self.idx = self.idx.reshape(_ix(s))

    @property
    def ndim(self):
        return self.idx.ndim

    @property
    def size(self):
        return self.idx.size

    @property
    def T(self):
        return SA(self.st, self.idx.T)

    @property
    def nbytes(self):
        return self.idx.size * self.dtype.itemsize

    @property
    def itemsize(self):
        return self.dtype.itemsize

    def contiguous(self):
        f = self.idx.reshape(-1)
        return f.size == 0 or (np.array_equal(f, np.arange(f[0], f[0] + f.size)))

    @property
    def flags(self):
        return Flags(self.contiguous())

    @property
    def strides(self):
        s = self.dtype.itemsize
        out = []
        for ax in range(self.ndim):
            if self.idx.shape[ax] > 1:
                a = np.take(self.idx, 0, axis=ax).reshape(-1)
                b = np.take(self.idx, 1, axis=ax).reshape(-1)
                out.append(int(b[0] - a[0]) * s if a.size else s)
            else:
                out.append(int(np.prod(self.idx.shape[ax + 1:])) * s)
        return tuple(out)

    @property
    def base(self):
        return None if self.idx.size == self.st.size else self

    @property
    def real(self):
        if self.dtype.kind != 'c':
            return self
        return PartView(self, 'real')

    @real.setter
    def real(self, v):
        self._set_part(v, True)

    @property
    def imag(self):
        if self.dtype.kind != 'c':
            return from_np(np.zeros(self.shape, dtype=self.dtype))
        return PartView(self, 'imag')

    @imag.setter
    def imag(self, v):
        self._set_part(v, False)

    def _set_part(self, v, is_real):
        if self.dtype.kind != 'c':
            if is_real:
                self[...] = v
                return
            raise TypeError('array does not have imaginary part to set')
        v = lift(v)
        v = ufunc(np.real, '__call__', (v,), {}) if v.dtype.kind == 'c' else v
        other = get_part(self, not is_real)
        if is_real:
            self[...] = v + 1j * other
        else:
            self[...] = other + 1j * v

    @property
    def flat(self):
        return Flat(self)

    # -------------------------------------------------------------- python protocol
    def __len__(self):
        if self.ndim == 0:
            raise TypeError('len() of unsized object')
        return self.idx.shape[0]

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(self.idx.shape[0]):
            yield self[i]

    def __getitem__(self, k):
        k = _ix(k)
        r = self.idx[k]
        if not isinstance(r, np.ndarray):
            return self.elem(int(r))
        if _is_basic(k):
            return SA(self.st, r)
        return SA(self.st, r).copy()

    def __setitem__(self, k, v):
        k = _ix(k)
        r = self.idx[k]
        if not isinstance(r, np.ndarray):
            self._assign(np.array([r]), v, True)
        else:
            self._assign(r, v, False)

    def _assign(self, ii, v, single):
        """st.data[ii] = v with numpy broadcasting and casting"""
        st = self.st
        if isinstance(v, PartView):
            v = v.mat()
        if isinstance(v, (list, tuple)):
            v = array(v)
        if isinstance(v, SymVec):
            v = v.to_sa()
        if isinstance(v, SA):
            if single and v.ndim > 0:
                if v.size == 1 and v.ndim == 0:
                    pass
                elif v.size == 1:
                    v = v.reshape(())
                else:
                    raise ValueError('setting an array element with a sequence.')
            if v.st is st and v.st.mode != 'C':
                v = v.copy()
        if isinstance(v, SCAL):
            if isinstance(v, Sym) and v.is_const():
                v = v.const()
        if isinstance(v, SCAL):
            if st.dtype.kind == 'O':
                pass
            v = cast_scalar(v, st.dtype)
            if isinstance(v, Sym) and v.aff is not None and st.dtype.kind in 'fc' and st.mode in 'CA':
                st.to_a()
                if st.mode == 'A':
                    k = Ctx.cur.nvar + 1
                    st.data = pad_cols(st.data, k)
                    st.data[ii] = core._pad(v.aff, k)
                    return
            st.to_g()
            if isinstance(v, np.ndarray):
                v = v.item()
            if single:
                st.data[int(ii[0])] = v
            else:
                f = ii.reshape(-1)
                for p in f:
                    st.data[p] = v
            return
        if isinstance(v, SA) and v.symbolic():
            shp = () if single else ii.shape
            src_idx = _bcast_assign(v.idx, shp)
            if v.mode == 'A' and st.mode in 'CA' and st.dtype.kind in 'fc':
                st.to_a()
            if v.mode == 'A' and st.mode == 'A':
                k = Ctx.cur.nvar + 1
                v.st.data = pad_cols(v.st.data, k)
                st.data = pad_cols(st.data, k)
                d = v.st.data[src_idx]
                if st.dtype.kind == 'f' and v.dtype.kind == 'c':
                    d = d.real.astype(np.complex128)
                if st.dtype.itemsize < (16 if st.dtype.kind == 'c' else 8):
                    d = d.astype(np.complex64).astype(np.complex128)
                st.data[ii] = d.reshape(ii.shape + (k,)) if single else d
                return
            o = SA(v.st, src_idx).obj()
            st.to_g()
            of = np.asarray(o, dtype=object).reshape(-1)
            f = ii.reshape(-1)
            for p in range(f.size):
                st.data[f[p]] = _cast_any(of[p], st.dtype)
            return
        # concrete value
        if isinstance(v, SA):
            v = v.conc()
        if st.mode == 'C':
            if single:
                st.data[int(ii[0])] = v
            else:
                st.data[ii] = v
            return
        tmp = np.zeros(() if single else ii.shape, dtype=st.dtype)
        tmp[...] = v
        if st.mode == 'A' and np.all(np.isfinite(tmp)):
            row = np.zeros(ii.shape + (st.data.shape[1],), dtype=np.complex128)
            row[..., 0] = tmp
            st.data[ii] = row
            return
        st.to_g()
        t = np.broadcast_to(tmp, ii.shape).reshape(-1)
        f = ii.reshape(-1)
        for p in range(f.size):
            st.data[f[p]] = t[p]

    def __bool__(self):
        if self.size == 1:
            return bool(self.elem(int(self.idx.reshape(-1)[0])))
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def __contains__(self, v):
        return bool((self == v).any())

    def _one(self):
        if self.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return self.elem(int(self.idx.reshape(-1)[0]))

    def __float__(self):
        return float(self._one())

    def __int__(self):
        return int(self._one())

    def __complex__(self):
        return complex(self._one())

    def __index__(self):
        if self.dtype.kind not in 'iu' or self.size != 1:
            raise TypeError('only integer scalar arrays can be converted to a scalar index')
        return operator.index(self._one())

    def __format__(self, spec):
        if self.size == 1 and spec:
            return format(self._one(), spec)
        return str(self)

    def __repr__(self):
        return 'array(%s)' % (self._txt(),)

    def __str__(self):
        return self._txt()

    def _txt(self):
        if self.mode == 'C':
            return str(self.conc())
        return '[' + ' '.join(str(v) for v in self) + ']'

    def __array__(self, dtype=None, **k):
        if self.mode == 'C':
            return np.array(self.conc(), dtype=dtype)
        raise Unsupported('conversion of a symbolic array to numpy')

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        return ufunc(uf, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import shim
        return shim.call_np(func, args, kwargs)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    # -------------------------------------------------------------- methods
    def copy(self, order='C'):
        st = self.st
        d = st.data[self.idx.reshape(-1)]
        if d.base is not None:
            d = d.copy()
        return SA(Store(st.mode, st.dtype, d), np.arange(self.idx.size).reshape(self.idx.shape))

    def astype(self, dt, *a, **k):
        dt = np.dtype(undt(dt))
        return cast(self, dt)

    def reshape(self, *s, **kw):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        kw.pop('order', None) if kw.get('order', 'C') == 'C' else None
        s = _ix(tuple(s))
        i = self.idx.reshape(s, **kw)
        return SA(self.st, i)

    def ravel(self, order='C'):
        return SA(self.st, self.idx.ravel(order))

    def flatten(self, order='C'):
        return SA(self.st, self.idx.flatten(order)).copy()

    def transpose(self, *a):
        return SA(self.st, self.idx.transpose(*a))

    def swapaxes(self, a, b):
        return SA(self.st, self.idx.swapaxes(a, b))

    def squeeze(self, *a, **k):
        return SA(self.st, self.idx.squeeze(*a, **k))

    def diagonal(self, *a, **k):
        return SA(self.st, self.idx.diagonal(*a, **k))

    def view(self, *a, **k):
        if not a and not k:
            return SA(self.st, self.idx)
        if a and (a[0] is np.ndarray or getattr(a[0], '__name__', '') == 'ndarray'):
            return SA(self.st, self.idx)
        raise Unsupported('ndarray.view with a dtype')

    def fill(self, v):
        self[...] = v

    def tolist(self):
        if self.mode == 'C':
            return self.conc().tolist()
        return self.obj().tolist()

    def item(self, *a):
        if not a:
            return pyscalar(self._one())
        if len(a) == 1 and not isinstance(a[0], tuple):
            return pyscalar(self.elem(int(self.idx.reshape(-1)[a[0]])))
        return pyscalar(self[tuple(a) if len(a) > 1 else a[0]])

    def conj(self):
        return ufunc(np.conjugate, '__call__', (self,), {})
    conjugate = conj

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return reduce_sum(self, axis, dtype, out, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        s = reduce_sum(self, axis, dtype, None, keepdims)
        n = self.size if axis is None else int(np.prod([self.shape[i] for i in (axis if isinstance(axis, tuple) else (axis,))]))
        return s / n

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_ext(self, axis, keepdims, True)

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_ext(self, axis, keepdims, False)

    def ptp(self, axis=None):
        return self.max(axis) - self.min(axis)

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_bool(self, axis, keepdims, z3.Or)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_bool(self, axis, keepdims, z3.And)

    def dot(self, o, out=None):
        from . import shim
        return shim.call_np(np.dot, (self, o), {})

    def __getattr__(self, name):
        if name.startswith('__') or not hasattr(np.ndarray, name):
            raise AttributeError(name)
        if self.mode == 'C':
            a = self.conc()
            m = getattr(a, name)
            if callable(m):
                def f(*args, **kw):
                    from . import shim
                    args = shim.unwrap(args)
                    kw = shim.unwrap(kw)
                    r = m(*args, **kw)
                    if r is None:
                        self[...] = a
                        return None
                    return wrap(r)
                return f
            return wrap(m)
        if name in ('sort', 'partition', 'put', 'itemset', 'resize', 'byteswap', 'setfield', 'setflags'):
            if name == 'setflags':
                return lambda *a, **k: None
            def g(*args, **kw):
                o = self.obj()
                getattr(o, name)(*args, **kw)
                self[...] = from_obj(o, self.dtype)
            return g
        def h(*args, **kw):
            from . import shim
            return shim.call_np(getattr(np, name), (self,) + args, kw)
        if name in ('cumsum', 'cumprod', 'prod', 'repeat', 'take', 'trace', 'round', 'argmax', 'argmin', 'argsort',
                    'nonzero', 'clip', 'var', 'std', 'searchsorted', 'compress', 'choose'):
            return h
        raise Unsupported('ndarray.' + name)

    # binary operators
    def __add__(self, o):
        return binop(np.add, self, o)

    def __radd__(self, o):
        return binop(np.add, o, self)

    def __sub__(self, o):
        return binop(np.subtract, self, o)

    def __rsub__(self, o):
        return binop(np.subtract, o, self)

    def __mul__(self, o):
        return binop(np.multiply, self, o)

    def __rmul__(self, o):
        return binop(np.multiply, o, self)

    def __truediv__(self, o):
        return binop(np.true_divide, self, o)

    def __rtruediv__(self, o):
        return binop(np.true_divide, o, self)

    def __floordiv__(self, o):
        return binop(np.floor_divide, self, o)

    def __rfloordiv__(self, o):
        return binop(np.floor_divide, o, self)

    def __mod__(self, o):
        return binop(np.remainder, self, o)

    def __rmod__(self, o):
        return binop(np.remainder, o, self)

    def __pow__(self, o):
        return binop(np.power, self, o)

    def __rpow__(self, o):
        return binop(np.power, o, self)

    def __and__(self, o):
        return binop(np.bitwise_and, self, o)
    __rand__ = __and__

    def __or__(self, o):
        return binop(np.bitwise_or, self, o)
    __ror__ = __or__

    def __xor__(self, o):
        return binop(np.bitwise_xor, self, o)
    __rxor__ = __xor__

    def __matmul__(self, o):
        from . import shim
        return shim.call_np(np.matmul, (self, o), {})

    def __rmatmul__(self, o):
        from . import shim
        return shim.call_np(np.matmul, (o, self), {})

    def _iop(self, uf, o):
        r = binop(uf, self, o)
        if not np.can_cast(r.dtype, self.dtype, 'same_kind'):
            raise TypeError("Cannot cast ufunc '%s' output from %s to %s with casting rule 'same_kind'"
                            % (uf.__name__, r.dtype, self.dtype))
        self[...] = r
        return self

    def __iadd__(self, o):
        return self._iop(np.add, o)

    def __isub__(self, o):
        return self._iop(np.subtract, o)

    def __imul__(self, o):
        return self._iop(np.multiply, o)

    def __itruediv__(self, o):
        return self._iop(np.true_divide, o)

    def __ifloordiv__(self, o):
        return self._iop(np.floor_divide, o)

    def __imod__(self, o):
        return self._iop(np.remainder, o)

    def __ipow__(self, o):
        return self._iop(np.power, o)

    def __iand__(self, o):
        return self._iop(np.bitwise_and, o)

    def __ior__(self, o):
        return self._iop(np.bitwise_or, o)

    def __neg__(self):
        return ufunc(np.negative, '__call__', (self,), {})

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return ufunc(np.absolute, '__call__', (self,), {})

    def __invert__(self):
        return ufunc(np.invert, '__call__', (self,), {})

    def __eq__(self, o):
        return binop(np.equal, self, o)

    def __ne__(self, o):
        return binop(np.not_equal, self, o)

    def __lt__(self, o):
        return binop(np.less, self, o)

    def __le__(self, o):
        return binop(np.less_equal, self, o)

    def __gt__(self, o):
        return binop(np.greater, self, o)

    def __ge__(self, o):
        return binop(np.greater_equal, self, o)


def pyscalar(v):
    return v.item() if isinstance(v, np.generic) else v


class Flat(object):
    def __init__(self, a):
        self.a = a

    def __iter__(self):
        return iter(SA(self.a.st, self.a.idx.reshape(-1)))

    def __len__(self):
        return self.a.size

    def __getitem__(self, k):
        return SA(self.a.st, self.a.idx.reshape(-1))[k]

    def __setitem__(self, k, v):
        SA(self.a.st, self.a.idx.reshape(-1))[k] = v


def get_part(a, real):
    return ufunc(np.real if real else np.imag, '__call__', (a,), {})


class PartView(SA):
    """a.real / a.imag of a complex array: reads materialise, writes go through"""
    __slots__ = ('parent', 'part')

    def __init__(self, parent, part):
        self.parent = parent
        self.part = part
        m = get_part(parent, part == 'real')
        SA.__init__(self, m.st, m.idx)

    def mat(self):
        m = get_part(self.parent, self.part == 'real')
        return m

    def __getitem__(self, k):
        k2 = _ix(k)
        r = self.idx[k2]
        if isinstance(r, np.ndarray) and _is_basic(k2):
            return PartView(SA(self.parent.st, self.parent.idx[k2]), self.part)
        return SA.__getitem__(self.mat(), k)

    def __setitem__(self, k, v):
        m = self.mat()
        SA.__setitem__(m, k, v)
        if self.part == 'real':
            self.parent.real = m
        else:
            self.parent.imag = m
        self.st, self.idx = m.st, m.idx

    def _iop(self, uf, o):
        m = self.mat()
        m = SA._iop(m, uf, o)
        if self.part == 'real':
            self.parent.real = m
        else:
            self.parent.imag = m
        self.st, self.idx = m.st, m.idx
        return self


def _is_basic(k):
    if isinstance(k, tuple):
        return all(_is_basic(x) for x in k)
    return k is None or k is Ellipsis or isinstance(k, (int, np.integer, slice)) and not isinstance(k, (bool, np.bool_))


def _bcast_assign(idx, shape):
    """broadcast idx to shape as numpy assignment does (leading 1s of the value are dropped)"""
    while idx.ndim > len(shape) and idx.shape[0] == 1:
        idx = idx[0]
    try:
        return np.broadcast_to(idx, shape)
    except ValueError:
        raise ValueError('could not broadcast input array from shape %s into shape %s'
                         % (str(idx.shape).replace(' ', ''), str(tuple(shape)).replace(' ', '')))


def _cast_any(v, dt):
    if isinstance(v, SCAL):
        if isinstance(v, FPv) or isinstance(v, (Sym, SInt, SymBool)):
            return cast_scalar(v, dt)
    if dt.kind == 'O':
        return v
    if isinstance(v, np.generic) or isinstance(v, (int, float, complex, bool)):
        t = np.empty(1, dtype=dt)
        with np.errstate(all='ignore'):
            t[0:1] = np.asarray([v]).astype(dt)
        return t[0]
    return v


# ---------------------------------------------------------------------------------------------- construction

def from_np(a):
    a = np.asarray(a)
    return SA(Store('C', a.dtype, np.array(a.reshape(-1), copy=True)), np.arange(a.size).reshape(a.shape))


def wrap(r):
    """results of real numpy calls -> symbolic-world values"""
    if isinstance(r, np.ndarray):
        if type(r) is not np.ndarray:
            r = np.asarray(r)
        if r.dtype == object:
            return from_obj(r)
        return from_np(r)
    if isinstance(r, tuple) and type(r) is not tuple:
        return r
    if isinstance(r, (tuple, list)):
        return type(r)(wrap(x) for x in r)
    return r


def obj_dtype(items):
    """common dtype of scalars"""
    ds = []
    for v in items:
        d = scalar_kind_dtype(v)
        if d is None:
            if isinstance(v, (bool, np.bool_)):
                d = np.dtype(bool)
            elif isinstance(v, np.generic):
                d = v.dtype
            elif isinstance(v, int):
                d = np.dtype(np.int64)
            elif isinstance(v, float):
                d = np.dtype(np.float64)
            elif isinstance(v, complex):
                d = np.dtype(np.complex128)
            else:
                return np.dtype(object)
        if d not in ds:
            ds.append(d)
    if not ds:
        return np.dtype(np.float64)
    return np.result_type(*ds)


def from_obj(o, dtype=None):
    """object ndarray (or scalar) of symbolic/concrete scalars -> SA"""
    if not isinstance(o, np.ndarray):
        t = np.empty((), dtype=object)
        t[()] = o
        o = t
    f = o.reshape(-1)
    dt = dtype if dtype is not None else obj_dtype(f)
    anysym = False
    allaff = dt.kind in 'fc'
    for v in f:
        if isinstance(v, SCAL):
            anysym = True
            if not (isinstance(v, Sym) and v.aff is not None):
                allaff = False
                break
        elif not isinstance(v, (int, float, complex, np.number, bool, np.bool_)) or not np.isfinite(v):
            allaff = False
    idx = np.arange(f.size).reshape(o.shape)
    if not anysym:
        if dt == object:
            return SA(Store('G', dt, f.copy()), idx)
        a = np.empty(f.size, dtype=dt)
        for i, v in enumerate(f):
            a[i] = v
        return SA(Store('C', dt, a), idx)
    if allaff:
        k = Ctx.cur.nvar + 1
        d = np.zeros((f.size, k), dtype=np.complex128)
        for i, v in enumerate(f):
            if isinstance(v, Sym):
                d[i, :v.aff.shape[0]] = v.aff
            else:
                d[i, 0] = v
        if dt.kind == 'f':
            d = d.real.astype(np.complex128)
        if dt.itemsize < (16 if dt.kind == 'c' else 8):
            d = d.astype(np.complex64).astype(np.complex128)
        return SA(Store('A', dt, d), idx)
    g = np.empty(f.size, dtype=object)
    for i, v in enumerate(f):
        g[i] = _cast_any(v, dt) if dt != object else v
    return SA(Store('G', dt, g), idx)


def from_aff(d, dtype):
    """coefficient array shape+(k,) -> SA"""
    shp = d.shape[:-1]
    n = int(np.prod(shp)) if shp else 1
    flat = d.reshape(n, d.shape[-1])
    if dtype.kind == 'f':
        flat = flat.real.astype(np.complex128)
    elif flat.base is not None or flat is d:
        flat = flat.copy()
    if not flat[:, 1:].any():
        c = flat[:, 0]
        c = c.real if dtype.kind == 'f' else c
        return SA(Store('C', dtype, c.astype(dtype)), np.arange(n).reshape(shp))
    return SA(Store('A', dtype, flat), np.arange(n).reshape(shp))


def scal(a):
    """0-d SA -> scalar"""
    return a.elem(int(a.idx.reshape(-1)[0]))


def array(x, dtype=None, copy=True, ndmin=0, **kw):
    """np.array for arguments that may contain symbolic values"""
    dt = None if dtype is None else np.dtype(undt(dtype))
    if isinstance(x, SymVec):
        x = x.to_sa()
    if isinstance(x, PartView):
        x = x.mat()
    if isinstance(x, SA):
        if dt is not None and dt != x.dtype:
            r = cast(x, dt)
        else:
            r = x.copy() if copy else x
    elif isinstance(x, SCAL):
        r = from_obj(x, dt)
        if dt is not None:
            r = cast(r, dt)
    elif isinstance(x, (list, tuple)):
        if has_sym(x):
            o, kinds = nest(x)
            r = from_obj(o)
            if dt is not None and r.dtype != dt:
                r = cast(r, dt)
        else:
            from . import shim
            r = from_np(np.array(shim.unwrap(x), dtype=dt))
    else:
        r = from_np(np.array(x, dtype=dt))
    while r.ndim < ndmin:
        r = SA(r.st, r.idx[None])
    return r


def has_sym(x, depth=0):
    if isinstance(x, SCAL):
        return True
    if isinstance(x, SA):
        return x.symbolic()
    if isinstance(x, SymVec):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sym(v, depth + 1) for v in x)
    if isinstance(x, dict):
        return any(has_sym(v, depth + 1) for v in x.values())
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(has_sym(v, depth + 1) for v in x.reshape(-1))
    return False


def nest(x):
    """nested sequences of scalars / SA -> object ndarray"""
    def conv(v):
        if isinstance(v, PartView):
            v = v.mat()
        if isinstance(v, SA):
            return v.obj()
        if isinstance(v, (list, tuple)):
            parts = [conv(w) for w in v]
            shp = np.shape(parts[0]) if parts else (0,)
            for p in parts:
                if np.shape(p) != shp:
                    raise ValueError('setting an array element with a sequence. The requested array has an '
                                     'inhomogeneous shape after 1 dimensions.')
            out = np.empty((len(parts),) + (shp if parts else ()), dtype=object)
            for i, p in enumerate(parts):
                if isinstance(p, np.ndarray) and p.ndim == 0:
                    p = p[()]
                out[i] = p
            return out
        if isinstance(v, np.ndarray):
            o = np.empty(v.shape, dtype=object)
            o[...] = v
            return o
        return v
    return conv(x), None


def lift(v):
    """anything numeric -> SA"""
    if isinstance(v, PartView):
        return v.mat()
    if isinstance(v, SA):
        return v
    if isinstance(v, SymVec):
        return v.to_sa()
    if isinstance(v, SCAL):
        return from_obj(v)
    return array(v)


def cast(a, dt):
    if a.mode == 'C':
        with np.errstate(all='ignore'):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return from_np(a.conc().astype(dt))
    if dt == a.dtype:
        return a.copy()
    r = SA(Store('C', dt, np.zeros(a.size, dtype=dt)), np.arange(a.size).reshape(a.shape))
    r._assign(r.idx, a, False) if a.ndim else r._assign(np.array([0]), a, True)
    return r


# ---------------------------------------------------------------------------------------------- ufuncs

BIN = {'add': operator.add, 'subtract': operator.sub, 'multiply': operator.mul, 'divide': operator.truediv,
       'true_divide': operator.truediv, 'floor_divide': operator.floordiv, 'remainder': operator.mod,
       'mod': operator.mod, 'power': operator.pow, 'float_power': operator.pow,
       'equal': operator.eq, 'not_equal': operator.ne, 'less': operator.lt, 'less_equal': operator.le,
       'greater': operator.gt, 'greater_equal': operator.ge}
COMPARE = {'equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal', 'logical_and', 'logical_or',
           'logical_not', 'isnan', 'isinf', 'isfinite', 'iscomplex', 'isreal', 'signbit'}


def _both_bool(a, b, f):
    return SymBool(f(core.as_bool_term(a), core.as_bool_term(b)))


def s_max(a, b):
    if isinstance(a, FPv) or isinstance(b, FPv):
        raise Unsupported('maximum of IEEE values')
    if isinstance(a, SInt) or isinstance(b, SInt):
        p, q = SInt._l(a), SInt._l(b)
        if p is not None and q is not None:
            return SInt(z3.If(p >= q, p, q))
    a, b = Sym.of(a), Sym.of(b)
    return Sym('f', None, z3.If(a.re >= b.re, a.re, b.re))


def s_min(a, b):
    if isinstance(a, SInt) or isinstance(b, SInt):
        p, q = SInt._l(a), SInt._l(b)
        if p is not None and q is not None:
            return SInt(z3.If(p <= q, p, q))
    a, b = Sym.of(a), Sym.of(b)
    return Sym('f', None, z3.If(a.re <= b.re, a.re, b.re))


def _py_div(a, b):
    if not isinstance(a, SCAL) and not isinstance(b, SCAL):
        with np.errstate(all='ignore'):
            return np.true_divide(a, b)
    return a / b


def _mod(a, b):
    if isinstance(a, SInt) or isinstance(b, SInt):
        if isinstance(b, SInt) or b != 0:
            return a % b
    return a % b


def _round(a, dec=0):
    if isinstance(a, (Sym, FPv)):
        raise Unsupported('rounding of a symbolic value')
    return np.round(a, dec)


BINF = dict(BIN)
BINF.update({'divide': _py_div, 'true_divide': _py_div, 'remainder': _mod, 'mod': _mod,
             'maximum': s_max, 'minimum': s_min, 'fmax': s_max, 'fmin': s_min,
             'logical_and': lambda a, b: _both_bool(a, b, z3.And), 'logical_or': lambda a, b: _both_bool(a, b, z3.Or),
             'logical_xor': lambda a, b: _both_bool(a, b, z3.Xor),
             'bitwise_and': lambda a, b: a & b, 'bitwise_or': lambda a, b: a | b, 'bitwise_xor': lambda a, b: a ^ b,
             'hypot': lambda a, b: core.sqrt(a * a + b * b),
             'left_shift': lambda a, b: a << b, 'right_shift': lambda a, b: a >> b,
             'copysign': lambda a, b: abs(a) if bool(b >= 0) else -abs(a)})

UN = {'negative': operator.neg, 'positive': lambda x: x, 'absolute': abs, 'fabs': abs, 'abs': abs,
      'sqrt': lambda x: core.sqrt(x), 'square': lambda x: x * x, 'reciprocal': lambda x: 1 / x,
      'conjugate': lambda x: x.conjugate(), 'conj': lambda x: x.conjugate(),
      'real': lambda x: x.real, 'imag': lambda x: x.imag,
      'floor': lambda x: core.floor_any(x), 'ceil': lambda x: core.ceil(x) if isinstance(x, Sym) else x,
      'trunc': lambda x: Sym.of(core.trunc(x)), 'rint': _round, 'fix': lambda x: Sym.of(core.trunc(x)),
      'sin': lambda x: core.trig('sin', Sym.of(x)), 'cos': lambda x: core.trig('cos', Sym.of(x)),
      'exp': lambda x: core.trig('exp', Sym.of(x)),
      'isnan': lambda x: _isnan(x), 'isinf': lambda x: _isinf(x), 'isfinite': lambda x: _isfin(x),
      'logical_not': lambda x: SymBool(z3.Not(core.as_bool_term(x))),
      'invert': lambda x: ~x,
      'sign': lambda x: _sign(x)}


def _sign(x):
    if isinstance(x, SInt):
        return SInt(z3.If(x.e > 0, z3.IntVal(1), z3.If(x.e < 0, z3.IntVal(-1), z3.IntVal(0))))
    return Sym('f', None, z3.If(x.re > 0, z3.RealVal(1), z3.If(x.re < 0, z3.RealVal(-1), z3.RealVal(0))))


def _fpany(x, f):
    p = [x.re] + ([x.im] if x.im is not None else [])
    return SymBool(z3.Or([f(v) for v in p]))


def _isnan(x):
    return _fpany(x, z3.fpIsNaN) if isinstance(x, FPv) else False


def _isinf(x):
    return _fpany(x, z3.fpIsInf) if isinstance(x, FPv) else False


def _isfin(x):
    return ~(_isnan(x) | _isinf(x)) if isinstance(x, FPv) else True


def call_scalar(name, uf, args):
    """apply a ufunc to scalars, at least one possibly symbolic"""
    if not any(isinstance(a, SCAL) for a in args):
        with np.errstate(all='ignore'):
            return uf(*args)
    # numpy scalars would dispatch back to here
    args = [a.item() if isinstance(a, np.generic) else a for a in args]
    if len(args) == 1:
        f = UN.get(name)
    else:
        f = BINF.get(name)
    if f is None:
        raise Unsupported('numpy.%s of a symbolic value' % name)
    r = f(*args)
    if r is NotImplemented:
        raise Unsupported('numpy.%s of %s' % (name, [type(a).__name__ for a in args]))
    return r


LINEAR2 = {'add', 'subtract'}


def binop(uf, a, b):
    if isinstance(b, (SA,) + SCAL) or is_numlike(b):
        if isinstance(a, (SA,) + SCAL) or is_numlike(a):
            return ufunc(uf, '__call__', (a, b), {})
    return NotImplemented


def is_numlike(x):
    return isinstance(x, (int, float, complex, np.generic, np.ndarray, list, tuple, SymVec))


def ufunc(uf, method, inputs, kw):
    name = uf.__name__
    kw = dict(kw)
    out = kw.pop('out', None)
    if isinstance(out, tuple):
        out = out[0]
    kw.pop('casting', None)
    if method != '__call__':
        return _ufunc_method(uf, method, inputs, kw, out)
    where = kw.pop('where', True)
    dtype = kw.pop('dtype', None)
    ins = []
    for v in inputs:
        if isinstance(v, PartView):
            v = v.mat()
        elif isinstance(v, SymVec):
            v = v.to_sa()
        elif isinstance(v, (list, tuple, np.ndarray)):
            v = array(v)
        if isinstance(v, Sym) and v.is_const():
            v = v.const()
        ins.append(v)
    r = _apply(uf, name, ins)
    if dtype is not None:
        dtype = np.dtype(undt(dtype))
        r = r.astype(dtype) if isinstance(r, SA) else cast_result(r, dtype)
    if where is not True:
        if out is None:
            raise Unsupported('ufunc where= without out')
        w = lift(where)
        sel = np.broadcast_to(w.concrete_or_fork(), out.shape)
        rr = lift(r)
        full = SA(rr.st, np.broadcast_to(rr.idx, out.shape))
        out[sel] = full[sel]
        return out
    if out is not None:
        out[...] = r
        return out
    return r


def cast_result(r, dt):
    if isinstance(r, SCAL):
        return cast_scalar(r, dt)
    return np.asarray(r).astype(dt)[()]


def _dt_of(v):
    if isinstance(v, SA):
        return v.dtype if v.ndim else v.dtype
    d = scalar_kind_dtype(v)
    return d


def res_dtype(name, ins):
    if name in COMPARE:
        return np.dtype(bool)
    ts = []
    for v in ins:
        if isinstance(v, SA):
            ts.append(v.dtype)
        elif isinstance(v, SCAL):
            ts.append({'f': 1.5, 'c': 1j}[v.kind] if isinstance(v, (Sym, FPv)) else (1 if isinstance(v, SInt) else True))
        else:
            ts.append(v)
    try:
        dt = np.result_type(*ts)
    except TypeError:
        return np.dtype(object)
    if name in ('divide', 'true_divide', 'sqrt', 'sin', 'cos', 'exp', 'hypot', 'reciprocal') and dt.kind in 'iub':
        dt = np.dtype(np.float64)
    if name in ('absolute', 'abs', 'fabs', 'real', 'imag') and dt.kind == 'c':
        dt = np.dtype(np.float64 if dt.itemsize == 16 else np.float32)
    return dt


def _apply(uf, name, ins):
    allscal = not any(isinstance(v, SA) for v in ins)
    if allscal:
        return call_scalar(name, uf, ins)
    if not any((isinstance(v, SA) and v.symbolic()) or isinstance(v, SCAL) for v in ins):
        with np.errstate(all='ignore'):
            args = [v.conc() if isinstance(v, SA) else v for v in ins]
            if name in ('real', 'imag'):
                return wrap(np.array(uf(*args)))
            return wrap(uf(*args))
    dt = res_dtype(name, ins)
    # ---- vectorised affine cases
    if all(_affable(v) for v in ins) and dt.kind in 'fc':
        r = _apply_affine(name, ins, dt)
        if r is not None:
            return from_aff(r, dt) if not (r.ndim == 1) else scal(from_aff(r, dt))
    # ---- element by element
    objs = []
    for v in ins:
        if isinstance(v, SA):
            objs.append(v.obj())
        else:
            t = np.empty((), dtype=object)
            t[()] = v
            objs.append(t)
    b = np.broadcast(*objs) if len(objs) > 1 else None
    shp = b.shape if b is not None else objs[0].shape
    objs = [np.broadcast_to(o, shp).reshape(-1) for o in objs]
    n = objs[0].size
    res = np.empty(n, dtype=object)
    for i in range(n):
        res[i] = call_scalar(name, uf, [o[i] for o in objs])
    res = res.reshape(shp)
    if name in COMPARE:
        return from_obj(res, np.dtype(bool))
    if dt.kind == 'O':
        dt = None
    r = from_obj(res, dt)
    return r if r.ndim else scal(r)


def _affable(v):
    if isinstance(v, SA):
        return v.is_affine()
    if isinstance(v, Sym):
        return v.aff is not None
    if isinstance(v, SCAL):
        return False
    try:
        return bool(np.isfinite(v))
    except TypeError:
        return False


def _aff_of(v):
    if isinstance(v, SA):
        return v.aff()
    k = Ctx.cur.nvar + 1
    if isinstance(v, Sym):
        return core._pad(v.aff, k)
    d = np.zeros(k, dtype=np.complex128)
    d[0] = v
    return d


def _const_of(v):
    """concrete value or None if symbolic"""
    if isinstance(v, SA):
        return v.conc() if v.mode == 'C' else None
    if isinstance(v, Sym):
        return None
    return np.asarray(v)


def _bc(a, b):
    """broadcast coefficient arrays over leading axes"""
    na, nb = a.ndim - 1, b.ndim - 1
    if na < nb:
        a = a.reshape((1,) * (nb - na) + a.shape)
    elif nb < na:
        b = b.reshape((1,) * (na - nb) + b.shape)
    return a, b


def _apply_affine(name, ins, dt):
    if len(ins) == 1:
        a = ins[0]
        if name in ('negative',):
            return -_aff_of(a)
        if name == 'positive':
            return _aff_of(a)
        if name in ('conjugate', 'conj'):
            return np.conj(_aff_of(a))
        if name == 'real':
            return _aff_of(a).real.astype(np.complex128)
        if name == 'imag':
            return _aff_of(a).imag.astype(np.complex128)
        return None
    if len(ins) != 2:
        return None
    a, b = ins
    if name == 'add':
        x, y = _bc(_aff_of(a), _aff_of(b))
        return x + y
    if name == 'subtract':
        x, y = _bc(_aff_of(a), _aff_of(b))
        return x - y
    if name == 'multiply':
        cb = _const_of(b)
        if cb is not None:
            x, y = _bc(_aff_of(a), cb[..., None])
            return x * y
        ca = _const_of(a)
        if ca is not None:
            x, y = _bc(ca[..., None], _aff_of(b))
            return x * y
        return None
    if name in ('divide', 'true_divide'):
        cb = _const_of(b)
        if cb is not None and np.all(cb != 0):
            x, y = _bc(_aff_of(a), cb[..., None])
            return x / y
        return None
    return None


def _ufunc_method(uf, method, inputs, kw, out):
    name = uf.__name__
    if method == 'reduce':
        a = lift(inputs[0])
        axis = kw.get('axis', inputs[1] if len(inputs) > 1 else 0)
        keep = kw.get('keepdims', False)
        if name == 'add':
            return reduce_sum(a, axis, kw.get('dtype'), out, keep)
        if name in ('maximum', 'minimum'):
            return reduce_ext(a, axis, keep, name == 'maximum')
        if name in ('logical_and', 'logical_or'):
            return reduce_bool(a, axis, keep, z3.And if name == 'logical_and' else z3.Or)
    ins = [v.mat() if isinstance(v, PartView) else v for v in inputs]
    ins = [array(v) if isinstance(v, (list, tuple)) and has_sym(v) else v for v in ins]
    if not has_sym(ins):
        from . import shim
        return wrap(getattr(uf, method)(*shim.unwrap(ins), **shim.unwrap(kw)))
    if method == 'outer':
        a, b = lift(ins[0]), lift(ins[1])
        return ufunc(uf, '__call__', (SA(a.st, a.idx.reshape(a.shape + (1,) * b.ndim)), b), {})
    if method == 'at':
        a, k = ins[0], ins[1]
        k = _ix(k)
        ii = a.idx[k].reshape(-1)
        if len(ins) > 2:
            v = lift(ins[2])
            vals = np.broadcast_to(v.obj(), a.idx[k].shape).reshape(-1)
        for p in range(ii.size):
            cur = a.elem(int(ii[p]))
            new = call_scalar(name, uf, [cur, vals[p]] if len(ins) > 2 else [cur])
            a._assign(np.array([ii[p]]), new, True)
        return None
    objs = [v.obj() if isinstance(v, SA) else v for v in ins]
    f = np.frompyfunc(lambda *a: call_scalar(name, uf, list(a)), uf.nin, 1)
    r = getattr(f, method)(*objs, **kw)
    return wrap(r)


# ---------------------------------------------------------------------------------------------- reductions

def norm_axis(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if not isinstance(axis, tuple):
        axis = (axis,)
    return tuple(a % nd for a in axis)


def _finish(r, a, ax, keepdims):
    if keepdims:
        shp = tuple(1 if i in ax else s for i, s in enumerate(a.shape))
        r = lift(r)
        return SA(r.st, r.idx.reshape(shp))
    return r


def reduce_sum(a, axis=None, dtype=None, out=None, keepdims=False):
    a = lift(a)
    ax = norm_axis(axis, a.ndim)
    dt = np.dtype(undt(dtype)) if dtype is not None else (a.dtype if a.dtype.kind not in 'b' else np.dtype(np.int64))
    if a.mode == 'C':
        r = wrap(np.sum(a.conc(), axis=None if axis is None else ax, dtype=dt))
    elif a.is_affine() and dt.kind in 'fc':
        d = a.aff().sum(axis=ax)
        r = from_aff(d, dt)
        r = r if r.ndim else scal(r)
    else:
        o = a.obj()
        if a.dtype.kind == 'b':
            o = np.frompyfunc(lambda v: v._num() if isinstance(v, SymBool) else int(v), 1, 1)(o)
            o = np.asarray(o, dtype=object).reshape(a.shape)
        r = np.sum(o, axis=None if axis is None else ax)
        if isinstance(r, np.ndarray):
            r = from_obj(r)
    r = _finish(r, a, ax, keepdims)
    if out is not None:
        out[...] = r
        return out
    return r


def sym_max(vals, is_max):
    """exact maximum of scalars as a fresh variable with a defining constraint"""
    vals = list(vals)
    if not any(isinstance(v, SCAL) for v in vals):
        return max(vals) if is_max else min(vals)
    if len(vals) == 1:
        return vals[0]
    if any(isinstance(v, FPv) for v in vals):
        raise Unsupported('maximum of IEEE values')
    c = Ctx.cur
    if all(isinstance(v, (SInt, int, np.integer)) for v in vals):
        ts = [SInt._l(v) for v in vals]
        m = c.fresh_int('ext')
        mk_ = SInt
    else:
        sy = [Sym.of(v) for v in vals]
        if any(s.kind == 'c' for s in sy):
            # numpy orders complex numbers by real part, then by imaginary part
            mr, mi = c.fresh_real('ext'), c.fresh_real('ext')
            for s in sy:
                c.add(z3.Or(mr > s.re if is_max else mr < s.re, z3.And(mr == s.re, mi >= s.im if is_max else mi <= s.im)))
            c.add(z3.Or([z3.And(mr == s.re, mi == s.im) for s in sy]))
            return Sym('c', None, mr, mi)
        ts = [s.re for s in sy]
        m = c.fresh_real('ext')
        mk_ = lambda t: Sym('f', None, t)
    key = ('ext', is_max, tuple(sorted(z3.simplify(t).get_id() for t in ts)))
    if key in c.memo:
        return mk_(c.memo[key])
    c.keep.extend(z3.simplify(t) for t in ts)
    for t in ts:
        c.add(m >= t if is_max else m <= t)
    c.add(z3.Or([m == t for t in ts]))
    c.memo[key] = m
    return mk_(m)


def reduce_ext(a, axis, keepdims, is_max):
    a = lift(a)
    ax = norm_axis(axis, a.ndim)
    if a.size == 0:
        raise ValueError('zero-size array to reduction operation which has no identity')
    if a.mode == 'C':
        r = wrap((np.max if is_max else np.min)(a.conc(), axis=None if axis is None else ax))
        return _finish(r, a, ax, keepdims)
    o = a.obj()
    if len(ax) == a.ndim:
        r = sym_max(o.reshape(-1), is_max)
        return _finish(r, a, ax, keepdims)
    rest = [i for i in range(a.ndim) if i not in ax]
    t = o.transpose(rest + list(ax))
    shp = tuple(a.shape[i] for i in rest)
    t = t.reshape(int(np.prod(shp)), -1)
    res = np.empty(t.shape[0], dtype=object)
    for i in range(t.shape[0]):
        res[i] = sym_max(t[i], is_max)
    return _finish(from_obj(res.reshape(shp)), a, ax, keepdims)


def reduce_bool(a, axis, keepdims, f):
    a = lift(a)
    ax = norm_axis(axis, a.ndim)
    if a.mode == 'C':
        return wrap((np.all if f is z3.And else np.any)(a.conc(), axis=None if axis is None else ax))
    o = a.obj()
    def red(vals):
        ts = [core.as_bool_term(v) for v in vals]
        return SymBool(f(ts))
    if len(ax) == a.ndim:
        return _finish(red(o.reshape(-1)), a, ax, keepdims)
    rest = [i for i in range(a.ndim) if i not in ax]
    shp = tuple(a.shape[i] for i in rest)
    t = o.transpose(rest + list(ax)).reshape(int(np.prod(shp)), -1)
    res = np.empty(t.shape[0], dtype=object)
    for i in range(t.shape[0]):
        res[i] = red(t[i])
    return from_obj(res.reshape(shp), np.dtype(bool))


# ---------------------------------------------------------------------------------------------- symbolic-length vectors

class SymVec(object):
    """vector of symbolic length; content is a function index term -> (re, im) terms"""
    __array_priority__ = 3000
    dtype = np.dtype(np.complex128)
    ndim = 1
    __hash__ = None

    def __init__(self, length, base, log=None, parent=None, off=None):
        self.length = length          # z3 int term
        self.base = base              # callable(index term) -> Sym
        self.log = log if log is not None else []   # writes: (kind, lo, n, fn)
        self.parent = parent
        self.off = off

    @staticmethod
    def fresh(name, length):
        re = z3.Array(name + '.re', z3.IntSort(), z3.RealSort())
        im = z3.Array(name + '.im', z3.IntSort(), z3.RealSort())
        return SymVec(length, lambda i: Sym('c', None, z3.Select(re, i), z3.Select(im, i)))

    def __symlen__(self):
        return SInt(self.length)

    def __len__(self):
        return int(SInt(self.length))

    @property
    def shape(self):
        return (SInt(self.length),)

    @property
    def size(self):
        return SInt(self.length)

    def to_sa(self):
        n = int(SInt(self.length))
        o = np.empty(n, dtype=object)
        for i in range(n):
            o[i] = self.read(z3.IntVal(i))
        return from_obj(o, np.dtype(np.complex128))

    def read(self, i):
        if self.parent is not None:
            return self.parent.read(z3.simplify(i + self.off))
        r = self.base(i)
        for lo, n, fn in self.log:
            v = fn(i)
            cond = z3.And(i >= lo, i < lo + n)
            r = Sym('c', None, z3.If(cond, v.re, r.re), z3.If(cond, v.im, r.im))
        return r

    def snapshot(self):
        """immutable reader of the current content"""
        if self.parent is not None:
            rd = self.parent.snapshot()
            off = self.off
            return lambda i: rd(i + off)
        base, log = self.base, list(self.log)
        def rd(i):
            r = base(i)
            for lo, n, fn in log:
                v = fn(i)
                cond = z3.And(i >= lo, i < lo + n)
                r = Sym('c', None, z3.If(cond, v.re, r.re), z3.If(cond, v.im, r.im))
            return r
        return rd

    def write(self, lo, n, fn):
        if self.parent is not None:
            off = self.off
            self.parent.write(z3.simplify(lo + off), n, lambda i: fn(i - off))
            return
        self.log.append((lo, n, fn))

    def _norm(self, k):
        """python index -> term, raising IndexError as numpy would"""
        t = SInt._l(k)
        if t is None:
            raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or '
                             'boolean arrays are valid indices')
        if bool(SymBool(z3.Or(t < -self.length, t >= self.length))):
            raise IndexError('index out of bounds')
        return z3.simplify(z3.If(t < 0, t + self.length, t))

    def _slice(self, s):
        n = self.length
        if s.step is not None and not (isinstance(s.step, int) and s.step == 1):
            raise Unsupported('strided slice of a symbolic-length vector')
        def clamp(v, d):
            if v is None:
                return d
            t = SInt._l(v)
            t = z3.If(t < 0, t + n, t)
            return z3.If(t < 0, z3.IntVal(0), z3.If(t > n, n, t))
        lo = clamp(s.start, z3.IntVal(0))
        hi = clamp(s.stop, n)
        ln = z3.If(hi > lo, hi - lo, z3.IntVal(0))
        return z3.simplify(lo), z3.simplify(ln)

    def __getitem__(self, k):
        if isinstance(k, slice):
            lo, ln = self._slice(k)
            return SymVec(ln, None, None, self, lo)
        return self.read(self._norm(k))

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            lo, ln = self._slice(k)
            if isinstance(v, SymVec):
                if not bool(SymBool(z3.Or(v.length == ln, v.length == 1))):
                    raise ValueError('could not broadcast input array')
                rd = v.snapshot()
                self.write(lo, ln, lambda i: rd(i - lo))
                return
            if isinstance(v, SA):
                if not bool(SymBool(ln == len(v))):
                    raise ValueError('could not broadcast input array')
                o = [Sym.of(x) for x in v]
                def fn(i):
                    r = Sym.of(0j)
                    for p, x in enumerate(o):
                        c = i == lo + p
                        r = Sym('c', None, z3.If(c, x.re, r.re), z3.If(c, x.im, r.im))
                    return r
                self.write(lo, ln, fn)
                return
            s = Sym.of(v)
            self.write(lo, ln, lambda i: s)
            return
        i = self._norm(k)
        if isinstance(v, (list, tuple, SA)):
            raise ValueError('setting an array element with a sequence.')
        s = Sym.of(v)
        self.write(i, z3.IntVal(1), lambda _: s)

    def copy(self):
        rd = self.snapshot()
        return SymVec(self.length, rd)

    __copy__ = copy

    def __deepcopy__(self, m):
        return self.copy()

    def _map(self, f):
        rd = self.snapshot()
        return SymVec(self.length, lambda i: f(rd(i)))

    def _zip(self, o, f):
        if isinstance(o, SymVec):
            if not bool(SymBool(o.length == self.length)):
                raise ValueError('operands could not be broadcast together')
            r1, r2 = self.snapshot(), o.snapshot()
            return SymVec(self.length, lambda i: f(r1(i), r2(i)))
        if isinstance(o, SCAL) or isinstance(o, (int, float, complex, np.number)):
            rd = self.snapshot()
            return SymVec(self.length, lambda i: f(rd(i), o))
        return NotImplemented

    def __add__(self, o):
        return self._zip(o, operator.add)

    def __radd__(self, o):
        return self._zip(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._zip(o, operator.sub)

    def __rsub__(self, o):
        return self._zip(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._zip(o, operator.mul)

    def __rmul__(self, o):
        return self._zip(o, lambda a, b: b * a)

    def conj(self):
        return self._map(lambda v: v.conjugate())

    @property
    def flags(self):
        return Flags(True)

    def astype(self, dt, *a, **k):
        if np.dtype(undt(dt)).kind == 'c':
            return self.copy()
        raise Unsupported('cast of a symbolic-length vector')

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        n = uf.__name__
        if method == '__call__' and n in BIN and len(inputs) == 2:
            a, b = inputs
            if isinstance(a, SymVec):
                r = a._zip(b, BIN[n])
            else:
                r = b._zip(a, lambda x, y: BIN[n](y, x))
            if r is not NotImplemented:
                return r
        raise Unsupported('numpy.%s on a symbolic-length vector' % n)
