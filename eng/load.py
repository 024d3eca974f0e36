"""Executes the Python sources of /repo/spherepy inside the symbolic world (fresh modules every time)."""
import ast
import builtins
import cmath
import importlib
import math
import os
import sys
import types
import numpy
import six
from . import core, csym, sarray, shim
from .core import Ctx

REPO = csym.REPO
PKG = os.path.join(REPO, 'spherepy')

_code = {}


def source_files():
    return sorted(os.path.join(PKG, f) for f in os.listdir(PKG) if f.endswith('.py'))


class PercentFormat(ast.NodeTransformer):
    """a % b -> __percent__(a, b): printf-style formatting of symbolic values cannot be intercepted otherwise"""

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            f = ast.Name(id='__percent__', ctx=ast.Load())
            return ast.copy_location(ast.Call(func=ast.copy_location(f, n), args=[n.left, n.right], keywords=[]), n)
        return n


def code_for(path):
    if path not in _code:
        with open(path, encoding='utf-8') as f:
            t = PercentFormat().visit(ast.parse(f.read(), path))
        _code[path] = compile(ast.fix_missing_locations(t), path, 'exec')
    return _code[path]


# ------------------------------------------------------------------ recording stubs for plotting

class Rec(object):
    """any attribute, any call; calls are recorded in the context"""

    def __init__(self, name, c_args=()):
        self.__dict__['_name'] = name

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        r = Rec(self._name + '.' + n)
        self.__dict__[n] = r
        return r

    def __setattr__(self, n, v):
        self.__dict__[n] = v

    def __call__(self, *a, **k):
        c = Ctx.cur
        if c is not None:
            snap = tuple(x.copy() if isinstance(x, sarray.SA) else x for x in a)
            c.calls.append((self._name, snap, dict(k)))
        r = Rec(self._name + '()')
        if self._name.endswith('subplots'):
            return (Rec(self._name + '()[0]'), Rec(self._name + '()[1]'))
        return r

    def __iter__(self):
        return iter([Rec(self._name + '[%d]' % i) for i in range(2)])

    def __getitem__(self, k):
        return Rec(self._name + '[]')

    def __len__(self):
        return 1

    def __bool__(self):
        return True


class RecModule(types.ModuleType):
    def __init__(self, name):
        types.ModuleType.__init__(self, name)
        self.__path__ = []

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        r = Rec(self.__name__ + '.' + n)
        self.__dict__[n] = r
        return r


class ImpStub(types.ModuleType):
    C_EXTENSION = 3

    def find_module(self, name, path=None):
        if name != '_csphi':
            raise ImportError(name)
        class F(object):
            def close(self):
                pass
        return F(), '_csphi.so', ('.so', 'rb', 3)

    def load_module(self, name, *a):
        return csym.module()

    def load_dynamic(self, name, *a):
        return csym.module()


class World(object):
    """one fresh instance of the package"""

    def __init__(self, use_cext=True, submodules=True):
        self.mods = {}
        self.use_cext = use_cext
        b = shim.make_builtins(self._import)
        bm = types.ModuleType('builtins')
        bm.__dict__.update(b)
        bm.__dict__['__percent__'] = shim.percent
        self.builtins = bm
        self.static = {'numpy': shim.NP, 'math': shim.MathModule(math), 'cmath': shim.MathModule(cmath),
                       'imp': ImpStub('imp'), '_csphi': None}
        sm = types.ModuleType('six.moves')
        sm.xrange = shim.sym_range
        sm.range = shim.sym_range
        sm.zip = zip
        sm.map = map
        sm.input = None
        sixm = types.ModuleType('six')
        for k, v in vars(six).items():
            if k != 'moves' and not k.startswith('__'):
                setattr(sixm, k, v)
        sixm.moves = sm
        self.static['six'] = sixm
        self.static['six.moves'] = sm

    # ------------------------------------------------------------------ import machinery
    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        parts = name.split('.')
        if parts[0] != 'spherepy':
            raise ImportError(name)
        if len(parts) > 1:
            self.module('.'.join(parts[:-1]))
            if name in self.mods:
                return self.mods[name]
        base = os.path.join(PKG, *parts[1:])
        if os.path.isdir(base):
            path = os.path.join(base, '__init__.py')
        else:
            path = base + '.py'
        if not os.path.exists(path):
            raise ModuleNotFoundError('No module named %r' % name, name=name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__builtins__ = self.builtins.__dict__
        if os.path.isdir(base):
            m.__path__ = [base]
            m.__package__ = name
        else:
            m.__package__ = '.'.join(parts[:-1])
        self.mods[name] = m
        try:
            exec(code_for(path), m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        if len(parts) > 1:
            setattr(self.mods['.'.join(parts[:-1])], parts[-1], m)
        return m

    def _static(self, name):
        if name == '_csphi':
            return csym.module()
        if name in self.static:
            return self.static[name]
        top = name.split('.')[0]
        if top in ('matplotlib', 'mpl_toolkits'):
            if name not in self.static:
                m = RecModule(name)
                self.static[name] = m
                if '.' in name:
                    p = self._static(name.rsplit('.', 1)[0])
                    setattr(p, name.rsplit('.', 1)[1], m)
            return self.static[name]
        if top == 'numpy':
            # numpy.fft, numpy.linalg, ...
            m = shim.NP
            for p in name.split('.')[1:]:
                m = getattr(m, p)
            return m
        return None

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or ''
            for _ in range(level - 1):
                pkg = pkg.rsplit('.', 1)[0]
            name = pkg + ('.' + name if name else '')
        top = name.split('.')[0]
        if top == 'spherepy':
            m = self.module(name)
            if fromlist:
                for a in fromlist:
                    if a != '*' and not hasattr(m, a):
                        try:
                            self.module(name + '.' + a)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.module('spherepy')
        s = self._static(name)
        if s is not None:
            return s if fromlist else (self._static(top) or s)
        return builtins.__import__(name, globals, locals, fromlist, 0)


def world(use_cext=None):
    w = World()
    sp = w.module('spherepy')
    if use_cext is not None:
        sm = w.mods['spherepy.spherepy']
        setcext(sm, use_cext)
    return w


def setcext(sm, flag):
    # the switch pkg_info.json sets at import time
    for n in ('use_cext', '_use_cext', '__use_cext__'):
        if n in sm.__dict__:
            sm.__dict__[n] = flag
            return n
    return None
