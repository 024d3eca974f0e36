"""Interpreter for integer-only functions of the C sources (LLVM IR of clang -O1) over the engine's symbolic integers.

Every branch on a symbolic condition forks the path through the solver.  Each value carries an interval, so that the absence of
overflow and the sign conventions of sdiv/srem/ashr/unsigned comparison are checked on every step; anything outside raises Unsupported."""
import os
import re
import tempfile
import shutil
from . import core, csym
from .core import Unsupported

_fn = {}


def functions():
    if _fn:
        return _fn
    d = tempfile.mkdtemp(prefix='verif-ll-')
    try:
        for f in csym.C_FILES:
            o = os.path.join(d, 'x.ll')
            csym.run([csym.CLANG, '-O1', '-S', '-emit-llvm', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-w', '-I' + csym.SRC,
                      os.path.join(csym.SRC, f), '-o', o])
            for m in re.finditer(r'^define[^\n@]*@([\w.]+)\(([^\n]*)\)[^\n]*\{\n(.*?)^\}', open(o).read(), re.S | re.M):
                _fn[m.group(1)] = (m.group(2), m.group(3))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return _fn


class V(object):
    """value with an interval"""
    __slots__ = ('v', 'lo', 'hi')

    def __init__(self, v, lo, hi):
        if lo == hi:
            v = lo
        self.v, self.lo, self.hi = v, lo, hi


def K(c):
    return V(c, c, c)


class Fn(object):
    def __init__(self, name):
        if name not in functions():
            raise Unsupported('no C function %s' % name)
        args, body = functions()[name]
        self.name = name
        self.args = re.findall(r'(%[\w.]+)(?:,|$)', args)
        self.blocks = {}
        cur = str(len(self.args))
        self.entry = '%' + cur
        self.blocks[self.entry] = []
        lines = body.split('\n')
        i = 0
        while i < len(lines):
            ln = lines[i]
            i += 1
            if not ln.strip() or ln.strip().startswith(';'):
                continue
            m = re.match(r'^([\w.]+):', ln)
            if m:
                cur = m.group(1)
                self.blocks['%' + cur] = []
                continue
            s = ln.strip()
            if s.startswith('switch'):
                while ']' not in s:
                    s += ' ' + lines[i].strip()
                    i += 1
            s = re.sub(r', !\S+ !\d+', '', s)
            s = re.sub(r',? ?!llvm\.loop !\d+', '', s).rstrip(',')
            self.blocks['%' + cur].append(s)


_cache = {}


def call(name, *args, **kw):
    fn = _cache.get(name) or _cache.setdefault(name, Fn(name))
    a = []
    for x in args:
        if isinstance(x, V):
            a.append(x)
        elif isinstance(x, int):
            a.append(K(x))
        else:
            lo, hi = kw['bounds']
            a.append(V(x, lo, hi))
    r = run(fn, a)
    return r if any(isinstance(x, V) for x in args) else r.v


def run(fn, args):
    env = dict(zip(fn.args, args))
    prev, blk = None, fn.entry
    steps = 0

    def val(t):
        t = t.strip()
        if t.startswith('%'):
            return env[t]
        if t in ('true', 'false'):
            return K(int(t == 'true'))
        if t == 'undef' or t == 'poison':
            raise Unsupported('undef in ' + fn.name)
        return K(int(t))

    while True:
        nxt = None
        new = {}
        for s in fn.blocks[blk]:
            m = re.match(r'^(%[\w.]+) = phi i\d+ (.*)$', s)
            if not m:
                break
            for v, b in re.findall(r'\[ (\S+), (%[\w.]+) \]', m.group(2)):
                if b == prev:
                    new[m.group(1)] = val(v)
        env.update(new)
        for s in fn.blocks[blk]:
            steps += 1
            if steps > 200000:
                raise core.Inconclusive('C function %s does not end' % fn.name)
            m = re.match(r'^(%[\w.]+) = (.*)$', s)
            if m:
                d, e = m.groups()
                if e.startswith('phi'):
                    continue
                env[d] = op(fn, e, val)
                continue
            m = re.match(r'^br label (%[\w.]+)', s)
            if m:
                nxt = m.group(1)
                break
            m = re.match(r'^br i1 (\S+), label (%[\w.]+), label (%[\w.]+)', s)
            if m:
                c = val(m.group(1))
                nxt = m.group(2) if truth(c) else m.group(3)
                break
            m = re.match(r'^ret i\d+ (\S+)', s)
            if m:
                return val(m.group(1))
            m = re.match(r'^switch i\d+ (\S+), label (%[\w.]+) \[(.*)\]', s)
            if m:
                c = val(m.group(1))
                nxt = m.group(2)
                for k, b in re.findall(r'i\d+ (-?\d+), label (%[\w.]+)', m.group(3)):
                    k = int(k)
                    if c.lo <= k <= c.hi and (c.lo == c.hi or bool(c.v == k)):
                        nxt = b
                        break
                break
            raise Unsupported('LLVM: ' + s[:80])
        prev, blk = blk, nxt


def truth(c):
    if c.lo == c.hi:
        return bool(c.lo)
    return bool(c.v)


def rng(e, v, lo, hi, w):
    h = 1 << (w - 1)
    if lo < -h or hi >= h:
        raise Unsupported('possible overflow in C: ' + e[:60])
    return V(v, lo, hi)


def op(fn, e, val):
    m = re.match(r'^(?:tail )?call [^@]*@([\w.]+)\((.*)\)', e)
    if m:
        a = [val(x.split()[-1]) for x in m.group(2).split(',')]
        n = m.group(1)
        if n.startswith('llvm.smax'):
            x, y = a
            return V(core.smax(x.v, y.v) if hasattr(core, 'smax') else _sel(x.v > y.v, x.v, y.v), max(x.lo, y.lo), max(x.hi, y.hi))
        if n.startswith('llvm.smin'):
            x, y = a
            return V(_sel(x.v < y.v, x.v, y.v), min(x.lo, y.lo), min(x.hi, y.hi))
        if n.startswith('llvm.'):
            raise Unsupported('LLVM: ' + e[:80])
        return run(_cache.get(n) or _cache.setdefault(n, Fn(n)), a)
    m = re.match(r'^select i1 (\S+), i\d+ (\S+), i\d+ (\S+)$', e)
    if m:
        return val(m.group(2)) if truth(val(m.group(1))) else val(m.group(3))
    m = re.match(r'^icmp (\w+) i\d+ (\S+), (\S+)$', e)
    if m:
        p, x, y = m.group(1), val(m.group(2)), val(m.group(3))
        if p[0] == 'u':
            if y.lo < 0:
                raise Unsupported('LLVM: ' + e)
            if x.lo < 0 and p in ('ult', 'ule'):        # also false for negative x
                a = x.v >= 0
                if not (x.hi >= 0 and bool(a)):
                    return K(0)
                x = V(x.v, 0, x.hi)
            elif x.lo < 0:
                raise Unsupported('LLVM: ' + e)
            p = 's' + p[1:]
        if p == 'eq':
            return K(0) if x.hi < y.lo or y.hi < x.lo else V(x.v == y.v, 0, 1) if not (x.lo == x.hi and y.lo == y.hi) else K(1)
        if p == 'ne':
            return K(1) if x.hi < y.lo or y.hi < x.lo else V(x.v != y.v, 0, 1) if not (x.lo == x.hi and y.lo == y.hi) else K(0)
        if p in ('sgt', 'sge'):
            x, y, p = y, x, {'sgt': 'slt', 'sge': 'sle'}[p]
        if p == 'slt':
            return K(1) if x.hi < y.lo else K(0) if x.lo >= y.hi else V(x.v < y.v, 0, 1)
        return K(1) if x.hi <= y.lo else K(0) if x.lo > y.hi else V(x.v <= y.v, 0, 1)
    m = re.match(r'^(zext|sext|trunc|freeze)(?: nneg| nuw| nsw)* i(\d+) (\S+?)(?: to i(\d+))?$', e)
    if m:
        x = val(m.group(3))
        if m.group(2) == '1' and m.group(1) != 'freeze':
            return K(1 if m.group(1) == 'zext' else -1) if truth(x) else K(0)
        if m.group(1) == 'zext' and x.lo < 0:
            raise Unsupported('LLVM: ' + e)
        if m.group(1) == 'trunc' and m.group(4) == '1':
            return V(x.v % 2, 0, 1)
        return rng(e, x.v, x.lo, x.hi, int(m.group(4) or m.group(2)))
    m = re.match(r'^(\w+)((?: nsw| nuw| exact| disjoint)*) i(\d+) (\S+), (\S+)$', e)
    if not m:
        raise Unsupported('LLVM: ' + e[:80])
    o, _, w, x, y = m.groups()
    x, y, w = val(x), val(y), int(w)
    if w == 1 and o in ('and', 'or', 'xor'):
        a, b = truth(x), truth(y)
        return K(int({'and': a and b, 'or': a or b, 'xor': a != b}[o]))
    if o == 'add':
        return rng(e, x.v + y.v, x.lo + y.lo, x.hi + y.hi, w)
    if o == 'sub':
        return rng(e, x.v - y.v, x.lo - y.hi, x.hi - y.lo, w)
    if o == 'mul':
        c = [a * b for a in (x.lo, x.hi) for b in (y.lo, y.hi)]
        return rng(e, x.v * y.v, min(c), max(c), w)
    if y.lo != y.hi:
        raise Unsupported('LLVM: ' + e)
    k = y.lo
    if o == 'shl':
        return rng(e, x.v * (1 << k), x.lo << k, x.hi << k, w)
    if x.lo < 0:
        if bool(x.v >= 0):
            x = V(x.v, 0, x.hi)
        else:
            raise Unsupported('negative operand in C: ' + e)
    if o in ('ashr', 'lshr'):
        return V(x.v // (1 << k), x.lo >> k, x.hi >> k)
    if o == 'and' and (k + 1) & k == 0 and k >= 0:
        return V(x.v % (k + 1), 0, min(x.hi, k)) if x.hi > k else x
    if o in ('sdiv', 'udiv') and k > 0:
        return V(x.v // k, x.lo // k, x.hi // k)
    if o in ('srem', 'urem') and k > 0:
        return V(x.v % k, 0, min(k - 1, x.hi)) if x.hi >= k else x
    raise Unsupported('LLVM: ' + e[:80])


def _sel(c, a, b):
    return a if bool(c) else b
