"""T01 printed tables and text forms"""
import re
from . import ref
from .run import Case

WHAT = ('pretty_coefs, str() and repr() executed on symbolic coefficients: every printed number is a text token bound to the term it was made from; '
        'the produced text is parsed and the term found in each labelled place compared with the mode of that place.')
BOUNDS = ('every mode free; table: 2 <= nmax <= 8, all mmax, real parts non-zero / zero / alternating, and one mode at a time with a free real part (both '
          'spellings of a complex number); text forms: all 0 <= mmax <= nmax <= 8 (thorough 14)')
OUTSIDE = ('the digits themselves (Python formats correctly rounded); the horizontal alignment when a cell text is wider than 13 characters '
           '(the order of the cells is still checked)')


def values(h, nmax, mmax, mask, free=None):
    np = h.np
    N = h.ncoef(nmax, mmax)
    re_, im = h.reals('a', N, 1, 2), h.reals('b', N, -2, 2)
    v = np.zeros(N, dtype=np.complex128)
    for k in range(N):
        s = -1 if k % 3 == 1 else 1
        r = re_[k] * s if mask == 'full' or (mask == 'alt' and k % 2) else 0.0
        if k == free:
            r = re_[k] * 2 - 3
        v[k] = r + im[k] * 1j
    return v


def table(h, nmax, mmax, mask, free=None):
    np, sp = h.np, h.sp
    h.complex_text()
    v = values(h, nmax, mmax, mask, free)
    c = h.coefs(v.copy(), nmax, mmax)
    h.clear_output()
    r = sp.pretty_coefs(c)
    txt = h.output()
    h.true('returns nothing', r is None)
    lines = txt.split('\n')
    head = [ln for ln in lines if re.search(r'm\s*=\s*-?\d', ln)]
    h.true('one heading line', len(head) == 1)
    cols = [(int(m.group(1)), (m.start() + m.end()) / 2.0) for m in re.finditer(r'm\s*=\s*(-?\d+)', head[0])]
    h.true('headings -2..2', sorted(m for m, _ in cols) == [-2, -1, 0, 1, 2])
    rows = {}
    for ln in lines:
        m = re.match(r'\s*(\d+)\s*:', ln)
        if m:
            h.true('row labelled once', int(m.group(1)) not in rows)
            rows[int(m.group(1))] = [(q.group(0), (q.start() + q.end()) / 2.0) for q in re.finditer(r'\S+', ' ' * m.end() + ln[m.end():])]
    h.true('rows 0..2', sorted(rows) == [0, 1, 2])
    place = dict((nm, k) for k, nm in enumerate(h.ref.modes(nmax, mmax)))
    for n in range(3):
        k = min(n, mmax)
        h.true('row %d: one cell for every mode' % n, len(rows[n]) == 2 * k + 1)
        narrow = all(len(t) <= 13 for t, _ in rows[n])
        want = [m for m, _ in sorted(cols, key=lambda q: q[1]) if abs(m) <= k]
        for j, (t, pos) in enumerate(rows[n]):
            m = min(cols, key=lambda q: abs(q[1] - pos))[0] if narrow else want[j]
            h.true('row %d: cell %d stands at an order with a mode' % (n, j), m == want[j])
            h.shown('c[%d,%d]' % (n, m), t, v[place[n, m]], 2)
    h.same('object unchanged', h.vec_of(c, nmax, mmax), v)


def forms(h, nmax, mmax):
    np, sp = h.np, h.sp
    v = values(h, nmax, mmax, 'alt', 0)
    c = h.coefs(v.copy(), nmax, mmax)
    place = dict((nm, k) for k, nm in enumerate(h.ref.modes(nmax, mmax)))

    def row(what, n, txt):
        cells = re.findall(r'[^\s,\[\]]+', txt)
        k = min(n, mmax)
        h.true('%s: row %d: number of values' % (what, n), len(cells) == 2 * k + 1)
        for m, t in zip(range(-k, k + 1), cells):
            h.shown('%s: c[%d,%d]' % (what, n, m), t, v[place[n, m]], 15)

    for what, txt in (('str', str(c)), ('repr', repr(c))):
        a, b = re.search(r'nmax\s*=\s*(\d+)', txt), re.search(r'mmax\s*=\s*(\d+)', txt)
        h.true('%s: sizes' % what, a is not None and b is not None and int(a.group(1)) == nmax and int(b.group(1)) == mmax)
        if what == 'str':
            rows = [(int(m.group(1)), m.group(2)) for m in re.finditer(r'\bn\s*=\s*(\d+)\s*::\s*\[([^\[\]]*)\]', txt)]
        else:
            rows = list(enumerate(re.findall(r'\[([^\[\]]*)\]', txt)))
        h.true('%s: one row for every degree' % what, [n for n, _ in rows] == list(range(nmax + 1)))
        for n, t in rows:
            row(what, n, t)
    h.same('object unchanged', h.vec_of(c, nmax, mmax), v)


def vform(h, nmax, mmax):
    for txt in (str(h.sp.zeros_coefs(nmax, mmax, coef_type=h.sp.vector)), repr(h.sp.zeros_coefs(nmax, mmax, coef_type=h.sp.vector))):
        a, b = re.search(r'nmax\s*=\s*(\d+)', txt), re.search(r'mmax\s*=\s*(\d+)', txt)
        h.true('sizes', a is not None and b is not None and int(a.group(1)) == nmax and int(b.group(1)) == mmax)


def cases(tier):
    out = []
    T = tier == 'thorough'
    for n in range(2, 15 if T else 9):
        for m in range(0, n + 1):
            for mask in ('full', 'zero', 'alt'):
                out.append(Case('table-n%d-m%d-%s' % (n, m, mask), table, dict(nmax=n, mmax=m, mask=mask)))
            if n < 6:
                place = [k for k, (nn, mm) in enumerate(ref.modes(n, m)) if nn <= 2]
                for k in place:
                    out.append(Case('table-n%d-m%d-free%d' % (n, m, k), table, dict(nmax=n, mmax=m, mask='alt' if k % 2 else 'full', free=k)))
    for n in range(0, 15 if T else 9):
        for m in range(0, n + 1):
            out.append(Case('forms-n%d-m%d' % (n, m), forms, dict(nmax=n, mmax=m)))
            out.append(Case('vform-n%d-m%d' % (n, m), vform, dict(nmax=n, mmax=m)))
    return out

