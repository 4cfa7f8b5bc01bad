"""What an array prints is read back: brackets give the shape, the tokens the
elements, `...` stands exactly where the summary leaves elements out."""
import ast
import re
import numpy as np
from mon.core import Call, Violation
from mon.cat import op
from mon.cat.text import word
from mon.cat.datetimes import stamps, UNITS
from mon.cat.io import NUM

TOKEN = re.compile(r"""\s*(?:(?P<open>\[)|(?P<close>\])|(?P<sep>,)|(?P<dots>\.\.\.)
    |(?P<quoted>b?'(?:[^'\\\n]|\\.)*'|b?"(?:[^"\\\n]|\\.)*")
    |(?P<cplx>\([^()\s]*\))
    |(?P<delta>-?\d+\ [a-z]+)
    |(?P<word>[^\s,\[\]]+))""", re.X)


def parse(text, kind):
    """-> nested lists of values, Ellipsis where elements are left out."""
    pos, stack, cur = 0, [], []
    text = text.rstrip()
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if not m:
            raise Violation('unreadable', 'cannot read %r at %d' % (text[:200], pos))
        pos = m.end()
        what = m.lastgroup
        if what == 'open':
            stack.append(cur)
            cur = []
        elif what == 'close':
            if not stack:
                raise Violation('unreadable', 'unbalanced brackets in %r' % text[:200])
            done, cur = cur, stack.pop()
            cur.append(done)
        elif what == 'dots':
            cur.append(Ellipsis)
        elif what != 'sep':
            cur.append(value(m.group(what), kind))
    if stack or len(cur) != 1:
        raise Violation('unreadable', 'not one balanced value: %r' % text[:200])
    return cur[0]


def value(tok, kind):
    try:
        if kind == 'b':
            return {'True': True, 'False': False}[tok]
        if kind in 'iu':
            return int(tok)
        if kind == 'f':
            return float(tok)
        if kind == 'c':
            return complex(re.sub(r'(\.)(?=[+\-j)e]|$)', '.0', tok))
        if kind in 'US':
            return ast.literal_eval(tok)
        if kind == 'M':
            return np.datetime64(tok.strip("'\""))
        if kind == 'm':
            return None if tok == 'NaT' else int(tok.split()[0])
    except (KeyError, ValueError, SyntaxError):
        pass
    raise Violation('unreadable', 'token %r is no %s' % (tok, kind))


def expected(a, cut):
    if getattr(a, 'ndim', 0) == 0:
        return a[()] if isinstance(a, np.ndarray) else a
    n = a.shape[0]
    if cut and n > 6:
        return [expected(a[i], cut) for i in range(3)] + [Ellipsis] + [expected(a[i], cut) for i in range(n - 3, n)]
    return [expected(a[i], cut) for i in range(n)]


DIGITS = {'float16': 4, 'complex64': 6}


def near(e, t, eps):
    if np.isnan(e) or np.isnan(t):
        return np.isnan(e) and np.isnan(t)
    if np.isinf(e) or np.isinf(t):
        return e == t
    e, t = float(e), float(t)
    return abs(e - t) <= max(eps, 2 * eps * abs(e)) and (e == 0) == (t == 0) and (e < 0) == (t < 0)


def same(e, t, dt, where=()):
    if isinstance(e, list) or isinstance(t, list):
        if not (isinstance(e, list) and isinstance(t, list)) or len(e) != len(t):
            raise Violation('layout', 'at %s: %s elements shown, the array has %s' % (
                where, len(t) if isinstance(t, list) else 'no list of', len(e) if isinstance(e, list) else 'a scalar'))
        return sum(same(x, y, dt, where + (i,)) for i, (x, y) in enumerate(zip(e, t)))
    if e is Ellipsis or t is Ellipsis:
        ok = e is t
    elif dt.kind == 'f':
        ok = near(e, t, 0.51 * 10.0 ** -DIGITS.get(dt.name, 8))
    elif dt.kind == 'c':
        eps = 0.51 * 10.0 ** -DIGITS.get(dt.name, 8)
        ok = near(e.real, t.real, eps) and near(e.imag, t.imag, eps)
    elif dt.kind in 'mM' and np.isnat(e):
        ok = t is None if dt.kind == 'm' else np.isnat(t)
    elif dt.kind == 'M':
        ok = e == np.datetime64(t).astype(dt)
    elif dt.kind == 'm':
        ok = int(e.astype('i8')) == t
    else:
        ok = e == t
    if not ok:
        raise Violation('value', 'at %s: shows %r for %r' % (where, t, e))
    return 1


def printable(g, nd=(0, 4)):
    k = g.pick(['num'] * 5 + ['date', 'str', 'bytes'])
    big = g.chance(0.25)
    shape = g.shape(nd=nd, cap=300, empty=0.1)
    if big:
        shape = g.pick([(1001,), (1000,), (1003,), (7, 160), (6, 200), (200, 6), (170, 7), (5, 8, 30), (11, 3, 31),
                        (2, 5, 2, 51), (26, 40), (1, 1200), (1200, 1)])
    if k == 'num':
        return g.arr(NUM, shape=shape, prof=['wide', 'special', 'any', 'int'] if g.chance(0.7) else ['special'])
    if k == 'date':
        return stamps(g, shape, g.pick(UNITS), g.pick([0, 0.2]), g.pick(['datetime64', 'timedelta64']))
    n = int(np.prod(shape))
    hi = g.pick([1, 3, 8])
    alpha = list('ab 9,[]') + ["'", '"', '\n', '\t', '\\', '.', '\r', '\x01', '\x7f'] + (['é', '中', '\x85'] if k == 'str' else [])
    ws = [word(g, alpha, hi) for _ in range(n)] or ['']
    v = np.array(ws, dtype='U%d' % hi) if k == 'str' else np.array([w.encode() for w in ws], dtype='S%d' % hi)
    if k == 'bytes' and g.chance(0.4) and v.size:
        v[g.int(0, v.size - 1)] = bytes([g.int(1, 255) for _ in range(hi)])
    return g.wrap(v[:n].reshape(shape))


def shown(a, form):
    """(nested values, shape=, dtype=) of what rumpy prints."""
    text = form(a)
    kind = np.dtype(np.asarray(a).dtype).kind
    shape = dtype = None
    if text.startswith('array('):
        if not text.endswith(')'):
            raise Violation('unreadable', repr(text[:200]))
        text = text[6:-1]
        m = re.search(r",\s*dtype='?([^'()]*?)'?$", text)
        if m:
            dtype, text = m.group(1), text[:m.start()]
        m = re.search(r",\s*shape=(\([\d, ]*\))$", text)
        if m:
            shape, text = ast.literal_eval(m.group(1)), text[:m.start()]
    return parse(text, kind), shape, dtype


def display(g, form, name):
    a = printable(g)

    def ref(m, n):
        return n

    def eqv(n, got):
        if isinstance(n, tuple):
            raise Violation('value', 'shows %r, not %r' % (got, n))
        vals, shape, dtype = got
        cut = n.size > 1000
        k = same(expected(n, cut) if n.size else [], vals, n.dtype)
        if name == 'repr':
            if shape != (n.shape if cut or (n.size == 0 and n.shape != (0,)) else None) and not (
                    shape is not None and tuple(shape) == n.shape):
                raise Violation('shape', 'shows shape %r of %r' % (shape, n.shape))
            want = {'U': 'str', 'S': 'bytes'}.get(n.dtype.kind, n.dtype.name)
            alias = (want, n.dtype.str, n.dtype.str.lstrip('<|='))
            if dtype is None:
                # only the kinds the elements themselves give away go without
                if want not in ('int64', 'float64', 'bool', 'complex128', 'str') or n.size == 0:
                    raise Violation('dtype', 'shows no dtype of %s' % n.dtype)
            elif dtype not in alias:
                raise Violation('dtype', 'shows dtype %r of %s' % (dtype, n.dtype))
        return k + 1
    return Call(name, lambda m, x: shown(x, form), (a,), ref=ref, eqv=eqv,
                key='%s|%d|%s' % (a.n.dtype, a.n.ndim, a.n.size > 1000))


@op('C26', 'array_repr', 5)
def _(g):
    return display(g, repr, 'repr')


@op('C26', 'array_str', 5)
def _(g):
    return display(g, str, 'str')


@op('C26', 'element_str', 2)
def _(g):
    """Single elements, through the array they index out of and through format()."""
    a = printable(g, nd=(1, 3))
    if a.n.size == 0 or a.n.dtype.kind in 'mM':      # one date is handed out as its count of units
        a = g.wrap(np.arange(6.0).reshape(2, 3))
    ix = tuple(g.int(0, s - 1) for s in a.n.shape)
    form = g.pick([str, repr, format, lambda x: '%s' % x])

    def f(m, x):
        e = x[ix]
        if not hasattr(e, 'dtype'):
            return e, None, None
        return shown(e, form)

    def eqv(n, got):
        if isinstance(n, tuple):
            raise Violation('value', 'shows %r, not %r' % (got, n))
        return same(n[()], got[0], n.dtype)
    return Call('element', f, (a,), ref=lambda m, n: np.asarray(n[ix], dtype=n.dtype), eqv=eqv, key=str(a.n.dtype),
                note=str(ix))


@op('C26', 'conversions', 3)
def _(g):
    """int(), float(), bool() of one-element arrays, len() of others."""
    what = g.pick(['int', 'float', 'bool', 'len', 'item', 'complex'])
    if what == 'len':
        a = g.arr(NUM, nd=(0, 4), empty=0.2, cap=200)
        return Call('len', lambda m, x: len(x), (a,), key=str(a.n.ndim))
    f = {'int': int, 'float': float, 'bool': bool, 'item': lambda x: x.item(), 'complex': complex}[what]
    dts = NUM
    if what not in ('bool', 'item') and g.chance(0.15):
        # text is read as Python reads it
        t = g.pick(['12', '-7', '3.5', 'x', '1e3', '', 'inf', '1+2j', '0'])
        t = g.wrap(np.array(t) if g.chance(0.7) else np.array(t.encode()))
        return Call(what, lambda m, x: f(x), (t,), key=what + 'text', err='both')
    shape = g.pick([(), (1,), (1, 1), (1,), ()]) if g.chance(0.85) else g.shape(nd=(1, 3), cap=20, empty=0.2)
    a = g.arr(dts, shape=shape, prof=['int', 'wide', 'any', 'special'])
    if a.n.size == 0 and what == 'bool':
        a = g.arr(dts, shape=(1,))
    if what in ('int', 'float', 'complex') and a.n.ndim and a.n.size == 1:
        a = g.arr(dts, shape=(), prof=['int', 'wide', 'any', 'special'])
    return Call(what, lambda m, x: f(x), (a,), key=what, err='both')
