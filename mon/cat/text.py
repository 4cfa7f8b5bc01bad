"""String arrays: the char submodule."""
import numpy as np
from mon.core import Call
from mon.cat import op

ALPHA = list('abAB12 -.\tzZ09') + ['é', 'É', 'ü', 'Ω', 'ω', '中', 'ñ', '😀']
PLAIN = list('abAB1 -')
TIGHT = list('ab')


def word(g, alpha, hi):
    return ''.join(alpha[k] for k in g.rng.integers(0, len(alpha), g.int(0, hi)))


def strings(g, shape=None, hi=None, alpha=None, empty=0.05):
    if shape is None:
        shape = g.shape(nd=(0, 3), cap=40, empty=empty)
    alpha = alpha or g.pick([ALPHA, PLAIN, TIGHT])
    hi = hi or g.pick([1, 3, 6, 12])
    n = int(np.prod(shape))
    v = np.array([word(g, alpha, hi) for _ in range(n)] or [''], dtype='U%d' % hi)
    return g.wrap(v[:n].reshape(shape))


def piece(g, a, hi=3):
    """A needle: usually part of an element, sometimes empty, foreign or far too long."""
    flat = [s for s in a.n.reshape(-1).tolist() if s]
    r = g.rng.random()
    if flat and r < 0.7:
        s = g.pick(flat)
        i = g.int(0, len(s) - 1)
        return s[i:i + g.int(1, hi)]
    if r < 0.8:
        return ''
    if r < 0.9:
        return word(g, PLAIN, 3)
    return 'ab' * 20


def bounds(g):
    """Optional start and end, negative and out of range ones included."""
    if g.chance(0.5):
        return ()
    s = g.int(-8, 10)
    return (s,) if g.chance(0.4) else (s, g.int(-8, 14))


def words(exp, got):
    """Same shape and the same strings; the width of the dtype is not judged."""
    from mon.core import Violation
    e, r = np.asarray(exp), np.asarray(got)
    if e.shape != r.shape:
        raise Violation('shape', 'expected shape %s, got %s' % (e.shape, r.shape))
    if r.dtype.kind != 'U':
        raise Violation('dtype', 'expected strings, got %s' % r.dtype)
    if e.tolist() != r.tolist():
        raise Violation('value', 'expected %r, got %r' % (e.tolist(), r.tolist()))
    return max(e.size, 1)


def by_str(f, tail=()):
    """The reference where NumPy's own buffers are too small: Python's str, element by element."""
    def ref(m, x):
        out = [f(t) for t in x.reshape(-1).tolist()]
        flat = [p for o in out for p in o] if tail else out
        return np.array(flat or [''], dtype=str)[:len(flat)].reshape(x.shape + tail)
    return ref


def fn(name, *rest):
    return lambda m, x: getattr(m.char, name)(x, *rest)


@op('C24', 'char_case', 5)
def _(g):
    a = strings(g)
    what = g.pick(['upper', 'lower', 'capitalize', 'title', 'swapcase'])
    return Call('char.' + what, fn(what), (a,), key=what, eqv=words)


@op('C24', 'char_strip', 4)
def _(g):
    a = strings(g, alpha=g.pick([list(' \tab'), list('  ab'), ALPHA]))
    what = g.pick(['strip', 'lstrip', 'rstrip'])
    rest = () if g.chance(0.5) else (g.pick([' ', 'a', 'ab', 'ba ', '-', '']),)
    return Call('char.' + what, fn(what, *rest), (a,), key='%s|%d' % (what, len(rest)), eqv=words, note=repr(rest))


@op('C24', 'char_find', 5)
def _(g):
    a = strings(g)
    what = g.pick(['find', 'rfind', 'count'])
    sub, b = piece(g, a), bounds(g)
    return Call('char.' + what, fn(what, sub, *b), (a,), key='%s|%d|%d' % (what, len(sub), len(b)), note='%r %s' % (sub, b))


@op('C24', 'char_index', 3)
def _(g):
    a = strings(g)
    what = g.pick(['index', 'rindex'])
    sub, b = piece(g, a, 1), bounds(g)
    return Call('char.' + what, fn(what, sub, *b), (a,), key='%s|%d|%d' % (what, len(sub), len(b)), note='%r %s' % (sub, b))


@op('C24', 'char_ends', 4)
def _(g):
    a = strings(g)
    what = g.pick(['startswith', 'endswith'])
    flat = [s for s in a.n.reshape(-1).tolist() if s]
    sub = piece(g, a)
    if flat and g.chance(0.6):
        s = g.pick(flat)
        k = g.int(1, len(s))
        sub = s[:k] if what == 'startswith' else s[-k:]
    b = bounds(g)
    return Call('char.' + what, fn(what, sub, *b), (a,), key='%s|%d|%d' % (what, len(sub), len(b)), note='%r %s' % (sub, b))


@op('C24', 'char_replace', 4)
def _(g):
    a = strings(g)
    old, new = piece(g, a), word(g, PLAIN, g.pick([1, 4]))
    rest = () if g.chance(0.5) else (g.int(0, 3),)
    return Call('char.replace', lambda m, x: m.char.replace(x, old, new, *rest), (a,), key='%d|%d' % (len(old), len(rest)), eqv=words, ref=by_str(lambda t: t.replace(old, new, *rest)),
                note='%r %r %s' % (old, new, rest))


@op('C24', 'char_partition', 3)
def _(g):
    a = strings(g)
    what = g.pick(['partition', 'rpartition'])
    sep = piece(g, a, 2) or 'a'
    return Call('char.' + what, fn(what, sep), (a,), key='%s|%d' % (what, len(sep)), eqv=words, ref=by_str(lambda t: getattr(t, what)(sep), (3,)), note=repr(sep))


@op('C24', 'char_test', 5)
def _(g):
    a = strings(g, alpha=g.pick([list('ab'), list('AB'), list('12'), list(' \t'), list('aB1'), list('Ab '), ALPHA]), hi=g.pick([1, 2, 4]))
    what = g.pick(['isalpha', 'isdigit', 'isalnum', 'isupper', 'islower', 'isspace', 'isdecimal', 'isnumeric', 'istitle', 'str_len'])
    return Call('char.' + what, fn(what), (a,), key=what)


@op('C24', 'char_pad', 4)
def _(g):
    a = strings(g)
    what = g.pick(['center', 'ljust', 'rjust'])
    w = g.int(0, 15)
    rest = () if g.chance(0.5) else (g.pick(['*', '-', 'é']),)
    return Call('char.' + what, fn(what, w, *rest), (a,), key='%s|%d' % (what, w), eqv=words, ref=by_str(lambda t: getattr(t, what)(w, *rest)), note='%d %r' % (w, rest))


@op('C24', 'char_zfill', 2)
def _(g):
    a = strings(g, alpha=g.pick([list('+-12'), PLAIN]))
    w = g.int(0, 15)
    return Call('char.zfill', fn('zfill', w), (a,), key=str(w), eqv=words, ref=by_str(lambda t: t.zfill(w)), note=str(w))


@op('C24', 'char_expandtabs', 2)
def _(g):
    a = strings(g, alpha=list('a\tb\n'))
    rest = () if g.chance(0.4) else (g.int(0, 9),)
    return Call('char.expandtabs', fn('expandtabs', *rest), (a,), key=str(rest), eqv=words, ref=by_str(lambda t: t.expandtabs(*rest)), note=str(rest))


@op('C24', 'char_join', 2)
def _(g):
    a = strings(g)
    sep = word(g, PLAIN, 3)
    return Call('char.join', lambda m, x: m.char.join(sep, x), (a,), key=str(len(sep)), eqv=words, note=repr(sep))


@op('C24', 'char_multiply', 2)
def _(g):
    a = strings(g)
    k = g.int(0, 4)
    return Call('char.multiply', fn('multiply', k), (a,), key=str(k), eqv=words, ref=by_str(lambda t: t * k), note=str(k))


def pair(g):
    base = g.shape(nd=(0, 3), cap=40, empty=0.05)
    other = tuple(1 if g.chance(0.3) else d for d in base) if g.chance(0.4) else base
    alpha, hi = g.pick([ALPHA, TIGHT, TIGHT]), g.pick([1, 2, 5])
    a, b = strings(g, base, hi, alpha), strings(g, other, g.pick([hi, 7]), alpha)
    return (a, b) if g.chance(0.5) else (b, a)


@op('C24', 'char_add', 3)
def _(g):
    a, b = pair(g)
    if g.chance(0.1) and a.n.ndim:
        b = strings(g, a.n.shape[:-1] + (a.n.shape[-1] + 2,))
    return Call('char.add', lambda m, x, y: m.char.add(x, y), (a, b), key='add', eqv=words)


@op('C24', 'char_compare', 5)
def _(g):
    a, b = pair(g)
    what = g.pick(['equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal'])
    return Call('char.' + what, lambda m, x, y: getattr(m.char, what)(x, y), (a, b), key=what)


@op('C24', 'text_moves', 4)
def _(g):
    """Strings move through the ordinary array machinery untouched."""
    a = strings(g, g.shape(nd=(1, 3), cap=40, empty=0, mindim=1))
    ax = g.int(-a.n.ndim, a.n.ndim - 1)
    fl = g.rng.integers(0, a.n.shape[0], 4).tolist()
    what = g.pick(['rev', 'T', 'cat', 'take', 'copy', 'reshape', 'sort', 'argmax', 'unique', 'list', 'repeat', 'tile', 'flip', 'roll', 'where', 'eq', 'lt'])
    mk = g.arr('bool', a.n.shape)
    f = {
        'rev': lambda m, x, k: x[::-1], 'T': lambda m, x, k: x.T, 'cat': lambda m, x, k: m.concatenate([x, x[::-1]]),
        'take': lambda m, x, k: m.take(x, m.asarray(fl), axis=0), 'copy': lambda m, x, k: x.copy(),
        'reshape': lambda m, x, k: x.reshape(-1), 'sort': lambda m, x, k: m.sort(x, axis=ax), 'argmax': lambda m, x, k: x[k],
        'unique': lambda m, x, k: m.unique(x), 'list': lambda m, x, k: m.array(x.tolist()),
        'repeat': lambda m, x, k: m.repeat(x, 2, axis=ax), 'tile': lambda m, x, k: m.tile(x, 2), 'flip': lambda m, x, k: m.flip(x, axis=ax),
        'roll': lambda m, x, k: m.roll(x, 3, axis=ax), 'where': lambda m, x, k: m.where(k, x, x[::-1]), 'eq': lambda m, x, k: m.where(x == x[::-1], x, x[::-1]),
        'lt': lambda m, x, k: m.where(x < x[::-1], x, x[::-1]),
    }[what]
    return Call('text ' + what, f, (a, mk), key=what, eqv=words)
