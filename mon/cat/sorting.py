"""Sorting and searching (C11), sets and uniqueness (C12)."""
import numpy as np
from mon.core import *
from mon.cat import op

KEYS = ['small', 'dups', 'wide', 'special', 'distinct', 'nan']


def keys(g, dts=ALL, **kw):
    dt = g.pick(dts) if not isinstance(dts, str) else dts
    prof = g.pick(KEYS if np.dtype(dt).kind in 'f' else KEYS[:3] + ['distinct'])
    if np.dtype(dt).kind == 'c':
        prof = g.pick(['dups', 'small', 'special'])
    return g.arr(dt, prof=prof, **kw)


def sax(g, nd):
    """keyword arguments choosing a sort axis"""
    r = g.int(0, 9)
    if r < 3 or nd == 0:
        return {}
    if r < 4:
        return {'axis': None}
    return {'axis': g.axis(nd)}


@op('C11', 'sort', 3)
def _(g):
    a = keys(g, nd=(1, 4))
    kw = sax(g, a.n.ndim)
    return Call('sort', lambda m, x, kw: m.sort(x, **kw), (a, kw), rtol=None, key=str(kw)[:12])


@op('C11', '.sort', 1, mut=True)
def _(g):
    a = keys(g, nd=(1, 3), bcast=False)
    kw = {'axis': g.axis(a.n.ndim)} if g.chance(0.7) else {}

    how = g.pick(['own', 'rev', 'T', 'part'])
    kth = g.int(0, a.n.shape[-1] - 1) if a.n.shape[-1] else None
    meth = g.pick(['sort', 'sort', 'partition']) if kth is not None and a.n.dtype.kind != 'c' else 'sort'
    if meth == 'partition' and how in ('T', 'part'):
        how = 'own'

    def fn(m, x, kw):
        y = x.copy()
        v = {'own': lambda: y, 'rev': lambda: y[::-1], 'T': lambda: y.T, 'part': lambda: y[1:]}[how]()
        if meth == 'sort':
            v.sort(**kw)
        else:
            v.partition(kth)
            y.sort()            # partition leaves the rest in any order
        return y
    return Call('.' + meth, fn, (a, kw), rtol=None, key=how, err='skip' if meth == 'partition' else 'both')


@op('C11', 'argsort', 3)
def _(g):
    """The permutation must be a permutation that sorts; ties may come in any order."""
    a = keys(g, nd=(1, 4))
    kw = sax(g, a.n.ndim)
    meth = g.chance(0.3)

    def fn(m, x, kw):
        return x.argsort(**kw) if meth else m.argsort(x, **kw)

    def eqv(e, r):
        r = np.asarray(r)
        if r.shape != e.shape:
            raise Violation('shape', 'expected %s got %s' % (e.shape, r.shape))
        if r.dtype != np.int64:
            raise Violation('dtype', 'argsort dtype %s' % r.dtype)
        src = a.n
        axis = kw.get('axis', -1)
        if axis is None:
            src, axis = src.reshape(-1), 0
        if r.size and (r.min() < 0 or r.max() >= src.shape[axis]):
            raise Violation('value', 'index out of range %s' % r)
        if not np.array_equal(np.sort(r, axis), np.sort(e, axis)):
            raise Violation('value', 'not a permutation: %s' % describe(r))
        compare(np.take_along_axis(src, e, axis), np.take_along_axis(src, r, axis), None)
        # repeated calls agree on distinct keys; stability is asked for by lexsort only
        return int(r.size)
    return Call('argsort', fn, (a, kw), eqv=eqv, key=(str(kw)[:12], meth))


@op('C11', 'lexsort')
def _(g):
    n = g.dim(0.05, 65)
    k = g.int(1, 4)
    ks = [keys(g, REAL + BOOL, shape=(n,)) for _ in range(k)]
    return Call('lexsort', lambda m, ks: m.lexsort(ks), (ks,), rtol=None, key=k)


def part_check(a, axis, kth, got):
    """partition's contract: the kth element is in place and splits the rest."""
    got = np.moveaxis(np.asarray(got), axis, -1)
    src = np.moveaxis(a, axis, -1)
    s = np.sort(src, -1)
    if got.shape != src.shape:
        raise Violation('shape', 'expected %s got %s' % (src.shape, got.shape))
    compare(s, np.sort(got, -1), None)
    compare(s[..., kth], got[..., kth], None)
    compare(s[..., :kth], np.sort(got[..., :kth], -1), None)
    return int(got.size)


def pkeys(g):
    """keys of every kind, the wide ones included"""
    r = g.int(0, 9)
    if r < 6:
        return keys(g, REAL + BOOL, nd=(1, 3), empty=0, bcast=False)
    if r < 8:
        return g.arr(g.pick(CPLX), prof=g.pick(['dups', 'small']), nd=(1, 3), empty=0, bcast=False)
    sh = tuple(g.int(1, 6) for _ in range(g.int(1, 3)))
    if r == 8:
        v = np.array(['b', 'aa', '', 'longer words', 'é', 'zz top', 'B', 'a'])[g.rng.integers(0, 8, sh)]
    else:
        v = g.rng.integers(-5, 6, sh).astype(g.pick(['M8[D]', 'M8[s]', 'm8[ms]']))
        if g.chance(0.5):
            v[g.rng.random(sh) < 0.2] = 'NaT'
    return g.wrap(v, bcast=False)


@op('C11', 'partition')
def _(g):
    a = pkeys(g)
    axis = g.axis(a.n.ndim)
    n = a.n.shape[axis]
    kth = g.int(0, n - 1)
    return Call('partition', lambda m, x, k, ax: m.partition(x, k, axis=ax), (a, kth, axis),
                eqv=lambda e, r: part_check(a.n, axis, kth, r))


@op('C11', 'argpartition')
def _(g):
    a = pkeys(g)
    axis = g.axis(a.n.ndim)
    n = a.n.shape[axis]
    kth = g.int(0, n - 1)

    def eqv(e, r):
        r = np.asarray(r)
        if r.shape != a.n.shape:
            raise Violation('shape', 'expected %s got %s' % (a.n.shape, r.shape))
        if not np.array_equal(np.sort(r, axis), np.sort(e, axis)):
            raise Violation('value', 'not a permutation %s' % describe(r))
        return part_check(a.n, axis, kth, np.take_along_axis(a.n, r, axis))
    return Call('argpartition', lambda m, x, k, ax: m.argpartition(x, k, axis=ax), (a, kth, axis), eqv=eqv)


@op('C11', 'searchsorted', 2)
def _(g):
    dt = g.pick(REAL + BOOL)
    a = g.arr(dt, nd=(1, 1), prof=g.pick(['small', 'dups', 'wide', 'distinct', 'nan' if dt in FLT else 'small']))
    a = g.wrap(np.sort(a.n), bcast=False)
    side = g.pick(['left', 'right'])
    if g.chance(0.6):
        v = g.arr(dt, nd=(0, 2), prof=g.pick(['small', 'dups', 'wide', 'distinct', 'special' if dt in FLT else 'dups']))
    else:
        v = g.pick([0, 1, 2, -1, 1.5]) if dt not in UINT + BOOL else g.pick([0, 1, 2])
    meth = g.chance(0.3)
    return Call('searchsorted', lambda m, x, v, s: x.searchsorted(v, side=s) if meth else m.searchsorted(x, v, side=s),
                (a, v, side), rtol=None, dtype=False, key=(side, meth))


@op('C11', 'digitize')
def _(g):
    b = np.sort(g.values('float64', (g.pick([1, 2, 2, 3, g.int(1, 9)]),), g.pick(['small', 'distinct', 'dups'])))
    if g.chance(0.4):
        b = b[::-1].copy()
    x = g.arr(['float64', 'int64', 'int32', 'float32'], nd=(0, 2), prof=g.pick(['small', 'dups']))
    right = g.chance(0.5)
    return Call('digitize', lambda m, x, b, r: m.digitize(x, b, right=r), (x, g.wrap(b, bcast=False), right), rtol=None, dtype=False,
                key=right)


@op('C11', 'nonzero', 2)
def _(g):
    a = keys(g, nd=(1, 4))
    which = g.pick(['nonzero', 'flatnonzero', 'argwhere', 'm'])
    f = {'nonzero': lambda m, x: m.nonzero(x), 'flatnonzero': lambda m, x: m.flatnonzero(x),
         'argwhere': lambda m, x: m.argwhere(x), 'm': lambda m, x: x.nonzero()}[which]
    return Call(which, f, (a,), rtol=None, key=which)


@op('C11', 'extract')
def _(g):
    sh = g.shape((1, 3))
    c = g.arr('bool', shape=sh)
    a = keys(g, shape=sh)
    return Call('extract', lambda m, c, x: m.extract(c, x), (c, a), rtol=None)


# --- sets ---------------------------------------------------------------------

def setvals(g, dt, nd=(1, 2), **kw):
    k = np.dtype(dt).kind
    prof = g.pick(['dups', 'small', 'wide', 'distinct']) if k != 'f' else g.pick(['dups', 'small', 'int'])
    return g.arr(dt, nd=nd, prof=prof, **kw)


@op('C12', 'unique', 2)
def _(g):
    a = setvals(g, g.pick(ALLREAL), (0, 3))
    nm = g.pick(['unique', 'unique_values'])
    return Call(nm, lambda m, x: m.sort(getattr(m, nm)(x)) if nm == 'unique_values' else getattr(m, nm)(x), (a,), rtol=None)


@op('C12', 'unique_nan')
def _(g):
    a = g.arr(FLT, nd=(1, 2), prof=g.pick(['nan', 'special']))
    return Call('unique', lambda m, x: m.unique(x), (a,), rtol=None)


def fields(r):
    return tuple(r)


@op('C12', 'unique_counts')
def _(g):
    a = setvals(g, g.pick(ALLREAL))
    return Call('unique_counts', lambda m, x: fields(m.unique_counts(x)), (a,), rtol=None,
                ref=lambda m, x: tuple(np.unique(x, return_counts=True)))


@op('C12', 'unique_inverse')
def _(g):
    a = setvals(g, g.pick(ALLREAL))
    return Call('unique_inverse', lambda m, x: fields(m.unique_inverse(x)), (a,), rtol=None,
                ref=lambda m, x: tuple(np.unique(x, return_inverse=True)))


@op('C12', 'unique_all')
def _(g):
    a = setvals(g, g.pick(ALLREAL))
    return Call('unique_all', lambda m, x: fields(m.unique_all(x)), (a,), rtol=None,
                ref=lambda m, x: tuple(np.unique(x, return_index=True, return_inverse=True, return_counts=True)))


def two(nm):
    def gen(g):
        dt = g.pick(ALLREAL)
        a, b = setvals(g, dt), setvals(g, dt)
        return Call(nm, lambda m, x, y: getattr(m, nm)(x, y), (a, b), rtol=None)
    op('C12', nm)(gen)


for _n in ['union1d', 'intersect1d', 'setdiff1d', 'setxor1d']:
    two(_n)


@op('C12', 'isin', 2)
def _(g):
    dt = g.pick(ALLREAL)
    a, b = setvals(g, dt, (0, 3)), setvals(g, dt)
    inv = g.chance(0.4)
    nm = g.pick(['isin', 'in1d'])
    if nm == 'in1d':
        return Call(nm, lambda m, x, y, i: m.in1d(x, y, invert=i), (a, b, inv), rtol=None, key=inv,
                    ref=lambda m, x, y, i: np.isin(x.reshape(-1), y, invert=i))
    return Call(nm, lambda m, x, y, i: m.isin(x, y, invert=i), (a, b, inv), rtol=None, key=inv)


@op('C12', 'isin_mixed')
def _(g):
    d1, d2 = g.pick([('int32', 'int64'), ('int64', 'float64'), ('uint8', 'int64'), ('float32', 'float64'), ('bool', 'int64')])
    a, b = g.arr(d1, nd=(1, 2), prof='dups'), g.arr(d2, nd=(1, 2), prof='dups')
    return Call('isin', lambda m, x, y: m.isin(x, y), (a, b), rtol=None)


@op('C12', 'bincount')
def _(g):
    a = g.wrap(g.rng.integers(0, 20, g.dim()).astype(g.pick(['int64', 'int32', 'uint8'])), bcast=False)
    kw = {'minlength': g.int(0, 25)} if g.chance(0.5) else {}
    return Call('bincount', lambda m, x, kw: m.bincount(x, **kw), (a, kw), rtol=None)


@op('C12', 'trim_zeros')
def _(g):
    v = g.values(g.pick(['int64', 'float64', 'int32']), (g.int(0, 12),), 'dups')
    v[:g.int(0, 4)] = 0
    if g.chance(0.6) and v.size:
        v[-g.int(1, 4):] = 0
    t = g.pick(['fb', 'f', 'b'])
    return Call('trim_zeros', lambda m, x, t: m.trim_zeros(x, trim=t), (g.wrap(v), t), rtol=None, key=t)
