"""Selection by index and mask (C13), assignment by index and mask (C14)."""
import numpy as np
from mon.core import *
from mon.cat import op

ANY = ALL


def vals(g, dts=ANY, **kw):
    dt = g.pick(dts) if not isinstance(dts, str) else dts
    prof = g.pick(['distinct', 'wide', 'small']) if np.dtype(dt).kind != 'f' else g.pick(['distinct', 'special', 'small'])
    return g.arr(dt, prof=prof, **kw)


def basic_key(g, shape, fancy=False):
    """A basic index: ints, slices, newaxis, Ellipsis."""
    nd = len(shape)
    k = g.int(0, nd)
    out = []
    ell = k < nd and g.chance(0.3)
    pos = g.int(0, k) if ell else -1
    axes = list(range(k)) if not ell else list(range(pos)) + list(range(nd - (k - pos), nd))
    for j, ax in enumerate(axes):
        if ell and j == pos:
            out.append(Ellipsis)
            ell = False
        if g.chance(0.12):
            out.append(None)
        n = shape[ax]
        if n and g.chance(0.35):
            out.append(g.int(-n, n - 1))
        else:
            out.append(sl(g, n))
    if ell:
        out.append(Ellipsis)
    if g.chance(0.1):
        out.append(None)
    if len(out) == 1 and g.chance(0.5):
        return out[0]
    return tuple(out)


def sl(g, n):
    r = g.int(0, 5)
    if r == 0:
        return slice(None)
    if r == 1:
        return slice(None, None, -1)
    lo = g.pick([None, g.int(-n - 2, n + 2)])
    hi = g.pick([None, g.int(-n - 2, n + 2)])
    st = g.pick([None, 1, 2, 3, -1, -2, -3])
    if g.chance(0.04):
        st = g.pick([2 ** 40, 2 ** 62, 2 ** 63 - 1, -2 ** 62, -2 ** 63])
    return slice(lo, hi, st)


@op('C13', 'getitem_basic', 3)
def _(g):
    a = vals(g, nd=(1, 4))
    key = basic_key(g, a.n.shape)
    return Call('getitem', lambda m, x, k: x[k], (a, key), rtol=None, key=str(type(key)))


@op('C13', 'getitem_fancy', 3)
def _(g):
    a = vals(g, nd=(1, 3), empty=0)
    n = a.n.shape[0]
    idx = g.arr(data=g.rng.integers(-n, n, g.shape((1, 1), 0.1, 40)).astype(g.pick(['int64', 'int64', 'int32'])), bcast=False)
    return Call('getitem[idx]', lambda m, x, i: x[i], (a, idx), rtol=None)


@op('C13', 'getitem_mask', 2)
def _(g):
    a = vals(g, nd=(1, 3))
    mk = g.arr('bool', shape=a.n.shape)
    return Call('getitem[mask]', lambda m, x, i: x[i], (a, mk), rtol=None)


@op('C13', 'take', 3)
def _(g):
    a = vals(g, nd=(1, 3), empty=0)
    axis = None if g.chance(0.3) else g.axis(a.n.ndim)
    n = a.n.size if axis is None else a.n.shape[axis]
    idx = g.arr(data=g.rng.integers(-n, n, g.shape((1, 1), 0.1, 20)), bcast=False)
    kw = {} if axis is None else {'axis': axis}
    meth = g.chance(0.3)
    return Call('take', lambda m, x, i, kw: x.take(i, **kw) if meth else m.take(x, i, **kw), (a, idx, kw), rtol=None,
                key=(axis is None, meth))


@op('C13', 'take_along_axis', 2)
def _(g):
    a = vals(g, nd=(1, 3), empty=0)
    axis = g.axis(a.n.ndim)
    sh = list(a.n.shape)
    sh[axis] = g.int(1, 5)
    idx = g.arr(data=g.rng.integers(-a.n.shape[axis], a.n.shape[axis], tuple(sh)), bcast=False)
    return Call('take_along_axis', lambda m, x, i, ax: m.take_along_axis(x, i, ax), (a, idx, axis), rtol=None)


@op('C13', 'compress')
def _(g):
    a = vals(g, nd=(1, 3))
    axis = None if g.chance(0.3) else g.axis(a.n.ndim)
    n = a.n.size if axis is None else a.n.shape[axis]
    k = g.int(0, n)
    c = [bool(b) for b in g.rng.integers(0, 2, k)]
    kw = {} if axis is None else {'axis': axis}
    c = g.arr(data=np.array(c, bool), bcast=False) if g.chance(0.5) else c
    return Call('compress', lambda m, c, x, kw: m.compress(c, x, **kw), (c, a, kw), rtol=None, key=axis is None)


@op('C13', 'where3')
def _(g):
    sh = g.shape((1, 3))
    dt = g.pick(ANY)
    return Call('where', lambda m, c, x, y: m.where(c, x, y), (g.arr('bool', shape=sh), vals(g, dt, shape=sh), vals(g, dt, shape=sh)),
                rtol=None)


@op('C13', 'choose')
def _(g):
    sh = g.shape((1, 2))
    k = g.int(1, 5)
    dt = g.pick(['int64', 'float64', 'int32', 'complex128', 'uint8', 'float32'])
    ch = [vals(g, dt, shape=sh) for _ in range(k)]
    a = g.arr(data=g.rng.integers(0, k, sh), bcast=False)
    return Call('choose', lambda m, a, c: m.choose(a, c), (a, ch), rtol=None)


@op('C13', 'select')
def _(g):
    sh = g.shape((1, 2))
    k = g.int(1, 4)
    dt = g.pick(['int64', 'float64', 'complex128', 'float32'])
    ch = [vals(g, dt, shape=sh) for _ in range(k)]
    cs = [g.arr('bool', shape=sh) for _ in range(k)]
    return Call('select', lambda m, c, x: m.select(c, x), (cs, ch), rtol=None, dtype=False)


@op('C13', 'diagonal', 1)
def _(g):
    a = vals(g, nd=(2, 2), mindim=1)
    w = g.pick(['diagonal', '.diagonal', 'diag'])
    f = {'diagonal': lambda m, x: m.diagonal(x), '.diagonal': lambda m, x: x.diagonal(), 'diag': lambda m, x: m.diag(x)}[w]
    return Call(w, f, (a,), rtol=None)


@op('C13', 'diag1')
def _(g):
    a = vals(g, shape=(g.int(1, 65),))
    if g.chance(0.5):
        return Call('diag', lambda m, x: m.diag(x), (a,), rtol=None)
    return Call('diagflat', lambda m, x, k: m.diagflat(x, k), (a, g.int(-3, 3)), rtol=None)


@op('C13', 'tri_indices')
def _(g):
    n, mm, k = g.int(1, 7), g.int(1, 7), g.int(-4, 4)
    nm = g.pick(['tril_indices', 'triu_indices'])
    if g.chance(0.5):
        return Call(nm, lambda m: tuple(getattr(m, nm)(n, k, mm)), (), rtol=None, key=(n, mm, k))
    a = vals(g, nd=(2, 2), mindim=1)
    return Call(nm + '_from', lambda m, x: tuple(getattr(m, nm + '_from')(x, k)), (a,), rtol=None, key=k)


@op('C13', 'diag_indices')
def _(g):
    n, d = g.int(1, 6), g.int(1, 4)
    if g.chance(0.5):
        return Call('diag_indices', lambda m: tuple(m.diag_indices(n, d)), (), rtol=None, key=(n, d))
    a = g.arr('int64', shape=(n,) * max(2, d - 1))
    return Call('diag_indices_from', lambda m, x: tuple(m.diag_indices_from(x)), (a,), rtol=None)


@op('C13', 'unravel')
def _(g):
    sh = g.shape((1, 4), 0, 200)
    n = int(np.prod(sh))
    order = g.pick(['C', 'F'])
    idx = g.arr(data=g.rng.integers(0, n, g.int(1, 12)), bcast=False)
    if g.chance(0.5):
        return Call('unravel_index', lambda m, i: tuple(m.unravel_index(i, sh, order=order)), (idx,), rtol=None, key=(sh, order))
    mi = tuple(g.arr(data=np.ascontiguousarray(v), bcast=False) for v in np.unravel_index(idx.n, sh))
    return Call('ravel_multi_index', lambda m, mi: m.ravel_multi_index(mi, sh, order=order), (mi,), rtol=None, key=(sh, order))


@op('C13', 'ravel_modes')
def _(g):
    sh = g.shape((1, 3), 0, 100)
    k = g.int(1, 8)
    mode = g.pick(['wrap', 'clip', 'raise'])
    mi = tuple(g.arr(data=g.rng.integers(-d - 1, 2 * d, k), bcast=False) for d in sh)
    return Call('ravel_multi_index', lambda m, mi: m.ravel_multi_index(mi, sh, mode=mode), (mi,), rtol=None, key=mode)


@op('C13', 'ix_')
def _(g):
    ks = [g.arr(data=g.rng.integers(0, 9, g.int(1, 5)), bcast=False) for _ in range(g.int(1, 4))]
    return Call('ix_', lambda m, ks: tuple(m.ix_(*ks)), (ks,), rtol=None)


@op('C13', 'flat')
def _(g):
    a = vals(g, REAL + BOOL, nd=(1, 3))
    if g.chance(0.5) or not a.n.size:
        return Call('flat iter', lambda m, x: [v for v in x.flat], (a,), rtol=None)
    i = g.int(-a.n.size, a.n.size - 1)
    return Call('flat[i]', lambda m, x: x.flat[i], (a,), rtol=None)


@op('C13', 'iterate')
def _(g):
    a = vals(g, nd=(1, 3))
    return Call('iter', lambda m, x: [v for v in x], (a,), rtol=None)


@op('C13', 'ndenumerate')
def _(g):
    a = vals(g, REAL, nd=(1, 3))
    return Call('ndenumerate', lambda m, x: [(list(i), v) for i, v in m.ndenumerate(x)], (a,), rtol=None)


@op('C13', 'ndindex')
def _(g):
    sh = g.shape((1, 3), 0.05, 60)
    return Call('ndindex', lambda m: [list(i) for i in m.ndindex(*sh)], (), rtol=None, key=sh)


@op('C13', 'packbits')
def _(g):
    sh = g.shape((0, 3), 0.05, 200)
    order = g.pick(['big', 'little']) if g.chance(0.96) else g.pick(['x', '', 'LITTLE'])
    axis = None if g.chance(0.4) else g.axis(len(sh)) if len(sh) and g.chance(0.9) else g.int(-4, 4)
    kw = {'bitorder': order}
    if axis is not None:
        kw['axis'] = axis
    if g.chance(0.5):
        a = g.arr(g.pick(['bool', 'uint8', 'bool', 'uint8'] + ALL), shape=sh, prof='unit')
        return Call('packbits', lambda m, x, kw: m.packbits(x, **kw), (a, kw), rtol=None, key=order)
    a = g.arr('uint8' if g.chance(0.9) else g.pick(ALL), shape=sh, prof='wide')
    if g.chance(0.4) and 0 not in sh and (axis is None or -len(sh) <= axis < len(sh)):
        kw['count'] = g.int(0, 8 * (sh[axis] if axis is not None else int(np.prod(sh))) + 9)
    return Call('unpackbits', lambda m, x, kw: m.unpackbits(x, **kw), (a, kw), rtol=None, key=order)


# --- assignment ---------------------------------------------------------------

def result_of(x, b):
    return (x, b)


def scal(g, dt):
    k = np.dtype(dt).kind
    if k == 'b':
        return g.chance(0.5)
    if k in 'iu':
        if g.chance(0.3):
            ii = np.iinfo(dt)
            return int(g.values(dt, (), 'wide'))
        return g.int(0, 100)
    if k == 'c' and g.chance(0.5):
        return complex(g.int(-40, 40) / 4, g.int(-40, 40) / 4)
    return float(g.int(-40, 40)) / 4


@op('C14', 'setitem_basic', 4, mut=True)
def _(g):
    a = vals(g, nd=(1, 4), layout='c')
    how = g.pick(['own', 'own', 'T', 'rev', 'step', 'last'])

    def view(b):
        return {'own': lambda: b, 'T': lambda: b.T, 'rev': lambda: b[::-1], 'step': lambda: b[1::2],
                'last': lambda: b[..., ::-1]}[how]()
    w0 = view(a.n)
    key = basic_key(g, w0.shape)
    if not isinstance(key, (tuple, slice, int)):
        key = (key,)
    if isinstance(key, tuple) and not key:
        key = slice(None)
    tgt = w0[key].shape
    if g.chance(0.5):
        v = scal(g, a.n.dtype)
    else:
        sh = list(tgt)
        for i in range(len(sh)):
            if g.chance(0.2):
                sh[i] = 1
        cut = g.int(0, len(sh)) if g.chance(0.2) else 0
        v = vals(g, str(a.n.dtype), shape=tuple(sh[cut:]))

    def fn(m, x, k, v):
        b = x.copy()
        w = view(b)
        w[k] = v
        return b, w
    return Call('setitem', fn, (a, key, v), rtol=None, key=(how, str(type(key))))


@op('C14', 'setitem_cast', 2, mut=True)
def _(g):
    """values of another dtype are converted like NumPy's same-kind/unsafe assignment"""
    d1 = g.pick(ANY)
    d2 = g.pick(ANY)
    k1, k2 = np.dtype(d1).kind, np.dtype(d2).kind
    if k2 == 'c' and k1 != 'c':
        d2 = 'float64'
    prof = 'small' if k1 != 'u' else 'pos'
    sh = g.shape((1, 3))
    a = g.arr(d1, shape=sh, layout='c')
    v = g.arr(d2, shape=sh, prof='pos' if k1 == 'u' else 'int' if np.dtype(d2).kind in 'fc' else 'small')

    def fn(m, x, v):
        b = x.copy()
        b[:] = v
        return b
    return Call('setitem', fn, (a, v), rtol=None)


@op('C14', 'setitem_self', 1, mut=True)
def _(g):
    """overlapping source and destination"""
    a = vals(g, nd=(1, 2), mindim=2, layout='c', empty=0)
    n = a.n.shape[0]
    w = g.pick(['rev', 'shift', 'back', 'T'])
    if w == 'T':
        s = g.int(1, 6)
        a = vals(g, str(a.n.dtype), shape=(s, s), layout='c')

    def fn(m, x):
        b = x.copy()
        if w == 'rev':
            b[:] = b[::-1]
        elif w == 'shift':
            b[1:] = b[:-1]
        elif w == 'back':
            b[:-1] = b[1:]
        else:
            b[:] = b.T
        return b
    return Call('setitem overlap ' + w, fn, (a,), rtol=None)


@op('C14', 'put', 1, mut=True)
def _(g):
    a = vals(g, REAL, nd=(1, 2), empty=0, layout='c')
    n = a.n.size
    idx = [int(i) for i in g.rng.permutation(n)[:g.int(1, n)]]
    idx = [i - n if g.chance(0.3) else i for i in idx]
    v = [scal(g, a.n.dtype) for _ in range(g.pick([1, len(idx), max(1, len(idx) // 2)]))]
    ia = g.arr(data=np.array(idx), bcast=False)
    va = g.arr(data=np.array(v).astype(a.n.dtype), bcast=False)

    def fn(m, x, i, v):
        b = x.copy()
        m.put(b, i, v)
        return b
    return Call('put', fn, (a, ia, va), rtol=None)


@op('C14', 'place', 1, mut=True)
def _(g):
    a = vals(g, REAL, nd=(1, 2), empty=0, layout='c')
    mk = g.arr('bool', shape=a.n.shape)
    va = vals(g, str(a.n.dtype), shape=(g.int(1, 5),))
    nm = g.pick(['place', 'putmask'])
    if nm == 'putmask' and g.chance(0.5):
        va = vals(g, str(a.n.dtype), shape=a.n.shape)

    def fn(m, x, k, v):
        b = x.copy()
        getattr(m, nm)(b, k, v)
        return b
    return Call(nm, fn, (a, mk, va), rtol=None)


@op('C14', 'put_along_axis', 1, mut=True)
def _(g):
    a = vals(g, REAL, nd=(1, 3), empty=0, layout='c')
    axis = g.axis(a.n.ndim)
    order = np.argsort(g.rng.random(a.n.shape), axis)
    k = g.int(1, a.n.shape[axis])
    idx = g.arr(data=np.take(order, range(k), axis), bcast=False)
    v = vals(g, str(a.n.dtype), shape=idx.n.shape)

    def fn(m, x, i, v):
        b = x.copy()
        m.put_along_axis(b, i, v, axis)
        return b
    return Call('put_along_axis', fn, (a, idx, v), rtol=None, key=axis)


@op('C14', 'copyto', 2, mut=True)
def _(g):
    a = vals(g, REAL, nd=(1, 3), layout='c')
    v = vals(g, str(a.n.dtype), shape=a.n.shape)
    kw = {'where': g.arr('bool', shape=a.n.shape)} if g.chance(0.5) else {}

    def fn(m, x, v, kw):
        b = x.copy()
        m.copyto(b, v, **kw)
        return b
    return Call('copyto', fn, (a, v, kw), rtol=None, key=bool(kw))


@op('C14', 'fill', 1, mut=True)
def _(g):
    a = vals(g, ALLREAL, nd=(1, 3), layout='c')
    v = scal(g, a.n.dtype)
    how = g.pick(['own', 'rev', 'step', 'T'])

    def fn(m, x):
        b = x.copy()
        {'own': lambda: b, 'rev': lambda: b[::-1], 'step': lambda: b[::2], 'T': lambda: b.T}[how]().fill(v)
        return b
    return Call('fill', fn, (a,), rtol=None, key=how)


@op('C14', 'fill_diagonal', 1, mut=True)
def _(g):
    n = g.int(1, 8)
    a = vals(g, ALLREAL, shape=(n, g.pick([n, n, g.int(1, 8)])), layout='c')
    how = g.pick(['own', 'T', 'rev'])
    v = scal(g, a.n.dtype) if g.chance(0.6) else vals(g, str(a.n.dtype), shape=(g.int(1, 9),))

    def fn(m, x, v):
        b = x.copy()
        m.fill_diagonal({'own': lambda: b, 'T': lambda: b.T, 'rev': lambda: b[::-1]}[how](), v)
        return b
    return Call('fill_diagonal', fn, (a, v), rtol=None)


# -- indices outside the array -------------------------------------------------------
def outside(g, n):
    """Just past either end, or further."""
    return int(g.pick([n, n + 1, -n - 1, -n - 2, 2 * n + 1, -2 * n - 1, 2 ** 31, -2 ** 31, 2 ** 32, 2 ** 62, -2 ** 62, 2 ** 63 - 1,
                       -2 ** 63]))


def some_outside(g, n, shape):
    """Valid indices, one of them (when there is room) replaced by one outside."""
    v = g.rng.integers(-n, n, shape)
    if v.size and g.chance(0.8):
        v.reshape(-1)[g.int(0, v.size - 1)] = outside(g, n)
    return g.arr(data=v, bcast=False)


@op('C13', 'out_of_range')
def _(g):
    a = vals(g, nd=(1, 3), empty=0, cap=60)
    sh = a.n.shape
    axis = g.axis(a.n.ndim)
    n = sh[axis]
    how = g.pick(['int', 'list', 'array', 'take', 'take', 'take_method', 'take_flat', 'take_along_axis', 'choose', 'unravel'])
    if how == 'int':
        key = [slice(None)] * a.n.ndim
        key[axis] = outside(g, n) if g.chance(0.8) else g.int(-n, n - 1)
        key = key[0] if a.n.ndim == 1 and g.chance(0.5) else tuple(key)
        return Call('getitem', lambda m, x, k: x[k], (a, key), rtol=None, key=how)
    if how in ('list', 'array'):
        i = some_outside(g, sh[0], g.int(1, 6))
        i = i.n.tolist() if how == 'list' else i
        return Call('getitem[idx]', lambda m, x, i: x[i], (a, i), rtol=None, key=how)
    if how == 'take_flat':
        return Call('take', lambda m, x, i: m.take(x, i), (a, some_outside(g, a.n.size, g.int(1, 6))), rtol=None, key=how)
    if how.startswith('take') and how != 'take_along_axis':
        f = (lambda m, x, i: x.take(i, axis=axis)) if how == 'take_method' else lambda m, x, i: m.take(x, i, axis=axis)
        return Call(how, f, (a, some_outside(g, n, g.int(1, 6))), rtol=None, key=how)
    if how == 'take_along_axis':
        s = list(sh)
        s[axis] = g.int(1, 4)
        return Call(how, lambda m, x, i: m.take_along_axis(x, i, axis), (a, some_outside(g, n, tuple(s))), rtol=None, key=how)
    if how == 'choose':
        k = g.int(1, 4)
        v = g.rng.integers(0, k, sh[-1])
        if g.chance(0.8):
            v[g.int(0, v.size - 1)] = g.pick([k, k + 1, -1, 2 ** 40])
        ch = [vals(g, str(a.n.dtype), shape=(sh[-1],)) for _ in range(k)]
        return Call(how, lambda m, i, c: m.choose(i, c), (g.arr(data=v, bcast=False), ch), rtol=None, key=how)
    v = g.rng.integers(0, a.n.size, g.int(1, 5))
    if g.chance(0.8):
        v[g.int(0, v.size - 1)] = g.pick([a.n.size, a.n.size + 1, -1, -a.n.size, 2 ** 40])
    return Call('unravel_index', lambda m, i: tuple(m.unravel_index(i, sh)), (g.arr(data=v, bcast=False),), rtol=None, key=how)


@op('C14', 'out_of_range_set', mut=True)
def _(g):
    a = vals(g, nd=(1, 3), empty=0, cap=60, layout='c')
    sh = a.n.shape
    axis = g.axis(a.n.ndim)
    n = sh[axis]
    how = g.pick(['int', 'put', 'put_along_axis'])
    if how == 'int':
        key = [slice(None)] * a.n.ndim
        key[axis] = outside(g, n) if g.chance(0.8) else g.int(-n, n - 1)
        key = key[0] if a.n.ndim == 1 and g.chance(0.5) else tuple(key)

        def do(m, b):
            b[key] = 1
        args = ()
    elif how == 'put':
        args = (some_outside(g, a.n.size, g.int(1, 6)),)

        def do(m, b, i):
            m.put(b, i, m.ones(i.shape, dtype=str(b.dtype)))
    else:
        s = list(sh)
        s[axis] = g.int(1, 4)
        args = (some_outside(g, n, tuple(s)),)

        def do(m, b, i):
            m.put_along_axis(b, i, m.ones(i.shape, dtype=str(b.dtype)), axis)

    def fn(m, x, *i):
        b = x.copy()
        try:
            do(m, b, *i)
        except (IndexError, ValueError):
            # nothing written (NumPy's put writes up to the bad index)
            return [np.array(x if m is np else b), 'refused']
        return [np.array(b), 'written']
    return Call('set ' + how, fn, (a,) + args, rtol=None, key=how)
