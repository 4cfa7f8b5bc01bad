"""Casting and exchange with Python and NumPy (C17)."""
import numpy as np
from mon.core import *
from mon.cat import op


def leafs(g, kind, n):
    out = []
    for _ in range(n):
        if kind == 'bool':
            out.append(g.chance(0.5))
        elif kind == 'int':
            out.append(g.pick([0, 1, -1, 7, g.int(-1000, 1000), 2**53 + 1, -2**62, 2**31]))
        elif kind == 'float':
            out.append(g.pick([0.0, -0.5, 2.25, 1e300, float('nan'), float('inf'), g.int(-50, 50) / 8]))
        elif kind == 'complex':
            out.append(complex(g.int(-5, 5), g.int(-5, 5) / 2))
        elif kind == 'str':
            out.append(''.join(g.pick('abXé 1☃') for _ in range(g.int(1, 6))))
        elif kind == 'bytes':
            out.append(bytes(g.pick(b'abX 1') for _ in range(g.int(1, 6))))
    return out


def nest(flat, shape):
    if len(shape) == 1:
        return flat[:shape[0]]
    step = int(np.prod(shape[1:]))
    return [nest(flat[i * step:(i + 1) * step], shape[1:]) for i in range(shape[0])]


@op('C17', 'i_fromlist', 3)
def _(g):
    sh = g.pick([(g.int(1, 9),), (g.int(1, 4), g.int(1, 4)), (2, g.int(1, 3), g.int(1, 3)), (g.int(0, 1),)])
    n = int(np.prod(sh))
    kinds = g.pick([['bool'], ['int'], ['float'], ['complex'], ['int', 'float'], ['bool', 'int'],
                    ['int', 'complex'], ['float', 'complex'], ['bool', 'float'], ['str'], ['bytes']])
    flat = [leafs(g, g.pick(kinds), 1)[0] for _ in range(n)]
    dt = None
    if kinds[0] not in ('str', 'bytes') and g.chance(0.4):
        top = 'complex' if 'complex' in kinds else 'float' if 'float' in kinds else 'int'
        dt = g.pick({'complex': CPLX, 'float': FLOAT + CPLX, 'int': ['int64', 'float64', 'complex128', 'bool', 'int8',
                                                                    'uint8', 'uint64', 'int32']}[top])
    obj = nest(flat, sh)
    bad = g.chance(0.06) and len(sh) > 1
    if bad:
        obj[-1] = obj[-1] + obj[-1][:1] if g.chance(0.5) else 1
    if g.chance(0.25):
        obj = tuple(tuple(x) if isinstance(x, list) and not bad else x for x in obj)
    how = g.pick(['array', 'asarray'])
    kw = {} if dt is None else {'dtype': dt}
    return Call(how, lambda m: getattr(m, how)(obj, **kw), (), rtol=None, key='%s%s%d%s' % (kinds, dt, len(sh), bad),
                note=repr(obj)[:200] + str(kw))


@op('C17', 'i_fromscalar', 1)
def _(g):
    # one Python value: a 0-d array
    v = leafs(g, g.pick(['bool', 'int', 'float', 'complex', 'str', 'bytes']), 1)[0]
    dt = g.pick(INT + FLOAT + CPLX + ['bool']) if g.chance(0.5) and not isinstance(v, (str, bytes)) else None
    how = g.pick(['array', 'asarray'])
    kw = {} if dt is None else {'dtype': dt}
    return Call(how, lambda m: getattr(m, how)(v, **kw), (), rtol=None, key='%s%s' % (type(v).__name__, dt),
                note='%r %s' % (v, kw))


@op('C17', 'i_borders', 2)
def _(g):
    # Python integers around the limits of each integer dtype: exact, or refused
    dt = g.pick(INT)
    info = np.iinfo(dt)
    edge = [info.min, info.max, 0]
    flat = [g.pick(edge) + g.pick([0, 0, 0, 1, -1, 2, 255]) for _ in range(g.int(1, 3))]
    if g.chance(0.2):
        flat[-1] = g.pick([2 ** 63, 2 ** 64, -2 ** 63 - 1, 10 ** 30, -10 ** 300, 2 ** 64 - 1])
    how = g.pick(['array', 'full', 'setitem', 'add', 'clip', 'fill'])
    if how in ('array', 'setitem', 'fill') and g.chance(0.3):
        flat[-1] = g.pick([float(info.max) / 2 + 0.5, float(info.min) - 0.5, -0.75, 0.99, 300.5, -200.25, 7e4, -4e4, 5e9, 1e300,
                           -1e300, float('nan'), float('inf'), -1.0, float(info.max // 2 - 3), 255.9, 127.5, -128.9])
    v = flat[-1]

    def run(m):
        if how == 'array':
            return m.array(flat, dtype=dt)
        if how == 'full':
            return m.full((2,), v, dtype=dt)
        x = m.zeros(3, dtype=dt)
        if how == 'setitem':
            x[1] = v
        elif how == 'fill':
            x.fill(v)
        elif how == 'add':
            return x + v
        elif how == 'clip':
            return m.maximum(x, v)
        return x
    return Call(how, run, (), rtol=None, key='%s%s%d' % (dt, how, len(flat)), note='%s %s' % (flat, dt))


@op('C17', 'i_astype', 4)
def _(g):
    a = g.arr(ALL, nd=(0, 4), prof=['small', 'wide', 'special', 'dups'])
    sk = a.n.dtype.kind
    to = g.pick(ALL)
    tk = np.dtype(to).kind
    if sk in 'fc' and tk in 'iu':
        # a float outside the integer's range has no defined value
        ii = np.iinfo(to)
        v = a.n.real if sk == 'c' else a.n
        with np.errstate(all='ignore'):
            w = v.astype(np.longdouble)
            if not np.all((w > np.longdouble(ii.min) - 1) & (w < np.longdouble(ii.max) + 1)):
                lo = max(ii.min, -100)
                data = (g.rng.integers(lo, 101, a.n.shape) + (0.5 if sk == 'f' and tk == 'i' else 0.25)).astype(a.n.dtype)
                a = g.wrap(data)
    how = g.pick(['astype', 'array', 'asarray'])

    def fn(m, x):
        return x.astype(to) if how == 'astype' else getattr(m, how)(x, dtype=to)
    return Call('cast', fn, (a,), rtol='auto', 
                ref=lambda m, x: np.asarray(x, dtype=to) if how == "asarray" else x.astype(to),
                key='%s>%s' % (a.n.dtype, to))


@op('C17', 'i_fromnumpy', 3)
def _(g):
    """np -> rp keeps every element of every numpy layout, unaligned ones included"""
    dt = g.pick(ALL + ['U3', 'S4', 'M8[D]', 'M8[ns]', 'm8[s]'])
    sh = g.shape((0, 4), cap=200)
    if np.dtype(dt).kind in 'US':
        n = int(np.prod(sh))
        vals = leafs(g, 'str' if dt[0] == 'U' else 'bytes', n)
        a = np.array([v[:3] for v in vals], dtype=dt).reshape(sh)
    elif np.dtype(dt).kind in 'mM':
        a = g.rng.integers(-10**6, 10**6, sh).astype('i8').view(dt) if sh else np.array(5, 'i8').view(dt)
    else:
        a = g.values(dt, sh, g.pick(['small', 'wide', 'special']))
    r = g.int(0, 9)
    if a.ndim > 2 and a.size and r > 6:
        # the outermost and innermost axes packed, the ones between them not
        if r == 7:
            a = a[:, ::-1]
        elif r == 8:
            a = np.broadcast_to(a[:, :1], a.shape)
        elif a.ndim > 3:
            a = a.swapaxes(1, 2)
    elif a.ndim and a.size:
        if r == 6:
            # strides of any multiple of the element size, windows that overlap included
            st = [g.int(0, 7) * a.itemsize for _ in a.shape]
            need = sum((d - 1) * s for d, s in zip(a.shape, st)) // a.itemsize + 1
            base = np.resize(a.ravel(), need)
            a = np.lib.stride_tricks.as_strided(base, a.shape, st)
        if r == 1:
            a = np.asfortranarray(a)
        elif r == 2:
            a = a[::-1]
        elif r == 3:
            a = np.repeat(a, 2, axis=0)[::2]
        elif r == 4:
            a = np.broadcast_to(a[:1], a.shape)
        elif r == 5:
            buf = bytearray(a.nbytes + 1)
            b = np.frombuffer(buf, np.uint8, offset=1)[:a.nbytes]
            b[:] = np.frombuffer(a.tobytes(), np.uint8)
            a = b.view(a.dtype).reshape(a.shape)
    return Call('fromnumpy', lambda m: a if m is np else m.asarray(a), (), rtol=None, key='%s%d%d' % (dt, a.ndim, r),
                note=repr(a)[:120])


@op('C17', 'i_out', 3)
def _(g):
    """rp -> Python: tolist, tobytes, item, scalar conversions, iteration"""
    a = g.arr(ALL, nd=(0, 3), cap=120, prof=['small', 'wide', 'special', 'dups'])
    how = g.pick(['tolist', 'tobytes', 'item', 'scalar', 'props', 'np.array'])

    def fn(m, x):
        if how == 'tolist':
            return repr(x.tolist())
        if how == 'tobytes':
            return x.tobytes().hex()
        if how == 'np.array':
            return np.array(x)
        if how == 'props':
            return [list(x.shape), x.ndim, x.size, x.itemsize, x.nbytes, str(x.dtype), len(x) if x.ndim else -1]
        y = x.reshape(-1)[:1] if x.size else x
        if how == 'item':
            return repr(y.item())
        if x.dtype in ('complex64', 'complex128'):
            return repr(complex(y.item()))
        y = y[0]
        return repr((float(y), bool(y)))
    return Call(how, fn, (a,), rtol=None, key=str(a.n.dtype), err='skip')


@op('C17', 'i_zerocopy', 1)
def _(g):
    """np.asarray(rp) sees writes made through rumpy and the other way round"""
    a = g.arr(['int32', 'float64', 'uint8', 'complex64', 'int64'], nd=(1, 3), cap=60, prof='small', bcast=False, empty=0)
    idx = tuple(g.int(0, d - 1) for d in a.n.shape)
    v = g.int(0, 9)

    def fn(m, x):
        x = x.copy()
        y = x[::-1] if g.index % 2 else x.T
        z = np.asarray(y)
        i2 = tuple(min(i, d - 1) for i, d in zip(idx, y.shape))
        y[i2] = v
        first = np.array(z)
        z[tuple(0 for _ in y.shape)] = v + 1
        return [first, np.array(x)]
    return Call('zerocopy', fn, (a,), rtol=None, note=str((idx, v)))


@op('C17', 'i_view', 1)
def _(g):
    a = g.arr(INT + FLOAT + CPLX, nd=(1, 3), cap=64, prof=['small', 'wide', 'special'], layout='c')
    to = g.pick(INT + FLOAT + CPLX + ['bool'][:0])

    def fn(m, x):
        v = x.view(to)
        return [v.tobytes().hex(), list(v.shape), str(v.dtype)]
    return Call('view', fn, (a,), rtol=None, key='%s>%s' % (a.n.dtype, to))


@op('C17', 'i_frombuffer', 1)
def _(g):
    dt = g.pick(INT + FLOAT + CPLX)
    isz = np.dtype(dt).itemsize
    n = g.int(1, 12)
    off = g.pick([0, 0, isz, 2 * isz, 1])
    extra = g.pick([0, 0, 1]) if isz > 1 else 0
    raw = g.rng.integers(0, 120, n * isz + off + extra).astype(np.uint8).tobytes()
    cnt = g.pick([-1, -1, 1, n, n + 3])
    return Call('frombuffer', lambda m: m.frombuffer(raw, dtype=dt, count=cnt, offset=off), (), rtol=None,
                key='%s%d%d%d' % (dt, off, extra, cnt), note=str((len(raw), cnt, off)))


@op('C17', 'i_text', 1)
def _(g):
    n = g.int(1, 6)
    kind = g.pick(['str', 'bytes'])
    vals = leafs(g, kind, n)
    w = g.int(1, 8)
    to = ('U%d' if kind == 'str' else 'S%d') % w
    how = g.pick(['astype', 'tolist', 'idx', 'rev', 'dtype'])

    def fn(m):
        x = m.array(vals)
        if how == 'astype':
            return np.array(x.astype(to))
        if how == 'tolist':
            return repr(x.tolist())
        if how == 'idx':
            return np.array(x[1:])
        if how == 'dtype':
            return np.array(m.array(vals, dtype=to))
        return np.array(x[::-1])
    return Call('text', fn, (), rtol=None, key='%s%s%d' % (kind, how, w), note=repr(vals) + to)
