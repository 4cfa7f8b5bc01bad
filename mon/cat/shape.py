"""Rearranging, joining and splitting arrays (C15)."""
import warnings
import numpy as np
from mon.core import *
from mon.cat import op

ANY = ['small', 'wide', 'special']


def src(g, dts=ALL, **kw):
    kw.setdefault('nd', (1, 4))
    return g.arr(dts, prof=g.pick(ANY), **kw)


def factor(g, n, k):
    """a random shape of k dimensions with n elements"""
    out = []
    for _ in range(k - 1):
        ds = [d for d in range(1, n + 1) if n % d == 0] if n else [0, 1, 2, 3]
        d = g.pick(ds)
        out.append(d)
        n = n // d if n else (n if d else g.int(0, 3))
    out.append(n)
    return [out[i] for i in g.perm(k)]


@op('C15', 's_reshape', 3)
def _(g):
    a = src(g, nd=(0, 4))
    sh = factor(g, a.n.size, g.int(1, 4))
    r = g.int(0, 9)
    if r < 4:
        i = g.int(0, len(sh) - 1)
        sh[i] = -1
    elif r < 5:
        sh[g.int(0, len(sh) - 1)] += 1
    how = g.pick(['fn', 'meth', 'star'])
    sh = tuple(sh)

    def fn(m, x):
        if how == 'fn':
            return m.reshape(x, sh)
        return x.reshape(sh) if how == 'meth' else x.reshape(*sh)
    return Call('reshape', fn, (a,), rtol=None, key='%s%s' % (how, len(sh)), note=str(sh))


@op('C15', 's_flat', 1)
def _(g):
    a = src(g, nd=(0, 4))
    how = g.pick(['ravel', 'flatten'])
    meth = g.chance(0.5)

    def fn(m, x):
        if meth:
            return getattr(x, how)()
        return getattr(m, how)(x)
    return Call(how, fn, (a,), rtol=None, ref=lambda m, x: x.reshape(-1))


@op('C15', 's_transpose', 2)
def _(g):
    a = src(g)
    nd = a.n.ndim
    ax = g.perm(nd)
    if g.chance(0.3):
        ax = [x - nd if g.chance(0.5) else x for x in ax]
    if g.chance(0.08):
        ax[0] = g.pick([nd, -nd - 1, ax[-1]])
    how = g.pick(['axes', 'permute_dims', 'none', '.T', '.transpose', 'mT'])

    def fn(m, x):
        if how == 'axes':
            return m.transpose(x, ax)
        if how == 'permute_dims':
            return m.permute_dims(x, ax)
        if how == 'none':
            return m.transpose(x)
        if how == '.T':
            return x.T
        if how == 'mT':
            return m.matrix_transpose(x)
        return x.transpose()
    return Call('transpose', fn, (a,), rtol=None, key=how, note=str(ax))


@op('C15', 's_moveaxes', 2)
def _(g):
    a = src(g)
    nd = a.n.ndim

    def axn():
        if g.chance(0.05):
            return g.pick([nd, -nd - 1])
        return g.axis(nd)
    how = g.pick(['swapaxes', '.swapaxes', 'moveaxis', 'moveaxes', 'rollaxis'])
    p, q = axn(), axn()
    k = g.int(1, nd)
    s1 = g.perm(nd)[:k]
    d1 = g.perm(nd)[:k]
    st = g.int(0, nd)
    if g.chance(0.3):
        d1 = [x - nd for x in d1]

    def fn(m, x):
        if how == 'swapaxes':
            return m.swapaxes(x, p, q)
        if how == '.swapaxes':
            return x.swapaxes(p, q)
        if how == 'moveaxis':
            return m.moveaxis(x, p, q)
        if how == 'moveaxes':
            return m.moveaxis(x, s1, d1)
        return m.rollaxis(x, p, st)
    return Call('moveaxes', fn, (a,), rtol=None, key=how, note=str((p, q, s1, d1, st)))


@op('C15', 's_ones', 2)
def _(g):
    a = src(g, nd=(0, 4), shape=None if g.chance(0.4) else tuple(g.pick([1, 1, 2, 3]) for _ in range(g.int(1, 4))))
    nd = a.n.ndim
    how = g.pick(['expand_dims', 'squeeze', '.squeeze', 'atleast_1d', 'atleast_2d', 'atleast_3d'])
    ax = g.int(-nd - 1, nd) if g.chance(0.92) else g.pick([nd + 1, -nd - 2])

    def fn(m, x):
        if how == 'expand_dims':
            return m.expand_dims(x, ax)
        if how == '.squeeze':
            return x.squeeze()
        return getattr(m, how)(x)
    return Call('ones', fn, (a,), rtol=None, key=how, note=str(ax))


@op('C15', 's_flip', 2)
def _(g):
    a = src(g)
    nd = a.n.ndim
    how = g.pick(['flip', 'flipn', 'fliplr', 'flipud', 'rot90', 'roll', 'rolln'])
    ax = g.axis(nd) if g.chance(0.95) else g.pick([nd, -nd - 1])
    k = g.int(-5, 5)
    sh = g.pick([0, 1, -1, 2, g.int(-80, 80), g.int(-80, 80)])
    axes = tuple(g.perm(nd)[:2]) if nd >= 2 else (0, 1)
    if how == 'rot90' and g.chance(0.3):
        axes = tuple(x - nd for x in axes)

    def fn(m, x):
        if how == 'flip':
            return m.flip(x, ax)
        if how == 'flipn':
            return m.flip(x)
        if how == 'rot90':
            return m.rot90(x, k, axes)
        if how == 'roll':
            return m.roll(x, sh, ax)
        if how == 'rolln':
            return m.roll(x, sh)
        return getattr(m, how)(x)
    return Call('flip', fn, (a,), rtol=None, key=how, note=str((ax, k, sh, axes)))


@op('C15', 's_broadcast', 2)
def _(g):
    full = g.shape((1, 4), cap=300)
    how = g.pick(['to', 'arrays', 'arrays'])

    def sub():
        s = [1 if g.chance(0.35) else d for d in full]
        return tuple(s[g.int(0, len(s)):])
    if how == 'to':
        a = src(g, shape=sub())
        t = full
        if g.chance(0.1):
            t = tuple(d + 1 for d in full)
        return Call('broadcast_to', lambda m, x: m.broadcast_to(x, t), (a,), rtol=None, note=str(t))
    xs = [src(g, shape=sub()) for _ in range(g.int(1, 4))]
    return Call('broadcast_arrays', lambda m, x: list(m.broadcast_arrays(*x) if m is np else m.broadcast_arrays(x)),
                (xs,), rtol=None)


def group(g, k=None, same=None, nd=(1, 4), ax=None, mixed=None):
    """arrays that agree everywhere except along one axis"""
    k = k or g.int(1, 4)
    base = list(g.shape(nd, cap=120))
    ax = g.int(0, len(base) - 1) if ax is None else min(ax, len(base) - 1)
    mixed = g.chance(0.4) if mixed is None else mixed
    # two element types at most: NumPy's promotion of three is not a fold of pairs
    dt = g.pick(ALL)
    dts = [dt, g.pick(ALL)] if mixed else [dt]
    out = []
    for _ in range(k):
        s = list(base)
        if not same:
            s[ax] = g.int(0, 5) if g.chance(0.9) else 17
        out.append(src(g, g.pick(dts), shape=tuple(s)))
    if g.chance(0.06) and k > 1 and len(base) > 1:
        s = list(base)
        j = (ax + 1) % len(base)
        s[j] += 1
        out[-1] = src(g, dt, shape=tuple(s))
    return out, ax


@op('C15', 's_concatenate', 3)
def _(g):
    xs, ax = group(g)
    nd = xs[0].n.ndim
    if g.chance(0.35):
        ax -= nd
    if g.chance(0.04):
        ax = g.pick([nd, -nd - 1])
    how = g.pick(['concatenate', 'concat'])
    return Call(how, lambda m, x: getattr(m, how)(x, axis=ax), (xs,), rtol=None, note='axis=%d' % ax)


@op('C15', 's_stack', 2)
def _(g):
    xs, ax = group(g, same=True, nd=(1, 3))
    nd = xs[0].n.ndim
    ax = g.int(-nd - 1, nd)
    if g.chance(0.05):
        ax = g.pick([nd + 1, -nd - 2])
    return Call('stack', lambda m, x: m.stack(x, axis=ax), (xs,), rtol=None, note='axis=%d' % ax)


@op('C15', 's_xstack', 2)
def _(g):
    how = g.pick(['vstack', 'hstack', 'dstack', 'column_stack'])
    one = g.chance(0.4)
    if one:
        same = how != 'hstack'
        xs, _ = group(g, same=same, nd=(1, 1))
    else:
        xs, _ = group(g, nd=(2, 3) if how != 'column_stack' else (2, 2),
                      ax={'vstack': 0, 'hstack': 1, 'dstack': 2, 'column_stack': 1}[how],
                      same=None)
        if how == 'dstack' and xs[0].n.ndim < 3:
            xs, _ = group(g, same=True, nd=(2, 2))
    if how == 'vstack' and g.chance(0.15):
        def f(m, x):
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return m.row_stack(x)
        return Call('row_stack', f, (xs,), rtol=None, ref=lambda m, x: m.vstack(x), key='1d' if one else 'nd')
    return Call(how, lambda m, x: getattr(m, how)(x), (xs,), rtol=None, key='1d' if one else 'nd')


@op('C15', 's_block', 1)
def _(g):
    dt = g.pick(ALL)
    mixed = g.chance(0.3)
    dts = [dt, g.pick(ALL)] if mixed else [dt]
    if g.chance(0.3):
        xs, _ = group(g, nd=(1, 1), mixed=mixed)
        return Call('block', lambda m, x: m.block(x), (xs,), rtol=None, key='1')
    if g.chance(0.3):
        xs, _ = group(g, nd=(1, 3), mixed=mixed)
        if g.chance(0.4):
            xs = [[x] for x in xs] if g.chance(0.5) else [xs]
        return Call('block', lambda m, x: m.block(x), (xs,), rtol=None, key='n')
    hs = [g.int(1, 4) for _ in range(g.int(1, 3))]
    ws = [g.int(1, 4) for _ in range(g.int(1, 3))]
    rows = [[src(g, g.pick(dts), shape=(h, w)) for w in ws] for h in hs]
    return Call('block', lambda m, x: m.block(x), (rows,), rtol=None, key='2')


@op('C15', 's_split', 3)
def _(g):
    a = src(g)
    nd = a.n.ndim
    how = g.pick(['split', 'split', 'array_split', 'array_split', 'hsplit', 'vsplit', 'dsplit', 'unstack'])
    ax = g.axis(nd) if g.chance(0.96) else g.pick([nd, -nd - 1])
    n = a.n.shape[ax] if -nd <= ax < nd else 1
    sec = g.int(1, 7)
    if how == 'split' and g.chance(0.7):
        sec = g.pick([d for d in range(1, n + 1) if n % d == 0] or [1])
    if how in ('hsplit', 'vsplit', 'dsplit'):
        axx = {'hsplit': 1 if nd > 1 else 0, 'vsplit': 0, 'dsplit': 2}[how]
        if axx < nd:
            n = a.n.shape[axx]
            if g.chance(0.7):
                sec = g.pick([d for d in range(1, n + 1) if n % d == 0] or [1])

    def fn(m, x):
        if how in ('hsplit', 'vsplit', 'dsplit'):
            return list(getattr(m, how)(x, sec))
        if how == 'unstack':
            return list(m.unstack(x, axis=ax))
        return list(getattr(m, how)(x, sec, axis=ax))
    return Call(how, fn, (a,), rtol=None, key=type(sec).__name__, note=str((sec, ax)))


@op('C15', 's_repeat', 2)
def _(g):
    a = src(g, cap=100)
    nd = a.n.ndim
    k = g.int(0, 4)
    ax = None if g.chance(0.3) else (g.axis(nd) if g.chance(0.95) else nd)
    meth = g.chance(0.4)
    return Call('repeat', lambda m, x: x.repeat(k, axis=ax) if meth else m.repeat(x, k, axis=ax), (a,),
                rtol=None, key='%s%s' % (meth, ax is None), note=str((k, ax)))


@op('C15', 's_tile', 2)
def _(g):
    a = src(g, cap=60)
    reps = g.int(0, 4) if g.chance(0.3) else tuple(g.int(0, 3) if g.chance(0.2) else g.int(1, 3)
                                                    for _ in range(g.pick([2, g.int(1, 4)])))
    return Call('tile', lambda m, x: m.tile(x, reps), (a,), rtol=None, note=str(reps))


@op('C15', 's_append', 1)
def _(g):
    if g.chance(0.4):
        a, b = src(g, cap=100), src(g, cap=100)
        return Call('append', lambda m, x, y: m.append(x, y), (a, b), rtol=None, key='flat')
    xs, ax = group(g, k=2)
    if g.chance(0.3):
        ax -= xs[0].n.ndim
    return Call('append', lambda m, x, y: m.append(x, y, axis=ax), tuple(xs), rtol=None, key='axis', note=str(ax))


@op('C15', 's_delete', 2)
def _(g):
    a = src(g, cap=120)
    nd = a.n.ndim
    ax = None if g.chance(0.35) else g.axis(nd)
    n = a.n.size if ax is None else a.n.shape[ax]
    i = g.int(-n, n - 1) if n and g.chance(0.93) else g.pick([n, -n - 1])
    return Call('delete', lambda m, x: m.delete(x, i, axis=ax), (a,), rtol=None, key=str(ax is None), note=str((i, ax)))


@op('C15', 's_insert', 1)
def _(g):
    a = src(g, cap=120)
    nd = a.n.ndim
    dt = str(a.n.dtype)
    ax = None if g.chance(0.4) else g.axis(nd)
    n = a.n.size if ax is None else a.n.shape[ax]
    i = g.int(-n, n) if g.chance(0.93) else g.pick([n + 1, -n - 1])
    if ax is None:
        v = src(g, dt, shape=(g.int(1, 3),)) if nd > 1 or True else None
    else:
        # one slice of the right shape
        s = list(a.n.shape)
        s.pop(ax)
        v = src(g, dt, shape=tuple(s))
    return Call('insert', lambda m, x, y: m.insert(x, i, y, axis=ax), (a, v), rtol=None, key=str(ax is None),
                note=str((i, ax)))


@op('C15', 's_pad', 2)
def _(g):
    a = src(g, cap=80)
    nd = a.n.ndim
    mode = g.pick(['constant', 'constant', 'edge'])
    r = g.int(0, 2)
    if r == 0:
        w = g.int(0, 4)
    elif r == 1:
        w = (g.int(0, 3), g.int(0, 4))
    else:
        w = tuple((g.int(0, 3), g.int(0, 3)) for _ in range(nd))
    kw = {'mode': mode}
    if mode == 'constant' and g.chance(0.5):
        kw['constant_values'] = g.pick([0, 1, 7.0, 3])
    return Call('pad', lambda m, x: m.pad(x, w, **kw), (a,), rtol=None, key=mode + str(r), note=str((w, kw)))


@op('C15', 's_resize', 1)
def _(g):
    a = src(g, cap=120)
    sh = g.shape((1, 3), cap=200)
    meth = g.chance(0.4)

    def fn(m, x):
        if not meth:
            return m.resize(x, sh)
        y = x.copy()
        if m is np:
            y.resize(sh, refcheck=False)
        else:
            y.resize(sh)
        return y
    return Call('resize', fn, (a,), rtol=None, key=str(meth), note=str(sh))


@op('C15', 's_tri', 1)
def _(g):
    a = src(g, nd=(2, 2))
    k = g.int(-5, 6)
    how = g.pick(['tril', 'triu'])
    return Call(how, lambda m, x: getattr(m, how)(x, k), (a,), rtol=None, note=str(k))


@op('C15', 's_diagonal', 1)
def _(g):
    a = src(g, nd=(2, 2))
    how = g.pick(['fn', 'meth'])
    return Call('diagonal', lambda m, x: m.diagonal(x) if how == 'fn' else x.diagonal(), (a,), rtol=None, key=how)


@op('C15', 's_meshgrid', 1)
def _(g):
    xs = [src(g, nd=(1, 1), cap=9) for _ in range(g.int(1, 3))]
    ix = g.pick(['xy', 'ij'])
    return Call('meshgrid', lambda m, x: list(m.meshgrid(*x, indexing=ix)), (xs,), rtol=None, key=ix + str(len(xs)))


@op('C15', 's_roundtrip', 1)
def _(g):
    """split then concatenate, stack then unstack, transpose twice: back to the start"""
    a = src(g)
    nd = a.n.ndim
    ax = g.int(0, nd - 1)
    how = g.pick(['split', 'stack', 'perm', 'roll', 'rot', 'reshape'])
    k = g.int(1, 6)
    p = g.perm(nd)
    inv = [p.index(i) for i in range(nd)]

    def fn(m, x):
        if how == 'split':
            return m.concatenate(list(m.array_split(x, k, axis=ax)), axis=ax)
        if how == 'stack':
            if x.shape[ax] == 0:
                return x
            return m.stack(list(m.unstack(x, axis=ax)), axis=ax)
        if how == 'perm':
            return m.transpose(m.transpose(x, p), inv)
        if how == 'roll':
            return m.roll(m.roll(x, k, ax), -k, ax)
        if how == 'rot':
            return m.rot90(m.rot90(x, k), -k) if nd > 1 else x
        return x.reshape(-1).reshape(x.shape)
    return Call('roundtrip', fn, (a,), rtol=None, key=how, ref=lambda m, x: x)
