"""Functions that call back into Python."""
import numpy as np
from mon.core import Call, Violation
from mon.cat import op

DT = ['int8', 'int32', 'int64', 'uint8', 'uint16', 'float32', 'float64']


def lanes(g):
    """(name, function of a 1-D array, on either library)"""
    return g.pick([
        ('sum', lambda v: np.asarray(v).sum()),
        ('mean', lambda v: np.asarray(v).mean(dtype='float64')),
        ('any', lambda v: (np.asarray(v) > 1).any()),
        ('ends', lambda v: np.asarray(v)[[0, -1]]),
        ('rev', lambda v: np.asarray(v)[::-1]),
        ('outer', lambda v: np.multiply.outer(np.asarray(v)[:2], np.asarray(v)[:3])),
        ('half', lambda v: np.asarray(v) / 2.0),
        ('int', lambda v: int(np.asarray(v)[0])),
        ('float', lambda v: float(np.asarray(v)[-1]) / 4),
        ('own', None),
    ])


@op('C27', 'apply_along_axis', 4)
def _(g):
    a = g.arr(g.pick(DT), nd=(1, 4), cap=120, empty=0, prof='small')
    ax = g.int(-a.n.ndim, a.n.ndim - 1)
    if g.chance(0.04):
        ax = g.pick([a.n.ndim, -a.n.ndim - 1])
    name, f = lanes(g)
    if name == 'own':       # the function works on the library's own arrays
        return Call('apply_along_axis', lambda m, x: m.apply_along_axis(lambda v: v[::-1] + v, ax, x), (a,),
                    key='own|%d|%d' % (ax, a.n.ndim), note='axis=%d' % ax)
    if g.chance(0.3):
        k = g.int(2, 4)
        return Call('apply_along_axis', lambda m, x: m.apply_along_axis(lambda v, q, p=0: f(v) * q + p, ax, x, k, p=1), (a,),
                    rtol=1e-6, key='args|%s|%d|%d' % (name, ax, a.n.ndim), note='%s axis=%d k=%d' % (name, ax, k))
    return Call('apply_along_axis', lambda m, x: m.apply_along_axis(f, ax, x), (a,), rtol=1e-6,
                key='%s|%d|%d' % (name, ax, a.n.ndim), note='%s axis=%d' % (name, ax))


@op('C27', 'apply_over_axes', 2)
def _(g):
    a = g.arr(g.pick(['int32', 'int64', 'float64']), nd=(1, 4), cap=120, empty=0, prof='small')
    n = a.n.ndim
    axes = [int(x) - (n if g.chance(0.3) else 0) for x in g.perm(n)[:g.int(1, n)]]
    if g.chance(0.04):
        axes.append(n)
    name = g.pick(['sum', 'max', 'cumsum', 'np sum', 'np keeps', 'own sum', 'pick'])
    f = {'np sum': lambda v, ax: np.asarray(v).sum(axis=ax),            # NumPy arrays, the axis dropped or kept
         'np keeps': lambda v, ax: np.asarray(v).max(axis=ax, keepdims=True),
         'own sum': lambda v, ax: v.sum(axis=ax),
         'pick': lambda v, ax: np.asarray(v).take(-1, axis=ax)}.get(name)
    return Call('apply_over_axes', lambda m, x: m.apply_over_axes(f or getattr(m, name), x, axes), (a,), rtol=1e-10,
                key='%s|%s' % (name, axes), note='%s axes=%s' % (name, axes))


SCALAR = [
    ('poly', 1, lambda x: x * x + 1.0),
    ('step', 1, lambda x: 1.0 if x > 0 else -0.5),
    ('mix', 2, lambda x, y: x - 2 * y if x > y else y),
    ('mad', 3, lambda x, y, z: x * y + z),
]


def bshape(g, base):
    sh = [1 if g.chance(0.3) else d for d in base]
    return tuple(sh[g.int(0, len(sh)):] if g.chance(0.3) else sh)


def operands(g, k, dts=('float64',)):
    base = g.shape(nd=(0, 3), cap=60, empty=0)
    out = []
    for i in range(k):
        sh = bshape(g, base) if i else base
        out.append(g.arr(g.pick(list(dts)), sh, prof=g.pick(['small', 'int', 'frac'])))
    return out


# functions of what they are handed as Python values: integers stay integers, text stays text
TYPED = [
    ('parity', ('int64', 'int32', 'uint8'), lambda v: v % 2 == 0),
    ('bits', ('int64',), lambda v: v & 3),
    ('type', ('int64', 'bool', 'float32', 'complex128', '<U3', 'S2'), lambda v: len(type(v).__name__)),
    ('conj', ('complex128',), lambda v: v.conjugate() * 2j),
    ('imag', ('complex128',), lambda v: v.imag + abs(v)),
    ('count', ('<U4', '<U2'), lambda v: len(v) + v.count('a')),
    ('shout', ('<U4',), lambda v: v.upper() + '!'),
    ('big', ('int64',), lambda v: v * 3 + 2 ** 53),
    ('not', ('bool',), lambda v: not v),
    ('half', ('int64',), lambda v: v // 2),
]


@op('C27', 'vectorize_typed', 3)
def _(g):
    name, dts, f = g.pick(TYPED)
    dt = g.pick(list(dts))
    sh = g.shape(nd=(1, 3), cap=40, empty=0)
    if np.dtype(dt).kind in 'US':
        w = np.dtype(dt).itemsize // (4 if np.dtype(dt).kind == 'U' else 1)
        v = np.array([''.join(g.pick('abcxyz') for _ in range(g.int(1, w))) for _ in range(int(np.prod(sh)))], dt).reshape(sh)
        a = g.wrap(v)
    else:
        a = g.arr(dt, sh, prof='small')
    pyf = g.chance(0.3) and name not in ('shout',)
    if pyf:
        return Call('frompyfunc', lambda m, x: np.asarray(m.frompyfunc(f, 1, 1)(x)).astype(complex), (a,), rtol=1e-12,
                    key=name + dt, note=name)
    return Call('vectorize', lambda m, x: m.vectorize(f)(x), (a,), rtol=1e-12, key=name + dt, note=name)


@op('C27', 'vectorize', 3)
def _(g):
    name, k, f = g.pick(SCALAR)
    args = operands(g, k)
    if all(a.n.ndim == 0 for a in args):
        args = [g.arr('float64', (3,), prof='small') for _ in args]
    ot = g.pick([None, None, 'float64', 'float32', 'int32'])
    sc = k > 1 and g.chance(0.3)
    if sc:
        args[1] = 2.5

    def run(m, *v):
        return (m.vectorize(f, otypes=[ot]) if ot else m.vectorize(f))(*v)
    return Call('vectorize', run, args, rtol=1e-6 if ot == 'float32' else 1e-12,
                key='%s|%s|%s' % (name, ot, sc), note='%s otypes=%s' % (name, ot))


@op('C27', 'vectorize_keywords', 2)
def _(g):
    # some arguments named, some kept out of the broadcasting
    a, b = operands(g, 2)
    w = g.pick([[1.0, 2.0, -3.0], (2, 4), [0.5]])
    how = g.pick(['position', 'name', 'keyword', 'both keywords', 'scalar keyword'])
    ex = g.pick([list, set, tuple])
    if a.n.ndim == 0 or (how in ('position', 'name') and b.n.ndim == 0):
        a = b = g.arr('float64', (3,), prof='small')

    def run(m, x, y):
        if how == 'position':
            return m.vectorize(lambda p, s, t: sum(p) * s + t * len(p), excluded=ex([0]))(w, x, y)
        if how == 'name':
            return m.vectorize(lambda s, t, p=(): sum(p) * s + t * len(p), excluded=ex(['p']))(x, y, p=w)
        if how == 'keyword':
            return m.vectorize(lambda s, t=0: s - 2 * t)(x, t=y)
        if how == 'scalar keyword':
            return m.vectorize(lambda s, t=0, q=1: s - q * t)(x, q=2.5, t=y)
        return m.vectorize(lambda s=0, t=0: s - 2 * t)(t=y, s=x)
    return Call('vectorize', run, (a, b), rtol=1e-10, atol=1e-10, key='%s|%s' % (how, ex.__name__), note=how)


@op('C27', 'frompyfunc', 2)
def _(g):
    name, k, f = g.pick(SCALAR)
    args = operands(g, k)
    if all(a.n.ndim == 0 for a in args):
        args = [g.arr('float64', (3,), prof='small') for _ in args]
    two = g.chance(0.4)

    def run(m, *v):
        u = m.frompyfunc((lambda *z: (f(*z), -f(*z))) if two else f, k, 2 if two else 1)
        r = u(*v)
        return [np.asarray(x).astype('float64') for x in (r if two else (r,))]
    return Call('frompyfunc', run, args, key='%s|%s' % (name, two), note=name)


@op('C27', 'frompyfunc_objects', 1)
def _(g):
    # what the function returns is kept as it is, one object per element
    a = g.arr(['int64', 'int8', 'float64'], nd=(1, 3), cap=40, prof='small')
    how = g.pick(['pair', 'ragged', 'text', 'none', 'dict', 'big', 'mixed', 'two', 'three'])
    f = {'pair': lambda v: (v, v + 1), 'ragged': lambda v: [v] * (int(abs(v)) % 4), 'text': lambda v: 'ab' * (int(abs(v)) % 3),
         'none': lambda v: None, 'dict': lambda v: {1: v}, 'big': lambda v: 10 ** 30 + int(v),
         'mixed': lambda v: [None, 'x', 2.5, (1,), v][int(abs(v)) % 5], 'two': lambda v: ((v, 1), [v]),
         'three': lambda v: (str(v), v, ())}[how]
    nout = {'two': 2, 'three': 3}.get(how, 1)

    def run(m, x):
        r = m.frompyfunc(f, 1, nout)(x)
        r = r if nout > 1 else (r,)
        return tuple((np.asarray(y).dtype.char, np.asarray(y).shape, np.asarray(y).tolist()) for y in r)

    def eqv(exp, got):
        if exp != got:
            raise Violation('value', 'expected %s, got %s' % (exp, got))
        return len(exp)
    return Call('frompyfunc %s' % how, run, (a,), eqv=eqv, key=how)


@op('C27', 'vectorize_signature', 2)
def _(g):
    # core dimensions of 0 to 2 axes per operand, the other axes broadcast
    sizes = {k: g.int(1, 4) for k in 'mnk'}
    k = g.int(1, 3)
    cores = [g.pick([['n'], ['n'], [], ['m', 'n'], ['m'], ['k', 'm'], ['n', 'n']]) for _ in range(k)]
    if not any(cores):
        cores[0] = ['n']
    outer = g.shape(nd=(0, 2), cap=12, empty=0)
    args = []
    for c in cores:
        o = bshape(g, outer) if g.chance(0.4) else outer
        args.append(g.arr(g.pick(['float64', 'int32', 'int64', 'float32']), tuple(o) + tuple(sizes[x] for x in c), prof='small'))
    if g.chance(0.06):
        sizes['n'] += 1                                     # a core dimension of two lengths
        args[-1] = g.arr('float64', tuple(sizes[x] for x in cores[-1]), prof='small')
    if g.chance(0.1):
        args[-1] = 2.5                                      # refused unless its core is ()
    sig = ','.join('(%s)' % ','.join(c) for c in cores) + g.pick(['->()', ' -> ()'])
    kind = g.pick(['float', 'float', 'int', 'complex'])
    ot = g.pick([None, None, None, ['float64'], ['float32'], (np.float64,)])
    if kind == 'complex':
        ot = None

    def f(*v):
        t = sum((i + 1) * float(np.asarray(x).astype('float64').sum()) for i, x in enumerate(v)) + 0.5 * len(np.asarray(v[0]).shape)
        return {'float': float, 'int': lambda x: int(x), 'complex': lambda x: complex(x, 1)}[kind](t)

    def run(m, *v):
        return m.vectorize(f, signature=sig, **({'otypes': ot} if ot else {}))(*v)
    return Call('vectorize_signature', run, args, rtol=1e-6 if ot == ['float32'] else 1e-10, atol=1e-9, dtype=len(outer) > 0,
                key='%s|%s|%s|%d' % (sig, kind, ot, len(outer)), note='%s %s %s' % (sig, kind, ot))


@op('C27', 'piecewise', 3)
def _(g):
    a = g.arr(g.pick(['int32', 'int64', 'float32', 'float64']), nd=(1, 3), cap=60, empty=0, prof=g.pick(['small', 'int']))
    n = g.int(1, 4)
    conds = []
    for _ in range(n):
        conds.append(g.arr('bool', a.n.shape))
    funcs = []
    for i in range(n + g.int(0, 1)):
        funcs.append(g.pick([float(g.int(-9, 9)), lambda v: v * 2, lambda v: v + 7, lambda v: -v]))
    return Call('piecewise', lambda m, x, c: m.piecewise(x, c, funcs), (a, conds),
                key='%d|%d' % (n, len(funcs) - n), note='%s' % ['f' if callable(f) else f for f in funcs])


@op('C27', 'mask_indices', 1)
def _(g):
    n, k, f = g.int(0, 7), g.int(-4, 4), g.pick(['triu', 'tril'])
    return Call('mask_indices', lambda m: list(m.mask_indices(n, getattr(m, f), k)), (), key='%s|%d|%d' % (f, n, k),
                note='%s n=%d k=%d' % (f, n, k))


@op('C27', 'tri_from', 1)
def _(g):
    a = g.arr('float64', (g.int(0, 6), g.int(0, 6)) if g.chance(0.9) else (3,), prof='small')
    k, f = g.int(-5, 5), g.pick(['tril_indices_from', 'triu_indices_from'])
    return Call(f, lambda m, x: list(getattr(m, f)(x, k)), (a,), key='%s|%d' % (f, k), note='k=%d' % k)


@op('C27', 'inspect', 2)
def _(g):
    a = g.arr(g.pick(['bool', 'int8', 'int64', 'uint32', 'float16', 'float32', 'float64', 'complex64', 'complex128']), nd=(0, 4))
    return Call('inspect', lambda m, x: [bool(m.iscomplexobj(x)), bool(m.isrealobj(x)), bool(m.isscalar(x)), int(m.ndim(x)), int(m.size(x)),
                                         list(m.shape(x)), bool(m.isscalar(3)), bool(m.isscalar([3]))], (a,), key=str(a.n.dtype))


@op('C27', 'memory', 3)
def _(g):
    """rumpy answers for buffers: views of one array share theirs, a copy does not."""
    a = g.arr(g.pick(['int8', 'int16', 'float64']), (g.int(2, 12),) if g.chance(0.5) else (g.int(2, 6), g.int(2, 6)), empty=0, prof='small')

    def sl(n):
        i = g.int(0, n - 1)
        return slice(i, g.int(i + 1, n), g.pick([1, 1, 2, 3]))
    s1 = tuple(sl(n) for n in a.n.shape)
    s2 = tuple(sl(n) for n in a.n.shape)
    how = g.pick(['views', 'copy', 'self'])

    def run(m, x):
        y, z = x[s1], {'views': lambda: x[s2], 'copy': lambda: x[s1].copy(), 'self': lambda: x}[how]()
        return [bool(m.shares_memory(y, z)), bool(m.may_share_memory(z, y))]

    return Call('shares_memory', run, (a,), ref=lambda m, x: [how != 'copy'] * 2, key=how, note='%s %s %s' % (how, s1, s2))
