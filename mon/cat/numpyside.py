"""rumpy arrays met by NumPy: ufuncs, scalars and arrays of NumPy's next to rumpy's own (C31)."""
import operator
import numpy as np
from mon.core import *
from mon import cat
from mon.cat import op, elementwise

# rumpy takes only its own arrays here, so a NumPy operand or scalar is refused (never misread)
OWN_ONLY = {'bitwise_and', 'bitwise_or', 'bitwise_xor', 'left_shift', 'right_shift', 'gcd', 'lcm', 'heaviside', 'ldexp',
            'logical_and', 'logical_or', 'logical_xor', 'divmod'}
OPER = {'add': operator.add, 'subtract': operator.sub, 'multiply': operator.mul, 'divide': operator.truediv,
        'floor_divide': operator.floordiv, 'remainder': operator.mod, 'power': operator.pow,
        'equal': operator.eq, 'not_equal': operator.ne, 'less': operator.lt, 'less_equal': operator.le,
        'greater': operator.gt, 'greater_equal': operator.ge}
ALIAS = {'mod': 'remainder', 'true_divide': 'divide', 'pow': 'power'}


def pool(nin, extra):
    return [cat.OPS[n] for n in sorted(cat.OPS) if cat.OPS[n].group in ('C05', 'C07')
            and (n in extra or isinstance(getattr(np, n, None), np.ufunc) and getattr(np, n).nin == nin)]


UN = pool(1, ('complex_unary', 'complex_parts', 'real_parts', 'degrees', 'abs', 'isnan_c', 'isinf_c', 'isfinite_c'))
BIN = pool(2, ('complex_muldiv', 'gcdlcm'))


def borrow(g, nin):
    """A call of a ufunc of nin operands, drawn by the generator that judges rumpy's function of that name."""
    pool = UN if nin == 1 else BIN
    for _ in range(20):
        c = g.pick(pool).gen(g)
        nm = c.name.split('(')[0]
        u = getattr(np, nm, None)
        if isinstance(u, np.ufunc) and len(c.args) == nin == u.nin and all(isinstance(x, Arr) for x in c.args):
            return ALIAS.get(nm, nm), u, c
    raise Skip('no ufunc drawn')


def own(exp, got, c):
    import rumpy
    parts = got if isinstance(got, tuple) else (got,)
    for e, p in zip(exp if isinstance(exp, tuple) else (exp,), parts):
        if np.ndim(e) and type(p) is not rumpy.ndarray:
            raise Violation('type', '%s: expected a rumpy array, got %s' % (c.name, type(p)))
    return compare(exp, got, c.rtol, c.atol, c.dtype, c.signed_zero)


def derive(c, name, fn, args, note='', refuse=False):
    c2 = Call(name, fn, args, rtol=c.rtol, atol=c.atol, dtype=c.dtype, signed_zero=c.signed_zero, key=c.key, note=note, err='skip')
    if refuse:
        def f(m, *a):
            try:
                return fn(m, *a)
            except TypeError:
                return 'refused'
        c2.fn, c2.ref = f, fn
    c2.eqv = lambda e, r: 1 if isinstance(r, str) and r == 'refused' else own(e, r, c)
    return c2


@op('C31', 'ufunc1', 3)
def _(g):
    nm, u, c = borrow(g, 1)
    return derive(c, 'np.' + nm, lambda m, x: u(x), c.args)


@op('C31', 'ufunc2', 4)
def _(g):
    nm, u, c = borrow(g, 2)
    return derive(c, 'np.' + nm, lambda m, x, y: u(x, y), c.args)


@op('C31', 'mixed', 5)
def _(g):
    """One operand rumpy's, the other NumPy's, through a ufunc, rumpy's function or the operator."""
    nm, u, c = borrow(g, 2)
    left = g.chance(0.5)
    a, b = c.args
    args = (a.n, b) if left else (a, b.n)
    how = g.pick(['np', 'rp', 'op'])
    if how == 'op' and nm in OPER:
        f = OPER[nm]
        return derive(c, nm + '(op)', lambda m, x, y: f(x, y), args, note='numpy ' + 'RL'[left])
    if how == 'rp':
        return derive(c, nm, lambda m, x, y: getattr(m, nm)(x, y), args, note='numpy ' + 'RL'[left], refuse=nm in OWN_ONLY)
    return derive(c, 'np.' + nm, lambda m, x, y: u(x, y), args, note='numpy ' + 'RL'[left], refuse=nm in OWN_ONLY)


@op('C31', 'scalar', 6)
def _(g):
    """A NumPy scalar keeps its own dtype: it is not a weak Python number."""
    nm, u, c = borrow(g, 2)
    left = g.chance(0.5)
    a, b = c.args
    s = (a if left else b).n
    if not s.size:
        raise Skip('no element to take')
    s = s.reshape(-1)[g.int(0, s.size - 1)]
    args = (s, b) if left else (a, s)
    note = '%s:%r' % ('L' if left else 'R', s)
    how = g.pick(['np', 'rp', 'op', 'op'])
    if how == 'op' and nm in OPER:
        f = OPER[nm]
        return derive(c, nm + '(op)', lambda m, x, y: f(x, y), args, note=note)
    if how == 'rp':
        return derive(c, nm, lambda m, x, y: getattr(m, nm)(x, y), args, note=note, refuse=nm in OWN_ONLY)
    return derive(c, 'np.' + nm, lambda m, x, y: u(x, y), args, note=note, refuse=nm in OWN_ONLY)


@op('C31', 'make', 3)
def _(g):
    """Arrays made from NumPy scalars and arrays."""
    a = g.arr(ALL, nd=(0, 3), prof=['small', 'wide', 'special', 'dups'])
    how = g.pick(['asarray', 'array', 'full', 'list', 'lists', 'fill', 'scalar', 'atleast', 'arr_list'])
    s = a.n.reshape(-1)[g.int(0, a.n.size - 1)] if a.n.size else np.dtype(a.n.dtype).type(1)
    if how in ('asarray', 'array'):
        return Call(how, lambda m, x: getattr(m, how)(x), (a.n,), rtol=None)
    if how == 'full':
        return Call('full', lambda m: m.full((2, 3), s), (), rtol=None, note=repr(s), key=a.n.dtype.str)
    if how == 'list':
        l = list(a.n.reshape(-1)[:6]) or [s]
        return Call('array(scalars)', lambda m: m.array(l), (), rtol=None, note=repr(l), key=a.n.dtype.str)
    if how == 'lists':
        l = list(a.n.reshape(-1)[:4]) or [s]
        return Call('array(scalars2)', lambda m: m.array([l, l]), (), rtol=None, note=repr(l), key=a.n.dtype.str)
    if how == 'arr_list':
        v = a.n.reshape(-1)[:5]
        w = g.arr(ALL, (len(v) + (g.chance(0.1) and 1),), prof='small')
        l = [v, w] if g.chance(0.6) else [w, list(w.n), v] if len(v) and g.chance(0.5) else ([v], (w,))
        return Call('array(arrays)', lambda m, x: m.array(x), (l,), rtol=None, note=repr(v), key=a.n.dtype.str)
    if how == 'scalar':
        return Call('asarray(scalar)', lambda m: m.asarray(s), (), rtol=None, note=repr(s), key=a.n.dtype.str)
    if how == 'atleast':
        f = g.pick(['atleast_1d', 'atleast_2d', 'atleast_3d'])
        return Call(f, lambda m, x: getattr(m, f)(m.asarray(x)), (a.n,), rtol=None)
    d = g.pick([a.n.dtype.name, 'complex128'])

    def fill(m):
        x = m.zeros(3, dtype=d)
        x.fill(s)
        return x
    return Call('fill', fill, (), rtol=None, note='%s %r' % (d, s), key=(a.n.dtype.str, d))


@op('C31', 'assign', 3)
def _(g):
    """NumPy scalars and arrays written into rumpy arrays of the same dtype."""
    a = g.arr(ALL, nd=(1, 3), prof=['small', 'wide', 'dups'], empty=0)
    k = g.int(-a.n.shape[0], a.n.shape[0] - 1)
    if g.chance(0.5):
        v = g.arr(a.n.dtype.name, a.n.shape[1:], prof='small').n
    else:
        v = a.n.reshape(-1)[g.int(0, a.n.size - 1)]
    key = g.pick([k, slice(None), slice(k, None)])

    def put(m, x):
        y = x.copy()
        y[key] = v
        return y
    return Call('setitem', put, (a,), rtol=None, note='%r %r' % (key, v))


FUNCS = ['sum', 'prod', 'max', 'min', 'mean', 'cumsum', 'argmax', 'sort', 'argsort', 'concatenate', 'stack', 'dot', 'matmul',
         'where', 'clip', 'round', 'transpose', 'reshape', 'ravel', 'diff', 'repeat', 'tile', 'flip', 'roll', 'searchsorted',
         'isin', 'unique', 'median', 'outer', 'kron', 'allclose', 'array_equal', 'squeeze', 'expand_dims', 'take', 'copy',
         'linspace', 'interp', 'convolve', 'trace', 'tril', 'count_nonzero', 'asarray', 'array']


@op('C31', 'np_function', 3)
def _(g):
    """NumPy's functions handed a rumpy array: NumPy's answer or a refusal."""
    nm = g.pick(FUNCS)
    two = nm in ('dot', 'matmul', 'where', 'searchsorted', 'isin', 'outer', 'kron', 'allclose', 'array_equal', 'convolve',
                 'interp', 'concatenate', 'stack', 'linspace')
    a = g.arr(INT + ['float32', 'float64'], nd=(1, 1 if two else 2), prof='small', empty=0, cap=100)
    b = g.arr('float64', a.n.shape, prof='small', empty=0, cap=100)
    f = getattr(np, nm)

    def fn(m, x, y):
        if nm in ('concatenate', 'stack'):
            return f([x, y])
        if nm == 'where':
            return f(x > 1, x, y)
        if nm == 'clip':
            return f(x, 1, 3)
        if nm == 'interp':
            return f(x, np.arange(5.0), np.arange(5.0) ** 2)
        if nm == 'reshape':
            return f(x, (-1,))
        if nm in ('repeat', 'tile', 'roll'):
            return f(x, 2)
        if nm == 'expand_dims':
            return f(x, 0)
        if nm == 'take':
            return f(x, [0, -1])
        if nm == 'linspace':
            return f(x, y, 3)
        if nm == 'searchsorted':
            return f(np.arange(5), x)
        if two:
            return f(x, y)
        return f(x)

    def rpfn(m, x, y):
        try:
            return fn(m, x, y)
        except Exception:
            return 'refused'
    c = Call('np.' + nm, rpfn, (a, b), ref=fn, err='skip')
    c.eqv = lambda e, r: 1 if isinstance(r, str) and r == 'refused' else compare(e, tuple(map(np.asarray, r)) if isinstance(r, tuple) else np.asarray(r),
                                                                            rtol='auto', dtype=False)
    return c



@op('C31', 'ufunc_method', 2)
def _(g):
    """The methods and keyword arguments of NumPy's ufuncs: NumPy's answer or a refusal, and nothing written either way."""
    how = g.pick(['outer', 'outer', 'reduce', 'accumulate', 'reduceat', 'at', 'out', 'out_rp', 'where', 'dtype', 'order', 'casting'])
    u = g.pick([np.add, np.multiply, np.subtract, np.maximum, np.minimum, np.hypot, np.arctan2, np.logical_and, np.less, np.fmax,
                np.divide, np.power, np.copysign])
    n = g.int(1, 8)
    a = g.arr(['float64', 'int64', 'float32', 'int16'], (n,) if how == 'outer' else g.shape((1, 2), 0, 30), prof='pos')
    b = g.arr('float64', (n if g.chance(0.5) else g.int(1, 8),) if how == 'outer' else a.n.shape, prof='pos')
    side = g.int(0, 2)

    def call(x, y):
        if how == 'outer':
            return u.outer(x, y)
        if how == 'reduce':
            return u.reduce(x)
        if how == 'accumulate':
            return u.accumulate(x)
        if how == 'reduceat':
            return u.reduceat(x, [0])
        if how == 'at':
            z = x.copy()
            u.at(z, [0], 1)
            return z
        if how in ('out', 'out_rp'):
            z = np.full(x.shape, 7.0)
            if how == 'out_rp' and not isinstance(x, np.ndarray):
                z = rp.asarray(z)
                try:
                    u(np.asarray(x), np.asarray(y), out=z)
                except TypeError:
                    if not (np.asarray(z) == 7).all():
                        raise Violation('value', 'a refused out= was written to')
                    raise
                return z
            u(x, y, out=z)
            return z
        if how == 'where':
            m = np.asarray(x) >= np.asarray(y)
            return np.where(m, np.asarray(u(x, y, where=m)), 0)
        kw = {'dtype': {'dtype': 'complex128'}, 'order': {'order': 'F'}, 'casting': {'casting': 'no'}}[how]
        return u(x, y, **kw)

    def ref(m, x, y):
        return call(x, y)

    def fn(m, x, y):
        p, q = (x, y) if side == 2 else (x, np.asarray(y)) if side else (np.asarray(x), y)
        if how in ('reduce', 'accumulate', 'reduceat', 'at'):
            p = x
        try:
            return call(p, q)
        except (TypeError, ValueError):
            return 'refused'
    c = Call('np.%s %s' % (u.__name__, how), fn, (a, b), ref=ref, err='skip', key=(how, side))
    c.eqv = lambda e, r: 1 if isinstance(r, str) and r == 'refused' else compare(e, np.asarray(r), rtol='auto', dtype=False)
    return c
