"""Element-wise arithmetic, math, comparison, logical and bitwise functions."""
import operator
import numpy as np
from mon.core import *
from mon.cat import op


def bshape(g, s):
    """A shape that broadcasts against s (either way)."""
    t = list(s)
    for i in range(len(t)):
        if g.chance(0.25):
            t[i] = 1
    k = g.int(0, len(t)) if g.chance(0.35) else 0
    return tuple(t[k:])


def bpair(g, d1, d2, prof=None, prof2=None, cap=400, bad=0.03, nd=(0, 3)):
    s = g.shape(nd, cap=cap)
    t = bshape(g, s)
    if g.chance(bad) and t:
        t = t[:-1] + (t[-1] + 2,)
    if g.chance(0.5):
        s, t = t, s
    a = g.arr(d1, s, prof=prof)
    b = g.arr(d2, t, prof=prof2 if prof2 is not None else prof)
    return a, b


def dpair(g, dts, same=0.5):
    d1 = g.pick(dts)
    return d1, (d1 if g.chance(same) else g.pick(dts))


def rt(*ds):
    return str(np.result_type(*ds))


# -- operators and ufuncs on two arrays ---------------------------------------
_SYM = {'add': operator.add, 'subtract': operator.sub, 'multiply': operator.mul,
        'divide': operator.truediv, 'floor_divide': operator.floordiv, 'remainder': operator.mod,
        'power': operator.pow}


def _fn(name, dunder):
    f = _SYM.get(name)
    if dunder and f:
        return lambda m, a, b: f(a, b)
    return lambda m, a, b: getattr(m, name)(a, b)


def arith(name, dts, prof, exact=True, w=1.0, aliases=(), prof2=None, grp='C05', signed_zero=False, atol=0.0):
    @op(grp, name, w)
    def gen(g):
        d1, d2 = dpair(g, dts)
        p = prof(g) if callable(prof) else prof
        a, b = bpair(g, d1, d2, p, prof2)
        nm = g.pick((name,) + aliases) if aliases and g.chance(0.3) else name
        rtol = None if exact else 'auto'
        r = rt(d1, d2)
        if np.dtype(r).kind == 'c' and name in ('multiply', 'divide', 'power'):
            rtol = 'auto'
        dun = g.chance(0.5) and nm == name
        return Call(nm + ('(op)' if dun and name in _SYM else ''), _fn(nm, dun), (a, b), rtol=rtol,
                    signed_zero=signed_zero,
                    atol=atol if np.dtype(r).itemsize > 4 else {1: 4e-3, 2: 4e-3}.get(
                        np.dtype(r).itemsize, 1e-5) if atol else 0.0)
    return gen


def anyp(g):
    return g.pick(['small', 'wide', 'special', 'dups', 'small', 'wide', 'special', 'dups', 'tiny'])


def fin(g):
    return g.pick(['small', 'dups', 'int'])


def wide(g):
    return g.pick(['small', 'wide', 'dups', 'wide', 'tiny'])


def cfin(g):
    return g.pick(['small', 'small', 'wide'])


arith('add', ALL, anyp, w=2)
arith('subtract', NUM, anyp, w=2)
arith('multiply', ALLREAL, anyp, w=2)
arith('divide', ALLREAL, anyp, w=2, aliases=('true_divide',))
arith('floor_divide', ALLREAL, anyp, w=1.5)
arith('remainder', ALLREAL, anyp, w=1.5, aliases=('mod',))
arith('fmod', ALLREAL, anyp)
for _n in ('maximum', 'minimum', 'fmax', 'fmin'):
    arith(_n, ALLREAL, anyp)
arith('arctan2', ALLREAL, anyp, exact=False)
arith('hypot', ALLREAL, wide, exact=False)
arith('copysign', ALLREAL, anyp)
arith('logaddexp', ALLREAL, anyp, exact=False, atol=1e-14)
arith('logaddexp2', ALLREAL, anyp, exact=False, atol=1e-14)
arith('nextafter', ALLREAL, anyp)


@op('C05', 'complex_muldiv')
def _(g):
    d1, d2 = g.pick(CPLX), g.pick(ALL)
    if g.chance(0.5):
        d1, d2 = d2, d1
    nm = g.pick(['multiply', 'divide'])
    if nm == 'divide' and d2 == 'bool':
        d2 = 'int8'
    a, b = bpair(g, d1, d2, 'small', 'pos')
    return Call(nm, _fn(nm, g.chance(0.5)), (a, b), rtol='auto')


@op('C05', 'power')
def _(g):
    d1, d2 = dpair(g, ALLREAL)
    r = np.dtype(rt(d1, d2))
    if r.kind in 'iu':
        p2 = 'pos' if g.chance(0.9) else 'small'
        a, b = bpair(g, d1, d2, g.pick(['small', 'wide']), p2)
        return Call('power', _fn('power', g.chance(0.5)), (a, b), rtol=None)
    a, b = bpair(g, d1, d2, g.pick(['pos', 'special', 'small']), g.pick(['small', 'special', 'dups']))
    if np.isneginf(a.n).any() and (b.n == 0.5).any():
        raise Skip('NumPy itself answers nan or inf by stride')
    return Call('power', _fn(g.pick(['power', 'pow']), g.chance(0.5)), (a, b), rtol='auto')


@op('C05', 'float_power')
def _(g):
    d1, d2 = dpair(g, ALLREAL)
    a, b = bpair(g, d1, d2, 'pos', 'small')
    return Call('float_power', lambda m, a, b: m.float_power(a, b), (a, b), rtol=1e-9)


@op('C05', 'divmod')
def _(g):
    d1, d2 = dpair(g, ALLREAL)
    a, b = bpair(g, d1, d2, anyp(g))
    return Call('divmod', lambda m, a, b: m.divmod(a, b), (a, b), rtol=None)


# -- Python scalars --------------------------------------------------------------
def pyscalar(g, dt):
    k = g.pick(['int', 'int', 'float', 'float', 'bool'] + (['complex'] if g.chance(0.3) else []))
    if k == 'int':
        dd = np.dtype(dt)
        if dd.kind in 'iu':
            ii = np.iinfo(dd)
            return g.pick([1, 2, 3, int(ii.max), int(ii.min), g.int(max(-7, ii.min), 7)])
        return g.int(-7, 7)
    if k == 'float':
        return g.pick([0.5, 1.5, -2.25, 3.0, 0.1, float('inf'), float('nan')])
    if k == 'bool':
        return g.chance(0.5)
    return complex(g.int(-3, 3), g.int(1, 3))


def scalar_op(name, refl):
    f = _SYM[name]

    def fn(m, a, s):
        return f(s, a) if refl else f(a, s)
    return fn


@op('C05', 'scalar_arith', 4)
def _(g):
    dt = g.pick(ALL)
    nm = g.pick(['add', 'subtract', 'multiply', 'divide', 'floor_divide', 'remainder', 'power'])
    s = pyscalar(g, dt)
    if nm == 'power':
        a = g.arr(dt, prof='pos')
        s = g.pick([0, 1, 2, 3, 0.5, 2.0])
        if dt == 'bool':
            s = 3
        refl = g.chance(0.3)
    else:
        a = g.arr(dt, prof=g.pick(['small', 'pos']))
        refl = g.chance(0.4)
    if dt in ('complex64', 'complex128') and nm in ('divide', 'power'):
        a = g.arr(dt, prof='pos')
        if s in (0, False):
            s = 2
    r = np.result_type(np.dtype(dt), s)
    if dt == 'bool' and r.kind == 'c' and nm == 'divide':
        refl = False
    if isinstance(s, complex) and nm == 'divide' and not refl and s == 0:
        s = 1j
    rtol = 'auto' if r.kind == 'c' or nm == 'power' else None
    if r.kind == 'c' and nm == 'divide' and dt not in ('complex64', 'complex128') and refl:
        a = g.arr(dt, prof='pos')
    if r.kind == 'c' and isinstance(s, float) and not np.isfinite(s):
        s = 2.5
    if g.chance(0.4) and not refl:
        return Call(nm + '(scalar)', lambda m, a, s: getattr(m, nm)(a, s), (a, s), rtol=rtol, key=type(s).__name__)
    return Call(nm + '(scalar-op)', scalar_op(nm, refl), (a, s), rtol=rtol, key=(type(s).__name__, refl))


@op('C05', 'scalar_minmax')
def _(g):
    dt = g.pick(ALLREAL)
    a = g.arr(dt, prof='small')
    nm = g.pick(['maximum', 'minimum', 'fmax', 'fmin', 'arctan2', 'hypot', 'copysign'])
    s = pyscalar(g, dt)
    if isinstance(s, complex):
        s = 2
    return Call(nm, lambda m, a, s: getattr(m, nm)(a, s), (a, s), rtol='auto', key=type(s).__name__)


# -- unary -----------------------------------------------------------------------
def unary(name, dts, prof, exact=False, w=1.0, grp='C05', aliases=(), err='both', signed_zero=False):
    @op(grp, name, w)
    def gen(g):
        p = prof(g) if callable(prof) else prof
        a = g.arr(dts, prof=p)
        nm = g.pick((name,) + aliases)
        return Call(nm, lambda m, x: getattr(m, nm)(x), (a,), rtol=None if exact else 'auto', err=err,
                    signed_zero=signed_zero)
    return gen


for _n in ['sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'log10', 'log2', 'sinh', 'cosh', 'tanh', 'exp2',
           'expm1', 'log1p', 'cbrt', 'arctan', 'arcsinh', 'arcsin', 'arccos', 'arccosh', 'arctanh']:
    _al = {'arcsin': ('asin',), 'arccos': ('acos',), 'arctan': ('atan',), 'arcsinh': ('asinh',),
           'arccosh': ('acosh',), 'arctanh': ('atanh',)}.get(_n, ())
    unary(_n, ALLREAL, lambda g: g.pick(['small', 'pos', 'unit', 'special']), aliases=_al)
    unary(_n + '_c', CPLX, 'pos') if False else None

for _n in ['floor', 'ceil', 'trunc', 'fix', 'rint', 'positive', 'negative', 'abs', 'square', 'sign']:
    unary(_n, ALLREAL, anyp, exact=True, aliases=('absolute',) if _n == 'abs' else ())
unary('reciprocal', INT + FLT, 'pos', exact=True)
unary('fabs', FLT, anyp, exact=True)
for _n in ['isnan', 'isinf', 'isfinite', 'signbit', 'isneginf', 'isposinf', 'isreal', 'iscomplex']:
    unary(_n, ALLREAL, anyp, exact=True)
for _n in ['isnan', 'isinf', 'isfinite', 'isreal', 'iscomplex']:
    @op('C05', _n + '_c')
    def _(g, _n=_n):
        return Call(_n, lambda m, x: getattr(m, _n)(x), (g.arr(CPLX, prof='special'),), rtol=None)


@op('C05', 'complex_unary', 2)
def _(g):
    nm = g.pick(['sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'arcsin', 'arccos', 'arctan',
                 'arcsinh', 'arccosh', 'arctanh', 'log10', 'log2', 'expm1', 'log1p', 'exp2'])
    a = g.arr(CPLX, prof=g.pick(['pos', 'unit', 'frac']))   # branch cuts excluded
    if nm in ('tan', 'tanh') and a.n.size and np.abs(getattr(np, nm)(a.n)).max() > 30:
        raise Skip                                          # beside a pole
    return Call(nm, lambda m, x: getattr(m, nm)(x), (a,), rtol=3e-4 if a.n.dtype == 'complex64' else 1e-8,
                atol=3e-3 if a.n.dtype == 'complex64' else 1e-9)


@op('C05', 'complex_parts')
def _(g):
    nm = g.pick(['real', 'imag', 'conj', 'conjugate', 'angle', 'abs', 'negative', 'square', 'positive', 'reciprocal', 'sign'])
    a = g.arr(CPLX, prof='small' if nm not in ('reciprocal', 'sign') else 'pos')
    return Call(nm, lambda m, x: getattr(m, nm)(x), (a,), rtol='auto')


@op('C05', 'real_parts')
def _(g):
    nm = g.pick(['real', 'imag', 'conj', 'conjugate', 'angle'])
    a = g.arr(INT + FLT)
    return Call(nm, lambda m, x: getattr(m, nm)(x), (a,), rtol='auto')


@op('C05', 'degrees')
def _(g):
    nm = g.pick(['deg2rad', 'rad2deg', 'degrees', 'radians'])
    return Call(nm, lambda m, x: getattr(m, nm)(x), (g.arr(ALLREAL),))


@op('C05', 'dunder_unary')
def _(g):
    nm = g.pick(['neg', 'abs', 'invert'])
    dts = BOOL + INT if nm == 'invert' else NUM
    a = g.arr(dts, prof=anyp(g) if nm != 'abs' else 'small')
    return Call(nm, lambda m, x: getattr(operator, nm)(x), (a,), rtol='auto')


@op('C05', 'clip')
def _(g):
    a = g.arr(INT + FLT, prof=g.pick(['small', 'special']))
    lo, hi = sorted([g.int(0, 8), g.int(0, 8)])
    if a.n.dtype.kind != 'u' and g.chance(0.4):
        lo = -lo - 1
    if a.n.dtype.kind == 'f' and g.chance(0.5):
        lo, hi = lo / 2 - 0.25, hi + 0.5
    k = g.int(0, 3)
    if k == 0:
        lo = None
    if k == 1:
        hi = None
    if k == 2 and g.chance(0.5):
        lo, hi = hi, lo         # inverted bounds: the upper one wins
    if g.chance(0.5):
        return Call('clip', lambda m, x, l, h: m.clip(x, l, h), (a, lo, hi), rtol=None)
    return Call('clip(m)', lambda m, x, l, h: x.clip(l, h), (a, lo, hi), rtol=None)


@op('C05', 'round')
def _(g):
    # round half away from zero is documented, so ties are kept out of the workload
    dt = g.pick(INT + ['float32', 'float64'] + CPLX)
    a = g.arr(dt, prof='small')
    d = g.int(0, 2)
    if np.dtype(dt).kind == 'c':
        a = g.wrap((np.round(a.n * 8) / 8 + (0.0371 + 0.0371j)).astype(dt))
    if np.dtype(dt).kind == 'f':
        v = np.round(a.n * 8) / 8 + 0.0371
        a = g.wrap(v.astype(dt))
    return Call('round', lambda m, x, d: m.round(x, d), (a, d))


@op('C05', 'nan_to_num')
def _(g):
    a = g.arr(INT + FLT, prof='special')
    kw = {}
    if g.chance(0.4):
        kw['nan'] = 3.5
    if g.chance(0.3):
        kw['posinf'] = 10.0
    if g.chance(0.3):
        kw['neginf'] = -10.0
    return Call('nan_to_num', lambda m, x, k: m.nan_to_num(x, **k), (a, kw), rtol=None)


@op('C05', 'special')
def _(g):
    nm = g.pick(['sinc', 'i0', 'spacing'])
    a = g.arr(FLOAT, prof='small')
    return Call(nm, lambda m, x: getattr(m, nm)(x), (a,), rtol=1e-6 if nm == 'i0' else 'auto', atol=1e-7 if nm == 'sinc' else 0)


@op('C05', 'modf')
def _(g):
    return Call('modf', lambda m, x: m.modf(x), (g.arr(FLT, prof=anyp(g)),), rtol=None)


@op('C05', 'frexp')
def _(g):
    return Call('frexp', lambda m, x: m.frexp(x), (g.arr(FLT, prof=g.pick(['small', 'wide', 'dups', 'tiny', 'tiny'])),), rtol=None)


@op('C05', 'ldexp')
def _(g):
    a, b = bpair(g, FLT, ['int32', 'int64', 'int16', 'int8'], 'small', 'small')
    return Call('ldexp', lambda m, x, i: m.ldexp(x, i), (a, b))


@op('C05', 'heaviside')
def _(g):
    d1, d2 = dpair(g, ALLREAL)
    a, b = bpair(g, d1, d2, 'special', 'small')
    return Call('heaviside', lambda m, x, i: m.heaviside(x, i), (a, b), rtol=None)


@op('C05', 'gcdlcm')
def _(g):
    d1, d2 = dpair(g, INT)
    nm = g.pick(['gcd', 'lcm'])
    a, b = bpair(g, d1, d2, g.pick(['small', 'wide']) if nm == 'gcd' else 'small')
    return Call(nm, lambda m, x, i: getattr(m, nm)(x, i), (a, b), rtol=None)


@op('C05', 'where')
def _(g):
    d1, d2 = dpair(g, ALL)
    a, b = bpair(g, d1, d2, anyp(g), bad=0)
    s = np.broadcast_shapes(a.n.shape, b.n.shape)
    c = g.arr(BOOL + ['int64', 'float64'], bshape(g, s), prof='dups')
    return Call('where', lambda m, c, x, y: m.where(c, x, y), (c, a, b), rtol=None)


# -- comparison, logical, bitwise (C07) -----------------------------------------
_CMP = {'equal': operator.eq, 'not_equal': operator.ne, 'less': operator.lt, 'less_equal': operator.le,
        'greater': operator.gt, 'greater_equal': operator.ge}


def cmp(name):
    f = _CMP[name]

    @op('C07', name, 2)
    def gen(g):
        d1, d2 = dpair(g, ALL)
        a, b = bpair(g, d1, d2, g.pick(['dups', 'special', 'wide', 'dups']))
        if g.chance(0.3):
            return Call(name + '(op)', lambda m, a, b: f(a, b), (a, b), rtol=None)
        return Call(name, lambda m, a, b: getattr(m, name)(a, b), (a, b), rtol=None)

    @op('C07', name + '_scalar')
    def gens(g):
        d = g.pick(ALL)
        a = g.arr(d, prof=g.pick(['dups', 'wide', 'special']))
        s = pyscalar(g, d)
        if isinstance(s, complex) and name not in ('equal', 'not_equal'):
            s = 1
        if isinstance(s, int) and not isinstance(s, bool) and g.chance(0.1) and np.dtype(d).kind in 'iu':
            s = g.pick([-200, 300, 70000])
        if a.n.size and g.chance(0.4):
            s = a.n.reshape(-1)[g.int(0, a.n.size - 1)].item()
        if g.chance(0.3):
            return Call(name + '(fn)', lambda m, a, s: getattr(m, name)(a, s), (a, s), rtol=None, key=type(s).__name__)
        if g.chance(0.3):
            return Call(name + '(rop)', lambda m, a, s: f(s, a), (a, s), rtol=None, key=type(s).__name__)
        return Call(name + '(op)', lambda m, a, s: f(a, s), (a, s), rtol=None, key=type(s).__name__)


for _n in _CMP:
    cmp(_n)

for _n in ['logical_and', 'logical_or', 'logical_xor']:
    arith(_n, ALL, lambda g: g.pick(['dups', 'special']), grp='C07')
unary('logical_not', ALL, lambda g: g.pick(['dups', 'special']), exact=True, grp='C07')


@op('C07', 'isclose')
def _(g):
    a, b = bpair(g, FLOAT, FLOAT, 'special')
    if g.chance(0.6):
        # clearly inside or outside the tolerances, never on the edge of float32 rounding
        v = a.n * (1 + g.rng.choice([-3e-4, -3e-5, -3e-6, 0, 3e-6, 3e-5, 3e-4], a.n.shape))
        b = g.wrap(v.astype(a.n.dtype))
    kw = {}
    if g.chance(0.5):
        kw = dict(rtol=g.pick([0.0, 1e-4, 0.47]), atol=g.pick([0.0, 1.3e-3, 0.73]), equal_nan=g.chance(0.5))
    nm = g.pick(['isclose', 'allclose'])
    return Call(nm, lambda m, a, b, kw: getattr(m, nm)(a, b, **kw), (a, b, kw), rtol=None)


@op('C07', 'array_equal')
def _(g):
    d1, d2 = dpair(g, ALL)
    a = g.arr(d1, prof='dups')
    if g.chance(0.6):
        b = g.wrap(a.n.copy())
        if g.chance(0.5) and a.n.size:
            v = a.n.copy()
            v.reshape(-1)[g.int(0, v.size - 1)] = g.values(a.n.dtype, (1,), 'small')[0]
            b = g.wrap(v)
    else:
        b = g.arr(d2, prof='dups')
    return Call('array_equal', lambda m, a, b: m.array_equal(a, b), (a, b), rtol=None)


_BIT = {'bitwise_and': operator.and_, 'bitwise_or': operator.or_, 'bitwise_xor': operator.xor,
        'left_shift': operator.lshift, 'right_shift': operator.rshift}


def bit(name):
    f = _BIT[name]
    shift = name.endswith('shift')

    @op('C07', name, 1.5)
    def gen(g):
        d1, d2 = dpair(g, BOOL + INT if not shift else INT)
        if np.result_type(d1, d2).kind == 'f':
            d2 = d1
        a, b = bpair(g, d1, d2, g.pick(['wide', 'small']), 'small' if not shift else 'pos')
        if g.chance(0.4):
            return Call(name + '(op)', lambda m, a, b: f(a, b), (a, b), rtol=None)
        return Call(name, lambda m, a, b: getattr(m, name)(a, b), (a, b), rtol=None)

    @op('C07', name + '_scalar', 0.5)
    def gens(g):
        d = g.pick(BOOL + INT)
        a = g.arr(d, prof='wide')
        s = g.int(0, 5)
        if g.chance(0.3) and not shift:
            return Call(name + '(rop)', lambda m, a, s: f(s, a), (a, s), rtol=None)
        return Call(name + '(op)', lambda m, a, s: f(a, s), (a, s), rtol=None)


for _n in _BIT:
    bit(_n)


@op('C07', 'bitwise_not')
def _(g):
    nm = g.pick(['bitwise_not', 'invert'])
    return Call(nm, lambda m, a: getattr(m, nm)(a), (g.arr(BOOL + INT, prof='wide'),), rtol=None)


@op('C07', 'bits')
def _(g):
    nm = g.pick(['packbits', 'unpackbits'])
    a = g.arr('uint8' if nm == 'unpackbits' else ['uint8', 'bool'], nd=(1, 3), prof=g.pick(['wide', 'dups']), empty=0)
    kw = {}
    if g.chance(0.6):
        kw['axis'] = g.axis(a.n.ndim)
    if g.chance(0.4):
        kw['bitorder'] = g.pick(['big', 'little'])
    return Call(nm, lambda m, a, kw: getattr(m, nm)(a, **kw), (a, kw), rtol=None)


# -- truth ------------------------------------------------------------------------------
@op('C07', 'truth', 2)
def _(g):
    """What counts as true: everything but zeros, down to the smallest and up to the largest values."""
    dt = g.pick(ALL)
    k = np.dtype(dt).kind
    if k in 'iu':
        i = np.iinfo(dt)
        pool = [0, 0, 1, i.min, i.max, i.max // 2 + 1, 1 << (i.bits // 2), 2]
    elif k == 'b':
        pool = [False, True]
    else:
        f = np.finfo(dt)
        pool = [0.0, -0.0, 0.0, 1.0, float(f.tiny), float(f.smallest_subnormal), -float(f.smallest_subnormal), np.nan, np.inf, -np.inf]
        if k == 'c':
            pool = [0, complex(0, -0.0), 1, 1j, complex(0, float(f.smallest_subnormal)), complex(0, np.nan), complex(-0.0, 3), -2]
    sh = g.shape((1, 3), 0.03, 200)
    v = np.array(pool, dtype=dt)[g.rng.integers(0, len(pool), sh)]
    a = g.wrap(v)
    how = g.pick(['where', 'not', 'bool', 'nonzero', 'count', 'and', 'or', 'xor', 'any', 'all', 'anyax', 'allax', 'compress'])
    fns = {'where': lambda m, x: m.where(x, 1.0, 2.0), 'not': lambda m, x: m.logical_not(x), 'bool': lambda m, x: x.astype('bool'),
           'nonzero': lambda m, x: tuple(m.nonzero(x)), 'count': lambda m, x: int(m.count_nonzero(x)),
           'and': lambda m, x: m.logical_and(x, m.ones(sh)), 'or': lambda m, x: m.logical_or(m.zeros(sh), x),
           'xor': lambda m, x: m.logical_xor(x, m.ones(sh)), 'any': lambda m, x: bool(m.any(x)), 'all': lambda m, x: bool(m.all(x)),
           'anyax': lambda m, x: m.any(x, axis=-1), 'allax': lambda m, x: m.all(x, axis=0),
           'compress': lambda m, x: m.compress(x.astype('bool').reshape(-1), m.arange(x.size))}
    if how == 'where':
        y, z = (g.arr('float64', shape=sh) for _ in range(2))
        return Call('where', lambda m, x, y, z: m.where(x, y, z), (a, y, z), rtol=None, key=how)
    return Call(how, fns[how], (a,), rtol=None, key=how)
