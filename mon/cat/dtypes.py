"""Element types: what type a result has, for every pair of input types.

The case index walks the finite space (type pairs, type x scalar) so that a run
of at least that many cases covers it completely; values vary with the seed."""
import operator
import numpy as np
import rumpy as rp
from mon.core import ALL, Call, Violation, compare, is_rp
from mon.cat import op

N = len(ALL)
PAIRS = [(a, b) for a in ALL for b in ALL]
SCALARS = [True, False, 3, -3, 0, 2.5, -0.5, 1e300, 1j, 2 + 0.5j]
BIN = {'add': operator.add, 'subtract': operator.sub, 'multiply': operator.mul,
       'true_divide': operator.truediv, 'floor_divide': operator.floordiv,
       'remainder': operator.mod, 'power': operator.pow, 'less': operator.lt,
       'less_equal': operator.le, 'greater': operator.gt, 'greater_equal': operator.ge,
       'equal': operator.eq, 'not_equal': operator.ne, 'bitwise_and': operator.and_,
       'bitwise_or': operator.or_, 'bitwise_xor': operator.xor}
UFB = ['add', 'subtract', 'multiply', 'divide', 'maximum', 'minimum', 'fmax', 'fmin',
       'arctan2', 'hypot', 'logical_and', 'logical_or', 'logical_xor', 'copysign',
       'logaddexp', 'fmod', 'less', 'equal', 'floor_divide', 'power', 'remainder']
UNA = ['negative', 'positive', 'absolute', 'sign', 'sqrt', 'exp', 'log', 'sin', 'cos', 'tan',
       'arcsin', 'arctan', 'sinh', 'tanh', 'floor', 'ceil', 'trunc', 'rint', 'square',
       'isnan', 'isinf', 'isfinite', 'signbit', 'logical_not', 'invert', 'exp2', 'expm1',
       'log2', 'log10', 'log1p', 'deg2rad', 'cbrt', 'conjugate', 'real', 'imag', 'angle']
RED = ['sum', 'prod', 'mean', 'max', 'min', 'any', 'all', 'cumsum', 'cumprod', 'argmax',
       'argmin', 'ptp', 'std', 'var', 'nansum', 'median', 'sort', 'unique', 'diff']


UNA_NOT = {k: ('complex64', 'complex128') for k in ('cbrt', 'deg2rad', 'signbit', 'trunc',
                                                     'median', 'std', 'var')}
UNA_NOT['angle'] = UNA_NOT['conjugate'] = ('bool',)


def kind_only(e, g):
    """Judges the type (and the shape) of the result, not its values."""
    if is_rp(g):
        ea = np.asarray(e)
        ga = np.asarray(g)
        if ea.dtype != ga.dtype:
            raise Violation('dtype', 'expected %s, got %s' % (ea.dtype, ga.dtype))
        if ea.shape != ga.shape:
            raise Violation('shape', 'expected %s, got %s' % (ea.shape, ga.shape))
        return 1
    ea = np.asarray(e)
    ga = np.asarray(g)
    fam = {'b': 'b', 'i': 'i', 'u': 'i', 'f': 'f', 'c': 'c'}
    if fam[ea.dtype.kind] != fam[ga.dtype.kind]:
        raise Violation('dtype', 'expected a %s scalar, got %s %r'
                        % (ea.dtype, ga.dtype, g))
    return 1


def two(g, pair, nd=(1, 2)):
    sh = g.shape(nd, 0.03, 40, 0)
    return (g.arr(pair[0], sh, prof='pos'), g.arr(pair[1], sh, prof='pos'))


def _bin(nm, f):
    @op('C06', 'd_op_' + nm)
    def _(g, f=f, nm=nm):
        a, b = two(g, PAIRS[g.index % len(PAIRS)])
        return Call(nm, lambda m, x, y: f(x, y), (a, b), eqv=kind_only)


def _scal(nm, f):
    @op('C06', 'd_scalar_' + nm)
    def _(g, f=f, nm=nm):
        i = g.index % (N * len(SCALARS) * 2)
        dt = ALL[i % N]
        s = SCALARS[(i // N) % len(SCALARS)]
        left = i // N // len(SCALARS)
        if dt[0] == 'u' and not isinstance(s, (complex, float)) and s < 0:
            s = 3
        if nm == 'power' and isinstance(s, int) and (s < 0 or dt == 'bool'):
            s = 2.5             # see DESIGN: bool ** int, integer ** negative integer
        a = g.arr(dt, nd=(1, 2), cap=30, prof='pos')
        fn = (lambda m, x, v: f(v, x)) if left else (lambda m, x, v: f(x, v))
        return Call(nm, fn, (a, s), eqv=kind_only, key='%s/%r' % (left, s))


def _ufb(nm):
    @op('C06', 'd_ufunc_' + nm)
    def _(g, nm=nm):
        a, b = two(g, PAIRS[g.index % len(PAIRS)])
        return Call(nm, lambda m, x, y: getattr(m, nm)(x, y), (a, b), eqv=kind_only)


def _una(nm):
    @op('C06', 'd_unary_' + nm, w=0.3)
    def _(g, nm=nm):
        dt = ALL[g.index % N]
        if dt in UNA_NOT.get(nm, ()):
            dt = ALL[1 + g.index % 11]
        a = g.arr(dt, nd=(1, 2), cap=30, prof='pos', empty=0)
        return Call(nm, lambda m, x: getattr(m, nm)(x), (a,), eqv=kind_only)


def _red(nm):
    @op('C06', 'd_reduce_' + nm, w=0.3)
    def _(g, nm=nm):
        dt = ALL[g.index % N]
        if dt in UNA_NOT.get(nm, ()):
            dt = ALL[1 + g.index % 11]
        nd = (1, 1) if nm in ('unique',) else (2, 2)
        a = g.arr(dt, nd=nd, cap=30, prof='pos', empty=0, mindim=2)
        kw = {}
        if nm != 'unique':
            kw = {'axis': 0} if g.chance(0.6) or nm in ('median', 'ptp', 'std', 'var') else {}
        return Call(nm, lambda m, x: getattr(m, nm)(x, **kw), (a,), eqv=kind_only, key=kw)


for _n, _f in BIN.items():
    _bin(_n, _f)
    _scal(_n, _f)
for _n in UFB:
    if hasattr(rp, _n):
        _ufb(_n)
for _n in UNA:
    if hasattr(rp, _n):
        _una(_n)
for _n in RED:
    if hasattr(rp, _n):
        _red(_n)


@op('C06', 'd_promote_types')
def _(g):
    p = PAIRS[g.index % len(PAIRS)]
    return Call('promote_types', lambda m: str(m.promote_types(*p)), (), key=p)


@op('C06', 'd_result_type')
def _(g):
    p = PAIRS[g.index % len(PAIRS)]
    a, b = two(g, p)
    k = g.int(0, 3)
    s = g.pick([True, 3, 2.5, 1j])
    f = [lambda m, x, y: str(m.result_type(x, y)),
         lambda m, x, y: str(m.result_type(p[0], p[1])),
         lambda m, x, y: str(m.result_type(x, p[1])),
         lambda m, x, y: str(m.result_type(x, s))][k]
    return Call('result_type', f, (a, b), key=(k, repr(s)))


@op('C06', 'd_can_cast', w=5)
def _(g):
    i = g.index % (len(PAIRS) * 5)
    p = PAIRS[i % len(PAIRS)]
    c = ['no', 'equiv', 'safe', 'same_kind', 'unsafe'][i // len(PAIRS)]
    return Call('can_cast', lambda m: m.can_cast(p[0], p[1], c), (), key=(p, c))


@op('C06', 'd_common_type')
def _(g):
    a, b = two(g, PAIRS[g.index % len(PAIRS)])
    return Call('common_type', lambda m, x, y: m.common_type(x, y).__name__, (a, b))


CATS = ['integer', 'signedinteger', 'unsignedinteger', 'floating', 'complexfloating',
        'inexact', 'number', 'generic']


@op('C06', 'd_issubdtype', w=2)
def _(g):
    i = g.index % (N * (N + len(CATS)))
    a = ALL[i % N]
    j = i // N
    if j < N:
        return Call('issubdtype', lambda m: m.issubdtype(a, ALL[j]), (), key=(a, ALL[j]))
    c = CATS[j - N]
    how = g.chance(0.5)
    return Call('issubdtype', lambda m: m.issubdtype(
        a, getattr(np, c) if m is np or how else c), (), key=(a, c, how))


KINDS = ['bool', 'signed integer', 'unsigned integer', 'integral', 'real floating',
         'complex floating', 'numeric']


@op('C06', 'd_isdtype', w=0.6)
def _(g):
    i = g.index % (N * len(KINDS))
    a, k = ALL[i % N], KINDS[i // N]
    if g.chance(0.3):
        k = (k, g.pick(KINDS))
    return Call('isdtype', lambda m: m.isdtype(np.dtype(a) if m is np else a, k), (),
                key=(a, k))


@op('C06', 'd_finfo', w=0.2)
def _(g):
    d = ['float16', 'float32', 'float64'][g.index % 3]
    ks = ['bits', 'eps', 'max', 'min', 'tiny', 'smallest_normal', 'smallest_subnormal',
          'machep', 'negep', 'minexp', 'maxexp', 'precision']
    return Call('finfo', lambda m: [float(getattr(m.finfo(d), k)) for k in ks], (), key=d,
                rtol=None)


@op('C06', 'd_iinfo', w=0.2)
def _(g):
    d = ALL[1:9][g.index % 8]
    return Call('iinfo', lambda m: [str(getattr(m.iinfo(d), k)) for k in ('bits', 'min', 'max')],
                (), key=d)


@op('C06', 'd_where')
def _(g):
    p = PAIRS[g.index % len(PAIRS)]
    a, b = two(g, p)
    c = g.arr('bool', a.n.shape)
    return Call('where', lambda m, c, x, y: m.where(c, x, y), (c, a, b), eqv=kind_only)


@op('C06', 'd_concatenate')
def _(g):
    a, b = two(g, PAIRS[g.index % len(PAIRS)])
    return Call('concatenate', lambda m, x, y: m.concatenate([x, y]), (a, b), eqv=kind_only)
