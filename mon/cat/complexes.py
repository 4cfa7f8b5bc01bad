"""Complex arrays through functions made for real numbers (C30): NumPy's answer, or a refusal - never half the number."""
import numpy as np
from mon.core import *
from mon.cat import op
from mon.cat.reductions import scale, scale2, ax

REFUSED = 'refused'


def guarded(call, f):
    """f(m, *args), with a refusal turned into a result of its own."""
    def fn(m, *a):
        try:
            return f(m, *a)
        except (TypeError, ValueError, NotImplementedError, IndexError):
            return REFUSED
    return fn


def cplx_call(name, f, args, rtol='auto', atol=0.0, key=None, dtype=True, ref=None):
    def eqv(exp, got):
        if isinstance(got, str) and got == REFUSED:
            return 1
        if isinstance(exp, str) and exp == REFUSED:
            raise Violation('accepted', '%s: NumPy refuses complex input, rumpy returned %s' % (name, describe(got)))
        return compare(exp, got, rtol=rtol, atol=atol, dtype=dtype)
    return Call(name, guarded(name, f), args, eqv=eqv, key=key, ref=guarded(name, ref) if ref else None)


def carr(g, nd=(0, 3), prof=None, **kw):
    kw.setdefault('empty', 0)
    kw.setdefault('cap', 300)
    return g.arr(CPLX, nd=nd, prof=prof or g.pick(['small', 'frac', 'dups']), **kw)


# rumpy gives these a meaning of its own for complex input: cbrt deg2rad radians rad2deg degrees trunc fix floor ceil fabs
UN = ['negative', 'positive', 'absolute', 'square', 'sign', 'sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'sinh',
      'cosh', 'tanh', 'conj', 'real', 'imag', 'isnan', 'isinf', 'isfinite', 'isreal', 'iscomplex', 'signbit', 'isposinf',
      'isneginf', 'rint', 'exp2', 'expm1', 'log2', 'log10', 'log1p', 'logical_not', 'invert', 'sinc', 'i0', 'spacing', 'modf',
      'frexp', 'nan_to_num', 'angle', 'real_if_close', 'round', 'unwrap', 'bincount', 'cumsum', 'cumprod', 'sort', 'argsort',
      'unique', 'nonzero', 'ravel', 'diff', 'ediff1d', 'gradient', 'trim_zeros', 'packbits', 'iscomplexobj', 'isrealobj',
      'roots', 'fftshift', 'diag', 'trace', 'triu', 'flip', 'histogram', 'corrcoef', 'cov', 'trapezoid',
      'polyder', 'polyint', 'count_nonzero', 'argwhere', 'flatnonzero']
RED = ['sum', 'prod', 'mean', 'var', 'std', 'max', 'min', 'ptp', 'argmax', 'argmin', 'all', 'any', 'average', 'median',
       'nansum', 'nanprod', 'nanmean', 'nanvar', 'nanstd', 'nanmin', 'nanmax', 'nanargmin', 'nanargmax', 'nanmedian',
       'nancumsum', 'nancumprod', 'cumsum', 'cumprod', 'amax', 'amin', 'sort', 'argsort']
BIN = ['add', 'subtract', 'multiply', 'divide', 'power', 'float_power', 'floor_divide', 'remainder', 'mod', 'fmod', 'divmod',
       'maximum', 'minimum', 'fmax', 'fmin', 'arctan2', 'hypot', 'copysign', 'nextafter', 'logaddexp', 'logaddexp2', 'ldexp',
       'heaviside', 'gcd', 'lcm', 'less', 'greater', 'less_equal', 'greater_equal', 'equal', 'not_equal', 'logical_and',
       'logical_or', 'logical_xor', 'bitwise_and', 'bitwise_or', 'bitwise_xor', 'left_shift', 'right_shift', 'isclose',
       'allclose', 'array_equal', 'convolve', 'correlate', 'dot', 'inner', 'outer', 'vdot', 'kron', 'matmul',        'polyval', 'intersect1d', 'union1d', 'setdiff1d', 'setxor1d', 'isin', 'searchsorted',
       'digitize', 'percentile', 'quantile', 'nanpercentile', 'nanquantile', 'where', 'interp', 'append', 'trapezoid',
       'cross', 'tensordot', 'histogram2d', 'polyfit']


def apart(g, a):
    """No two elements equal: argsort's order among equals is not part of the promise."""
    v = np.array(g.perm(a.n.size)).reshape(a.n.shape)
    return (v // 3 + 1j * (v % 3)).astype(a.n.dtype)


def slack(*arrs):
    big = 1.0
    for a in arrs:
        v = np.abs(a.n.astype(complex)).ravel()
        big = max(big, float(v.max()) if v.size else 1.0)
    single = any(a.n.dtype == np.complex64 for a in arrs)
    return big, single


@op('C30', 'cplx_unary', 4)
def _(g):
    nm = g.pick(UN)
    flat = nm in ('poly', 'roots', 'vander', 'bincount', 'trim_zeros', 'histogram', 'corrcoef', 'cov', 'trapezoid', 'polyder',
                  'polyint', 'gradient')
    a = carr(g, nd=(1, 1) if flat else (1, 3), prof='distinct' if nm in ('sort', 'argsort') else None)
    if nm in ('log', 'log2', 'log10', 'log1p', 'sqrt', 'angle', 'tan', 'tanh', 'power', 'sinc') or nm.startswith('arc'):
        # away from the branch cut, the poles and zero
        v = a.n.astype(complex)
        a = g.wrap((np.abs(v.real) % 3 + 0.3 + 1j * (v.imag % 2 + 0.1)).astype(a.n.dtype))
    if nm in ('exp', 'exp2', 'expm1', 'sin', 'cos', 'sinh', 'cosh', 'cumprod', 'poly', 'roots', 'vander'):
        a = g.wrap((a.n / (1 + np.abs(a.n.astype(complex)))).astype(a.n.dtype))
    if nm in ('poly', 'roots', 'vander'):
        a = g.wrap(a.n[:5].copy(), bcast=False)
    if nm == 'round':
        a = g.wrap((np.round(a.n * 8) / 8 + (0.0371 + 0.0371j)).astype(a.n.dtype))
    big, single = slack(a)
    n = max(1, a.n.size)
    tol = (3e-5 if single else 1e-10) * big ** 2 * n
    ref = None
    f = lambda m, x: getattr(m, nm)(x)
    if nm == 'roots':
        f = lambda m, x: np.sort_complex(np.round(np.asarray(m.roots(x)), 2 if single else 5))
        tol = 0.02 if single else 1e-4
    if 'sort' in nm:
        a = g.wrap(apart(g, a), bcast=False)
    if nm == 'fftshift':
        f = lambda m, x: m.fft.fftshift(x)
    if nm == 'real_if_close':
        f = lambda m, x: m.real_if_close(x)
    return cplx_call(nm, f, (a,), rtol=1e-4 if single else 1e-9, atol=tol, key=nm, dtype=nm not in ('poly', 'roots'))


def with_nan(g, a):
    """NaN in the real part, the imaginary part or both of some elements."""
    v = a.n.copy()
    if v.dtype.kind in 'fc':
        put = g.rng.random(v.shape) < 0.3
        new = g.rng.choice([complex(np.nan, 1), complex(2, np.nan), complex(np.nan, np.nan)], v.shape)[put]
        v[put] = new if v.dtype.kind == 'c' else np.nan
    return g.wrap(v)


@op('C30', 'cplx_reduce', 4)
def _(g):
    nm = g.pick(RED)
    a = carr(g, nd=(1, 3), prof='distinct' if 'sort' in nm else 'unit' if 'prod' in nm else None)
    if nm.startswith('nan') and g.chance(0.4):
        v = a.n.copy()
        v.reshape(-1)[g.int(0, v.size - 1)] = complex(np.nan, 1)
        a = g.wrap(v)
    if 'sort' in nm:
        a = g.wrap(apart(g, a), bcast=False)
    axis_ = ax(g, a.n.ndim)
    kw = {} if axis_ is None and 'sort' not in nm else {'axis': -1 if axis_ is None else axis_}
    if g.chance(0.2) and nm != 'ptp':
        f = lambda m, x, kw: getattr(x, nm)(**kw)
        if nm == 'sort':
            f = lambda m, x, kw: (lambda y: (y.sort(**kw), y)[1])(x.copy())
        if not hasattr(np.ndarray, nm):
            f = lambda m, x, kw: getattr(m, nm)(x, **kw)
    else:
        f = lambda m, x, kw: getattr(m, nm)(x, **kw)
    big, single = slack(g.wrap(np.nan_to_num(a.n)))
    return cplx_call(nm, f, (a, kw), rtol=1e-3 if single else 1e-9,
                     atol=(1e-4 if single else 1e-10) * big ** 2 * max(1, a.n.size), key=nm)


@op('C30', 'cplx_binary', 5)
def _(g):
    nm = g.pick(BIN)
    one = nm in ('convolve', 'correlate', 'vdot', 'inner', 'dot', 'polyadd', 'polysub', 'polymul', 'polydiv', 'polyval',
                 'intersect1d', 'union1d', 'setdiff1d', 'setxor1d', 'searchsorted', 'digitize', 'interp', 'histogram2d', 'polyfit',
                 'percentile', 'quantile', 'nanpercentile', 'nanquantile', 'trapezoid', 'cross', 'isin', 'kron', 'tensordot')
    n = 3 if nm == 'cross' else g.int(2, 7)
    sh = (n,) if one else (n, n) if nm == 'matmul' else g.shape((1, 2), cap=30)
    prof = g.pick(['small', 'dups'])
    a = g.arr(CPLX, sh, prof=prof)
    other = g.pick(CPLX + ['float64', 'int32'])
    b = g.arr(other, sh, prof=prof)
    if nm in ('power', 'float_power', 'divide', 'polydiv', 'polyfit', 'polyval'):
        a = g.wrap((a.n / (1 + np.abs(a.n.astype(complex))) + (0.6 + 0.3j)).astype(a.n.dtype))
        b = g.wrap((b.n % 2 + 1).astype(other) if b.n.dtype.kind != 'c'
                   else (b.n / (1 + np.abs(b.n.astype(complex))) + (1.5 + 0.5j)).astype(other))
    if nm in ('fmax', 'fmin', 'maximum', 'minimum') and g.chance(0.4):
        a, b = with_nan(g, a), with_nan(g, b)
    if nm == 'searchsorted':
        a = g.wrap(np.sort(a.n))
    swap = g.chance(0.4) and nm not in ('searchsorted',)
    x, y = (b, a) if swap else (a, b)
    big, single = slack(*[g.wrap(np.nan_to_num(v.n)) for v in (a, b)])
    ref = None
    if nm == 'where':
        f = lambda m, p, q: m.where(p == q, p, q)
    elif nm in ('percentile', 'quantile', 'nanpercentile', 'nanquantile'):
        y = g.wrap(np.array([0.25, 0.75]))
        x = a
        f = lambda m, p, q: getattr(m, nm)(p, q)
    elif nm == 'interp':
        xp = g.wrap(np.arange(float(n)))
        return cplx_call(nm, lambda m, p, q, r: m.interp(p, q, r), (g.wrap(g.rng.uniform(-1, n, 5)) if swap else g.wrap(a.n), xp, b),
                         rtol=1e-5, atol=1e-4 * big, key=nm, dtype=False)
    elif nm == 'digitize':
        f = lambda m, p, q: m.digitize(p, m.sort(q))
    elif nm == 'polyfit':
        f = lambda m, p, q: m.polyfit(p, q, 1)
    elif nm == 'tensordot':
        f = lambda m, p, q: m.tensordot(p, q, 1)
    elif nm == 'ldexp':
        f = lambda m, p, q: m.ldexp(p, q)
    elif nm in ('fmax', 'fmin', 'maximum', 'minimum'):
        def f(m, p, q):
            r = getattr(m, nm)(p, q)
            v = np.asarray(r)
            return np.where(np.isnan(v), v.dtype.type(complex(np.nan, np.nan)), v)  # NaN in either part is NaN
    else:
        f = lambda m, p, q: getattr(m, nm)(p, q)
    return cplx_call(nm, f, (x, y), rtol=1e-3 if single else 1e-8, atol=(1e-4 if single else 1e-9) * big ** 2 * a.n.size,
                     key=(nm, swap), dtype=nm not in ('polyfit', 'polyval', 'polydiv'))


@op('C30', 'cplx_linalg', 2)
def _(g):
    n = g.int(2, 5)
    nm = g.pick(['det', 'inv', 'solve', 'norm', 'qr', 'svd', 'eigvals', 'eig', 'eigh', 'eigvalsh', 'cholesky', 'lstsq', 'pinv',
                 'matrix_power', 'slogdet', 'cond', 'matrix_rank', 'norm1'])
    v = g.rng.normal(size=(n, n)) + 1j * g.rng.normal(size=(n, n)) + 2 * np.eye(n)
    if nm in ('eigh', 'eigvalsh', 'cholesky'):
        v = v @ v.conj().T + np.eye(n)
    dt = g.pick(CPLX)
    a = g.wrap(v.astype(dt))
    b = g.wrap((g.rng.normal(size=n) + 1j * g.rng.normal(size=n)).astype(dt))
    tol = 2e-3 if dt == 'complex64' else 1e-7

    def f(m, x, y):
        L = m.linalg
        if nm == 'solve':
            return L.solve(x, y)
        if nm == 'lstsq':
            return L.lstsq(x, y)[0]
        if nm == 'matrix_power':
            return L.matrix_power(x, 3)
        if nm == 'slogdet':
            s, l = L.slogdet(x)
            return np.asarray(s) * np.exp(np.asarray(l))
        if nm in ('eig', 'eigvals'):
            w = np.asarray(L.eigvals(x) if nm == 'eigvals' else L.eig(x)[0])
            return w[np.argsort(np.round(w, 3))].sum()
        if nm in ('eigh', 'eigvalsh'):
            return np.asarray(L.eigvalsh(x) if nm == 'eigvalsh' else L.eigh(x)[0])
        if nm == 'qr':
            q, r = L.qr(x)
            return np.asarray(q) @ np.asarray(r)
        if nm == 'svd':
            return np.asarray(L.svd(x)[1])
        if nm == 'norm1':
            return L.norm(y)
        return getattr(L, nm)(x)
    return cplx_call('linalg.' + nm, f, (a, b), rtol=tol * 10, atol=tol * 20, key=nm, dtype=False)


@op('C30', 'cplx_method', 2)
def _(g):
    """Methods, assignment and conversion of complex values."""
    a = carr(g, nd=(1, 2))
    how = g.pick(['setitem', 'fill', 'astype_f', 'clip', 'round', 'dot', 'take', 'item', 'into_real', 'real', 'imag', 'conj',
                  'full', 'full_real', 'linspace', 'arange', 'list'])
    z = complex(g.int(-5, 5), g.int(1, 5))
    if how == 'setitem':
        f = lambda m, x: (lambda y: (y.__setitem__((0,) * x.ndim, z), y)[1])(m.array(x, copy=True) if m is np else x.copy())
    elif how == 'fill':
        f = lambda m, x: (lambda y: (y.fill(z), y)[1])(x.copy())
    elif how == 'into_real':
        # NumPy warns and drops the imaginary part of an array, and refuses a complex scalar
        f = lambda m, x: (lambda y: (y.__setitem__(0, z), y)[1])(m.zeros(3))
    elif how == 'full':
        f = lambda m, x: m.full(x.shape, z)
    elif how == 'full_real':
        f = lambda m, x: m.full(x.shape, z, dtype='float64')
    elif how == 'linspace':
        f = lambda m, x: m.linspace(0, z, 4)
    elif how == 'arange':
        f = lambda m, x: m.arange(z)
    elif how == 'list':
        f = lambda m, x: m.array([1, 2.5, z])
    elif how == 'astype_f':
        f = lambda m, x: x.astype(g_dt)
        g_dt = g.pick(['float64', 'int32', 'bool', 'complex64', 'complex128'])
    elif how == 'clip':
        f = lambda m, x: x.clip(0, 1)
    elif how == 'round':
        a = g.wrap((np.round(a.n * 8) / 8 + (0.0371 + 0.0371j)).astype(a.n.dtype))
        f = lambda m, x: x.round(1)
    elif how == 'dot':
        a = g.wrap(a.n.ravel())
        f = lambda m, x: x.dot(x)
    elif how == 'take':
        f = lambda m, x: m.take(x, [0, -1])
    elif how == 'item':
        f = lambda m, x: x[(0,) * x.ndim]
    elif how == 'conj':
        f = lambda m, x: m.conj(x)
    else:
        f = lambda m, x: getattr(x, how)
    big, single = slack(a)
    return cplx_call(how, f, (a,), rtol='auto', atol=(1e-4 if single else 1e-10) * big ** 2 * a.n.size, key=how)
