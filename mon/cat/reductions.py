"""Reductions (C08), scans and differences (C09), NaN-aware and order statistics (C10)."""
import numpy as np
from mon.core import *
from mon.cat import op


def ax(g, nd, none=0.35):
    if nd == 0 or g.chance(none):
        return None
    return g.axis(nd)


def red(name, dts, profs, grp='C08', exact=True, nd=(0, 4), empty=0.04, w=1.0, meth=True, rtol=None, atol=0.0,
        fn=True, post=None, axis=True, kd=True, tag=''):
    def gen(g):
        dt = g.pick(dts)
        a = g.arr(dt, nd=nd, empty=empty, prof=g.pick(profs), cap=500)
        axis_ = ax(g, a.n.ndim) if axis else None
        kw = {}
        if axis_ is not None:
            kw['axis'] = axis_
        m = meth and (not fn or g.chance(0.4))
        if m and kd and g.chance(0.4):
            kw['keepdims'] = True
        r = rtol if rtol is not None else (None if exact else 'auto')
        at = atol(a) if callable(atol) else atol
        if m:
            return Call('.' + name, lambda mm, x, kw: getattr(x, name)(**kw), (a, kw), rtol=r, atol=at,
                        key=(axis_ is None, 'keepdims' in kw))
        return Call(name, lambda mm, x, kw: getattr(mm, name)(x, **kw), (a, kw), rtol=r, atol=at,
                    key=axis_ is None)
    op(grp, name + tag, w)(gen)
    return gen


def scale(a):
    """Absolute slack for sums that may cancel."""
    d = a.n.dtype
    eps = {'float16': 2e-3, 'float32': 2e-6, 'complex64': 4e-6}.get(str(d), 1e-13)
    if d.kind not in 'fc' or a.n.size == 0:
        return 1e-9
    v = np.abs(a.n.astype(complex if d.kind == 'c' else float))
    v = v[np.isfinite(v)]
    return float(eps * (v.sum() + 1e-3)) if v.size else 0.0


def scale2(a):
    d = a.n.dtype
    eps = {'float16': 1e-2, 'float32': 1e-5, 'complex64': 1e-5}.get(str(d), 1e-12)
    if a.n.size == 0:
        return 0.0
    v = np.abs(a.n.astype(complex if d.kind == 'c' else float))
    v = v[np.isfinite(v)]
    return float(eps * (v.max() ** 2 + 1e-3)) if v.size else 0.0


red('sum', BOOL + INT, ['small', 'wide', 'dups'], w=2)


@op('C08', 'sum_float', 2)
def _(g):
    a = g.arr(FLOAT + CPLX, nd=(0, 4), prof=g.pick(['small', 'frac', 'int']), cap=500)
    if a.n.dtype.kind == 'f' and g.chance(0.3):
        a = g.arr(FLOAT, nd=(0, 4), prof='special', cap=500)
        big = np.abs(a.n) > 1e30
        v = np.where(big & np.isfinite(a.n), 1, a.n).astype(a.n.dtype)
        a = g.wrap(v)
    axis_ = ax(g, a.n.ndim)
    nm = g.pick(['sum', 'mean'])
    kw = {} if axis_ is None else {'axis': axis_}
    if nm == 'mean' and a.n.size == 0:
        nm = 'sum'
    if g.chance(0.4):
        if g.chance(0.4):
            kw['keepdims'] = True
        return Call('.' + nm, lambda m, x, kw: getattr(x, nm)(**kw), (a, kw), atol=scale(a), key=axis_ is None)
    return Call(nm, lambda m, x, kw: getattr(m, nm)(x, **kw), (a, kw), atol=scale(a), key=axis_ is None)


@op('C08', 'mean_int')
def _(g):
    a = g.arr(BOOL + INT, nd=(0, 4), empty=0.04, prof=g.pick(['small', 'dups']), cap=500)
    axis_ = ax(g, a.n.ndim)
    kw = {} if axis_ is None else {'axis': axis_}
    return Call('mean', lambda m, x, kw: m.mean(x, **kw), (a, kw), key=axis_ is None)


red('prod', BOOL + INT, ['small', 'dups', 'unit'])
for _n in ('max', 'min', 'amax', 'amin', 'argmax', 'argmin', 'ptp'):
    # ordered by real part, then imaginary; which of several NaN elements is shown depends on NumPy's traversal
    red(_n, CPLX, ['small', 'dups', 'dups', 'wide'] + (['special'] if _n.startswith('arg') else []), w=0.5, kd=False, tag='_cplx',
        meth=_n[0] == 'm' or _n.startswith('arg'), empty=0 if _n == 'ptp' else 0.04)


@op('C08', 'prod_float')
def _(g):
    a = g.arr(FLOAT + CPLX, nd=(0, 3), prof=g.pick(['pos', 'unit', 'dups']), cap=20)
    axis_ = ax(g, a.n.ndim)
    kw = {} if axis_ is None else {'axis': axis_}
    return Call('prod', lambda m, x, kw: m.prod(x, **kw), (a, kw), rtol=1e-4 if a.n.dtype.itemsize == 4 else 1e-4,
                atol=1e-20)


for _n in ('max', 'min'):
    red(_n, ALLREAL, ['small', 'wide', 'special', 'dups'], w=2)


@op('C08', 'amaxmin')
def _(g):
    a = g.arr(ALLREAL, nd=(0, 3), prof=g.pick(['small', 'wide', 'special']))
    nm = g.pick(['amax', 'amin'])
    axis_ = ax(g, a.n.ndim)
    kw = {} if axis_ is None else {'axis': axis_}
    return Call(nm, lambda m, x, kw: getattr(m, nm)(x, **kw), (a, kw), rtol=None)


for _n in ('argmax', 'argmin'):
    red(_n, ALLREAL, ['small', 'wide', 'special', 'dups'], w=1.5, kd=False)
for _n in ('all', 'any'):
    red(_n, ALL, ['dups', 'special', 'unit'])


@op('C08', 'ptp')
def _(g):
    a = g.arr(INT + FLOAT, nd=(0, 3), empty=0, prof='small')
    axis_ = ax(g, a.n.ndim)
    kw = {} if axis_ is None else {'axis': axis_}
    return Call('ptp', lambda m, x, kw: m.ptp(x, **kw), (a, kw), rtol=None)


@op('C08', 'count_nonzero')
def _(g):
    return Call('count_nonzero', lambda m, x: m.count_nonzero(x), (g.arr(ALL, prof=g.pick(['dups', 'special'])),), rtol=None)


for _n in ('var', 'std'):
    @op('C08', _n)
    def _(g, _n=_n):
        a = g.arr(INT + FLOAT + CPLX, nd=(0, 3), empty=0.04, prof=g.pick(['small', 'frac', 'dups']))
        axis_ = ax(g, a.n.ndim)
        kw = {} if axis_ is None else {'axis': axis_}
        at = scale2(a)
        at = at if _n == 'var' else max(at, at ** 0.5)
        if g.chance(0.4):
            if g.chance(0.4):
                kw['keepdims'] = True
            return Call('.' + _n, lambda m, x, kw: getattr(x, _n)(**kw), (a, kw), atol=at)
        return Call(_n, lambda m, x, kw: getattr(m, _n)(x, **kw), (a, kw), atol=at)


@op('C08', 'average')
def _(g):
    a = g.arr(FLOAT + ['int64', 'int32'] + CPLX, nd=(1, 3), empty=0.04, prof='small')
    axis_ = ax(g, a.n.ndim, 0.5)
    # NumPy divides by the number of lanes, and so refuses to average none of them
    if g.chance(0.4) and (a.n.size > 0 or axis_ is None):
        w = None
        kw = {} if axis_ is None else {'axis': axis_}
        return Call('average', lambda m, x, kw: m.average(x, **kw), (a, kw), atol=scale(a), dtype=False)
    if axis_ is None:
        w = g.arr('float64', a.n.shape, prof='pos')
    else:
        w = g.arr('float64', a.n.shape if g.chance(0.3) else (a.n.shape[axis_],), prof='pos')
    if g.chance(0.1):
        v = w.n.copy()
        v[np.arange(v.shape[0]) >= g.int(0, v.shape[0])] = 0
        w = g.wrap(v)
    return Call('average', lambda m, x, w, ax: m.average(x, axis=ax, weights=w), (a, w, axis_), rtol=2e-5, atol=scale(a) + 1e-5,
                dtype=False, key=axis_ is None)


@op('C08', 'multi_axis', 2)
def _(g):
    nm = g.pick(['sum', 'prod', 'mean', 'var', 'std', 'max', 'min', 'all', 'any', 'ptp'])
    flt = nm in ('mean', 'var', 'std')
    a = g.arr(['float64', 'float32', 'int64', 'int16', 'complex128'], nd=(2, 4), empty=0, cap=200,
              prof='unit' if nm == 'prod' else 'small')
    k = g.int(1, a.n.ndim)
    axes = [i - (a.n.ndim if g.chance(0.3) else 0) for i in g.perm(a.n.ndim)[:k]]
    if g.chance(0.05) and k > 1:
        axes[1] = axes[0]
    at = max(scale2(a), scale2(a) ** 0.5) if flt else scale(a)
    return Call(nm + '(axes)', lambda m, x, ax: getattr(m, nm)(x, axis=ax), (a, tuple(axes)), atol=at, rtol=1e-4, key=k)


def _moment(x, k, axis, kd):
    x = x.astype(float)
    return ((x - x.mean(axis=axis, keepdims=True)) ** k).mean(axis=axis, keepdims=kd)


@op('C08', 'moments')
def _(g):
    nm = g.pick(['moment', 'skew', 'kurtosis'])
    a = g.arr(['float64', 'int64', 'int8'], nd=(1, 3), empty=0, prof='small', mindim=2)
    axis_ = ax(g, a.n.ndim)
    kd = g.chance(0.4)
    k = g.int(1, 4)

    def ref(m, x, kw):
        if nm == 'moment':
            return _moment(x, k, axis_, kd)
        m2 = _moment(x, 2, axis_, kd)
        if np.any(m2 < 1e-6):
            raise ValueError('degenerate')
        if nm == 'skew':
            return _moment(x, 3, axis_, kd) / m2 ** 1.5
        return _moment(x, 4, axis_, kd) / m2 ** 2 - 3

    def f(m, x, kw):
        return getattr(x, nm)(*([k] if nm == 'moment' else []), **kw)
    kw = {'keepdims': kd}
    if axis_ is not None:
        kw['axis'] = axis_
    return Call('.' + nm, f, (a, kw), ref=ref, rtol=1e-7, atol=1e-8, err='skip', dtype=False, key=(k, kd, axis_ is None))


@op('C08', 'bad_axis')
def _(g):
    nm = g.pick(['sum', 'prod', 'mean', 'var', 'std', 'max', 'min', 'all', 'any', 'ptp', 'argmax', 'argmin'])
    a = g.arr(['float64', 'int64'], nd=(1, 3), empty=0)
    axis_ = g.pick([a.n.ndim, a.n.ndim + 3, -a.n.ndim - 1, -a.n.ndim - 4])
    if g.chance(0.4) and nm != 'ptp':
        return Call('.' + nm, lambda m, x, k: getattr(x, nm)(axis=k), (a, axis_))
    return Call(nm, lambda m, x, k: getattr(m, nm)(x, axis=k), (a, axis_))


# -- scans ------------------------------------------------------------------------
@op('C09', 'cumsum', 2)
def _(g):
    dt = g.pick(BOOL + INT + FLOAT + CPLX)
    k = np.dtype(dt).kind
    a = g.arr(dt, nd=(0, 3), prof=g.pick(['small', 'wide', 'dups']) if k in 'biu' else 'small')
    axis_ = ax(g, a.n.ndim)
    kw = {} if axis_ is None else {'axis': axis_}
    rt = None if k in 'biu' else 'auto'
    if g.chance(0.4):
        return Call('.cumsum', lambda m, x, kw: x.cumsum(**kw), (a, kw), rtol=rt, atol=scale(a))
    return Call('cumsum', lambda m, x, kw: m.cumsum(x, **kw), (a, kw), rtol=rt, atol=scale(a))


@op('C09', 'cumprod', 2)
def _(g):
    dt = g.pick(BOOL + INT + FLOAT + CPLX)
    k = np.dtype(dt).kind
    a = g.arr(dt, nd=(0, 3), cap=100 if k in 'fc' else 300, prof='unit' if k in 'fc' else g.pick(['small', 'unit', 'dups']))
    axis_ = ax(g, a.n.ndim)
    kw = {} if axis_ is None else {'axis': axis_}
    rt = None if k in 'biu' else 1e-3
    if g.chance(0.4):
        return Call('.cumprod', lambda m, x, kw: x.cumprod(**kw), (a, kw), rtol=rt, atol=1e-30)
    return Call('cumprod', lambda m, x, kw: m.cumprod(x, **kw), (a, kw), rtol=rt, atol=1e-30)


@op('C09', 'cumulative')
def _(g):
    nm = g.pick(['cumulative_sum', 'cumulative_prod'])
    dt = g.pick(['int64', 'int32', 'float64', 'uint64'])
    a = g.arr(dt, nd=(1, 3), prof='dups')
    axis_ = g.axis(a.n.ndim)
    kw = dict(axis=axis_)
    if g.chance(0.5):
        kw['include_initial'] = True
    return Call(nm, lambda m, x, kw: getattr(m, nm)(x, **kw), (a, kw), atol=1e-12)


@op('C09', 'nancum')
def _(g):
    nm = g.pick(['nancumsum', 'nancumprod'])
    a = g.arr(FLOAT, nd=(0, 3), prof='nan', cap=120)
    if nm == 'nancumprod':
        a = g.wrap(np.clip(a.n, -1, 1))
    axis_ = ax(g, a.n.ndim)
    kw = {} if axis_ is None else {'axis': axis_}
    return Call(nm, lambda m, x, kw: getattr(m, nm)(x, **kw), (a, kw), atol=1e-9)


@op('C09', 'diff', 2)
def _(g):
    dt = g.pick(INT + FLOAT + CPLX)
    a = g.arr(dt, nd=(1, 3), prof=g.pick(['small', 'wide']) if np.dtype(dt).kind in 'iu' else 'small')
    kw = {}
    if g.chance(0.5):
        kw['n'] = g.int(0, 3)
    if g.chance(0.5):
        kw['axis'] = g.axis(a.n.ndim)
    return Call('diff', lambda m, x, kw: m.diff(x, **kw), (a, kw), rtol=None if np.dtype(dt).kind in 'iu' else 'auto',
                atol=1e-12 if a.n.dtype.itemsize > 4 else 1e-4, key=kw.get('n'))


@op('C09', 'ediff1d')
def _(g):
    dt = g.pick(['int64', 'float64', 'float32', 'int32'])
    a = g.arr(dt, nd=(1, 2), prof='small')
    kw = {}
    return Call('ediff1d', lambda m, x, kw: m.ediff1d(x, **kw), (a, kw))


@op('C09', 'ediff1d_ends')
def _(g):
    dt = g.pick(['int64', 'float64'])
    a = g.arr(dt, nd=(1, 2), prof='small')
    b = g.arr(dt, nd=(1, 1), prof='small')
    c = g.arr(dt, nd=(1, 1), prof='small')
    k = g.int(0, 2)
    return Call('ediff1d', lambda m, x, b, c: m.ediff1d(x, to_end=b if k != 1 else None, to_begin=c if k != 0 else None), (a, b, c))


@op('C09', 'gradient')
def _(g):
    a = g.arr(FLOAT + ['int64', 'int8', 'uint8', 'int16', 'uint32'], nd=(1, 3), prof='small', mindim=2, empty=0)
    kw = {}
    if a.n.ndim > 1 and g.chance(0.7):
        kw['axis'] = g.axis(a.n.ndim)
    elif g.chance(0.3):
        kw['axis'] = g.axis(a.n.ndim)
    va = ()
    if g.chance(0.4):
        va = (g.pick([0.5, 2.0, 3.0]),)
    return Call('gradient', lambda m, x, va, kw: m.gradient(x, *va, **kw), (a, va, kw), atol=1e-5, dtype=False)


@op('C09', 'gradient_coords')
def _(g):
    a = g.arr(FLOAT + ['int64', 'uint8'], nd=(1, 3), prof='small', mindim=1, empty=0)
    ax = g.axis(a.n.ndim)
    n = a.n.shape[ax] + (g.int(-1, 1) if g.chance(0.1) else 0)
    x = np.cumsum(g.pick([np.ones(n), np.array([g.pick([0.25, 0.5, 1, 3]) for _ in range(n)])]))
    x = g.wrap(x if g.chance(0.8) else x[::-1])
    kw = {'axis': ax} if a.n.ndim > 1 and g.chance(0.9) else {}
    return Call('gradient', lambda m, f, x, kw: m.gradient(f, x, **kw), (a, x, kw), atol=1e-5, rtol=1e-6, dtype=False)


@op('C09', 'trapezoid')
def _(g):
    a = g.arr(FLOAT + ['int64'], nd=(1, 3), prof='small', mindim=1, empty=0)
    kw = {}
    if g.chance(0.6):
        kw['axis'] = g.axis(a.n.ndim)
    if g.chance(0.5):
        kw['dx'] = g.pick([0.5, 2.0])
    return Call('trapezoid', lambda m, x, kw: m.trapezoid(x, **kw), (a, kw), atol=1e-4, rtol=1e-5, dtype=False)


@op('C09', 'trapezoid_x')
def _(g):
    a = g.arr(FLOAT, nd=(1, 3), prof='small', mindim=1, empty=0)
    axis_ = g.axis(a.n.ndim)
    n = a.n.shape[axis_] + (g.int(-1, 1) if g.chance(0.08) and a.n.shape[axis_] > 3 else 0)
    x = g.arr('float64', a.n.shape if g.chance(0.3) else (n,), prof='small')
    return Call('trapezoid', lambda m, y, x, ax: m.trapezoid(y, x=x, axis=ax), (a, x, axis_), atol=1e-3, rtol=1e-5, dtype=False)


@op('C09', 'unwrap')
def _(g):
    a = g.arr('float64', nd=(1, 3), prof='small', mindim=1, empty=0)
    kw = {}
    if g.chance(0.5):
        kw['axis'] = g.axis(a.n.ndim)
    if g.chance(0.3):
        kw['period'] = g.pick([4.0, 7.0])
    if g.chance(0.3):
        kw['discont'] = 4.0
    # keep away from exact half-period jumps
    a = g.wrap(a.n * 1.003 + 0.0007)
    return Call('unwrap', lambda m, x, kw: m.unwrap(x, **kw), (a, kw), atol=1e-7)


# -- NaN-aware and order statistics --------------------------------------------------
def nanred(name, rt='auto', at=0.0, prof=('nan', 'nan', 'small'), cap=300, dts=FLOAT, kw_=None):
    @op('C10', name)
    def gen(g):
        a = g.arr(dts, nd=(0, 3), empty=0.04, prof=g.pick(list(prof)), cap=cap)
        axis_ = ax(g, a.n.ndim)
        kw = {} if axis_ is None else {'axis': axis_}
        atol = at(a) if callable(at) else at
        inf = a.n.dtype.kind == 'f' and g.chance(0.15)
        if inf:
            a = with_inf(g, a)
        return Call(name, lambda m, x, kw: getattr(m, name)(x, **kw), (a, kw), rtol=rt, atol=atol, key=(axis_ is None, inf))
    return gen


def with_inf(g, a):
    """Infinities of one or both signs among the elements."""
    v = a.n.copy()
    put = g.rng.random(v.shape) < g.pick([0.05, 0.3, 1.0])
    v[put] = g.rng.choice(g.pick([[np.inf], [-np.inf], [np.inf, -np.inf]]), v.shape)[put]
    v[g.rng.random(v.shape) < g.pick([0, 0.3])] = np.nan
    return g.wrap(v)


nanred('nansum', at=scale, dts=FLOAT + ['int64', 'int32', 'uint8', 'bool'])
nanred('nanprod', rt=1e-3, at=1e-12, cap=60)
nanred('nanmean', at=scale)
nanred('nanvar', rt=1e-4, at=scale2)
nanred('nanstd', rt=1e-4, at=lambda a: max(scale2(a), scale2(a) ** 0.5))
nanred('nanmax', rt=None, dts=FLOAT + ['int64', 'int16'])
nanred('nanmin', rt=None, dts=FLOAT + ['int64', 'int16'])
nanred('nanmedian', rt='auto', at=1e-9)


@op('C10', 'nanarg')
def _(g):
    nm = g.pick(['nanargmax', 'nanargmin'])
    a = g.arr(FLOAT + INT, nd=(1, 3), empty=0.04, prof=g.pick(['nan', 'dups', 'small', 'wide']))
    axis_ = ax(g, a.n.ndim)
    kw = {} if axis_ is None else {'axis': axis_}
    if a.n.dtype.kind == 'f' and a.n.size and g.chance(0.3):
        a = with_inf(g, a)

        def ref(m, x, kw):
            # NumPy replaces NaN by an infinity and cannot tell the two apart
            plain, x = getattr(np, nm[3:]), np.asarray(x)
            lanes = x.reshape(1, -1) if not kw else np.moveaxis(x, kw['axis'], -1).reshape(-1, x.shape[kw['axis']])
            if np.isnan(lanes).all(axis=1).any():
                raise ValueError('All-NaN slice')
            r = np.array([np.flatnonzero(~np.isnan(q))[plain(q[~np.isnan(q)])] for q in lanes])
            return r[0] if not kw else r.reshape(np.delete(x.shape, kw['axis']))
        return Call(nm, lambda m, x, kw: getattr(m, nm)(x, **kw), (a, kw), rtol=None, ref=ref, key='inf')
    return Call(nm, lambda m, x, kw: getattr(m, nm)(x, **kw), (a, kw), rtol=None)


@op('C10', 'median', 2)
def _(g):
    a = g.arr(INT + FLOAT, nd=(0, 3), empty=0.04, prof=g.pick(['small', 'dups', 'distinct', 'nan']))
    axis_ = ax(g, a.n.ndim)
    kw = {} if axis_ is None else {'axis': axis_}
    return Call('median', lambda m, x, kw: m.median(x, **kw), (a, kw), rtol='auto', atol=1e-9, dtype=False)


def quant(g, nm, dts, prof):
    a = g.arr(dts, nd=(1, 3), empty=0.05, prof=prof)
    axis_ = ax(g, a.n.ndim)
    if nm[:3] == 'nan' and a.n.size == 0:
        # NumPy leaves out the axis of the positions here: only the values are compared, one position at a time
        axis_ = None if axis_ is None else a.n.shape.index(0)
        if sum(n == 0 for n in a.n.shape) > 1:
            axis_ = None
    s = 100.0 if 'percentile' in nm else 1.0
    if g.chance(0.6) or a.n.size == 0 and nm[:3] == 'nan':
        q = g.pick([0.0, 0.25, 0.5, 0.75, 1.0, 0.1, 0.33, 0.99]) * s
    else:
        q = [v * s for v in g.subset([0.0, 0.1, 0.25, 0.5, 0.6, 0.9, 1.0], g.int(1, 4))]
    kw = {} if axis_ is None else {'axis': axis_}
    def fn(m, x, q, kw):
        r = getattr(m, nm)(x, q, **kw)
        return np.atleast_1d(r) if m is np else r   # rumpy gives a one-element array where NumPy gives a scalar
    # NumPy interpolates float32 data in float32: the position itself carries a rounding error
    f32 = a.n.dtype == np.float32
    return Call(nm, fn, (a, q, kw), rtol=1e-5 if f32 else 1e-9, atol=2e-3 if f32 else 1e-9, dtype=False,
                key=(axis_ is None, type(q).__name__))


@op('C10', 'quantile', 2)
def _(g):
    return quant(g, g.pick(['quantile', 'percentile']), INT + FLOAT, g.pick(['small', 'dups', 'distinct']))


@op('C10', 'nanquantile', 2)
def _(g):
    return quant(g, g.pick(['nanquantile', 'nanpercentile']), FLOAT, g.pick(['nan', 'small']))
