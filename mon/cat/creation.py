"""Constructors, ranges, grids and windows (C16)."""
import numpy as np
from mon.core import *
from mon.cat import op


@op('C16', 'c_const', 2)
def _(g):
    sh = g.shape((0, 4))
    how = g.pick(['zeros', 'ones', 'full', 'fullx', 'empty'])
    dt = g.pick(ALL)
    if g.chance(0.25):
        dt = None
    form = g.pick(['tuple', 'list', 'int'])
    arg = sh[0] if form == 'int' and len(sh) == 1 else list(sh) if form == 'list' else sh
    k = np.dtype(dt or 'float64').kind
    if k in 'iu':
        ii = np.iinfo(dt)
        v = g.pick([0, 1, 7, int(ii.max), int(ii.min)])
    elif k == 'c':
        v = g.pick([1.5, 2 - 3j, 0.25j, 4])
    elif k == 'b':
        v = g.pick([True, False])
    else:
        v = g.pick([0.5, 3, -2.25, float('nan'), float('inf'), 0])
    if dt is None:
        v = g.pick([True, 3, -7, 2.5, 1 + 2j, 2**53 + 1])

    def fn(m):
        kw = {} if dt is None else {'dtype': dt}
        if how in ('full', 'fullx'):
            return m.full(arg, v, **kw)
        r = getattr(m, how)(arg, **kw)
        return np.asarray(r).shape, str(r.dtype) if how == 'empty' else r
    if how == 'empty':
        return Call('empty', lambda m: list(np.asarray(m.empty(arg, **({} if dt is None else {'dtype': dt}))).shape) +
                    [str(m.empty(arg, **({} if dt is None else {'dtype': dt})).dtype)], (), rtol=None,
                    key='%s%s' % (dt, len(sh)), note=str((arg, dt)))
    return Call(how, lambda m: fn(m) if how.startswith('full') else fn(m)[1], (), rtol=None,
                key='%s%s%s' % (dt, len(sh), form), note=str((arg, dt, v)))


@op('C16', 'c_like', 1)
def _(g):
    a = g.arr(ALL, nd=(0, 4), prof=['small', 'special'])
    how = g.pick(['zeros_like', 'ones_like', 'full_like', 'empty_like'])
    dt = None if g.chance(0.6) else g.pick(ALL)
    v = g.pick([0, 1, True])
    kw = {} if dt is None else {'dtype': dt}
    if how == 'empty_like':
        return Call(how, lambda m, x: [list(m.empty_like(x, **kw).shape), str(m.empty_like(x, **kw).dtype)], (a,),
                    rtol=None, key=str(dt))
    return Call(how, lambda m, x: m.full_like(x, v, **kw) if how == 'full_like' else getattr(m, how)(x, **kw),
                (a,), rtol=None, key=str(dt))


@op('C16', 'c_arange_int', 2)
def _(g):
    big = g.chance(0.2)
    base = g.pick([2**53, -2**53 - 9, 2**62, 2**31 - 3, -2**62]) if big else 0
    a = base + g.int(-60, 60)
    n = g.int(-3, 60)
    st = g.pick([1, 2, 3, -1, -2, 7, -9, 1])
    b = a + n * st + g.int(-abs(st) + 1, abs(st) - 1)
    form = g.pick(['1', '2', '3', '3'])
    dt = None if big or g.chance(0.4) else g.pick(['int8', 'int16', 'int32', 'int64', 'float32', 'float64',
                                                   'complex128', 'uint8', 'uint64'])
    if form == '1':
        args = (g.int(-5, 120),)
    elif form == '2':
        args = (a, a + g.int(-4, 90))
    else:
        args = (a, b, st)
    if dt and dt[0] == 'u' or dt == 'int8':
        lo = 0 if dt[0] == 'u' else -60
        args = (g.int(lo, 30), g.int(0, 120), g.int(1, 5))
    if g.chance(0.03) and len(args) == 3:
        args = (args[0], args[1], 0)
    kw = {} if dt is None else {'dtype': dt}
    return Call('arange', lambda m: m.arange(*args, **kw), (), key='%s%s%s' % (form, dt, big), note=str(args))


@op('C16', 'c_arange_float', 2)
def _(g):
    a = round(float(g.rng.uniform(-20, 20)), 2)
    st = g.pick([0.1, 0.25, 0.5, 1.0, 0.3, -0.1, -0.75, 2.5, 1e-3])
    n = g.int(0, 80)
    b = a + (n - 0.5) * st          # off the lattice: the length does not hang on one rounding
    form = g.pick(['1', '2', '3', '3', '3'])
    dt = None if g.chance(0.6) else g.pick(['float32', 'float64', 'complex128'])
    if g.chance(0.3):
        # a stop on a lattice of binary fractions, or just to one side of it
        a, st = g.int(-40, 40) / 4, g.pick([0.25, 0.5, 1.0, 2.5, -0.125, -1.0])
        b = a + n * st + g.pick([0, 0, 1, -1]) * abs(st) * g.pick([1e-6, 1e-9, 1e-11])
        form = '3'
    args = {'1': (abs(b) + 0.25,), '2': (a, a + n * 0.9 + 0.05), '3': (a, b, st)}[form]
    if g.chance(0.05):
        args = (0.0, 5.0, g.pick([0.0, float('nan')]))
    kw = {} if dt is None else {'dtype': dt}
    return Call('arange', lambda m: m.arange(*args, **kw), (), atol=2e-3 if dt == 'float32' else 1e-9,
                key='%s%s' % (form, dt), note=str(args))


@op('C16', 'c_linspace', 2)
def _(g):
    dt = None if g.chance(0.6) else g.pick(['float32', 'float64', 'int64', 'int32', 'complex128'])
    if dt and dt.startswith('int'):
        n = g.int(0, 20)
        # integer steps plus a fraction that never lands next to an integer
        a = float(g.int(-30, 30)) + 0.4
        b = a + g.int(-4, 5) * max(n - 1, 1)
        # (fractions stay 0.4: floor is unambiguous)
    else:
        n = g.pick([0, 1, 2, 3, 10, 50, g.int(1, 120)])
        a, b = [float(x) for x in g.rng.uniform(-50, 50, 2)]
        if g.chance(0.2):
            a, b = float(g.int(-3, 3)), float(g.int(-3, 3))
    kw = {} if dt is None else {'dtype': dt}

    def fn(m):
        r = m.linspace(a, b, n, **kw)
        # both ends are the requested values themselves
        ends = [r[0], r[-1]] if n > 1 and dt in (None, 'float64') else []
        return [r] + [float(x) for x in ends]

    def eqv(e, r):
        k = compare(e[0], r[0], 'auto', 1e-5 if dt == 'float32' else 1e-11)
        k += compare(e[1:], r[1:], None)
        return k
    return Call('linspace', fn, (), eqv=eqv, key='%s%d' % (dt, n), note=str((a, b, n)))


@op('C16', 'c_logspace', 1)
def _(g):
    how = g.pick(['logspace', 'geomspace'])
    n = g.pick([0, 1, 2, 5, g.int(2, 60)])
    dt = None if g.chance(0.7) else g.pick(['float32', 'float64'])
    kw = {} if dt is None else {'dtype': dt}
    if how == 'logspace':
        a, b = [round(float(x), 3) for x in g.rng.uniform(-4, 4, 2)]
        base = g.pick([10.0, 2.0, 2.718281828, 0.5])
        return Call(how, lambda m: m.logspace(a, b, n, base=base, **kw), (), key='%s%d' % (dt, n), note=str((a, b, base)))
    a, b = [float(x) for x in g.rng.uniform(0.01, 500, 2)]
    if g.chance(0.3):
        a, b = -a, -b
    if g.chance(0.05):
        a = 0.0

    def fn(m):
        r = m.geomspace(a, b, n, **kw)
        return [r] + ([float(r[0]), float(r[-1])] if n > 1 and dt in (None, 'float64') else [])

    def eqv(e, r):
        return compare(e[0], r[0], 'auto') + compare(e[1:], r[1:], None)
    return Call(how, fn, (), eqv=eqv, key='%s%d' % (dt, n), note=str((a, b, n)))


@op('C16', 'c_matrix', 2)
def _(g):
    how = g.pick(['eye', 'identity', 'tri', 'trim', 'diag', 'diagflat'])
    n, mm = g.int(0, 9), g.int(0, 9)
    k = g.int(-6, 6)
    dt = None if g.chance(0.3) else g.pick(ALL)
    kw = {} if dt is None else {'dtype': dt}
    v = g.arr(ALL, nd=(1, 1), cap=9, prof=['small', 'wide', 'special'])
    w = g.arr(ALL, nd=(1, 2), cap=12, prof=['small', 'wide', 'special'])

    def fn(m, v, w):
        if how == 'tri':
            return m.tri(n, k=k, **kw)
        if how == 'trim':
            return m.tri(n, mm, k, **kw)
        if how == 'diag':
            return m.diag(v)
        if how == 'diagflat':
            return m.diagflat(w, k)
        return getattr(m, how)(n, **kw)
    return Call(how, fn, (v, w), rtol=None, key='%s%s' % (dt, k), note=str((n, mm, k)))


@op('C16', 'c_grid', 2)
def _(g):
    how = g.pick(['indices', 'mgrid', 'ogrid', 'mgridj', 'fromfunction'])
    nd = g.int(1, 3) if how not in ('indices', 'fromfunction') else g.pick([1, 2, 2, 3, 3, 4])
    sh = tuple(g.int(0, 5) for _ in range(nd))
    dt = None if g.chance(0.5) else g.pick(['int32', 'float64', 'float64', 'uint8', 'float32', 'int64'])
    kw = {} if dt is None else {'dtype': dt}
    sl = []
    for _ in range(nd):
        a = g.int(-4, 4)
        st = g.pick([None, 1, 2, 3])
        sl.append(slice(a, a + g.int(1, 9), st))
    if how == 'mgridj':
        sl = [slice(float(g.int(-3, 3)), float(g.int(4, 9)), complex(0, g.int(2, 7)))]
    key = tuple(sl) if len(sl) > 1 else sl[0]

    def fn(m):
        if how == 'indices':
            return m.indices(sh, **kw)
        if how == 'fromfunction':
            f = lambda *ix: sum((i + 2) * x for i, x in enumerate(ix))
            return np.fromfunction(f, sh) if m is np else m.fromfunction(sh, f)
        r = getattr(m, how.rstrip('j'))[key]
        return list(r) if len(sl) > 1 else r
    return Call(how, fn, (), atol=1e-12, dtype=how != 'fromfunction', key='%d%s' % (nd, dt), note=str((sh, key)))


@op('C16', 'c_window', 1)
def _(g):
    how = g.pick(['bartlett', 'blackman', 'hamming', 'hanning', 'kaiser'])
    n = g.pick([0, 1, 2, 3, 4, 5, g.int(1, 100)])
    beta = g.pick([0.0, 5.0, 8.6, 14.0, 1.5])
    return Call(how, lambda m: m.kaiser(n, beta) if how == 'kaiser' else getattr(m, how)(n), (),
                rtol=1e-6 if how == 'kaiser' else 1e-9, atol=1e-13, key=str(n))


@op('C16', 'c_copy', 1)
def _(g):
    """copy, ascontiguousarray and asfortranarray keep the content"""
    a = g.arr(ALL, nd=(1, 4), prof=['small', 'wide', 'special'])
    how = g.pick(['copy', '.copy', 'ascontiguousarray', 'asfortranarray'])
    return Call(how, lambda m, x: x.copy() if how == '.copy' else getattr(m, how)(x), (a,), rtol=None)


@op('C16', 'c_require', 1)
def _(g):
    """require keeps the content and meets the requirements"""
    a = g.arr(ALL, nd=(1, 4), prof=['small', 'special'])
    req = g.pick([None, 'C', 'F'])
    dt = None if g.chance(0.6) else g.pick(['float64', 'complex128'])
    if dt == 'float64' and a.n.dtype.kind == 'c':
        dt = None

    def f(m, x):
        y = m.require(x, dt, req)
        fl = np.asarray(y).flags
        return y, bool(fl.c_contiguous if req == 'C' else fl.f_contiguous if req == 'F' else True)
    return Call('require', f, (a,), rtol=None, key='%s%s' % (req, dt))
