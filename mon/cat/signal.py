"""Convolution, interpolation, histograms, covariance, polynomials and the
complex-extended functions."""
import numpy as np
from mon.core import CPLX, FLOAT, Call, Violation
from mon.cat import op

SM = ['bool', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint32', 'float32', 'float64', 'float16', 'uint16', 'uint64']


def vec(g, n, pool=SM, prof=None):
    dt = g.pick(pool)
    return g.arr(dt, (n,), prof=None if dt == 'bool' else prof or g.pick(['small', 'int', 'frac', 'pos']))


def dbl(x):
    return np.asarray(x).astype(complex if np.asarray(x).dtype.kind == 'c' else np.float64)


def mag(*arrs):
    m = 1.0
    for a in arrs:
        v = np.abs(a.n.astype(float))
        v = v[np.isfinite(v)]
        m *= max(1.0, float(v.max()) if v.size else 1.0) * max(1, v.size)
    return m


def length(g, big):
    if big:
        return g.pick([251, 700, 720, 1000, 1500, 2000])
    return g.pick([1, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 33])


def conv(fname):
    def gen(g):
        big = g.chance(0.03)
        n, m = length(g, big), length(g, big)
        if big and g.chance(0.5):
            # a full length beside a power of two, where transforms change size
            t = g.pick([2048, 4096]) + g.pick([-1, 0, 1, 1, 2])
            n = t // 2 + g.int(-200, 200)
            m = t + 1 - n
        if g.chance(0.03):
            n, m = g.pick([(0, m), (n, 0), (0, 0)])
        a, v = vec(g, n), vec(g, m)
        if g.chance(0.06):
            y = vec(g, n, FLOAT).n.copy()
            y[:1] = g.pick([np.nan, np.inf, -np.inf])
            a = g.wrap(y, bcast=False)
        mode = g.pick(['full', 'same', 'valid', 'full', 'same', 'valid', None])
        args = [x for x in (mode,) if x]
        if mode is None and fname == 'correlate':
            mode = 'full'        # rumpy's default, where numpy's is 'valid'
        bad = g.chance(0.02)
        if bad:
            args, mode = ['middle'], 'middle'
        return Call(fname, lambda mod, x, y: getattr(mod, fname)(x, y, *args), (a, v), dtype=False,
                    ref=lambda mod, x, y: getattr(np, fname)(dbl(x), dbl(y), mode or 'full'),
                    rtol=1e-9, atol=1e-12 * mag(a, v),
                    key='%s|%s|%s|%s' % (mode, (n > m) - (n < m), n % 2, m % 2), note='mode=%s' % mode)
    return gen


op('C25', 'convolve', 3)(conv('convolve'))
op('C25', 'correlate', 3)(conv('correlate'))


@op('C25', 'interp', 4)
def _(g):
    n = g.pick([1, 2, 3, 5, 8, 17, 40])
    xv = np.sort(g.rng.choice(np.arange(-60, 60), n, replace=False))
    dt = g.pick(['int16', 'int32', 'int64', 'float32', 'float64', 'float16'])
    xp = g.wrap((xv / 4 if dt[0] == 'f' else xv).astype(dt), bcast=False)
    fp = vec(g, n)
    if g.chance(0.05):
        fp = vec(g, n + g.pick([-1, 1]) if n > 1 else n + 1)
    x = g.arr(g.pick(['int8', 'int32', 'int64', 'float32', 'float64', 'float16', 'uint8']), nd=(0, 3), cap=60, prof=g.pick(['small', 'int', 'frac']))
    if g.chance(0.5):       # exactly on the sample points, the ends included
        sh = x.n.shape
        x = g.wrap(g.rng.choice(xp.n, sh).astype(dt))
    if x.n.dtype.kind == 'f' and g.chance(0.1):
        y = x.n.copy()
        y.reshape(-1)[:1] = g.pick([np.nan, np.inf, -np.inf])
        x = g.wrap(y)
    kw = {}
    if g.chance(0.4):
        kw['left'] = float(g.int(-99, -50))
    if g.chance(0.4):
        kw['right'] = float(g.int(50, 99))
    return Call('interp', lambda m, a, b, c: m.interp(a, b, c, **kw), (x, xp, fp),
                ref=lambda m, a, b, c: np.asarray(np.interp(dbl(a), dbl(b), dbl(c), **kw)),
                rtol=1e-9, atol=1e-9, key='%s|%s' % (n, sorted(kw)), note=str(kw))


# -- histograms ----------------------------------------------------------
def sample(g, n):
    return vec(g, n, ['int8', 'int32', 'int64', 'uint8', 'uint16', 'float32', 'float64', 'float16'],
               g.pick(['small', 'int', 'frac', 'dups']))


def rng(g):
    lo = g.int(-12, 4)
    return (float(lo), float(lo + g.int(1, 16)))


@op('C25', 'histogram', 3)
def _(g):
    a = sample(g, g.pick([0, 1, 2, 5, 17, 64, 200]))
    if g.chance(0.2):
        a = g.arr(g.pick(['int16', 'float64']), nd=(0, 3), prof='small')
    bins, r = g.pick([None, 1, 2, 3, 5, 8, 10, 16]), rng(g) if g.chance(0.4) else None
    kw = {k: v for k, v in (('bins', bins), ('range', r)) if v is not None}

    def ref(m, x):
        c, e = np.histogram(dbl(x), **kw)
        return [steady(dbl(x), e, c), e]

    def run(m, x):
        c, e = m.histogram(x, **kw)
        return [steady(dbl(x), np.histogram_bin_edges(dbl(x), **kw), np.asarray(c)), e]
    return Call('histogram', run, (a,), ref=ref, rtol=1e-12, atol=1e-12,
                key='%s|%s' % (bins, r is None), note=str(kw))


def steady(x, edges, counts):
    """Counts, or only their total where a value lies within rounding of an inner edge."""
    x = x.reshape(-1)
    near = np.abs(x[:, None] - edges[None, :]) < 1e-9 * max(1.0, np.abs(edges).max())
    on = x[:, None] == edges[None, :]
    fuzzy = (near & ~(on & ((edges[None, :] % 1) == 0))).any()
    return np.array([counts.sum()]) if fuzzy else counts


@op('C25', 'histogram_bin_edges', 1)
def _(g):
    a = sample(g, g.pick([0, 1, 2, 5, 17, 64]))
    kw = {}
    if g.chance(0.7):
        kw['bins'] = g.pick([1, 2, 3, 5, 8, 10])
    if g.chance(0.4):
        kw['range'] = rng(g)
    return Call('histogram_bin_edges', lambda m, x: m.histogram_bin_edges(x, **kw), (a,),
                ref=lambda m, x: np.histogram_bin_edges(dbl(x), **kw), rtol=1e-12, atol=1e-12,
                key=str(sorted(kw)), note=str(kw))


def grid(g, cols):
    """Integer samples in bins with integer edges: every count is exact."""
    kw = {}
    bins = [g.pick([1, 2, 3, 4]) for _ in range(cols)]
    if g.chance(0.4):
        bins = [bins[0]] * cols
        kw['bins'] = bins[0]
    else:
        kw['bins'] = bins
    kw['range'] = []
    for b in bins:
        lo = g.int(-9, 3)
        kw['range'].append([float(lo), float(lo + b * g.int(1, 4))])
    if g.chance(0.4):
        kw['density'] = True
    return kw


@op('C25', 'histogram2d', 2)
def _(g):
    n = g.pick([1, 3, 9, 40, 100])
    a = vec(g, n, ['int8', 'int64', 'float64', 'float16', 'uint8'], 'int')
    b = vec(g, n, ['int8', 'int64', 'float64', 'float16', 'uint8'], 'int')
    kw = grid(g, 2)
    return Call('histogram2d', lambda m, x, y: list(m.histogram2d(x, y, **kw)), (a, b),
                ref=lambda m, x, y: list(np.histogram2d(dbl(x), dbl(y), **kw)), rtol=1e-11, atol=1e-12,
                key='%s' % ('density' in kw), note=str(kw))


@op('C25', 'histogramdd', 2)
def _(g):
    n, d = g.pick([1, 3, 9, 40, 100]), g.int(1, 4)
    a = g.arr(g.pick(['int8', 'int64', 'float64', 'float16', 'uint8']), (n, d), prof='int')
    kw = grid(g, d)

    def run(m, x):
        h, e = m.histogramdd(x, **kw)
        return [h] + list(e)
    return Call('histogramdd', run, (a,), ref=lambda m, x: run(np, dbl(x)), rtol=1e-11, atol=1e-12,
                key='%s|%s' % (d, 'density' in kw), note=str(kw))


# -- covariance ----------------------------------------------------------
@op('C25', 'cov', 2)
def _(g):
    nd = g.int(1, 2)
    sh = (g.int(1, 20),) if nd == 1 else (g.int(1, 6), g.int(1, 12))
    a = g.arr(g.pick(['int8', 'int32', 'int64', 'uint8', 'float32', 'float64', 'float16']), sh, prof=g.pick(['small', 'int', 'frac']))
    if a.n.dtype == 'float64' and g.chance(0.3):
        # the mean far from zero: what is left is the spread
        a = g.wrap(np.round(a.n * 16) / 16 + g.pick([1e5, -1e7, 2.0 ** 30]))
        kw = {'ddof': g.int(0, 2)} if g.chance(0.5) else {}
        s = float(mag(a)) * 1e-14
        return Call('cov', lambda m, x: m.cov(x, **kw), (a,), dtype=False,
                    ref=lambda m, x: np.atleast_1d(np.full((sh[0],) * 2 if nd == 2 and sh[0] > 1 else (1, 1) if nd == 2 else (1,), np.nan)
                                                   if sh[-1] <= kw.get('ddof', 1) else np.cov(dbl(x), **kw).reshape((sh[0], sh[0]) if nd == 2 else (1,))),
                    rtol=1e-9, atol=s * 100, key='offset|%s' % nd, note='offset ' + str(kw))
    kw = {'ddof': g.int(0, 2)} if g.chance(0.5) else {}
    few = sh[-1] <= kw.get('ddof', 1)
    s = 2e-5 if a.n.dtype == 'float32' else 1e-10
    return Call('cov', lambda m, x: m.cov(x, **kw), (a,), dtype=False,
                ref=lambda m, x: np.atleast_1d(np.full((sh[0],) * 2 if nd == 2 and sh[0] > 1 else (1, 1) if nd == 2 else (1,), np.nan)
                                               if few else np.cov(dbl(x), **kw).reshape((sh[0], sh[0]) if nd == 2 else (1,))),
                rtol=s, atol=s * (1 + mag(a) ** 2 / a.n.size), key='%s|%s' % (nd, sh[0] == 1), note=str(kw))


@op('C25', 'corrcoef', 2)
def _(g):
    sh = (g.int(1, 6), g.int(3, 12))
    prof = g.pick(['small', 'int', 'frac'])
    a = g.arr(g.pick(['int8', 'int32', 'int64', 'float32', 'float64', 'float16']), sh, prof=prof)
    if prof != 'frac' and g.chance(0.3):  # a row that does not vary correlates with nothing
        v = a.n.copy()
        v[g.int(0, sh[0] - 1)] = g.int(-3, 4)
        a = g.wrap(v)
    sd = np.std(a.n.astype(float), axis=1)
    flat = ((sd < 0.2) & ((sd > 0) | (a.n != np.round(a.n)).any(axis=1))).any()
    tol = 1e-4 if a.n.dtype == 'float32' else 1e-9
    if flat:
        return Call('corrcoef', lambda m, x: m.corrcoef(x).shape, (a,), key='flat',
                    ref=lambda m, x: (sh[0], sh[0]))
    return Call('corrcoef', lambda m, x: m.corrcoef(x), (a,), dtype=False,
                ref=lambda m, x: np.corrcoef(dbl(x)).reshape(sh[0], sh[0]), rtol=tol, atol=tol, key='%s' % sh[0])


# -- polynomials -----------------------------------------------------------
def poly(g, lo=0, hi=7):
    return vec(g, g.int(lo, hi), ['int8', 'int32', 'int64', 'uint8', 'float32', 'float64', 'float16', 'uint16'], g.pick(['small', 'int', 'frac']))


@op('C25', 'polyval', 2)
def _(g):
    p = poly(g, 0, 5)
    x = g.arr(g.pick(['int8', 'int32', 'int64', 'float32', 'float64', 'float16', 'uint8']), nd=(0, 3), cap=60, prof=g.pick(['small', 'int', 'frac']))
    mx = max(1.0, float(np.abs(x.n.astype(float)).max()) if x.n.size else 1.0)
    return Call('polyval', lambda m, c, v: m.polyval(c, v), (p, x),
                ref=lambda m, c, v: np.asarray(np.polyval(dbl(c), dbl(v))),
                rtol=1e-9, atol=1e-11 * mag(p) * mx ** max(0, p.n.size - 1), key='%d' % p.n.size)


@op('C25', 'polyder', 1)
def _(g):
    p, m_ = poly(g), g.int(0, 4)
    return Call('polyder', lambda m, c: m.polyder(c, m_), (p,), dtype=False,
                ref=lambda m, c: np.polyder(dbl(c), m_), rtol=1e-12, key='%d|%d' % (m_, p.n.size))


@op('C25', 'polyint', 2)
def _(g):
    p, m_ = poly(g), g.int(0, 4)
    k = None
    if g.chance(0.6):
        k = g.arr('float64', (g.pick([1, max(1, m_), m_ + 1]),), prof='int')
    if k is None:
        return Call('polyint', lambda m, c: m.polyint(c, m_), (p,), dtype=False,
                    ref=lambda m, c: np.polyint(dbl(c), m_), rtol=1e-12, key='%d' % m_)
    return Call('polyint', lambda m, c, q: m.polyint(c, m_, q), (p, k), dtype=False,
                ref=lambda m, c, q: np.polyint(dbl(c), m_, q), rtol=1e-12, key='k%d|%d' % (m_, k.n.size))


@op('C25', 'polyfit', 3)
def _(g):
    deg = g.int(0, 4)
    n = deg + 1 + g.int(0, 8)
    xv = np.sort(g.rng.choice(np.arange(-10, 11), n, replace=False))
    x = g.wrap(xv.astype(g.pick(['int64', 'float64', 'int32'])), bcast=False)
    y = vec(g, n, ['int8', 'int64', 'float64', 'float16', 'uint8'], g.pick(['small', 'int', 'frac']))
    args = [x, y]
    if g.chance(0.5):
        args.append(g.arr('float64', (n,), prof='pos'))
        if float(args[2].n.min()) < 0.05 or float(args[2].n.max()) > 1e3:
            args[2] = g.wrap(g.rng.integers(1, 6, n).astype('float64'), bcast=False)
    return Call('polyfit', lambda m, a, b, *w: m.polyfit(a, b, deg, w=w[0]) if w else m.polyfit(a, b, deg), args,
                ref=lambda m, a, b, *w: np.polyfit(dbl(a), dbl(b), deg, w=dbl(w[0]) if w else None),
                rtol=1e-5, atol=1e-6 * max(1.0, float(np.abs(y.n.astype(float)).max())), key='%d|%d' % (deg, len(args)))


@op('C25', 'polyfit_scales', 2)
def _(g):
    # the same points in other units, or crowded together far from zero:
    # what is compared is the fitted curve at the points
    deg = g.int(1, 3)
    n = deg + 1 + g.int(0, 8)
    t = np.sort(g.rng.choice(np.arange(0, 21), n, replace=False)) / 20.0
    if g.chance(0.6):
        unit = 10.0 ** g.int(-40, 40)
        x, tol = (t - g.pick([0, 0.5, 1])) * unit, 1e-6
        key = 'unit'
    else:
        deg = min(deg, 2)
        d = 10.0 ** -g.int(1, 5)
        x = 1 + t * d
        t = (x - 1) / d
        tol = max(1e-6, 2e-12 / d ** deg)
        key = 'crowded'
    y = np.polyval(g.rng.integers(-5, 6, deg + 1).astype(float), t)
    if key == 'unit' and g.chance(0.5):
        y = y + g.rng.integers(-2, 3, n)
    height = 10.0 ** g.int(-20, 20)
    args = [g.wrap(x, bcast=False), g.wrap(y * height, bcast=False)]

    def eqv(exp, got):
        c = np.asarray(got)
        if c.shape != (deg + 1,) or c.dtype != np.float64:
            raise Violation('value', 'coefficients of shape %s, %s' % (c.shape, c.dtype))
        want, have = np.polyval(exp, x) / height, np.polyval(c, x) / height
        if not np.abs(want - have).max() <= tol * max(1.0, np.abs(y).max()):
            raise Violation('value', 'fitted values %s, expected %s' % (have.tolist(), want.tolist()))
    return Call('polyfit', lambda m, a, b: m.polyfit(a, b, deg), args,
                ref=lambda m, a, b: np.polyfit(dbl(a), dbl(b), deg), eqv=eqv, key='%s|%d' % (key, deg))


@op('C25', 'roots', 3)
def _(g):
    # chosen well-separated roots, so that the answer is well conditioned
    pts = g.rng.choice(np.arange(-5, 6), g.int(0, 4), replace=False).astype(complex)
    for _ in range(g.int(0, 2)):
        z = complex(g.int(-4, 4) + 0.5, g.int(1, 4))
        if np.abs(pts - z).min(initial=9) > 0.9:
            pts = np.concatenate([pts, [z, z.conjugate()]])
    c = np.atleast_1d(np.poly(pts)).real * g.pick([1, 1, 2, -3, 0.5])
    c = np.concatenate([np.zeros(g.pick([0, 0, 1, 2])), c])
    p = g.wrap(c, bcast=False)

    def eqv(exp, got):
        got = np.asarray(got)
        if got.shape != pts.shape:
            raise Violation('value', 'expected %d roots %s, got %s' % (pts.size, pts.tolist(), got.tolist()))
        left = list(got)
        for z in pts:
            i = int(np.argmin([abs(z - w) for w in left]))
            if not abs(z - left[i]) < 1e-5:
                raise Violation('value', 'root %r missing from %s' % (z, got.tolist()))
            left.pop(i)
        if not pts.imag.any() and got.dtype.kind == 'c' and np.abs(got.imag).max(initial=0) > 1e-6:
            raise Violation('value', 'complex roots of a polynomial with real roots: %s' % got.tolist())
        return None
    return Call('roots', lambda m, q: m.roots(q), (p,), ref=lambda m, q: pts, eqv=eqv,
                key='%d|%s' % (pts.size, bool(pts.imag.any())), note='roots=%s' % pts.tolist())


# -- complex-extended functions ---------------------------------------------
def em(fname):
    def gen(g):
        dt = g.pick(['int32', 'int64', 'uint32', 'float32', 'float64', 'float64'])
        a = g.arr(dt, nd=(0 if fname not in ('logn', 'power') else 1, 3), cap=60, prof=g.pick(['small', 'int', 'frac', 'unit', 'pos']))
        tol = 3e-5 if dt == 'float32' else 1e-9
        args = (a,)
        if fname == 'logn':
            b = g.pick([2, 3, 10, 0.5])
            return Call('emath.logn', lambda m, x: m.emath.logn(b, x), args, dtype=False,
                        ref=lambda m, x: np.asarray(np.emath.logn(b, dbl(x))), rtol=tol, atol=tol, key='%s' % b, note='n=%s' % b)
        if fname == 'power':
            b = g.pick([2, 3, 0.5, 1.5, -1, 0, 0.25, -0.5, -1.5, -0.75, -2, 2.0, -3.0])
            return Call('emath.power', lambda m, x: m.emath.power(x, b), args, dtype=False, eqv=real_or_complex(3e-4 if dt == 'float32' else 1e-8),
                        ref=lambda m, x: np.asarray(np.emath.power(dbl(x), b)), key='%s' % b, note='p=%s' % b)
        return Call('emath.' + fname, lambda m, x: getattr(m.emath, fname)(x), args, dtype=False, eqv=real_or_complex(tol, fname == 'arctanh'),
                    ref=lambda m, x: np.asarray(getattr(np.emath, fname)(dbl(x))), key='%s' % dt)
    return gen


def real_or_complex(tol, loose=False):
    def eqv(exp, got):
        got = np.asarray(got)
        if got.shape != exp.shape:
            raise Violation('value', 'shape %s, expected %s' % (got.shape, exp.shape))
        e, h = exp.astype(complex), got.astype(complex)
        fin = np.isfinite(e)
        if exp.dtype.kind != 'c' and got.dtype.kind == 'c' and not loose:
            raise Violation('value', 'complex result where every value is real')
        if exp.dtype.kind == 'c' and got.dtype.kind != 'c' and np.abs(e[fin].imag).max(initial=0) > 0:
            raise Violation('value', 'real result where a value is complex')
        if (np.isfinite(h) != fin).any() or (np.abs(h - e)[fin] > tol * (1 + np.abs(e[fin]))).any():
            raise Violation('value', 'values %s, expected %s' % (got.reshape(-1)[:12].tolist(), exp.reshape(-1)[:12].tolist()))
        return None
    return eqv


for _f in ('sqrt', 'log', 'log2', 'log10', 'logn', 'power', 'arccos', 'arcsin', 'arctanh'):
    op('C25', 'emath_' + _f, 1)(em(_f))


@op('C25', 'real_if_close', 1)
def _(g):
    a = g.arr(g.pick(CPLX + ['float64', 'int32']), nd=(0, 3), cap=40, prof='small')
    y = a.n.copy()
    if y.dtype.kind == 'c':
        how = g.pick(['zero', 'tiny', 'big', 'one', 'nan'])
        eps = float(np.finfo(y.dtype).eps)
        y.imag = {'zero': 0, 'tiny': 10 * eps, 'big': 3000 * eps, 'one': 0, 'nan': 0}[how]
        if how in ('one', 'nan') and y.size:
            y.reshape(-1)[g.int(0, y.size - 1)] += (1j if how == 'one' else complex(0, np.nan))
        a = g.wrap(y)
    tol = g.pick([None, 2.0, 1e4, 0.5])
    return Call('real_if_close', lambda m, x: m.real_if_close(x) if tol is None else m.real_if_close(x, tol), (a,),
                key='%s' % tol, note='tol=%s' % tol)
