"""Matrix decompositions and solvers, judged by their defining equations."""
import numpy as np
import rumpy as rp
from mon.core import INT, FLOAT, REAL, CPLX, Call, Violation, compare, is_rp
from mon.cat import op

DT = ['float64'] * 4 + ['float32', 'int64', 'int32', 'int8', 'uint8', 'bool']


def eps_of(dt):
    return 2e-3 if dt == 'float32' else 1e-7


def n_of(g, cap=8):
    return g.pick([9, 12, 16, 17, 24, 33]) if g.chance(0.08) else g.int(1, cap)


def mat(g, shape=None, kind=None, dt=None):
    """A matrix that is comfortably well conditioned unless kind says otherwise."""
    dt = dt or g.pick(DT)
    m, n = shape
    d = np.dtype(dt)
    if kind == 'any':
        a = g.values(dt, (m, n), 'small')
    elif kind == 'lowrank':
        r = g.int(0, max(0, min(m, n) - 1))
        a = (g.rng.integers(-3, 4, (m, r)) @ g.rng.integers(-3, 4, (r, n))).astype(float)
        dt = 'float64'
        d = np.dtype(dt)
    elif kind == 'sym':
        b = g.values('float64', (n, n), 'small')
        a = b + b.T
        if d.kind == 'u':
            a = np.abs(a)
    elif kind == 'spd':
        b = g.rng.normal(0, 1, (n, n))
        a = b @ b.T + n * np.eye(n)
        if d.kind in 'iub':
            dt = 'float64'
            d = np.dtype(dt)
    else:
        lo = 0 if d.kind in 'ub' else -3
        a = g.rng.integers(lo, 2 if d.kind == 'b' else 4, (m, n)).astype(float)
        if d.kind == 'f':
            a += g.rng.normal(0, 0.3, (m, n))
        k = min(m, n)
        if d.kind == 'b':
            a = np.tril(a)
            a[np.arange(k), np.arange(k)] = 1
            if n > 10:
                a = np.eye(m, n)
        else:
            a[np.arange(k), np.arange(k)] += 4 * k + 4 if 4 * k < 100 else 100
        p = g.perm(m)
        a = a[p]
    return g.arr(data=a.astype(d), bcast=False)


def f64(x):
    return np.asarray(x).astype(complex if np.asarray(x).dtype.kind == 'c' else float)


def need(cond, what):
    if not cond:
        raise Violation('value', what)


def near(a, b, tol, what):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Violation('shape', '%s: shapes %s and %s' % (what, a.shape, b.shape))
    if a.size == 0:
        return
    sc = max(1.0, float(np.max(np.abs(b))))
    d = np.abs(a - b)
    if not (d <= tol * sc).all():
        raise Violation('value', '%s: off by %g (scale %g)' % (what, float(np.max(d)), sc))


def fdt(x, dt='float64'):
    """Results are floating: float64 (or float32 for float32 operands)."""
    if is_rp(x):
        d = str(np.asarray(x).dtype)
        need(d in (('float64', 'float32') if dt == 'float32' else ('float64',)),
             'result dtype %s for %s operands' % (d, dt))


@op('C18', 'l_solve', w=2)
def _(g):
    n = n_of(g)
    a = mat(g, (n, n))
    one = g.chance(0.5)
    b = g.arr(DT[:-1], (n,) if one else (n, g.int(0, 4)), prof='small')
    t = 2e-3 if 'float32' in (str(a.n.dtype), str(b.n.dtype)) else 1e-7

    def eqv(e, x):
        x64 = f64(x)
        need(np.asarray(x).shape == b.n.shape, 'shape %s' % (np.asarray(x).shape,))
        need(np.asarray(x).dtype.kind == 'f', 'dtype')
        near(f64(a.n) @ x64, f64(b.n), t * n * 10, 'A x - b')
        near(x64, f64(e), t * 10, 'x')
        return max(1, x64.size)
    return Call('solve', lambda m, x, y: m.linalg.solve(x, y), (a, b), eqv=eqv)


@op('C18', 'l_inv', w=1.5)
def _(g):
    n = n_of(g)
    a = mat(g, (n, n))

    def eqv(e, x):
        fdt(x, str(a.n.dtype))
        near(f64(a.n) @ f64(x), np.eye(n), 1e-4 if a.n.dtype == 'f4' else 1e-8 * n, 'A inv(A)')
        near(f64(x), f64(e), eps_of(str(a.n.dtype)), 'inv')
        return n * n
    return Call('inv', lambda m, x: m.linalg.inv(x), (a,), eqv=eqv)


@op('C18', 'l_singular', w=0.5)
def _(g):
    """a zero row or column is exactly singular: no quotient by zero comes back"""
    n = n_of(g, 5)
    x = g.values(g.pick(['float64', 'int64', 'float32']), (n, n), 'small')
    if g.chance(0.5):
        x[g.int(0, n - 1)] = 0
    else:
        x[:, g.int(0, n - 1)] = 0
    a = g.arr(data=x, bcast=False)
    if g.chance(0.5):
        return Call('inv', lambda m, x: m.linalg.inv(x), (a,))
    b = g.arr('float64', (n,), prof='small')
    return Call('solve', lambda m, x, y: m.linalg.solve(x, y), (a, b))


@op('C18', 'l_det', w=1.5)
def _(g):
    n = g.int(0, 7)
    a = mat(g, (n, n), g.pick([None, 'any', 'lowrank', 'spd']) if n else 'any')
    sc = float(np.prod(np.maximum(1.0, np.sqrt((f64(a.n) ** 2).sum(axis=1)))))
    t = 1e-4 if a.n.dtype == 'f4' else 1e-9
    return Call('det', lambda m, x: m.linalg.det(x), (a,), rtol=t, atol=t * sc, dtype=False)


@op('C18', 'l_slogdet')
def _(g):
    n = g.int(0, 7)
    a = mat(g, (n, n), g.pick([None, 'spd']) if n else 'any')
    t = 1e-4 if a.n.dtype == 'f4' else 1e-9
    return Call('slogdet', lambda m, x: tuple(float(v) for v in m.linalg.slogdet(x)), (a,),
                rtol=t, atol=t * 10)


@op('C18', 'l_slogdet_range')
def _(g):
    """determinants far outside the range of a double"""
    n = g.int(2, 40)
    a = mat(g, (n, n), g.pick([None, 'spd']), 'float64')
    k = g.pick([-1, 1]) * g.pick([3, 9, 20, 60, 140])
    a = g.arr(data=np.array(a.n) * 10.0 ** k, bcast=False)
    return Call('slogdet', lambda m, x: tuple(float(v) for v in m.linalg.slogdet(x)), (a,), rtol=1e-9, atol=1e-8,
                key='%d' % k)


@op('C18', 'l_qr', w=2)
def _(g):
    m_, n_ = n_of(g), n_of(g)
    a = mat(g, (m_, n_), g.pick([None, 'any', 'lowrank']))

    def eqv(e, got):
        q, r = (f64(v) for v in got)
        for v in got:
            fdt(v, str(a.n.dtype))
        k = min(m_, n_)
        need(q.shape == (m_, k) and r.shape == (k, n_), 'shapes %s %s' % (q.shape, r.shape))
        near(q.T @ q, np.eye(k), 1e-9, 'Q orthonormal')
        need((np.tril(r, -1) == 0).all(), 'R upper triangular')
        near(q @ r, f64(a.n), 1e-9, 'Q R')
        return q.size + r.size
    return Call('qr', lambda m, x: tuple(m.linalg.qr(x)), (a,), eqv=eqv)


@op('C18', 'l_svd', w=2)
def _(g):
    m_, n_ = n_of(g), n_of(g)
    a = mat(g, (m_, n_), g.pick([None, 'any', 'lowrank']))

    def eqv(e, got):
        u, s, vt = (f64(v) for v in got)
        k = min(m_, n_)
        need(u.shape == (m_, k) and s.shape == (k,) and vt.shape == (k, n_), 'shapes')
        near(u.T @ u, np.eye(k), 1e-9, 'U orthonormal')
        near(vt @ vt.T, np.eye(k), 1e-9, 'V orthonormal')
        need((s >= 0).all() and (np.diff(s) <= 1e-12 * max(1, s[0])).all(), 'S descending')
        near(u * s @ vt, f64(a.n), 1e-9, 'U S Vt')
        near(s, f64(e[1]), 1e-3 if a.n.dtype == 'f4' else 1e-9, 'S')
        return u.size + vt.size
    return Call('svd', lambda m, x: tuple(m.linalg.svd(x, full_matrices=False)), (a,), eqv=eqv)


@op('C18', 'l_svdvals')
def _(g):
    a = mat(g, (n_of(g), n_of(g)), g.pick([None, 'any', 'lowrank']))
    sc = 1.0 + float(np.abs(f64(a.n)).sum())
    t = 1e-4 if a.n.dtype == 'f4' else 1e-9
    return Call('svdvals', lambda m, x: m.linalg.svdvals(x), (a,), rtol=t, atol=t * sc,
                dtype=False)


@op('C18', 'l_eigh', w=2)
def _(g):
    n = n_of(g)
    a = mat(g, (n, n), g.pick(['sym', 'sym', 'spd']), g.pick(['float64', 'float64', 'float32', 'int64']))
    t = 1e-3 if a.n.dtype == 'f4' else 1e-9
    A = f64(a.n)
    if g.chance(0.35):
        # only the lower triangle counts
        x = np.array(a.n)
        x[np.triu_indices(n, 1)] = g.pick([7, 0, -3])
        a = g.arr(data=x, bcast=False)

    def eqv(e, got):
        w, v = (f64(x) for x in got)
        need(w.shape == (n,) and v.shape == (n, n), 'shapes')
        need((np.diff(w) >= -1e-12 * max(1.0, np.abs(w).max())).all(), 'ascending')
        near(w, f64(e[0]), t, 'w')
        near(v.T @ v, np.eye(n), 1e-9, 'V orthonormal')
        near(A @ v, v * w, 1e-8, 'A V - V w')
        return w.size + v.size
    return Call('eigh', lambda m, x: tuple(m.linalg.eigh(x)), (a,), eqv=eqv)


@op('C18', 'l_eigvalsh')
def _(g):
    n = n_of(g)
    a = mat(g, (n, n), 'sym', g.pick(['float64', 'float64', 'float32', 'int64']))
    if g.chance(0.4):
        # only the lower triangle counts
        x = np.array(a.n)
        x[np.triu_indices(n, 1)] = 7
        a = g.arr(data=x, bcast=False)
    sc = 1.0 + float(np.abs(f64(a.n)).sum())
    t = 1e-4 if a.n.dtype == 'f4' else 1e-9
    return Call('eigvalsh', lambda m, x: m.linalg.eigvalsh(x), (a,), rtol=t, atol=t * sc,
                dtype=False)


@op('C18', 'l_eig', w=2)
def _(g):
    n = n_of(g, 7)
    a = mat(g, (n, n), g.pick([None, 'any', 'sym']), g.pick(['float64', 'float64', 'int64']))
    defective = g.chance(0.15)
    if defective:
        # one eigenvalue, too few eigenvectors: l I + u w' with w' u = 0, among other blocks or alone
        n = g.int(2, 5)
        u, w = (g.rng.integers(-3, 4, n).astype(float) for _ in 'uw')
        if not w.any():
            w[0] = 1
        j = int(np.flatnonzero(w)[0])
        u *= w[j]
        u[j] -= (u @ w) / w[j]
        x = g.int(-9, 9) * np.eye(n) + np.outer(u, w)
        if g.chance(0.3):
            x = np.block([[x, np.zeros((n, 1))], [np.zeros((1, n)), np.full((1, 1), float(g.int(-9, 9)))]])
            n += 1
        a = g.arr(data=x, bcast=False)
    sc = 1.0 + float(np.abs(f64(a.n)).sum())

    def eqv(e, got):
        w, v = (np.asarray(x).astype(complex) for x in got)
        need(w.shape == (n,) and v.shape == (n, n), 'shapes')
        need(np.isfinite(w).all() and np.isfinite(v).all(), 'finite')
        near(f64(a.n) @ v, v * w, 1e-7 * sc, 'A V - V w')
        near(np.sqrt((np.abs(v) ** 2).sum(axis=0)), np.ones(n), 1e-6, 'unit columns')
        near(w.sum(), np.trace(f64(a.n)) + 0j, 1e-7 * sc, 'trace')
        return w.size + v.size
    return Call('eig', lambda m, x: tuple(m.linalg.eig(x)), (a,), eqv=eqv, key=defective)


@op('C18', 'l_eigvals')
def _(g):
    n = n_of(g, 7)
    # distinct, well separated eigenvalues: similarity transform of a block diagonal
    w = np.zeros((n, n))
    i = 0
    vals = g.perm(2 * n)
    while i < n:
        if i + 1 < n and g.chance(0.35):
            re, im = float(vals[i]), 1.0 + vals[i + 1]
            w[i:i + 2, i:i + 2] = [[re, im], [-im, re]]
            i += 2
        else:
            w[i, i] = vals[i] + 0.25
            i += 1
    q, _ = np.linalg.qr(g.rng.normal(0, 1, (n, n)))
    a = g.arr(data=q @ w @ q.T, bcast=False)

    def eqv(e, got):
        x = np.asarray(got).astype(complex)
        y = np.asarray(e).astype(complex)
        need(x.shape == (n,), 'shape')
        # nearest-neighbour matching in both directions
        d = np.abs(x[:, None] - y[None, :])
        need(d.min(axis=0).max() < 1e-6 and d.min(axis=1).max() < 1e-6,
             'eigenvalues %s vs %s' % (x, y))
        return n
    return Call('eigvals', lambda m, x: m.linalg.eigvals(x), (a,), eqv=eqv)


@op('C18', 'l_cholesky', w=1.5)
def _(g):
    n = n_of(g)
    good = g.chance(0.85)
    a = mat(g, (n, n), 'spd', g.pick(['float64', 'float64', 'float32']))
    A = f64(a.n)
    if not good:
        x = np.array(a.n)
        i = g.int(0, n - 1)
        x[i, i] = -1.0
        a = g.arr(data=x, bcast=False)
    elif g.chance(0.3):
        # only the lower triangle counts
        x = np.array(a.n)
        x[np.triu_indices(n, 1)] = g.pick([7, 0, -3])
        a = g.arr(data=x, bcast=False)

    def eqv(e, got):
        l = f64(got)
        need(l.shape == (n, n), 'shape')
        need((np.triu(l, 1) == 0).all() and (np.diag(l) > 0).all(), 'lower, positive diagonal')
        near(l @ l.T, A, 1e-3 if a.n.dtype == 'f4' else 1e-9, 'L L^T')
        return n * n
    return Call('cholesky', lambda m, x: m.linalg.cholesky(x), (a,), eqv=eqv)


def scale(g, a):
    """what is singular does not depend on the unit of measurement"""
    return g.pick([2.0 ** -60, 2.0 ** 50, 2.0 ** -30]) if a.n.dtype == 'float64' and g.chance(0.3) else 1


@op('C18', 'l_pinv', w=1.5)
def _(g):
    m_, n_ = n_of(g), n_of(g)
    a = mat(g, (m_, n_), g.pick([None, 'lowrank']), g.pick(['float64', 'float64', 'int64']))
    sc = scale(g, a)
    a = g.wrap(a.n * sc) if sc != 1 else a

    def eqv(e, got):
        p, A = f64(got) * sc, f64(a.n) / sc
        need(p.shape == (n_, m_), 'shape')
        near(A @ p @ A, A, 1e-7, 'A P A')
        near(p @ A @ p, p, 1e-7, 'P A P')
        near((A @ p).T, A @ p, 1e-7, 'A P symmetric')
        near((p @ A).T, p @ A, 1e-7, 'P A symmetric')
        return p.size
    return Call('pinv', lambda m, x: m.linalg.pinv(x), (a,), eqv=eqv)


@op('C18', 'l_lstsq', w=1.5)
def _(g):
    m_, n_ = n_of(g), n_of(g)
    a = mat(g, (m_, n_), g.pick([None, None, 'lowrank']), 'float64')
    sc1 = scale(g, a)
    a = g.wrap(a.n * sc1) if sc1 != 1 else a
    b = g.arr(['float64', 'int64'], (m_,) if g.chance(0.5) else (m_, g.int(1, 3)), prof='small')

    def eqv(e, got):
        x, res, rank, s = got
        need(int(rank) == int(e[2]), 'rank %s vs %s' % (rank, e[2]))
        near(f64(x) * sc1, f64(e[0]) * sc1, 1e-6, 'x')
        sc = 1 + float((f64(b.n) ** 2).sum())
        compare(e[1], res, 1e-6, 1e-9 * sc, dtype=False)
        near(f64(s) / sc1, f64(e[3]) / sc1, 1e-8, 's')
        return max(1, f64(x).size)
    return Call('lstsq', lambda m, x, y: tuple(m.linalg.lstsq(x, y)), (a, b), eqv=eqv)


@op('C18', 'l_rank')
def _(g):
    a = mat(g, (n_of(g), n_of(g)), g.pick([None, 'lowrank', 'lowrank']),
            g.pick(['float64', 'float64', 'int64']))
    if g.chance(0.2):
        t = 0.5
        s = np.linalg.svd(f64(a.n), compute_uv=False)
        if np.abs(s - t).min(initial=9) < 1e-6:
            t = 1e-3
        return Call('matrix_rank', lambda m, x: int(m.linalg.matrix_rank(x, tol=t)), (a,), key=t)
    sc = scale(g, a)
    a = g.wrap(a.n * sc) if sc != 1 else a
    return Call('matrix_rank', lambda m, x: int(m.linalg.matrix_rank(x)), (a,), key=str(sc != 1))


@op('C18', 'l_cond')
def _(g):
    a = mat(g, (n_of(g), n_of(g)))
    p = g.pick([None, 2, -2])
    t = 1e-2 if a.n.dtype == 'f4' else 1e-7
    return Call('cond', lambda m, x: m.linalg.cond(x, p), (a,), rtol=t, dtype=False, key=p)


NDT = REAL + CPLX + ['float16']


@op('C18', 'l_norm', w=2)
def _(g):
    dt = g.pick(NDT)
    t = {'float16': 2e-2, 'float32': 1e-4, 'complex64': 1e-4}.get(dt, 1e-9)
    how = g.int(0, 3)
    if how == 0:
        a = g.arr(dt, nd=(1, 1), prof='small', empty=0.05)
        o = g.pick([None, 1, 2, 0, np.inf, -np.inf, 3, 2.5, -1, 0.5])
        if o in (-1, 0.5):
            dt = 'float64' if dt == 'float16' else dt
            t = {'float32': 1e-4, 'complex64': 1e-4}.get(dt, 1e-9)
            a = g.arr(dt, nd=(1, 1), prof='pos', empty=0.05)
        return Call('norm', lambda m, x: m.linalg.norm(x) if o is None else m.linalg.norm(x, o),
                    (a,), rtol=t, atol=t, dtype=False, key=o, note='ord=%r' % (o,))
    if how == 1:
        o = g.pick([None, 'fro', 'nuc', 1, -1, 2, -2, np.inf, -np.inf])
        if o in ('nuc', 2, -2):
            dt = g.pick(['float64', 'int64', 'float32'])
            t = 1e-4 if dt == 'float32' else 1e-9
        a = g.arr(dt, nd=(2, 2), prof='small', empty=0.05)
        f = g.pick(['norm', 'matrix_norm'])
        kw = {} if o is None else {'ord': o}
        sc = float(np.abs(f64(a.n)).sum()) if o in (-2, 2, 'nuc') else 1
        return Call(f, lambda m, x: getattr(m.linalg, f)(x, **kw),
                    (a,), rtol=t, atol=t * max(1, sc), dtype=False, key=o, note='ord=%r' % (o,))
    if how == 2:
        a = g.arr(dt, nd=(3, 4), prof='small')
        o = 2 if g.chance(0.1) else None
        kw = {} if o is None else {'ord': o}
        return Call('norm', lambda m, x: m.linalg.norm(x, **kw), (a,), rtol=t, atol=t, dtype=False,
                    key=o)
    a = g.arr(dt, nd=(1, 3), prof='small', empty=0)
    o = g.pick([1, 2, np.inf, -np.inf, 3.0])
    return Call('vector_norm', lambda m, x: m.linalg.vector_norm(x, ord=o), (a,), rtol=t, atol=t,
                dtype=False, key=o)


@op('C18', 'l_matrix_power_neg', w=0.6)
def _(g):
    n = n_of(g, 5)
    a = mat(g, (n, n), None, g.pick(['float64', 'int64']))
    k = g.int(-3, -1)
    return Call('matrix_power', lambda m, x: m.linalg.matrix_power(x, k), (a,), rtol=1e-6,
                atol=1e-9, key=k)


@op('C18', 'l_tensor', w=0.6)
def _(g):
    p, q = g.pick([((2, 3), (6,)), ((4,), (2, 2)), ((2, 2), (4,)), ((3,), (3,)), ((1, 2), (2, 1))])
    n = int(np.prod(p))
    base = np.asarray(mat(g, (n, n), None, 'float64').n)
    a = g.arr(data=np.ascontiguousarray(base).reshape(p + q), bcast=False)
    if g.chance(0.5):
        return Call('tensorinv', lambda m, x: m.linalg.tensorinv(x, ind=len(p)), (a,), rtol=1e-6,
                    atol=1e-9)
    b = g.arr('float64', p, prof='small')
    return Call('tensorsolve', lambda m, x, y: m.linalg.tensorsolve(x, y), (a, b), rtol=1e-6,
                atol=1e-9)


@op('C18', 'l_reject', w=1)
def _(g):
    """wrong ranks and non-square operands are rejected"""
    f = g.pick(['inv', 'det', 'slogdet', 'cholesky', 'eigh', 'eig', 'eigvals', 'eigvalsh',
                'qr', 'svd', 'solve', 'lstsq'])
    if f in ('qr', 'svd'):
        a = g.arr('float64', nd=(0, 1), empty=0)
    elif f in ('solve', 'lstsq'):
        n = g.int(1, 5)
        a = g.arr('float64', (n, n), prof='pos')
        b = g.arr('float64', (n + 1,) if g.chance(0.5) else (n + 2, 2), prof='small')
        return Call(f, lambda m, x, y: getattr(m.linalg, f)(x, y), (a, b), key=f)
    else:
        a = g.arr('float64', (g.int(1, 3), g.int(4, 6)) if g.chance(0.7) else (g.int(1, 5),))
    return Call(f, lambda m, x: getattr(m.linalg, f)(x), (a,), key=f)
