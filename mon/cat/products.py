"""Products and contractions: matmul, dot, inner, outer, vdot, kron, cross,
tensordot, einsum, multi_dot, matrix_power, trace."""
import numpy as np
import rumpy as rp
from mon.core import ALL, INT, FLOAT, FLT, CPLX, REAL, NUM, BOOL, Call
from mon.cat import op

TOL = {'float16': 2e-2, 'float32': 2e-4, 'float64': 1e-9, 'complex64': 4e-4,
       'complex128': 1e-9}


def tol(*arrs):
    """Absolute slack for reassociated sums, scaled by the largest possible term."""
    dt = np.result_type(*[a.n.dtype for a in arrs])
    t = TOL.get(str(dt))
    if t is None:
        return dict(rtol=None)
    mag = 1.0
    for a in arrs:
        if a.n.size:
            mag *= max(1.0, float(np.max(np.abs(a.n.astype(complex)))))
    return dict(rtol=t, atol=t * 20 * mag)


def prof(g, dt):
    if dt in INT:
        return g.pick(['small', 'wide'])
    return g.pick(['small', 'int', 'frac', 'pos'])


def dts(g, pool=ALL):
    a = g.pick(pool)
    return (a, a) if g.chance(0.6) else (a, g.pick(pool))


def pair(g, s1, s2, pool=ALL):
    d1, d2 = dts(g, pool)
    return g.arr(d1, s1, prof=prof(g, d1)), g.arr(d2, s2, prof=prof(g, d2))


def dim(g, cap=6):
    if g.chance(0.06):
        return 0
    return g.pick([8, 9, 16, 17, 33]) if g.chance(0.12) else g.int(1, cap)


def mm_shapes(g):
    m, n, p = dim(g), dim(g), dim(g)
    k = g.int(0, 6)
    if k == 0:
        return (n,), (n,)
    if k == 1:
        return (m, n), (n,)
    if k == 2:
        return (n,), (n, p)
    if k <= 4:
        return (m, n), (n, p)
    # stacks that broadcast from the right
    full = [g.int(1, 3) for _ in range(g.int(1, 3))]
    la = [1 if g.chance(0.25) else d for d in full]
    lb = [1 if g.chance(0.25) else d for d in full]
    la = la[g.int(0, len(la)):]
    lb = lb[g.int(0, len(lb)):]
    a, b = tuple(la) + (m, n), tuple(lb) + (n, p)
    if g.chance(0.15):
        a = (n,)
    elif g.chance(0.15):
        b = (n,)
    return a, b


def spoil(g, s):
    """Sometimes make the contracted length disagree."""
    if g.chance(0.06) and len(s):
        s = list(s)
        i = g.int(0, len(s) - 1)
        s[i] += 1
    return tuple(s)


@op('C19', 'p_matmul', w=3)
def _(g):
    s1, s2 = mm_shapes(g)
    a, b = pair(g, s1, spoil(g, s2))
    if g.chance(0.5):
        return Call('matmul', lambda m, x, y: m.matmul(x, y), (a, b), **tol(a, b))
    return Call('@', lambda m, x, y: x @ y, (a, b), **tol(a, b))


@op('C19', 'p_dot', w=2)
def _(g):
    k = g.int(0, 3)
    if k == 0:
        s1, s2 = (), g.shape((0, 3), 0.05, 60)
        if g.chance(0.5):
            s1, s2 = s2, s1
    elif k == 1:
        n = dim(g)
        s1 = tuple(g.int(1, 3) for _ in range(g.int(0, 2))) + (n,)
        s2 = tuple(g.int(1, 3) for _ in range(g.int(0, 2))) + (n, g.int(1, 4))
        if g.chance(0.3):
            s2 = (n,)
    else:
        n = dim(g)
        s1, s2 = g.pick([((n,), (n,)), ((dim(g), n), (n, dim(g))), ((n,), (n, dim(g))),
                         ((dim(g), n), (n,))])
    a, b = pair(g, s1, spoil(g, s2))
    if g.chance(0.7):
        return Call('dot', lambda m, x, y: m.dot(x, y), (a, b), **tol(a, b))
    return Call('.dot', lambda m, x, y: x.dot(y), (a, b), **tol(a, b))


@op('C19', 'p_inner')
def _(g):
    n = dim(g)
    a, b = pair(g, (n,), spoil(g, (n,)))
    return Call('inner', lambda m, x, y: m.inner(x, y), (a, b), **tol(a, b))


@op('C19', 'p_outer')
def _(g):
    a, b = pair(g, g.shape((0, 2), 0.05, 30), g.shape((0, 2), 0.05, 30))
    return Call('outer', lambda m, x, y: m.outer(x, y), (a, b))


@op('C19', 'p_vdot')
def _(g):
    s = g.shape((1, 3), 0.05, 60)
    s2 = tuple(reversed(s)) if g.chance(0.3) else s
    a, b = pair(g, s, spoil(g, s2))
    return Call('vdot', lambda m, x, y: m.vdot(x, y), (a, b), **tol(a, b))


@op('C19', 'p_kron')
def _(g):
    a, b = pair(g, g.shape((1, 3), 0.05, 20), g.shape((1, 3), 0.05, 20))
    return Call('kron', lambda m, x, y: m.kron(x, y), (a, b))


@op('C19', 'p_cross', w=0.5)
def _(g):
    a, b = pair(g, (3,), (3,), NUM)
    return Call('cross', lambda m, x, y: m.cross(x, y), (a, b), **tol(a, b))


@op('C19', 'p_tensordot', w=2)
def _(g):
    na, nb = g.int(0, 3), g.int(0, 3)
    sa = [g.int(1, 4) for _ in range(na)]
    sb = [g.int(1, 4) for _ in range(nb)]
    if g.chance(0.05) and na:
        sa[g.int(0, na - 1)] = 0
    k = g.int(0, min(na, nb))
    if g.chance(0.4):
        for i in range(k):
            sb[i] = sa[na - k + i]
        ax = k
    else:
        pa, pb = g.perm(na)[:k], g.perm(nb)[:k]
        for i, j in zip(pa, pb):
            sb[j] = sa[i]
        pa = [i - na if g.chance(0.3) else i for i in pa]
        pb = [i - nb if g.chance(0.3) else i for i in pb]
        ax = (pa[0], pb[0]) if k == 1 and g.chance(0.3) else (pa, pb)
    a, b = pair(g, tuple(sa), spoil(g, sb))
    return Call('tensordot', lambda m, x, y: m.tensordot(x, y, axes=ax), (a, b), key=ax,
                note='axes=%r' % (ax,), **tol(a, b))


@op('C19', 'p_einsum', w=5)
def _(g):
    n = g.pick([1, 1, 2, 2, 2, 3, 4])
    letters = 'ijklmab'[:g.int(2, 5)]
    if g.chance(0.1):
        letters = letters.replace('j', 'J')
    size = {c: (0 if g.chance(0.02) else g.int(1, 4)) for c in letters}
    subs = []
    for _ in range(n):
        k = g.int(0 if n > 1 else 1, 3)
        if g.chance(0.2):
            s = ''.join(g.pick(letters) for _ in range(k))
        else:
            s = ''.join(letters[i] for i in g.perm(len(letters))[:k])
        subs.append(s)
    used = sorted(set(''.join(subs)))
    expr = ','.join(subs)
    if g.chance(0.75):
        out = [used[i] for i in g.perm(len(used))]
        out = out[:g.int(0, len(out))]
        if g.chance(0.03) and out:
            out.append(out[0])
        expr += '->' + ''.join(out)
    if g.chance(0.05):
        expr = expr.replace(',', ' , ').replace('->', ' -> ')
    d = dts(g)
    arrs = []
    for i, s in enumerate(subs):
        sh = spoil(g, tuple(size[c] for c in s)) if g.chance(0.3) else tuple(size[c] for c in s)
        dt = d[0] if g.chance(0.6) else d[1]
        pr = 'small' if dt in INT + ['bool'] else g.pick(['small', 'int', 'unit'])
        if dt in INT and g.chance(0.2) and n <= 2:
            pr = 'wide'
        arrs.append(g.arr(dt, sh, prof=pr))
    # NumPy lets a length-one axis stand for any length of the same label; rumpy
    # documents equal lengths only, so such draws are skipped.
    seen = {}
    for s, a in zip(subs, arrs):
        for c, n_ in zip(s, a.n.shape):
            if seen.setdefault(c, n_) != n_ and 1 in (seen[c], n_):
                from mon.core import Skip
                raise Skip('broadcast label')
    t = tol(*arrs)
    if 'atol' in t:
        t['atol'] *= 100 if n > 2 else 1
    def by_path(m, *xs):
        """The path rumpy names is one along which the contraction gives its value."""
        path, info = m.einsum_path(expr, *xs)
        path = list(path)
        if path[:1] != ['einsum_path'] or not isinstance(info, str):
            raise ValueError('not a path: %r' % (path,))
        ys = [np.asarray(x).astype('complex128') for x in xs]
        return np.einsum(expr, *ys, optimize=path if len(path) > 1 else False)
    if g.chance(0.1):
        return Call('einsum_path', by_path, tuple(arrs), key=expr,
                    ref=lambda m, *xs: m.einsum(expr, *[x.astype('complex128') for x in xs]), note=expr,
                    rtol=1e-8, atol=1e-6 * float(np.prod([np.abs(a.n.astype('c16')).sum() + 1 for a in arrs])) * 1e-4)
    return Call('einsum', lambda m, *xs: m.einsum(expr, *xs), tuple(arrs), key=expr,
                note=expr, **t)


@op('C19', 'p_multi_dot')
def _(g):
    n = g.int(2, 4)
    dims_ = [g.int(1, 5) for _ in range(n + 1)]
    dt = g.pick(['float64', 'float32', 'int64', 'complex128'])
    arrs = [g.arr(dt, (dims_[i], dims_[i + 1]), prof='small' if dt != 'int64' else 'dups')
            for i in range(n)]
    t = tol(*arrs)
    if 'atol' in t:
        t['atol'] *= 1000
    return Call('multi_dot', lambda m, xs: m.linalg.multi_dot(xs), (arrs,), **t)


@op('C19', 'p_matrix_power')
def _(g):
    n = g.int(1, 5)
    dt = g.pick(['float64', 'int64', 'float32', 'complex128', 'int8', 'uint8'])
    a = g.arr(dt, (n, n), prof='dups' if dt[0] in 'iu' else 'unit')
    k = g.int(0, 7)
    t = tol(a)
    return Call('matrix_power', lambda m, x: m.linalg.matrix_power(x, k), (a,), key=k,
                note='n=%d' % k, **t)


@op('C19', 'p_trace')
def _(g):
    d = g.pick(ALL)
    a = g.arr(d, (dim(g), dim(g)), prof=prof(g, d))
    f = (lambda m, x: m.trace(x)) if g.chance(0.6) else (lambda m, x: x.trace())
    return Call('trace', f, (a,), **tol(a))
