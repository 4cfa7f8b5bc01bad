"""Operands are only written by what is documented to write them.

Every call of the catalogue is run by rumpy with every byte of every operand
- the whole buffer behind a view, not only the elements the view shows -
recorded before and compared after, whether the call returns or raises.  The
result must also be memory of its own unless NumPy returns a view there.
"""
import operator
import numpy as np
import rumpy as rp
from mon.core import run, Violation, Skip, describe, case_key, is_rp, ename, ALL
from mon.props import Family
from mon import cat


def snap(a):
    """(bytes of the whole base, header of the view)"""
    return np.asarray(a.base).tobytes(), header(a.r), header(a.base)


def header(x):
    i = x.__array_interface__
    return tuple(x.shape), str(x.dtype), tuple(x.strides), i['data'][0]


def leaves(x):
    if is_rp(x):
        yield x
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from leaves(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from leaves(y)


def np_leaves(x):
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from np_leaves(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from np_leaves(y)


def extent(x):
    v = np.asarray(x)
    if v.size == 0:
        return None
    return np.lib.array_utils.byte_bounds(v)


def overlaps(p, q):
    return p and q and p[0] < q[1] and q[0] < p[1]


def owner(a):
    while isinstance(a.base, np.ndarray):
        a = a.base
    return a


def pure(g, c):
    arrs = c.arrs()
    before = [snap(a) for a in arrs]
    st, res = run(c.fn, rp, *c.rp_args())
    judged = 0
    for a, b in zip(arrs, before):
        now = snap(a)
        if now != b:
            what = 'contents' if now[0] != b[0] else 'shape, dtype, strides or address'
            old = np.frombuffer(b[0], np.uint8)
            new = np.frombuffer(now[0], np.uint8)
            at = int(np.argmax(old != new)) if len(old) == len(new) and (old != new).any() else -1
            raise Violation('operand-changed', '%r: after the call (%s) the %s of operand %r changed'
                            ' (first byte %d); it reads %s' % (
                                c, 'it returned' if st == 'ok' else 'it raised ' + ename(res),
                                what, a, at, describe(a.base)))
        judged += len(b[0])
    alias = 0
    outs = list(leaves(res)) if st == 'ok' else []
    if outs:
        ns, nv = run(c.ref or c.fn, np, *c.np_args())
        if ns == 'ok':
            shared = any(np.may_share_memory(o, owner(a.n)) for o in np_leaves(nv) for a in arrs)
            if not shared:
                for o in outs:
                    e = extent(o)
                    for a in arrs:
                        if overlaps(e, extent(a.base)):
                            raise Violation('result-aliases', '%r: the result is memory of operand '
                                            '%r, NumPy returns a new array' % (c, a))
                        alias += 1
    return (st if judged else 'ok'), judged, case_key(c), lambda: repr(c), \
        {'operand_bytes_compared': judged, 'results_checked_for_aliasing': alias}


def pure_family(o, n):
    return Family('pure:' + o.name, lambda g: pure(g, o.gen(g)), n * min(o.w, 1.5))


# -- expression programs over arrays large enough for buffer reuse ------------

BIN = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv,
       '//': operator.floordiv, '%': operator.mod, '**': None,
       '==': operator.eq, '<': operator.lt, '&': None}


def big_value(g, dt, shape):
    return g.values(dt, shape, 'pos')


def program(g):
    """Random straight-line programs; every named array is checked after every statement."""
    dt = g.pick(['float64', 'float32', 'int64', 'int32', 'complex128', 'int16', 'uint8'])
    n = g.pick([32768, 32769, 40000, 65536, 33000]) if g.chance(0.8) else g.int(1, 2000)
    shape = (n,) if g.chance(0.6) else (n // 8, 8)
    env = {}
    for nm in ('a', 'b', 'c'):
        d = dt if g.chance(0.7) else g.pick(['float64', 'int32', 'bool'])
        env[nm] = big_value(g, d, shape)
    ren = {k: rp.asarray(v) for k, v in env.items()}
    holder = [ren['a'], {'b': ren['b']}]
    log = ['%s: %s%s' % (k, v.dtype, v.shape) for k, v in env.items()]
    snaps = {k: v.copy() for k, v in env.items()}
    judged = 0
    ops = set()

    class Obj:
        pass
    box = Obj()
    box.x = ren['c']

    def expr(depth):
        """-> (text, numpy thunk, rumpy thunk)"""
        r = g.int(0, 9)
        if depth == 0 or r == 0:
            nm = g.pick(sorted(env))
            how = g.int(0, 6)
            if how == 1 and nm == 'a':
                return 'holder[0]', lambda: env['a'], lambda: holder[0]
            if how == 1 and nm == 'b':
                return 'holder[1]["b"]', lambda: env['b'], lambda: holder[1]['b']
            if how == 1 and nm == 'c':
                return 'box.x', lambda: env['c'], lambda: box.x
            if how == 2:
                return nm + '[:]', lambda: env[nm][:], lambda: ren[nm][:]
            if how == 3:
                return nm + '[::-1]', lambda: env[nm][::-1], lambda: ren[nm][::-1]
            if how == 4:
                sh = env[nm].shape
                return nm + '.reshape(shape)', lambda: env[nm].reshape(sh), \
                    lambda: ren[nm].reshape(sh)
            if how == 5:
                return nm + '.T.T', lambda: env[nm].T.T, lambda: ren[nm].T.T
            return nm, lambda: env[nm], lambda: ren[nm]
        if r == 1:
            t, a, b = expr(depth - 1)
            f = g.pick(['sqrt', 'exp', 'negative', 'square', 'abs', 'sin'])
            if f == 'negative':
                return '(-(%s*1))' % t, lambda: -(a() * 1), lambda: -(b() * 1)
            return 'm.%s(%s)' % (f, t), lambda: getattr(np, f)(a() * 1.0), \
                lambda: getattr(rp, f)(b() * 1.0)
        if r == 2:
            t, a, b = expr(depth - 1)
            k = g.pick([2, 3, 0.5])
            o = g.pick(['+', '*', '-'])
            if g.chance(0.5):
                return '(%s %s %r)' % (t, o, k), lambda: BIN[o](a(), k), lambda: BIN[o](b(), k)
            return '(%r %s %s)' % (k, o, t), lambda: BIN[o](k, a()), lambda: BIN[o](k, b())
        t1, a1, b1 = expr(depth - 1)
        t2, a2, b2 = expr(depth - 1)
        o = g.pick(['+', '-', '*', '+', '*'] + (['/'] if dt != 'complex128' else []))
        ops.add(o)
        if o == '-':
            return '(%s*1 - %s*1)' % (t1, t2), lambda: a1() * 1 - a2() * 1, \
                lambda: b1() * 1 - b2() * 1
        return '(%s %s %s)' % (t1, o, t2), lambda: BIN[o](a1(), a2()), lambda: BIN[o](b1(), b2())

    for s in range(g.int(2, 4)):
        t, a, b = expr(g.int(1, 3))
        nm = 'v%d' % s
        ns, nv = run(a)
        if ns == 'err':
            raise Skip('reference rejects')
        rs, rv = run(b)
        log.append('%s = %s' % (nm, t))
        if rs == 'err':
            raise Violation('raised', '; '.join(log) + ' -> ' + ename(rv))
        for k in env:
            got = np.asarray(ren[k])
            if got.shape != snaps[k].shape or got.dtype != snaps[k].dtype or \
                    got.tobytes() != snaps[k].tobytes():
                raise Violation('operand-changed', '; '.join(log) + ' -> %s was changed' % k)
            judged += got.size
        # the value is right as well: a buffer reused too early shows here
        got = np.asarray(rv)
        tol = 1e-3 if got.dtype in (np.float32, np.complex64) else 1e-9
        if got.shape != nv.shape:
            raise Violation('value', '; '.join(log) + ' -> shape %s' % (got.shape,))
        if nv.dtype.kind in 'biu':
            ok = np.array_equal(got, nv)
        else:
            with np.errstate(all='ignore'):
                # overflowing complex intermediates are not the business of this monitor
                fine = np.isfinite(nv) & (np.abs(nv) < 1e30)
                ok = np.allclose(got[fine], nv[fine], rtol=tol, atol=tol)
        if not ok:
            raise Violation('value', '; '.join(log) + ' -> %s, expected %s' % (
                describe(got), describe(nv)))
        if rv is not None and nv.dtype.kind != 'b' and isinstance(nv, np.ndarray):
            ren[nm] = rv
            got = np.asarray(rv)
            snaps[nm] = got.copy()
            env[nm] = got.copy()
    return 'ok', judged, '%s|%d|%s' % (dt, n, ','.join(sorted(ops))), lambda: '; '.join(log), \
        {'programs': 1, 'programs_over_reuse_threshold': int(n >= 32768)}


def families(tier):
    from mon import meta
    n = meta.PROPS['C03']['n'][tier != 'quick']
    out = [pure_family(o, n) for o in cat.load().values() if not o.mut]
    return out + [Family('program', program, 600 if tier == 'quick' else 6000)]
