"""Histories of views and writes, in lockstep with NumPy.

A history starts from one array and repeatedly either derives a new array from an
existing one (views and copies mixed) or assigns through one of them.  After every
step the monitor reads *every* live array on both sides through the array interface
and demands identical contents: a view must show each write made through any alias
at exactly the right positions, a copy must show none.
"""
import numpy as np, rumpy as rp
from mon.core import *
from mon.props import Family


def rand_slice(g, n):
    def b():
        return None if g.chance(0.3) else g.int(-n - 3, n + 3)
    st = g.pick([None, 1, 1, 2, 3, -1, -1, -2, -3, n + 1, -(n + 1)])
    if st == 0:
        st = 1
    if g.chance(0.02):
        st = g.pick([2 ** 62, 2 ** 63 - 1, -2 ** 63])
    return slice(b(), b(), st)


def rand_key(g, a, newaxis=True):
    nd = a.ndim
    k = g.int(0, nd)
    items = []
    for ax in range(k):
        n = a.shape[ax]
        if n and g.chance(0.35):
            items.append(g.int(-n, n - 1))
        else:
            items.append(rand_slice(g, n))
    if all(isinstance(i, int) for i in items) and len(items) == nd:
        if not items:
            return Ellipsis
        items[-1] = rand_slice(g, a.shape[-1])
    out = list(items)
    if g.chance(0.25) and k < nd:
        out.append(Ellipsis)
        for ax in range(nd - g.int(0, nd - k), nd):
            n = a.shape[ax]
            out.append(g.int(-n, n - 1) if n and g.chance(0.3) else rand_slice(g, n))
        if len([i for i in out if i is not Ellipsis and i is not None]) > nd:
            out = out[:k + 1]
        if len([i for i in out if isinstance(i, int)]) == nd:
            out = out[:k + 1]
    if newaxis and g.chance(0.2) and nd < 4:
        out.insert(g.int(0, len(out)), None)
    if len(out) == 1 and g.chance(0.7):
        return out[0]
    if not out:
        return Ellipsis
    return tuple(out)


def factor(g, size):
    dims = []
    rem = size
    while rem > 1 and len(dims) < 3:
        d = g.pick([k for k in range(1, rem + 1) if rem % k == 0])
        dims.append(d)
        rem //= d
    dims.append(rem)
    p = g.perm(len(dims))
    return tuple(dims[i] for i in p)


def derive(g, a):
    """-> (description, f(m, x)) that is legal for the NumPy array a."""
    nd = a.ndim
    ch = ['idx'] * 6 + ['T', 'reshape', 'mreshape', 'reshape-1', 'ravel', 'copy', 'flatten',
                        'dots', 'expand', 'atleast', 'squeeze', 'astype', 'asarray', 'ascont']
    ch += ['fresh'] * 2
    if nd:
        ch += ['perm', 'swap', 'move', 'flip', 'bcast', 'flipall', 'swapm', 'split', 'asplit',
               'rollaxis', 'permd', 'unstack']
    if nd >= 2:
        ch += ['fliplr', 'flipud', 'rot90', 'mt', 'diag', 'diagm']
    op = g.pick(ch)
    if op == 'idx':
        k = rand_key(g, a)
        return 'x[%r]' % (k,), lambda m, x: x[k]
    if op == 'T':
        return '.T', lambda m, x: x.T
    if op == 'perm':
        p = tuple(g.perm(nd))
        return 'transpose%s' % (p,), lambda m, x: m.transpose(x, p)
    if op == 'permd':
        p = tuple(g.perm(nd))
        return 'permute_dims%s' % (p,), lambda m, x: m.permute_dims(x, p)
    if op in ('swap', 'swapm'):
        i, j = g.int(0, nd - 1), g.int(0, nd - 1)
        if op == 'swap':
            return 'swapaxes(%d,%d)' % (i, j), lambda m, x: m.swapaxes(x, i, j)
        return '.swapaxes(%d,%d)' % (i, j), lambda m, x: x.swapaxes(i, j)
    if op == 'move':
        i, j = g.int(0, nd - 1), g.int(0, nd - 1)
        return 'moveaxis(%d,%d)' % (i, j), lambda m, x: m.moveaxis(x, i, j)
    if op == 'rollaxis':
        i = g.int(0, nd - 1)
        return 'rollaxis(%d)' % i, lambda m, x: m.rollaxis(x, i)
    if op == 'flip':
        i = g.int(0, nd - 1)
        return 'flip(%d)' % i, lambda m, x: m.flip(x, i)
    if op == 'flipall':
        return 'flip()', lambda m, x: m.flip(x)
    if op == 'fliplr':
        return 'fliplr', lambda m, x: m.fliplr(x)
    if op == 'flipud':
        return 'flipud', lambda m, x: m.flipud(x)
    if op == 'rot90':
        k = g.int(0, 3)
        return 'rot90(%d)' % k, lambda m, x: m.rot90(x, k)
    if op == 'mt':
        return 'matrix_transpose', lambda m, x: m.matrix_transpose(x)
    if op in ('diag', 'diagm'):
        if nd == 2:
            if op == 'diag':
                return 'diagonal', lambda m, x: m.diagonal(x)
            return '.diagonal', lambda m, x: x.diagonal()
        return '.T', lambda m, x: x.T
    if op in ('reshape', 'mreshape', 'reshape-1'):
        if a.size == 0:
            return '.copy', lambda m, x: x.copy()
        s = factor(g, a.size)
        if op == 'reshape-1':
            s = list(s)
            s[g.int(0, len(s) - 1)] = -1
            s = tuple(s)
        if op == 'mreshape':
            return '.reshape%s' % (s,), lambda m, x: x.reshape(*s)
        return 'reshape%s' % (s,), lambda m, x: m.reshape(x, s)
    if op == 'ravel':
        if g.chance(0.5):
            return 'ravel', lambda m, x: m.ravel(x)
        return '.ravel', lambda m, x: x.ravel()
    if op == 'copy':
        if g.chance(0.5):
            return 'copy', lambda m, x: np.copy(x, order='C') if m is np else m.copy(x)
        return '.copy', lambda m, x: x.copy()
    if op == 'flatten':
        return '.flatten', lambda m, x: x.flatten()
    if op == 'dots':
        return '[...]', lambda m, x: x[...]
    if op == 'expand':
        if nd >= 4:
            return '[...]', lambda m, x: x[...]
        i = g.int(0, nd)
        return 'expand_dims(%d)' % i, lambda m, x: m.expand_dims(x, i)
    if op == 'atleast':
        k = g.int(1, 3)
        return 'atleast_%dd' % k, lambda m, x: getattr(m, 'atleast_%dd' % k)(x)
    if op == 'squeeze':
        if a.ndim and all(d == 1 for d in a.shape):
            return '.T', lambda m, x: x.T
        if g.chance(0.5):
            return 'squeeze', lambda m, x: m.squeeze(x)
        return '.squeeze', lambda m, x: x.squeeze()
    if op == 'astype':
        return 'astype(same)', lambda m, x: (x.astype(a.dtype, order='C') if m is np
                                               else x.astype(str(a.dtype)))
    if op == 'asarray':
        return 'asarray', lambda m, x: m.asarray(x)
    if op == 'ascont':
        if a.ndim == 0:
            return '.copy', lambda m, x: x.copy()
        return 'ascontiguousarray', lambda m, x: m.ascontiguousarray(x)
    if op == 'bcast':
        ones = [i for i, d in enumerate(a.shape) if d == 1]
        s = list(a.shape)
        for i in ones:
            if g.chance(0.7):
                s[i] = g.int(1, 4)
        if g.chance(0.3) and nd < 4:
            s.insert(0, g.int(1, 3))
        s = tuple(s)
        return 'broadcast_to%s' % (s,), lambda m, x: m.broadcast_to(x, s)
    if op in ('split', 'asplit'):
        ax = g.int(0, nd - 1)
        n = a.shape[ax]
        if op == 'asplit':
            k = g.int(1, 4)
            i = g.int(0, k - 1)
            return 'array_split(%d,%d)[%d]' % (k, ax, i), \
                lambda m, x: m.array_split(x, k, ax)[i]
        ks = [k for k in range(1, max(n, 1) + 1) if n % k == 0][:8]
        k = g.pick(ks)
        i = g.int(0, k - 1)
        return 'split(%d,%d)[%d]' % (k, ax, i), lambda m, x: m.split(x, k, ax)[i]
    if op == 'unstack':
        n = a.shape[0]
        if n == 0 or nd < 2:
            return '[...]', lambda m, x: x[...]
        i = g.int(0, n - 1)
        return 'unstack[%d]' % i, lambda m, x: m.unstack(x)[i]
    if op == 'fresh':
        # functions that return their operand's values in memory of their own
        k = g.int(0, max(nd - 1, 0))
        n = a.shape[k] if nd else 0
        opts = [('repeat(1)', lambda m, x: m.repeat(x, 1)), ('where', lambda m, x: m.where(m.ones(x.shape, dtype='bool'), x, x)),
                ('tile(1)', lambda m, x: m.tile(x, 1)), ('array', lambda m, x: m.array(x))]
        if a.dtype.kind != 'M':
            opts += [('nan_to_num', lambda m, x: m.nan_to_num(x))] if a.dtype.kind in 'iu' else []
        if nd:
            opts += [('roll(%d,%d)' % (n, k), lambda m, x: m.roll(x, n, axis=k)), ('roll(0)', lambda m, x: m.roll(x, 0)),
                     ('repeat(1,%d)' % k, lambda m, x: m.repeat(x, 1, axis=k)), ('concatenate([x])', lambda m, x: m.concatenate([x], axis=k)),
                     ('stack', lambda m, x: m.stack([x])[0]), ('take', lambda m, x: m.take(x, m.arange(n), axis=k)),
                     ('append', lambda m, x: m.append(x, x[:0], axis=0))]
        d, f = g.pick(opts)
        return d, lambda m, x: np.array(f(m, x), order='C') if m is np else f(m, x)
    raise AssertionError(op)


def history(g):
    dt = g.pick(ALL)
    shape = g.shape((1, 3), empty=0.03, cap=72)
    n0 = g.values(dt, shape, 'small')
    live = [(n0, rp.asarray(n0.copy()), 'a')]
    log = ['a = %s%s' % (dt, shape)]
    steps = g.int(4, 14)
    judged = 0
    nviews = nwrites = 0
    kinds = set()
    saved = []
    for s in range(steps):
        if g.chance(0.25):
            # an element read out is a value: later writes must not reach it
            n, r, nm = g.pick(live)
            if n.ndim and n.size:
                key = tuple(g.int(-d, d - 1) for d in n.shape)
                if n.ndim == 1:
                    key = key[0]
                want = n[key].item()
                log.append('e%d = %s[%r]' % (len(saved), nm, key))
                try:
                    saved.append((len(saved), want, r[key]))
                except BaseException as e:
                    raise Violation('read-raised', '; '.join(log) + ' -> ' + ename(e))
                kinds.add('elem')
        if len(live) > 1 and g.chance(0.45) or s == steps - 1:
            i = g.int(0, len(live) - 1)
            n, r, nm = live[i]
            if not n.flags.writeable:
                continue
            key = rand_key(g, n, newaxis=False)
            if key is Ellipsis:
                if n.ndim == 0:
                    continue
                key = slice(None)
            tgt = n[key]
            mode = g.pick(['scalar', 'array', 'bcast', 'alias', 'elem'])
            if mode == 'elem' and n.ndim and n.size:
                key = tuple(g.int(-d, d - 1) for d in n.shape)
                if n.ndim == 1 and g.chance(0.5):
                    key = key[0]
                mode = 'scalar'
            if mode == 'elem':
                mode = 'scalar'
            if mode == 'scalar':
                v = g.values(dt, (), 'small')[()]
                if np.dtype(dt).kind == 'c':
                    v = v.real
                v = v.item()
                nvv = rvv = v
                vd = repr(v)
            elif mode == 'alias':
                # assign from another live array of the same shape, possibly overlapping
                cand = [(x, y, z) for x, y, z in live if x.shape == tgt.shape]
                if not cand:
                    continue
                nvv, rvv, z = g.pick(cand)
                vd = z
            else:
                sh = list(tgt.shape)
                if mode == 'bcast':
                    for ax in range(len(sh)):
                        if g.chance(0.4):
                            sh[ax] = 1
                    if sh and g.chance(0.4):
                        sh = sh[g.int(0, len(sh)):]
                nvv = g.values(dt, tuple(sh), 'small')
                rvv = rp.asarray(nvv)
                vd = 'array%s' % (tuple(sh),)
            log.append('%s[%r] = %s' % (nm, key, vd))
            nvc = nvv.copy() if isinstance(nvv, np.ndarray) else nvv
            n[key] = nvc
            try:
                r[key] = rvv
            except BaseException as e:
                raise Violation('write-raised', '; '.join(log) + ' -> ' + ename(e))
            nwrites += 1
            kinds.add('w' + mode)
        else:
            i = g.int(0, len(live) - 1)
            n, r, nm = live[i]
            d, f = derive(g, n)
            name = 'v%d' % len(live)
            log.append('%s = %s %s' % (name, nm, d))
            n2 = f(np, n)
            try:
                r2 = f(rp, r)
            except BaseException as e:
                raise Violation('view-raised', '; '.join(log) + ' -> ' + ename(e))
            kinds.add(d.split('(')[0].split('[')[0] or 'idx')
            if n2.ndim > 5 or n2.size > 2000:
                continue
            live.append((n2, r2, name))
            nviews += 1
        for k, want, obj in saved:
            if np.asarray(obj).item() != want:
                raise Violation('element', '; '.join(log) + ' -> e%d is %r, was read as %r' % (
                    k, np.asarray(obj).item(), want))
            judged += 1
        for n, r, nm in live:
            got = np.asarray(r)
            if got.shape != n.shape or got.dtype != n.dtype:
                raise Violation('view-shape', '; '.join(log) + ' -> %s is %s%s, expected %s%s'
                                % (nm, got.dtype, got.shape, n.dtype, n.shape))
            if tuple(r.shape) != n.shape or r.ndim != n.ndim or r.size != n.size:
                raise Violation('view-attrs', '; '.join(log) + ' -> %s attributes %s %d %d'
                                % (nm, r.shape, r.ndim, r.size))
            if not same_bytes(got, n):
                raise Violation('contents', '; '.join(log) + ' -> %s holds %s, expected %s'
                                % (nm, describe(got, 24), describe(n, 24)))
            judged += n.size
    return ('ok', judged, '%s|%s|%d' % (dt, ','.join(sorted(kinds)), len(shape)),
            lambda: '; '.join(log), {'views_derived': nviews, 'writes': nwrites})


def chain(g):
    """Long chains of views, read through rumpy's own element access as well."""
    dt = g.pick(['int64', 'float64', 'int32', 'uint8', 'float32'])
    shape = g.shape((1, 4), empty=0.02, cap=300)
    n = g.values(dt, shape, 'distinct')
    r = rp.asarray(n)
    log = ['a = %s%s' % (dt, shape)]
    for _ in range(g.int(2, 7)):
        d, f = derive(g, n)
        n2 = f(np, n)
        if n2.ndim > 5 or n2.size > 3000:
            continue
        log.append(d)
        try:
            r = f(rp, r)
        except BaseException as e:
            raise Violation('view-raised', '; '.join(log) + ' -> ' + ename(e))
        n = n2
    got = np.asarray(r)
    if got.shape != n.shape or not same_bytes(got, n):
        raise Violation('contents', '; '.join(log) + ' -> %s, expected %s' % (
            describe(got, 24), describe(n, 24)))
    # the same elements through rumpy itself: copy, list, element reads
    c = np.asarray(r.copy())
    if not same_bytes(c, n):
        raise Violation('copy', '; '.join(log) + ' -> copy() gives %s, expected %s' % (
            describe(c, 24), describe(n, 24)))
    if n.ndim:
        if r.tolist() != n.tolist():
            raise Violation('tolist', '; '.join(log) + ' -> %r, expected %r' % (
                r.tolist(), n.tolist()))
    if n.size and n.ndim:
        for _ in range(3):
            ix = tuple(g.int(-d, d - 1) for d in n.shape)
            v = r[ix]
            if float(v) != float(n[ix]):
                raise Violation('element', '; '.join(log) + ' -> x[%r] is %r, expected %r' % (
                    ix, v, n[ix]))
    return 'ok', int(n.size), '%s|%s' % (dt, '|'.join(x.split('(')[0] for x in log[1:])), \
        lambda: '; '.join(log)


def families(tier):
    k = 1 if tier == 'quick' else 12
    return [Family('history', history, 9000 * k), Family('chain', chain, 9000 * k)]
