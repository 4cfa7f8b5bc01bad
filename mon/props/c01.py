"""No call corrupts memory or ends the process.

The extension is built with AddressSanitizer; std's precondition checks and
debug assertions are on.  The monitor is the sanitizer plus the exit status of
the process; the workload is the whole catalogue, arbitrary calls of the public
interface and histories of object lifetimes.
"""
import gc, os
import numpy as np
import rumpy as rp
from mon.core import run, Violation, case_key, is_rp, ALL
from mon.props import Family
from mon.props.c02 import derive
from mon import cat, hostile


def touch(v):
    """read every byte a result claims to have, through instrumented code"""
    n = 0
    for r in hostile.results(v):
        if r.size > 10 ** 6:
            continue
        run(lambda: r.tobytes())
        run(lambda: r.copy())
        n += r.nbytes
    return n


def catalogue(g, o):
    c = o.gen(g)
    st, v = run(c.fn, rp, *c.rp_args())
    n = touch(v) if st == 'ok' else 0
    for a in c.arrs():
        touch(a.base)
        n += a.n.nbytes
    return 'ok', max(1, n), case_key(c), lambda: repr(c)


def api(g):
    name, call, args, kw = hostile.draw(g)
    with open(os.environ['MON_CASE'], 'w') if 'MON_CASE' in os.environ else open(os.devnull, 'w') as f:
        f.write(hostile.text(name, args, kw))
    st, v = run(call)
    n = touch(v) if st == 'ok' else 0
    for a in hostile.results(list(args) + list(kw.values())):
        touch(a)
    t = hostile.text(name, args, kw)
    return 'ok', max(1, n), '%s|%s|%s' % (name, st, type(v).__name__ if st == 'err' else ''), lambda: t, \
        {'calls_returned' if st == 'ok' else 'calls_refused': 1}


def lifetime(g):
    """views, exports and iterators outlive, precede and cross the death of their bases"""
    live = []
    log = []
    n = 0
    for s in range(g.int(6, 25)):
        r = g.int(0, 11)
        if r <= 2 or not live:
            a = g.values(g.pick(ALL), g.shape((1, 3), empty=0.05, cap=200), 'small')
            live.append((rp.asarray(a), a.copy()))
            log.append('new %s%s' % (a.dtype, a.shape))
            del a
        elif r <= 5:
            i = g.int(0, len(live) - 1)
            x, w = live[i]
            if not is_rp(x):
                continue
            d, f = derive(g, w)
            st, y = run(f, rp, x)
            if st == 'err' or not is_rp(y):
                continue
            live.append((y, np.array(f(np, w))))
            log.append('view %s of #%d' % (d, i))
        elif r == 6:
            i = g.int(0, len(live) - 1)
            x, w = live[i]
            if is_rp(x):
                live.append((np.asarray(x), w))
                log.append('export #%d' % i)
        elif r == 7:
            i = g.int(0, len(live) - 1)
            live.pop(i)
            log.append('drop #%d' % i)
            if g.chance(0.3):
                gc.collect()
        elif r == 8:
            i = g.int(0, len(live) - 1)
            x, w = live[i]
            if is_rp(x) and x.ndim:
                it = iter(x) if g.chance(0.5) else iter(x.flat)
                live[i] = live[-1]
                live.pop()
                del x
                run(lambda: list(it))
                log.append('iterate and drop #%d' % i)
        elif r == 9:
            i = g.int(0, len(live) - 1)
            x, w = live[i]
            if is_rp(x):
                k = g.int(0, 40)
                st, _ = run(lambda: x.resize(k))
                if st == 'ok':
                    e = np.zeros(k, w.dtype)
                    m = min(k, w.size)
                    e[:m] = w.reshape(-1)[:m]
                    live[i] = (x, e)
                log.append('resize #%d to %d' % (i, k))
        elif r == 10:
            i, j = g.int(0, len(live) - 1), g.int(0, len(live) - 1)
            x, y = live[i][0], live[j][0]
            st, z = run(lambda: x + y)
            if st == 'ok' and is_rp(z) and z.size < 5000:
                live.append((z, np.array(np.asarray(z))))
                log.append('#%d + #%d' % (i, j))
        # churn the allocator so that freed blocks are handed out again
        if g.chance(0.5):
            run(lambda: rp.ones(g.int(1, 300)))
        for k, (x, w) in enumerate(live):
            got = np.array(np.asarray(x)) if is_rp(x) else np.array(x)
            if is_rp(x):
                run(lambda: x.tobytes())
                run(lambda: x.copy())
            if got.shape != w.shape or got.tobytes() != np.ascontiguousarray(w).tobytes():
                raise Violation('contents', '; '.join(log) + ' -> #%d no longer holds its values: %s'
                                % (k, got.reshape(-1)[:8]))
            n += got.nbytes
    return 'ok', max(n, 1), '|'.join(sorted(set(x.split(' ')[0] for x in log))) + str(len(log)), \
        lambda: '; '.join(log), {'live_objects_reread': n}


def families(tier):
    from mon import meta
    n = meta.PROPS['C01']['n'][tier != 'quick']
    out = [Family('mem:' + o.name, lambda g, o=o: catalogue(g, o), n * min(o.w, 1.5))
           for o in cat.load().values()]
    k = 1 if tier == 'quick' else 15
    return out + [Family('api', api, 50000 * k), Family('lifetime', lifetime, 3000 * k)]
