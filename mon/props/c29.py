"""Memory is given back.

The same call is repeated with everything it returned dropped; the bytes the
process holds on its heap (glibc's own accounting) and the objects Python counts
must not keep growing, and the operands' reference counts must come back to
what they were.  Histories of views check that a buffer goes with its last user.
"""
import ctypes, gc, sys, time
import numpy as np
import rumpy as rp
from mon.core import run, Violation, case_key, is_rp, ALL
from mon.props import Family
from mon.props.c02 import derive
from mon import cat, hostile


class Info(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ('arena', 'ordblks', 'smblks', 'hblks', 'hblkhd', 'usmblks',
                                               'fsmblks', 'uordblks', 'fordblks', 'keepcost')]


_libc = ctypes.CDLL(None)
_libc.mallinfo2.restype = Info


def held():
    i = _libc.mallinfo2()
    return i.uordblks + i.hblkhd


_frozen = []


def settle():
    if not _frozen:
        gc.collect()
        gc.freeze()
        _frozen.append(1)
    gc.collect()


def growth(f, reps):
    """-> (heap bytes, Python blocks) gained by `reps` repetitions"""
    settle()
    a, b = held(), sys.getallocatedblocks()
    for _ in range(reps):
        f()
    settle()
    return held() - a, sys.getallocatedblocks() - b


GRAIN = 16      # the smallest heap block there is


def watch(f, reps):
    """-> what is lost per repetition, '' if nothing is"""
    for _ in range(3):
        f()
    d, p = growth(f, reps)
    if d < reps * GRAIN and p < reps:
        return ''
    # caches fill up once; a leak goes on
    for i, unit in ((0, GRAIN), (1, 1)):
        rate = None
        for k in (reps, reps, 2 * reps, 8 * reps, 64 * reps, 64 * reps):
            x = growth(f, k)[i]
            if x < k * unit:
                break
            rate = x / k if rate is None else min(rate, x / k)
        else:
            return '%.1f %s' % (rate, ('bytes of heap', 'Python objects')[i])
    return ''


def counts(arrs):
    return [sys.getrefcount(arrs[i]) for i in range(len(arrs))]


def judge(name, f, arrs, reps, what):
    before = counts(arrs)
    t = time.time()
    f()
    if time.time() - t > 0.02:
        reps = 2
    lost = watch(f, reps)
    if lost:
        raise Violation('leak:' + name, '%s: every call leaves %s behind' % (what(), lost))
    after = counts(arrs)
    if after != before:
        raise Violation('reference:' + name, '%s: reference counts of its array arguments went from %s to %s' % (
            what(), before, after))


def catalogue(g, o):
    c = o.gen(g)
    args = c.rp_args()

    def f():
        run(c.fn, rp, *args)
    arrs = [a.r for a in c.arrs()]
    judge(o.name, f, arrs, 8, lambda: repr(c))
    return 'ok', 1, case_key(c), lambda: repr(c), {'calls_watched': 20, 'operand_refcounts_checked': len(arrs)}


def api(g):
    name, call, args, kw = hostile.draw(g)
    t = hostile.text(name, args, kw)
    st = run(call)[0]
    if name not in ('ndarray.resize',):
        arrs = list(hostile.results(list(args) + list(kw.values())))
        judge(name, lambda: run(call) and None, arrs, 8, lambda: t)
        del arrs
    return 'ok', 1, '%s|%s' % (name, st), lambda: t, {'calls_watched': 20}


def views(g):
    """A buffer lives until its last view, export or iterator is gone, and no longer."""
    steps = [(g.int(0, 5), g.int(0, 10 ** 6)) for _ in range(g.int(1, 10))]
    dt, sh = g.pick(ALL), g.shape((1, 3), empty=0, cap=300)
    seed = g.int(0, 10 ** 9)
    size = 1 << g.int(10, 18)
    log = []

    def f():
        from mon.core import Gen
        del log[:]
        big = rp.zeros(size, dtype=dt)
        live = [big[:int(np.prod(sh))].reshape(sh)]
        shadow = [np.zeros(sh, dt)]
        del big
        for k, s in steps:
            i = s % len(live)
            h = Gen(seed, 'views', s)
            if k <= 2:
                d, fn = derive(h, shadow[i])
                st, y = run(fn, rp, live[i])
                if st == 'ok' and is_rp(y):
                    live.append(y)
                    shadow.append(np.asarray(fn(np, shadow[i])))
                    log.append(d)
            elif k == 3:
                live.append(rp.asarray(np.asarray(live[i])))
                shadow.append(shadow[i])
                log.append('export')
            elif k == 4 and live[i].ndim:
                it = iter(live[i].flat)
                for _ in range(s % 3):
                    next(it, None)
                log.append('iterate')
            elif len(live) > 1:
                live.pop(i)
                shadow.pop(i)
                log.append('drop')

    f()
    base = size * np.dtype(dt).itemsize
    for _ in range(2):
        f()
    d = growth(f, 2)[0]
    if d >= base:
        d = min(growth(f, 2)[0], growth(f, 2)[0])
        if d >= base:
            raise Violation('kept', 'a buffer of %d bytes is not returned after %s (%d bytes held per history)'
                            % (base, log, d // 2))
    lost = watch(f, 4)
    if lost:
        raise Violation('leak:views', 'history %s on %s%s leaves %s behind' % (log, dt, sh, lost))
    return 'ok', len(log), '%s|%s' % (dt, log), lambda: str(log), {'buffer_bytes_returned': int(base)}


# a ufunc method whose override declines keeps a reference inside NumPy, whatever the class
NUMPYS_OWN = ('ufunc_method',)


def families(tier):
    from mon import meta
    n = meta.PROPS['C29']['n'][tier != 'quick']
    return [Family('mem:' + o.name, lambda g, o=o: catalogue(g, o), n * min(o.w, 1.5)) for o in cat.load().values() if o.name not in NUMPYS_OWN] \
        + [Family('mem:api', api, n * 300), Family('mem:views', views, n * 30)]
