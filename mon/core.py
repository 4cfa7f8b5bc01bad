"""Case generation, dual execution and the result oracle.

Every case is a pure function of (seed, family, index): it draws NumPy inputs,
builds the same arrays in rumpy through a chain of real views, runs the same
program on both, and hands what was observed to a monitor.
"""
import math, operator, zlib
import numpy as np
import rumpy as rp

np.seterr(all='ignore')
import warnings
warnings.simplefilter('ignore')

BOOL = ['bool']
SINT = ['int8', 'int16', 'int32', 'int64']
UINT = ['uint8', 'uint16', 'uint32', 'uint64']
INT = SINT + UINT
HALF = ['float16']
FLOAT = ['float32', 'float64']
FLT = HALF + FLOAT
CPLX = ['complex64', 'complex128']
REAL = INT + FLOAT
ALLREAL = BOOL + INT + FLT
NUM = INT + FLT + CPLX
ALL = BOOL + NUM

RTOL = {'float16': 4e-3, 'float32': 2e-5, 'float64': 1e-10,
        'complex64': 4e-5, 'complex128': 1e-10}


class Violation(Exception):
    def __init__(self, kind, msg):
        Exception.__init__(self, msg)
        self.kind = kind
        self.msg = msg


class Skip(Exception):
    pass


def is_rp(x):
    return isinstance(x, rp.ndarray)


class Arr:
    """One logical array: NumPy reference `n`, rumpy counterpart `r`."""
    __slots__ = ('n', 'r', 'base', 'desc', 'lay')

    def __init__(self, n, r, base, lay):
        self.n, self.r, self.base, self.lay = n, r, base, lay

    def __repr__(self):
        flat = self.n.reshape(-1)
        vals = flat[:12].tolist()
        return 'arr(%s, shape=%s, layout=%s, values=%r%s)' % (
            self.n.dtype, self.n.shape, self.lay, vals, '...' if flat.size > 12 else '')


SIZES = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65]


BIG = [(1000,), (1025,), (2048,), (4097,), (1500,), (3001,), (513,), (70001,), (3, 700), (700, 3), (64, 65), (33, 40), (2, 1025),
       (1030, 2), (300, 5), (5, 300), (7, 11, 13), (2, 300, 3), (100, 3, 5), (5, 4, 6, 9), (600, 1, 2)]


class Gen:
    def __init__(self, seed, family, index):
        self.seed, self.family, self.index = seed, family, index
        h = zlib.crc32(family.encode())
        self.rng = np.random.Generator(np.random.PCG64(
            np.random.SeedSequence([seed & 0xffffffff, h, index])))
        self.notes = []

    # -- elementary draws ------------------------------------------------
    def chance(self, p):
        return self.rng.random() < p

    def int(self, lo, hi):
        """Inclusive range."""
        return int(self.rng.integers(lo, hi + 1))

    def pick(self, seq):
        return seq[int(self.rng.integers(0, len(seq)))]

    def perm(self, n):
        return [int(i) for i in self.rng.permutation(n)]

    def subset(self, seq, k):
        idx = sorted(self.perm(len(seq))[:k])
        return [seq[i] for i in idx]

    # -- shapes ----------------------------------------------------------
    def dim(self, empty=0.05, cap=65):
        if self.chance(empty):
            return 0
        if self.chance(0.6):
            return self.int(1, 6) if cap >= 6 else self.int(1, cap)
        return self.pick([s for s in SIZES if s <= cap])

    def shape(self, nd=(0, 4), empty=0.05, cap=400, mindim=0):
        lo, hi = nd
        if cap == 400 and self.chance(0.01):
            # now and then longer than any block, chunk or counter would like
            big = [s for s in BIG if lo <= len(s) <= hi]
            if big:
                return self.pick(big)
        w = {0: 1, 1: 6, 2: 6, 3: 3, 4: 1, 5: 1}
        cand = list(range(lo, hi + 1))
        p = np.array([w.get(c, 1) for c in cand], float)
        n = int(self.rng.choice(cand, p=p / p.sum()))
        dims = []
        tot = 1
        for i in range(n):
            c = max(1, cap // max(tot, 1))
            lim = min(65, c) if n > 1 else min(cap, 300)
            d = self.dim(empty, max(1, lim))
            if n == 1 and self.chance(0.1) and cap >= 200 and d:
                d = self.int(66, min(cap, 300))
            d = max(d, mindim)
            dims.append(d)
            tot *= max(d, 1)
        return tuple(dims)

    # -- values ----------------------------------------------------------
    def values(self, dtype, shape, prof=None):
        """prof: small | wide | special | dups | distinct | pos | unit | frac | any"""
        rng = self.rng
        dt = np.dtype(dtype)
        n = int(np.prod(shape)) if len(shape) else 1
        if prof is None:
            prof = 'small'
        if isinstance(prof, (list, tuple)):
            prof = self.pick(prof)
        k = dt.kind
        if k == 'b':
            if self.chance(0.15):
                v = np.full(n, self.chance(0.5))
            else:
                v = rng.integers(0, 2, n).astype(bool)
        elif k in 'iu':
            ii = np.iinfo(dt)
            if prof in ('wide', 'special', 'any'):
                v = rng.integers(ii.min, ii.max, n, dtype=dt, endpoint=True)
                m = rng.random(n)
                edge = np.array([ii.min, ii.max, 0, 1, ii.max - 1, ii.min + 1,
                                 (-1 if k == 'i' else 2), ii.max // 2], dtype=dt)
                v = np.where(m < 0.3, edge[rng.integers(0, len(edge), n)], v)
            elif prof == 'mid':
                v = rng.integers(max(ii.min, -2**31), min(ii.max, 2**31), n, endpoint=True)
            elif prof == 'dups':
                v = rng.integers(0, 4, n) - (1 if k == 'i' else 0)
            elif prof == 'distinct':
                lo = 0 if k == 'u' else -(n // 2)
                if n > 100 and dt.itemsize == 1:
                    v = rng.integers(0, 100, n)
                else:
                    v = rng.permutation(n) + lo
            elif prof == 'pos':
                v = rng.integers(1, 12, n)
            elif prof == 'unit':
                v = rng.integers(0, 2, n)
            else:
                v = rng.integers(-10, 11, n) if k == 'i' else rng.integers(0, 21, n)
            v = v.astype(dt)
        elif k == 'f':
            v = self._floats(n, dt, prof)
        elif k == 'c':
            fd = np.dtype('float32' if dt.itemsize == 8 else 'float64')
            v = np.empty(n, dt)
            v.real = self._floats(n, fd, prof)
            v.imag = self._floats(n, fd, prof)
        else:
            raise ValueError(dtype)
        return np.ascontiguousarray(v.astype(dt)).reshape(shape)

    def _floats(self, n, dt, prof):
        rng = self.rng
        f16 = dt.itemsize == 2
        if prof in ('wide', 'any'):
            ex = rng.uniform(-3, 3, n) if f16 else rng.uniform(-12, 12, n)
            v = rng.choice([-1.0, 1.0], n) * 10.0 ** ex
            v = np.where(rng.random(n) < 0.2, rng.integers(-3, 4, n).astype(float), v)
        elif prof == 'special':
            v = rng.integers(-8, 9, n) / 2.0
            sp = np.array([np.nan, np.inf, -np.inf, 0.0, -0.0, 1.0, -1.0,
                           float(np.finfo(dt).max), float(np.finfo(dt).tiny),
                           float(np.finfo(dt).eps), 0.5, -0.5])
            v = np.where(rng.random(n) < 0.45, sp[rng.integers(0, len(sp), n)], v)
        elif prof == 'tiny':
            # subnormals and the smallest normal numbers
            fi = np.finfo(dt)
            sub = rng.integers(1, 1 << min(int(fi.nmant), 40), n).astype(float) * float(fi.smallest_subnormal)
            v = np.where(rng.random(n) < 0.6, sub, float(fi.tiny) * rng.integers(1, 9, n) / 4) * rng.choice([-1.0, 1.0], n)
        elif prof == 'nan':
            v = rng.integers(-8, 9, n) / 2.0
            p = self.pick([0.1, 0.4, 0.95, 1.0])
            v = np.where(rng.random(n) < p, np.nan, v)
        elif prof == 'dups':
            v = rng.integers(-1, 3, n).astype(float)
        elif prof == 'distinct':
            v = rng.permutation(n) - n / 2 + 0.5
        elif prof == 'pos':
            v = rng.uniform(0.1, 9.0, n)
        elif prof == 'unit':
            v = rng.uniform(-0.99, 0.99, n)
        elif prof == 'int':
            v = rng.integers(-10, 11, n).astype(float)
        elif prof == 'frac':
            v = rng.normal(0, 1, n)
        else:
            v = np.where(rng.random(n) < 0.5, rng.integers(-10, 11, n) / 2.0,
                         rng.normal(0, 3, n))
        return v.astype(dt)

    # -- arrays with hostile layouts ---------------------------------------
    def arr(self, dtypes=REAL, shape=None, nd=(0, 3), empty=0.05, cap=400, prof=None,
            layout=None, data=None, mindim=0, bcast=True):
        if data is None:
            dt = self.pick(dtypes) if not isinstance(dtypes, str) else dtypes
            if shape is None:
                shape = self.shape(nd, empty, cap, mindim)
            data = self.values(dt, shape, prof)
        return self.wrap(data, layout, bcast)

    def wrap(self, data, layout=None, bcast=True):
        data = np.asarray(data)
        if layout is None:
            layout = 'c' if self.chance(0.3) else 'mix'
        if layout == 'c' or data.ndim == 0:
            data = np.ascontiguousarray(data).reshape(data.shape)
            r = rp.asarray(data)
            return Arr(data, r, r, 'C')
        steps = []
        t = data
        if layout == 'mix':
            k = self.pick([1, 1, 1, 2, 2, 3])
            kinds = [self.pick(['neg', 'step', 'off', 'perm', 'F', 'drop', 'negstep', 'new'] +
                               (['bcast'] if bcast else [])) for _ in range(k)]
        else:
            kinds = [layout]
        # Build backwards: t is the array wanted after the remaining steps.
        for kind in kinds:
            if t.ndim == 0:
                break
            ax = self.int(0, t.ndim - 1)
            n = t.shape[ax]
            if kind == 'neg':
                steps.append(('idx', _at(t.ndim, ax, slice(None, None, -1))))
                t = np.flip(t, ax)
            elif kind in ('step', 'negstep'):
                s = self.int(2, 3)
                pad = self.int(0, s - 1)
                big = list(t.shape)
                big[ax] = n * s
                b = self._noise(t.dtype, big)
                if kind == 'step':
                    sl = slice(pad, None, s)
                    b[_at(t.ndim, ax, sl)] = t
                    steps.append(('idx', _at(t.ndim, ax, sl)))
                elif n == 0:
                    continue
                else:
                    sl = slice(n * s - 1 - pad, None, -s)
                    b[_at(t.ndim, ax, sl)] = t
                    steps.append(('idx', _at(t.ndim, ax, sl)))
                t = b
            elif kind == 'off':
                lo, hi = self.int(0, 3), self.int(0, 3)
                big = list(t.shape)
                big[ax] = n + lo + hi
                b = self._noise(t.dtype, big)
                sl = slice(lo, lo + n)
                b[_at(t.ndim, ax, sl)] = t
                steps.append(('idx', _at(t.ndim, ax, sl)))
                t = b
            elif kind == 'perm':
                p = self.perm(t.ndim)
                inv = [p.index(i) for i in range(t.ndim)]
                steps.append(('perm', tuple(p)))
                t = np.transpose(t, inv)
            elif kind == 'F':
                steps.append(('T', None))
                t = t.T
            elif kind == 'drop':
                m = self.int(1, 3)
                i = self.int(0, m - 1)
                ax = self.int(0, t.ndim)
                big = list(t.shape)
                big.insert(ax, m)
                if len(big) > 5:
                    continue
                b = self._noise(t.dtype, big)
                b[_at(len(big), ax, i)] = t
                steps.append(('idx', _at(len(big), ax, i)))
                t = b
            elif kind == 'new':
                # an axis of length one that was added by newaxis
                ones = [i for i, d in enumerate(t.shape) if d == 1]
                if not ones or t.ndim < 2:
                    continue
                ax = self.pick(ones)
                ix = [slice(None)] * (t.ndim - 1)
                ix.insert(ax, None)
                steps.append(('idx', tuple(ix)))
                t = np.squeeze(t, ax)
            elif kind == 'bcast':
                if n < 2 or steps:
                    continue       # only innermost: changes the content itself
                sl = _at(t.ndim, ax, slice(0, 1))
                steps.append(('bcast', t.shape))
                t = np.ascontiguousarray(t[sl])
        base = np.ascontiguousarray(t).reshape(t.shape)
        rbase = rp.asarray(base)
        rv, nv = rbase, base
        for kind, arg in reversed(steps):
            rv = _view(rp, rv, kind, arg)
            nv = _view(np, nv, kind, arg)
        lay = '.'.join(_lay(k, a) for k, a in reversed(steps)) or 'C'
        got = np.asarray(rv)
        if got.shape != nv.shape or got.dtype != nv.dtype or not same_bytes(got, nv):
            # A broken view is the business of the view property; here fall back
            # to a plain copy so this monitor keeps judging its own property.
            self.notes.append('view-fallback')
            nv = np.ascontiguousarray(nv).reshape(nv.shape)
            rv = rp.asarray(nv)
            return Arr(nv, rv, rv, 'C*')
        return Arr(nv, rv, rbase, lay)

    def _noise(self, dt, shape):
        if dt.kind in 'SUMm':
            b = np.zeros(shape, dt)
            return b
        b = self.values(dt, tuple(shape), 'small')
        if dt.kind == 'f' and b.size:
            b.reshape(-1)[:] = np.where(self.rng.random(b.size) < 0.3, np.nan, b.reshape(-1))
        return b

    # -- common argument draws ---------------------------------------------
    def axis(self, nd, neg=True):
        a = self.int(0, nd - 1)
        if neg and self.chance(0.35):
            a -= nd
        return a


def _at(nd, ax, ix):
    t = [slice(None)] * nd
    t[ax] = ix
    return tuple(t)


def _view(m, x, kind, arg):
    if kind == 'idx':
        return x[arg]
    if kind == 'perm':
        return m.transpose(x, arg)
    if kind == 'T':
        return x.T
    if kind == 'bcast':
        return m.broadcast_to(x, arg)
    raise ValueError(kind)


def _lay(kind, arg):
    if kind == 'idx':
        return '[%s]' % ','.join('_' if s is None else str(s) if isinstance(s, int) else
                                 ':' if s == slice(None) else
                                 '%s:%s:%s' % tuple('' if v is None else v
                                                    for v in (s.start, s.stop, s.step))
                                 for s in arg)
    if kind == 'perm':
        return 'perm%s' % (arg,)
    return kind


def same_bytes(a, b):
    a = np.ascontiguousarray(a)
    b = np.ascontiguousarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()


# ---------------------------------------------------------------------------
# the oracle

def norm(x):
    """rumpy or numpy result -> comparable structure, plus 'strict dtype' flag."""
    return x


def describe(x, lim=8):
    if is_rp(x):
        x = np.asarray(x)
        tag = 'rp'
    else:
        tag = 'np'
    if isinstance(x, np.ndarray):
        f = x.reshape(-1)
        return '%s(%s,%s,%s%s)' % (tag, x.dtype, x.shape, f[:lim].tolist(),
                                   '...' if f.size > lim else '')
    if isinstance(x, (tuple, list)):
        return type(x).__name__ + '(' + ', '.join(describe(y, lim) for y in x[:6]) + ')'
    s = repr(x)
    return s[:200]


def compare(exp, got, rtol=None, atol=0.0, dtype=True, signed_zero=False, path='',
            scalar_shape=True):
    """Raises Violation when `got` (rumpy) differs from `exp` (numpy).

    rtol None -> exact.  rtol 'auto' -> by dtype of the expected result."""
    if isinstance(exp, (tuple, list)) and not isinstance(exp, (str, bytes)):
        if not isinstance(got, (tuple, list)):
            raise Violation('structure', '%s: expected a sequence of %d, got %s'
                            % (path, len(exp), describe(got)))
        if len(exp) != len(got):
            raise Violation('structure', '%s: expected %d items, got %d'
                            % (path, len(exp), len(got)))
        n = 0
        for i, (e, g) in enumerate(zip(exp, got)):
            a = atol[i] if isinstance(atol, (tuple, list)) else atol
            n += compare(e, g, rtol, a, dtype, signed_zero, '%s[%d]' % (path, i))
        return n
    if isinstance(exp, dict):
        if set(exp) != set(got):
            raise Violation('structure', '%s: keys %s vs %s' % (path, sorted(exp), sorted(got)))
        return sum(compare(exp[k], got[k], rtol, atol, dtype, signed_zero,
                           '%s[%r]' % (path, k)) for k in exp)
    if exp is None or isinstance(exp, str):
        if got != exp:
            raise Violation('value', '%s: expected %r, got %s' % (path, exp, describe(got)))
        return 1
    e = np.asarray(exp)
    strict = is_rp(got)
    try:
        g = np.asarray(got)
    except Exception as ex:
        raise Violation('structure', '%s: result %r is not array-like (%s)' % (path, got, ex))
    if g.dtype == object and e.dtype != object:
        raise Violation('structure', '%s: expected %s got %s' % (path, describe(exp), describe(got)))
    if e.shape != g.shape:
        raise Violation('shape', '%s: expected shape %s, got %s; expected %s got %s'
                        % (path, e.shape, g.shape, describe(exp), describe(got)))
    if dtype and strict and e.dtype != g.dtype:
        raise Violation('dtype', '%s: expected dtype %s, got %s' % (path, e.dtype, g.dtype))
    if e.dtype.kind in 'SUmMO' or g.dtype.kind in 'SUmMO':
        eq = e.astype(g.dtype) if e.dtype.kind == g.dtype.kind else e
        with np.errstate(all='ignore'):
            if e.dtype.kind in 'mM' and g.dtype.kind in 'mM':
                if e.dtype != g.dtype and not dtype:
                    ok = np.array_equal(e, g)
                else:
                    ok = e.dtype == g.dtype and np.array_equal(e.view('i8'), g.view('i8')) \
                        if e.ndim else (e == g or (np.isnat(e) and np.isnat(g)))
            else:
                ok = np.array_equal(eq, g)
        if not ok:
            raise Violation('value', '%s: expected %s, got %s' % (path, describe(exp), describe(got)))
        return int(e.size)
    bad = mismatch(e, g, rtol, atol, signed_zero)
    if bad is not None:
        idx, ev, gv = bad
        raise Violation('value', '%s at %s: expected %r, got %r; expected %s got %s'
                        % (path, idx, ev, gv, describe(exp), describe(got)))
    return int(e.size)


def mismatch(e, g, rtol, atol, signed_zero=False):
    if e.size == 0:
        return None
    if rtol == 'auto':
        rtol = RTOL.get(str(e.dtype))
        if rtol is None:
            rtol = None
    if e.dtype.kind in 'biu' and g.dtype.kind in 'biu':
        if rtol is None:
            ok = (e == g)
        else:
            d = np.abs(e.astype(float) - g.astype(float))
            ok = d <= rtol * np.abs(e.astype(float)) + atol
    else:
        cplx = e.dtype.kind == 'c' or g.dtype.kind == 'c'
        if cplx:
            ee, gg = e.astype(complex), g.astype(complex)
        else:
            # longdouble holds every int64/uint64/float64 exactly
            ee, gg = e.astype(np.longdouble), g.astype(np.longdouble)
        if rtol is None:
            rt, at = 0.0, 0.0
        else:
            rt, at = rtol, atol
        if cplx:
            ok = _close_c(ee, gg, rt, at)
        else:
            ok = _close_r(ee, gg, rt, at)
        if signed_zero and not cplx:
            ok = ok & ((ee != 0) | (np.signbit(ee) == np.signbit(gg)))
    ok = np.asarray(ok)
    if ok.all():
        return None
    i = int(np.argmin(ok.reshape(-1)))
    idx = np.unravel_index(i, e.shape) if e.ndim else ()
    return tuple(int(x) for x in idx), e.reshape(-1)[i].item(), g.reshape(-1)[i].item()


def _close_r(e, g, rt, at):
    nan = np.isnan(e) & np.isnan(g)
    inf = np.isinf(e) | np.isinf(g)
    d = np.abs(e - g)
    return nan | np.where(inf, e == g, d <= rt * np.abs(e) + at)


def _close_c(e, g, rt, at):
    fin = np.isfinite(e.real) & np.isfinite(e.imag) & np.isfinite(g.real) & np.isfinite(g.imag)
    d = np.hypot(e.real - g.real, e.imag - g.imag)
    near = d <= rt * np.hypot(e.real, e.imag) + at
    parts = _close_r(e.real, g.real, rt, at) & _close_r(e.imag, g.imag, rt, at)
    return np.where(fin, near | parts, parts)


# ---------------------------------------------------------------------------
# calls

class Call:
    """One program run on both libraries.

    fn(m, *args): m is numpy or rumpy; Arr arguments are replaced by the
    matching side.  `ref` overrides the NumPy side, `post` maps the rumpy
    result before comparison."""

    def __init__(self, name, fn, args=(), rtol='auto', atol=0.0, dtype=True, ref=None,
                 key='', signed_zero=False, err='both', mutates=(), eqv=None,
                 layout=True, note='', check=None):
        self.name, self.fn, self.args = name, fn, tuple(args)
        self.rtol, self.atol, self.dtype = rtol, atol, dtype
        self.ref, self.key, self.signed_zero = ref, key, signed_zero
        self.err = err              # both: np raising => rp must raise;  skip: ignore such cases
        self.mutates = mutates
        self.eqv = eqv              # custom comparator(exp, got) -> n or raises
        self.layout = layout
        self.note = note
        self.check = check

    def np_args(self):
        return [_side(a, 'n') for a in self.args]

    def rp_args(self):
        return [_side(a, 'r') for a in self.args]

    def arrs(self):
        out = []
        _collect(self.args, out)
        return out

    def __repr__(self):
        return '%s(%s)%s' % (self.name, ', '.join(repr(a) for a in self.args),
                             ' ' + self.note if self.note else '')


def _side(a, which):
    if isinstance(a, Arr):
        return getattr(a, which)
    if isinstance(a, list):
        return [_side(x, which) for x in a]
    if isinstance(a, tuple):
        return tuple(_side(x, which) for x in a)
    if isinstance(a, dict):
        return {k: _side(v, which) for k, v in a.items()}
    return a


def _collect(a, out):
    if isinstance(a, Arr):
        out.append(a)
    elif isinstance(a, (list, tuple)):
        for x in a:
            _collect(x, out)
    elif isinstance(a, dict):
        for x in a.values():
            _collect(x, out)


def run(f, *a):
    """-> ('ok', value) | ('err', exception)"""
    try:
        return 'ok', f(*a)
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:          # pyo3 PanicException is a BaseException
        return 'err', e


def ename(e):
    return '%s: %s' % (type(e).__name__, str(e)[:160])


def parity(g, c):
    """The differential monitor: same program, same observable result."""
    ns, nv = run(c.ref or c.fn, np, *c.np_args())
    if ns == 'err' and c.err == 'skip':
        raise Skip('reference rejects')
    rs, rv = run(c.fn, rp, *c.rp_args())
    if ns == 'err':
        if rs == 'ok':
            raise Violation('accepted', '%r: NumPy raises %s, rumpy returned %s'
                            % (c, ename(nv), describe(rv)))
        return 'err', 0
    if rs == 'err':
        raise Violation('raised', '%r: expected %s, rumpy raised %s' % (c, describe(nv), ename(rv)))
    try:
        if c.eqv is not None:
            n = c.eqv(nv, rv)
            n = 1 if n is None else n
        else:
            n = compare(nv, rv, c.rtol, c.atol, c.dtype, c.signed_zero)
    except Violation as v:
        raise Violation(v.kind, '%r: %s' % (c, v.msg))
    return 'ok', n


def case_key(c):
    ks = [c.name, str(c.key)]
    for a in c.arrs():
        ks.append('%s/%d/%s/%s' % (a.n.dtype, a.n.ndim, _szc(a.n.size), a.lay))
    return '|'.join(ks)


def _szc(n):
    return n if n < 18 else (1 << (n - 1).bit_length())
