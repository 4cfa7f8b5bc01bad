"""Random generators: exact streams, reproducibility, support, distributions, conservation."""
import numpy as np
from mon.core import Call, Violation
from mon.cat import op


def size(g, none=True):
    r = g.rng.random()
    if none and r < 0.2:
        return None
    if r < 0.35:
        return g.int(0, 40)
    return g.shape(nd=(1, 3), cap=60, empty=0.1)


def same_state(m, seed):
    """Generators of both libraries in the same state."""
    bg = np.random.PCG64DXSM(seed)
    if m is np:
        return np.random.Generator(bg)
    st = bg.state['state']
    return m.random.Generator.from_numpy_state(st['state'], st['inc'])


def raw(m, r):
    return r.bit_generator.random_raw() if m is np else r.random_raw()


@op('C21', 'stream', 6)
def _(g):
    """Any history of raw, random and uniform draws continues NumPy's stream bit for bit."""
    seed = g.int(0, 2**62)
    prog = []
    for _ in range(g.int(1, 8)):
        k = g.pick(['raw', 'random', 'uniform'])
        if k == 'uniform':
            lo = g.pick([0.0, -1.0, 5.0, -1e6, 1e-3, float(g.int(-99, 99))])
            prog.append((k, lo, lo + g.pick([1.0, 0.0, 10.0, 1e9, 0.25]), size(g)))
        elif k == 'random':
            prog.append((k, size(g)))
        else:
            prog.append((k,))

    def f(m):
        r = same_state(m, seed)
        out = []
        for p in prog:
            if p[0] == 'raw':
                out.append(np.array(raw(m, r), dtype='uint64'))
            elif p[0] == 'random':
                v = r.random(p[1]) if p[1] is not None else r.random()
                out.append(v if p[1] is not None else np.array(v))
            else:
                v = r.uniform(*p[1:])
                out.append(v if p[3] is not None else np.array(v))
        return out
    return Call('stream', f, (), rtol=0, atol=0, key='|'.join(sorted({p[0] for p in prog})), note='seed=%d %s' % (seed, prog))


# name -> (draw parameters, support of the result, integral?, NumPy's sample)
def pos(g):
    return float(g.pick([0.1, 0.5, 0.9, 1.0, 1.5, 2.5, 5.0, 20.0, 150.0]))


def conc(g):
    return float(g.pick([0.0, 0.01, 0.05, 0.3, 0.5, 0.7, 1.0, 2.0, 5.0, 40.0]))


def loc(g):
    return float(g.pick([0.0, -3.0, 10.0, 0.25]))


def prob(g):
    return float(g.pick([0.05, 0.2, 0.5, 0.66, 0.9, 0.99]))


INF = float('inf')
DIST = {
    'normal': (lambda g: (loc(g), pos(g)), lambda a: (-INF, INF), False),
    'standard_normal': (lambda g: (), lambda a: (-INF, INF), False),
    'exponential': (lambda g: (pos(g),), lambda a: (0, INF), False),
    'standard_exponential': (lambda g: (), lambda a: (0, INF), False),
    'uniform': (lambda g: (lambda x: (x, x + pos(g)))(loc(g)), lambda a: a, False),
    'beta': (lambda g: (pos(g), pos(g)), lambda a: (0, 1), False),
    'gamma': (lambda g: (pos(g), pos(g)), lambda a: (0, INF), False),
    'standard_gamma': (lambda g: (pos(g),), lambda a: (0, INF), False),
    'poisson': (lambda g: (pos(g),), lambda a: (0, INF), True),
    'binomial': (lambda g: (g.pick([0, 1, 5, 40, 1000]), prob(g)), lambda a: (0, a[0]), True),
    'chisquare': (lambda g: (pos(g),), lambda a: (0, INF), False),
    'lognormal': (lambda g: (loc(g) / 4, g.pick([0.1, 0.5, 1.0])), lambda a: (0, INF), False),
    'laplace': (lambda g: (loc(g), pos(g)), lambda a: (-INF, INF), False),
    'logistic': (lambda g: (loc(g), pos(g)), lambda a: (-INF, INF), False),
    'rayleigh': (lambda g: (pos(g),), lambda a: (0, INF), False),
    'weibull': (lambda g: (pos(g),), lambda a: (0, INF), False),
    'geometric': (lambda g: (prob(g),), lambda a: (0, INF), True),
    'negative_binomial': (lambda g: (pos(g), prob(g)), lambda a: (0, INF), True),
    'hypergeometric': (lambda g: (lambda p, q: (p, q, g.int(0, p + q)))(g.int(1, 60), g.int(1, 60)),
                       lambda a: (max(0, a[2] - a[1]), min(a[0], a[2])), True),
    'zipf': (lambda g: (float(g.pick([1.5, 2.0, 3.5, 8.0])),), lambda a: (1, INF), True),
    'triangular': (lambda g: (lambda x, p, q: (x, x + p, x + p + q))(loc(g), pos(g), pos(g)), lambda a: (a[0], a[2]), False),
    'vonmises': (lambda g: (float(g.pick([0.0, 1.0, -2.5, 3.0])), conc(g)), lambda a: (-np.pi, np.pi), False),
    'pareto': (lambda g: (pos(g),), lambda a: (0, INF), False),
    'wald': (lambda g: (pos(g), pos(g)), lambda a: (0, INF), False),
    'standard_t': (lambda g: (pos(g),), lambda a: (-INF, INF), False),
    'standard_cauchy': (lambda g: (), lambda a: (-INF, INF), False),
}
NAMES = sorted(DIST)
# distributions with tails too heavy for a comparison of means
HEAVY = {'zipf', 'pareto', 'standard_t', 'standard_cauchy', 'weibull', 'wald', 'lognormal'}


@op('C21', 'support', 8)
def _(g):
    """Shape, dtype and range of every distribution, from scalar draws to empty arrays."""
    name = g.pick(NAMES)
    draw, support, integral = DIST[name]
    args = draw(g)
    sz = size(g)
    seed = g.int(0, 2**62)

    def f(m):
        r = np.random.default_rng(seed) if m is np else m.random.default_rng(seed)
        return getattr(r, name)(*args, size=sz)

    def eqv(exp, got):
        e, r = np.asarray(exp), np.asarray(got)
        if sz is None:
            if not isinstance(got, (int, float)) or r.shape != ():
                raise Violation('type', 'a single draw is %r' % (got,))
        else:
            if r.shape != e.shape:
                raise Violation('shape', 'expected %s, got %s' % (e.shape, r.shape))
            if r.dtype != e.dtype:
                raise Violation('dtype', 'expected %s, got %s' % (e.dtype, r.dtype))
        lo, hi = support(args)
        r = r.astype(float)
        bad = ~((r >= lo) & (r <= hi) & np.isfinite(r))
        if bad.any():
            raise Violation('value', '%s%s drew %r, outside [%s, %s]' % (name, args, r[bad][:3].tolist(), lo, hi))
        return max(r.size, 1)
    return Call('support ' + name, f, (), eqv=eqv, key='%s|%s' % (name, 'scalar' if sz is None else np.ndim(sz)),
                note='args=%s size=%s seed=%d' % (args, sz, seed))


def ks(a, b):
    """Largest distance between two empirical distribution functions."""
    a, b = np.sort(a), np.sort(b)
    x = np.concatenate([a, b])
    d = np.searchsorted(a, x, 'right') / a.size - np.searchsorted(b, x, 'right') / b.size
    return float(np.abs(d).max())


@op('C21', 'distribution', 3)
def _(g):
    """A large sample is distributed like NumPy's: two-sample Kolmogorov-Smirnov and mean tests.

    Thresholds put a false alarm below 1e-12 per case."""
    name = g.pick(NAMES)
    args = DIST[name][0](g)
    seed = g.int(0, 2**62)
    n = 60000
    one = bool(g.chance(0.1))

    def f(m):
        r = same_state(m, seed) if m is np else m.random.default_rng(seed)
        if one:
            # a sample of single draws
            v = np.array([getattr(r, name)(*args) for _ in range(3000)], dtype=float)
        else:
            v = np.asarray(getattr(r, name)(*args, size=n)).astype(float)
        return v - 1 if m is np and name == 'geometric' else v

    def eqv(exp, got):
        k = got.size
        limit = 3.8 * np.sqrt(2.0 / k)
        d = ks(exp, got)
        if d > limit:
            raise Violation('distribution', '%s%s: distance %.4f between distributions, at most %.4f is plausible'
                            % (name, args, d, limit))
        if name not in HEAVY and not one:
            sd = np.sqrt((exp.var() + got.var()) / k)
            z = abs(exp.mean() - got.mean()) / sd if sd > 0 else abs(exp.mean() - got.mean())
            if z > 8:
                raise Violation('mean', '%s%s: means %.5f and %.5f differ by %.1f standard errors'
                                % (name, args, exp.mean(), got.mean(), z))
        return k
    return Call('distribution ' + name, f, (), eqv=eqv, key=name, note='args=%s seed=%d single=%s' % (args, seed, one))


@op('C21', 'vectors', 2)
def _(g):
    """multinomial counts add up, dirichlet shares add up, multivariate normals follow the covariance."""
    name = g.pick(['multinomial', 'dirichlet', 'multivariate_normal'])
    seed = g.int(0, 2**62)
    k = g.int(1, 5)
    n = g.int(0, 50)
    big = bool(g.chance(0.3))
    cnt = 20000 if big else g.int(0, 20)
    if name == 'multinomial':
        p = g.rng.dirichlet(np.ones(k)) if g.chance(0.7) else np.full(k, 1.0 / k)
        args = (n, p.tolist())
        mean = n * p
        sd = np.sqrt(n * p * (1 - p))
    elif name == 'dirichlet':
        a = g.rng.integers(1, 9, k) / 2.0
        args = (a.tolist(),)
        mean = a / a.sum()
        sd = np.sqrt(mean * (1 - mean) / (a.sum() + 1))
    else:
        q = g.rng.integers(-2, 3, (k, g.int(1, k)))          # singular covariances included
        cov = (q @ q.T).astype(float)
        mean = g.rng.integers(-5, 6, k).astype(float)
        args = (mean.tolist(), cov.tolist())
        sd = np.sqrt(np.diag(cov))

    def f(m):
        if m is np:
            return np.zeros((cnt, k), dtype='int64' if name == 'multinomial' else 'float64')
        return getattr(m.random.default_rng(seed), name)(*args, size=cnt)

    def eqv(exp, got):
        r = np.asarray(got)
        if r.shape != exp.shape or r.dtype != exp.dtype:
            raise Violation('shape', 'expected %s %s, got %s %s' % (exp.dtype, exp.shape, r.dtype, r.shape))
        if not np.isfinite(r).all():
            raise Violation('value', 'not finite')
        if name == 'multinomial' and not ((r >= 0).all() and (r.sum(1) == n).all()):
            raise Violation('value', 'counts do not add up to %d: %r' % (n, r[:3].tolist()))
        if name == 'dirichlet' and not ((r >= 0).all() and np.allclose(r.sum(1), 1)):
            raise Violation('value', 'shares do not add up to 1: %r' % (r[:3].tolist(),))
        if big:
            off = np.abs(r.mean(0) - mean)
            if (off > 8 * sd / np.sqrt(cnt) + 1e-12).any():
                raise Violation('mean', '%s%s: column means %r' % (name, args, r.mean(0).tolist()))
            if name == 'multivariate_normal':
                got_cov = np.atleast_2d(np.cov(r.T))
                # standard error of a sample covariance
                se = np.sqrt((np.outer(np.diag(cov), np.diag(cov)) + cov ** 2) / cnt)
                if (np.abs(got_cov - cov) > 8 * se + 1e-9).any():
                    raise Violation('covariance', 'expected %r, got %r' % (cov.tolist(), got_cov.tolist()))
        return max(r.size, 1)
    return Call('vectors ' + name, f, (), eqv=eqv, key='%s|%d|%s' % (name, k, big), note='args=%s size=%d seed=%d' % (args, cnt, seed))


@op('C21', 'integers', 4)
def _(g):
    """Integers stay in [low, high), to the ends of the 64-bit range, and fill it evenly."""
    lim = 2**63 - 1
    style = g.pick(['small', 'small', 'wide', 'edge', 'full', 'one', 'residue'])
    k = 1
    if style == 'residue':
        # a draw that is only scaled to a range of k * 2**s favours some residues modulo k
        k, s = g.pick([(3, 62), (3, 61), (5, 61), (7, 61), (5, 60), (9, 60), (11, 60), (13, 60), (15, 60), (7, 60)])
        lo = g.int(-lim - 1, lim - (k << s)) if k << s < 2**63 else g.pick([-lim - 1, lim - (k << s)])
        hi = lo + (k << s)
    elif style == 'small':
        lo = g.int(-10, 10)
        hi = lo + g.int(1, 12)
    elif style == 'wide':
        lo, hi = sorted([g.int(-lim, lim), g.int(-lim, lim)])
        hi += lo == hi
    elif style == 'edge':
        lo, hi = g.pick([(-lim - 1, -lim + 5), (lim - 6, lim), (2**53, 2**53 + 9), (-2**53 - 9, -2**53)])
    elif style == 'full':
        lo, hi = -lim - 1, lim
    else:
        lo, hi = 0, g.int(1, 9)
    seed = g.int(0, 2**62)
    sz = 12000 if k > 1 else None if g.chance(0.1) else g.pick([(6,), (3, 4), 0, 12000])
    residues = k

    def f(m):
        r = np.random.default_rng(seed) if m is np else m.random.default_rng(seed)
        return r.integers(hi, size=sz) if style == 'one' else r.integers(lo, hi, size=sz)

    def eqv(exp, got):
        if sz is None:
            if not isinstance(got, int) or not lo <= got < hi:
                raise Violation('value', '%r is not an integer in [%d, %d)' % (got, lo, hi))
            return 1
        r = np.asarray(got)
        if r.shape != exp.shape or r.dtype != np.int64:
            raise Violation('shape', 'expected int64 %s, got %s %s' % (exp.shape, r.dtype, r.shape))
        if r.size and not (r.min() >= lo and int(r.max()) < hi):
            raise Violation('value', 'integers(%d, %d) drew from %d to %d' % (lo, hi, r.min(), r.max()))
        if r.size == 12000:
            k = min(hi - lo, 12)
            cells = np.bincount(((r.astype(object) - lo) * k // (hi - lo)).astype(int), minlength=k)
            chi = ((cells - 12000 / k) ** 2 / (12000 / k)).sum()
            if hi - lo > 12 and (hi - lo) < 10**6:
                return r.size          # cells of unequal width
            if chi > 100:
                raise Violation('distribution', 'integers(%d, %d): cells %s' % (lo, hi, cells.tolist()))
            if hi - lo > 10**9 and not ((r % 2 == 0).sum() > 5000 and (r % 2 == 1).sum() > 5000):
                raise Violation('distribution', 'integers(%d, %d): low bits are not random' % (lo, hi))
            if residues > 1:
                cells = np.bincount(((r.astype(object) - lo) % residues).astype(int), minlength=residues)
                if ((cells - 12000 / residues) ** 2 / (12000 / residues)).sum() > 120:
                    raise Violation('distribution', 'integers(%d, %d): residues modulo %d: %s' % (lo, hi, residues, cells.tolist()))
        return max(r.size, 1)
    return Call('integers', f, (), eqv=eqv, key='%s|%s' % (style, sz), note='[%d, %d) size=%s seed=%d' % (lo, hi, sz, seed))


def histories(g):
    prog = []
    for _ in range(g.int(1, 6)):
        name = g.pick(NAMES + ['integers', 'permutation', 'choice', 'random'])
        if name in DIST:
            prog.append((name, DIST[name][0](g), dict(size=size(g))))
        elif name == 'integers':
            prog.append((name, (0, g.int(1, 1000)), dict(size=size(g))))
        elif name == 'random':
            prog.append((name, (), dict(size=size(g))))
        elif name == 'permutation':
            prog.append((name, (g.int(0, 30),), {}))
        else:
            prog.append((name, (g.int(30, 60),), dict(size=g.int(0, 20), replace=bool(g.chance(0.5)))))
    return prog


def play(r, prog):
    return [np.asarray(getattr(r, name)(*a, **k)) for name, a, k in prog]


@op('C21', 'reproducible', 4)
def _(g):
    """A seed and a history of calls determine every result; other generators and refused calls do not interfere."""
    seed = g.int(0, 2**62)
    prog = histories(g)
    mode = g.pick(['same', 'interleaved', 'refused', 'seeds', 'state'])
    bad = g.pick([('normal', (0.0, -1.0)), ('integers', (5, 5)), ('binomial', (5, 2.0)), ('beta', (-1.0, 1.0)),
                  ('poisson', (-1.0,)), ('choice', (0,)), ('triangular', (3.0, 2.0, 1.0)), ('zipf', (0.5,)),
                  ('geometric', (0.0,)), ('gamma', (-1.0,)), ('hypergeometric', (1, 1, 5)),
                  ('multinomial', (3, [0.9, 0.9, 0.1]))])
    make = (lambda m: same_state(m, seed)) if mode == 'state' else (lambda m: m.random.default_rng(seed))

    def f(m):
        if m is np:
            return np.array(True)
        want = play(make(m), prog)
        r, other = make(m), m.random.default_rng(seed + 1)
        if mode == 'seeds':
            if np.asarray(r.random(8)).tobytes() == np.asarray(other.random(8)).tobytes():
                raise Violation('value', 'seeds %d and %d give the same numbers' % (seed, seed + 1))
            return np.array(True)
        for step, (name, a, k) in enumerate(prog):
            if mode == 'interleaved':
                other.random(3)
                make(m).normal(0.0, 1.0, size=2)
            if mode == 'refused':
                try:
                    getattr(r, bad[0])(*bad[1], size=2)
                except (ValueError, TypeError, OverflowError):
                    pass
                else:
                    raise Violation('accepted', '%s%s is accepted' % bad)
            got = np.asarray(getattr(r, name)(*a, **k))
            if got.dtype != want[step].dtype or got.shape != want[step].shape or got.tobytes() != want[step].tobytes():
                raise Violation('value', 'step %d (%s%s %s) of the history differs the second time' % (step, name, a, k))
        return np.array(True)
    return Call('reproducible ' + mode, f, (), key='%s|%s' % (mode, bad[0] if mode == 'refused' else ''),
                note='seed=%d %s bad=%s' % (seed, prog, bad))


REJECT = {
    'normal': [(0.0, -1.0)], 'exponential': [(-1.0,)],
    'beta': [(0.0, 1.0), (1.0, 0.0), (-1.0, 1.0)], 'gamma': [(-1.0, 1.0), (1.0, -1.0)],
    'poisson': [(-1.0,), (float('nan'),), (1e30,)], 'binomial': [(3, -0.1), (3, 1.1), (3, float('nan')), (-1, 0.5)],
    'chisquare': [(0.0,), (-2.0,)], 'lognormal': [(0.0, -1.0)], 'laplace': [(0.0, -1.0)], 'logistic': [(0.0, -1.0)],
    'rayleigh': [(-1.0,)], 'weibull': [(-1.0,)], 'geometric': [(0.0,), (1.5,), (-0.5,)],
    'negative_binomial': [(0.0, 0.5), (2.0, 0.0), (2.0, 1.5), (-1.0, 0.5)],
    'hypergeometric': [(2, 3, 6), (-1, 3, 1)], 'zipf': [(1.0,), (0.5,), (float('nan'),)],
    'triangular': [(2.0, 1.0, 3.0), (0.0, 4.0, 3.0), (1.0, 1.0, 1.0)], 'vonmises': [(0.0, -1.0)], 'pareto': [(0.0,), (-1.0,)],
    'wald': [(0.0, 1.0), (1.0, 0.0), (-1.0, 1.0)], 'standard_t': [(0.0,), (-1.0,)], 'standard_gamma': [(-1.0,)],
    'integers': [(5, 5), (6, 5), (0,), (-3,)], 'multinomial': [(3, [0.9, 0.9, 0.1]), (3, [-0.1, 0.5, 0.6]), (-1, [1.0])],
    'dirichlet': [([1.0, -1.0],)], 'multivariate_normal': [([0.0, 0.0], [[1.0]]), ([0.0], [[1.0, 0.0], [0.0, 1.0]])],
    'choice': [(0,), (-1,)], 'random': [((-1,),), ((2, -3),)],
}


@op('C21', 'rejects', 2)
def _(g):
    name = g.pick(sorted(REJECT))
    args = g.pick(REJECT[name])
    kw = {} if name in ('random', 'permutation') or g.chance(0.4) else {'size': 3}

    def f(m):
        return getattr(np.random.default_rng(1) if m is np else m.random.default_rng(1), name)(*args, **kw)
    return Call('rejects ' + name, f, (), key='%s|%s' % (name, args))


EDGE = [('exponential', (0.0,), 0.0), ('normal', (2.5, 0.0), 2.5), ('gamma', (0.0, 1.0), 0.0), ('gamma', (1.0, 0.0), 0.0),
        ('poisson', (0.0,), 0), ('binomial', (0, 0.5), 0), ('binomial', (7, 0.0), 0), ('binomial', (7, 1.0), 7),
        ('laplace', (1.5, 0.0), 1.5), ('logistic', (1.5, 0.0), 1.5), ('rayleigh', (0.0,), 0.0), ('lognormal', (0.0, 0.0), 1.0),
        ('negative_binomial', (3.0, 1.0), 0), ('hypergeometric', (0, 5, 3), 0), ('hypergeometric', (5, 0, 3), 3),
        ('hypergeometric', (4, 4, 8), 4), ('uniform', (3.0, 3.0), 3.0), ('geometric', (1.0,), 0), ('zipf', (2000.0,), 1),
        ('standard_gamma', (0.0,), 0.0), ('integers', (4, 5), 4)]


@op('C21', 'degenerate', 1)
def _(g):
    """Parameters that leave only one possible value."""
    name, args, val = g.pick(EDGE)
    n = g.int(1, 5)

    def f(m):
        if m is np:
            return np.full(n, val)
        return np.asarray(m.random.default_rng(n).__getattribute__(name)(*args, size=n))
    return Call('degenerate ' + name, f, (), key='%s|%s' % (name, args))


def rows(x):
    """The sub-arrays along the first axis, comparable and sortable."""
    x = np.asarray(x)
    return sorted(np.ascontiguousarray(r).tobytes() for r in x)


ANY = ['bool', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float16', 'float32', 'float64',
       'complex64', 'complex128']


def cut(g, shape):
    """A strided view with distinct elements: slices with steps, then a transposition."""
    ix = []
    for d in shape:
        s = g.pick([slice(None), slice(None, None, -1), slice(None, None, 2), slice(1, None), slice(None, None, -2)])
        ix.append(s)
    return tuple(ix), g.perm(len(shape))


@op('C21', 'shuffle', 5)
def _(g):
    """Shuffling a view permutes its rows and touches nothing else, whatever the dtype and strides."""
    shape = g.shape(nd=(1, 3), cap=200, empty=0.05)
    dt = g.pick(ANY)
    n = int(np.prod(shape))
    v = np.arange(n) % 250 if np.dtype(dt).itemsize > 1 else np.arange(n) % 2 if dt == 'bool' else np.arange(n) % 100
    data = v.astype(dt).reshape(shape)
    ix, perm = cut(g, shape)
    plain = bool(g.chance(0.3))
    seed = g.int(0, 2**62)

    def f(m):
        if m is np:
            return np.array(True)
        base = m.asarray(data)
        view = base if plain else m.transpose(base[ix], tuple(perm))
        was = np.array(np.asarray(view))
        m.random.default_rng(seed).shuffle(view)
        now, whole = np.array(np.asarray(view)), np.array(np.asarray(base))
        if rows(now) != rows(was):
            raise Violation('value', 'rows were %r and are %r' % (was.tolist(), now.tolist()))
        outside = np.ones(shape, bool)
        (outside if plain else outside[ix])[...] = False
        if whole[outside].tobytes() != data[outside].tobytes():
            raise Violation('value', 'elements outside the shuffled view changed')
        inside = whole if plain else whole[ix].transpose(perm)
        if inside.tobytes() != now.tobytes():
            raise Violation('value', 'the base does not show the shuffled rows')
        if now.shape[0] > 12 and len(set(rows(was))) > 10 and now.tobytes() == was.tobytes():
            raise Violation('value', 'nothing was shuffled')
        return np.array(True)
    return Call('shuffle', f, (), key='%s|%s|%d' % (dt, plain, len(shape)),
                note='%s%s ix=%s perm=%s seed=%d' % (dt, shape, ix, perm, seed))


@op('C21', 'permutation', 4)
def _(g):
    """permutation returns the rows of its argument in some order, in its dtype, and leaves it alone."""
    seed = g.int(0, 2**62)
    if g.chance(0.3):
        n = g.int(0, 60)
        arg = n
        a = None
    else:
        a = g.arr(ANY, nd=(1, 3), cap=100, empty=0.05, bcast=False)

    def f(m, *xs):
        if m is np:
            return np.array(True)
        x = xs[0] if xs else None
        was = np.arange(n) if x is None else np.array(np.asarray(x))
        got = m.random.default_rng(seed).permutation(n if x is None else x)
        r = np.asarray(got)
        if r.dtype != was.dtype or r.shape != was.shape:
            raise Violation('shape', 'expected %s %s, got %s %s' % (was.dtype, was.shape, r.dtype, r.shape))
        if rows(r) != rows(was):
            raise Violation('value', 'not the same rows: %r of %r' % (r.tolist(), was.tolist()))
        if x is not None and np.asarray(x).tobytes() != was.tobytes():
            raise Violation('value', 'the argument changed')
        return np.array(True)
    return Call('permutation', f, () if a is None else (a,), key='int' if a is None else '%s|%d' % (a.n.dtype, a.n.ndim),
                note='seed=%d n=%s' % (seed, n if a is None else ''))


@op('C21', 'choice', 4)
def _(g):
    """choice draws members, each at most as often as it occurs when replace is false."""
    seed = g.int(0, 2**62)
    replace = bool(g.chance(0.5))
    if g.chance(0.4):
        a, n = None, g.int(1, 40)
    else:
        a = g.arr(ANY, nd=(1, 3), cap=100, empty=0, mindim=1, bcast=False, prof='distinct')
        n = a.n.shape[0]
    sz = size(g, none=False)
    if g.chance(0.5) and not replace:
        sz = g.int(0, n)

    def f(m, *xs):
        pop = np.arange(n) if not xs else np.asarray(xs[0])
        if m is np:
            return np.random.default_rng(1).choice(pop, size=sz, replace=replace)
        return m.random.default_rng(seed).choice(n if not xs else xs[0], size=sz, replace=replace)

    def eqv(exp, got):
        from collections import Counter
        r = np.asarray(got)
        pop = np.arange(n).astype('float64') if a is None else np.asarray(a.n)
        if r.shape != exp.shape or r.dtype != pop.dtype:
            raise Violation('shape', 'expected %s %s, got %s %s' % (pop.dtype, exp.shape, r.dtype, r.shape))
        k = int(np.prod(sz)) if not isinstance(sz, int) else sz
        drawn = Counter(rows(r.reshape((k,) + pop.shape[1:])))
        have = Counter(rows(pop))
        for row, c in drawn.items():
            if row not in have or not replace and c > have[row]:
                raise Violation('value', 'drew %r from %r (replace=%s)' % (r.tolist(), pop.tolist(), replace))
        return max(r.size, 1)
    return Call('choice', f, () if a is None else (a,), eqv=eqv, key='%s|%s' % (replace, 'int' if a is None else a.n.ndim),
                note='n=%d size=%s seed=%d' % (n, sz, seed))


@op('C21', 'orders', 1)
def _(g):
    """Every order is as likely as every other, for permutation, shuffle and choice without replacement."""
    how = g.pick(['permutation', 'shuffle', 'choice', 'permutation array'])
    seed = g.int(0, 2**62)
    k = g.pick([2, 3, 4])
    trials = 4800

    def f(m):
        if m is np:
            return np.array(True)
        r = m.random.default_rng(seed)
        seen = {}
        arr = m.arange(k)
        for _ in range(trials):
            if how == 'permutation':
                t = tuple(np.asarray(r.permutation(k)).tolist())
            elif how == 'permutation array':
                t = tuple(np.asarray(r.permutation(arr)).tolist())
            elif how == 'choice':
                t = tuple(np.asarray(r.choice(k, size=k, replace=False)).tolist())
            else:
                arr = m.arange(k)
                r.shuffle(arr)
                t = tuple(np.asarray(arr).tolist())
            seen[t] = seen.get(t, 0) + 1
        total = {2: 2, 3: 6, 4: 24}[k]
        want = trials / total
        chi = sum((c - want) ** 2 / want for c in seen.values()) + (total - len(seen)) * want
        if len(seen) > total or chi > 130:
            raise Violation('distribution', '%s of %d: orders are not equally likely (chi-square %.0f): %s' % (how, k, chi, seen))
        return np.array(True)
    return Call('orders ' + how, f, (), key='%s|%d' % (how, k), note='seed=%d' % seed)
