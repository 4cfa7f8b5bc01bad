"""Arbitrary calls of the public API: every callable, arguments guessed from the
parameter names, well formed or not.  Shapes are either small or so large that no
allocation can succeed, other counts are small; files are only named inside the worker's scratch directory."""
import os, re, types
import numpy as np
import rumpy as rp
from mon.core import ALL, Arr

MODS = {'rp': rp}
for _n in ('linalg', 'fft', 'char', 'emath', 'random'):
    if hasattr(rp, _n):
        MODS['rp.' + _n] = getattr(rp, _n)

HUGE = [10 ** 13, 10 ** 15, -2 ** 31, 2 ** 62, 2 ** 63 - 1, -2 ** 63, 2 ** 63, 2 ** 64, 10 ** 30]
DTS = ['bool', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float16',
       'float32', 'float64', 'complex64', 'complex128']
TEXT = ['U3', 'S4', 'U1']
TIME = ['M8[D]', 'M8[s]', 'M8[ns]', 'm8[s]', 'm8[D]']


def entries():
    out = []
    for mn, m in MODS.items():
        for n in sorted(dir(m)):
            if n.startswith('_') or n in SKIP:
                continue
            f = getattr(m, n)
            if callable(f):
                out.append((mn + '.' + n, f, params(f)))
    return out


SKIP = {'ndarray', 'dtype'}
# in-place or file methods included; dump/tofile get scratch paths by parameter name
METHODS = [n for n in dir(rp.ndarray) if not n.startswith('__')]
DUNDERS = ['__add__', '__sub__', '__mul__', '__truediv__', '__floordiv__', '__mod__', '__pow__',
           '__matmul__', '__and__', '__or__', '__xor__', '__lshift__', '__rshift__', '__eq__',
           '__lt__', '__radd__', '__rsub__', '__rmul__', '__rtruediv__', '__rpow__', '__getitem__',
           '__neg__', '__abs__', '__invert__', '__len__', '__bool__', '__float__', '__int__',
           '__repr__', '__str__', '__iter__', '__contains__', '__complex__', '__index__', '__hash__']


def params(f):
    sig = getattr(f, '__text_signature__', None)
    if not sig:
        return None
    ps = []
    depth = 0
    cur = ''
    for ch in sig.strip()[1:-1]:
        if ch in '([{':
            depth += 1
        elif ch in ')]}':
            depth -= 1
        if ch == ',' and depth == 0:
            ps.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        ps.append(cur.strip())
    out = []
    for p in ps:
        if p in ('/', '*', '$self', 'self'):
            continue
        out.append((p.split('=')[0].strip(), '=' in p))
    return out


def array(g, kinds=None):
    r = g.int(0, 19)
    if r < 15 or kinds == 'num':
        dt = g.pick(DTS)
        return g.arr(dt, nd=(0, 4), empty=0.08, cap=120,
                     prof=g.pick(['small', 'small', 'special', 'wide', 'dups', 'pos'])).r
    sh = g.shape((0, 3), empty=0.08, cap=40)
    n = int(np.prod(sh))
    if r < 17:
        dt = g.pick(TEXT)
        vals = [g.pick(['', 'a', 'bc', 'xyz', ' A ', '12']) for _ in range(n)]
        return rp.asarray(np.array(vals, dtype=dt).reshape(sh) if n else np.zeros(sh, dt))
    dt = g.pick(TIME)
    v = g.rng.integers(-10 ** 6, 10 ** 6, n)
    if n and g.chance(0.3):
        v[g.int(0, n - 1)] = np.iinfo(np.int64).min
    return rp.asarray(v.astype('i8').view(dt).reshape(sh) if n else np.zeros(sh, dt))


def integer(g, big=True):
    if big and g.chance(0.12):
        return g.pick(HUGE)
    return g.int(-4, 12)


def junk(g):
    return g.pick([None, 'abc', b'xy', 3.5, float('nan'), float('inf'), -1, 0, True, 1 + 2j, (), [], {},
                   [1, 2], (2, 3), [[1, 2], [3]], slice(None), Ellipsis, object(), 'float64', 'U5',
                   2 ** 70, [None], ['a', 'b'], range(3), np.float32(2), np.arange(3), np.zeros((2, 2))])


def path(g):
    return os.path.join(os.environ.get('MON_SCRATCH', '/nonexistent'), 'h%d-%d' % (os.getpid(), g.int(0, 5)))


def func(g):
    def boom(*a, **k):
        raise ValueError('callback')
    return g.pick([lambda *a, **k: a[0] if a else 1, lambda *a, **k: 1, lambda *a, **k: rp.arange(3), boom,
                   lambda *a, **k: None, rp.sum, lambda *a, **k: 'x', lambda *a, **k: [1, 2]])


AXIS = re.compile(r'^(axis|axes|axis1|axis2|start|source|destination)$')
SHAPE = re.compile(r'^(shape|newshape|new_shape|dims|reps|size|dimensions|s|pad_width|shapes)$')
INT = re.compile(r'^(n|m|k|num|num_sections|kth|ddof|decimals|repeats|shift|offset|ind|ndim|deg|order|'
                 r'minlength|bins|width|N|M|indices_or_sections|count|periods|max_rows|skiprows|prec.*)$')
# how many elements to make: kept small, except in the shapes rumpy checks up front
COUNT = re.compile(r'^(n|m|num|num_sections|repeats|deg|minlength|bins|width|N|M|indices_or_sections|count|'
                   r'periods|ndim|order)$')
FUNC = re.compile(r'^(func.*|function|pyfunc|condlist|funclist)$')
FILE = re.compile(r'^(file|fname|filename|fid|path)$')
DTYPE = re.compile(r'^(dtype|to_dtype|from_dtype|type1|type2|arg1|arg2)$')
TEXTP = re.compile(r'^(ord|mode|method|casting|order|kind|subscripts|unit|sep|delimiter|fmt|chars|sub|old|new|'
                   r'suffix|prefix|fillchar|encoding|char|norm|p|UPLO|weekmask|side|indexing)$')


def value(g, name):
    if g.chance(0.06):
        return junk(g)
    if FILE.match(name):
        return path(g)
    if FUNC.match(name):
        return func(g)
    if AXIS.match(name):
        return g.pick([None, 0, 1, -1, 2, -3, 7, (0, 1), (1, 1), [0], integer(g)])
    if SHAPE.match(name):
        big = name in ('shape', 'newshape', 'new_shape')
        if g.chance(0.2):
            return integer(g, big=big)
        t = [g.int(-1, 6) for _ in range(g.int(0, 4))]
        if t and big and g.chance(0.08):
            t[g.int(0, len(t) - 1)] = g.pick(HUGE)
        return tuple(t) if g.chance(0.8) else t
    if INT.match(name):
        return integer(g, big=not COUNT.match(name))
    if DTYPE.match(name):
        return g.pick(DTS + TEXT + ['datetime64[s]', 'timedelta64[D]', 'float128', 'i4', '>f8', 'O', '', None])
    if TEXTP.match(name):
        return g.pick(['fro', 'nuc', 'left', 'right', 'raise', 'wrap', 'clip', 'same', 'valid', 'full', 'safe',
                       'ij,jk->ik', 'i->', 'ii', '...i', 'i,,', 'D', 's', ',', ' ', '', 'a', 'bc', 'edge',
                       'constant', 'reflect', 'linear', 'C', 'F', 'ij', 'xy', 'ortho', '%d', 1, 2, -1, None])
    r = g.int(0, 9)
    if r < 7:
        return array(g)
    if r == 7:
        return [array(g) for _ in range(g.int(0, 3))]
    if r == 8:
        return g.pick([1, 2.5, -3, True, 0, 1j, integer(g)])
    return g.pick([[1, 2, 3], (0, 1), [[1.0, 2], [3, 4]], [True, False], None, 'abc'])


def key(g):
    def item():
        return g.pick([g.int(-6, 6), slice(*[g.pick([None, g.int(-7, 7), g.pick([2 ** 62, -2 ** 62])])
                                             for _ in range(2)] + [g.pick([None, 1, -1, 2, -3, g.pick([2 ** 40, 2 ** 62, 2 ** 63 - 1, -2 ** 63, 2 ** 70])])]),
                       None, Ellipsis, g.pick(HUGE), [0, 1], array(g, 'num'), 1.5, True, 'a'])
    return item() if g.chance(0.4) else tuple(item() for _ in range(g.int(0, 4)))


ENTRIES = None


def draw(g):
    """-> (text, thunk): one call of the public interface"""
    global ENTRIES
    if ENTRIES is None:
        ENTRIES = entries()
    r = g.int(0, 9)
    if r < 6:
        if g.chance(0.08):
            return rng_call(g)
        name, f, ps = g.pick(ENTRIES)
        args, kw = args_for(g, ps)
        if name == 'rp.bincount' and args and isinstance(args[0], rp.ndarray):
            # a table as long as its largest element
            args[0] = g.arr(g.pick(['int8', 'uint8', 'int16', 'bool', 'float32']), nd=(0, 3), prof='small').r
        if name in ('rp.arange', 'rp.linspace', 'rp.geomspace', 'rp.logspace'):
            args = [g.pick([-3, 0, 5, 2.5, 'a', None, [1], 1.0]) if isinstance(a, rp.ndarray) else a for a in args]
        if name == 'rp.histogramdd' and args and isinstance(args[0], rp.ndarray) and args[0].ndim == 2 \
                and args[0].shape[1] > 4:
            args[0] = args[0][:, :3]        # bins to the power of the number of columns
        if name == 'rp.histogramdd' and g.chance(0.4):
            # one count to a column, and lists that are too short or too long
            args[:] = [array(g) if g.chance(0.2) else rp.array(np.ones((g.int(0, 6), g.int(0, 3)))),
                       [g.int(0, 3) if g.chance(0.2) else g.int(1, 3) for _ in range(g.int(0, 5))]]
            kw.clear()
            if g.chance(0.3):
                kw['range'] = [(0.0, 1.0)] * g.int(0, 4)
        return name, (lambda: f(*args, **kw)), args, kw
    if r < 8:
        a = array(g)
        name = g.pick(METHODS)
        at = getattr(rp.ndarray, name)
        if not callable(at):
            return 'ndarray.' + name, (lambda: getattr(a, name)), [a], {}
        args, kw = args_for(g, params(at))
        if name in ('dump', 'tofile'):
            args, kw = [path(g)], {}
        return 'ndarray.' + name, (lambda: getattr(a, name)(*args, **kw)), [a] + args, kw
    if r == 8:
        a = array(g)
        name = g.pick(DUNDERS)
        un = name in ('__neg__', '__abs__', '__invert__', '__len__', '__bool__', '__float__', '__int__',
                      '__repr__', '__str__', '__iter__', '__complex__', '__index__', '__hash__')
        if name == '__iter__':
            return 'ndarray.__iter__', (lambda: list(a)), [a], {}
        args = [] if un else [key(g) if name == '__getitem__' else value(g, 'x')]
        if name in ('__pow__', '__rpow__'):
            args += [None]
        if not hasattr(rp.ndarray, name):
            return 'noop', (lambda: None), [a], {}
        return 'ndarray.' + name, (lambda: getattr(a, name)(*args)), [a] + args, {}
    a = array(g)
    k = key(g)
    v = value(g, 'x')

    def put():
        a[k] = v
    return 'ndarray.__setitem__', put, [a, k, v], {}


RNG = [n for n in dir(rp.random.Generator) if not n.startswith('_') and n != 'from_numpy_state']


def rng_call(g):
    """A method of a generator: parameters inside, at the edge of and outside their domain, any size."""
    name = g.pick(RNG)
    r = rp.random.default_rng(g.int(0, 99))
    args, kw = [], {}
    for pn, opt in params(getattr(rp.random.Generator, name)) or []:
        if pn == 'size':
            if g.chance(0.7):
                kw['size'] = value(g, 'size')
        elif pn in ('x', 'a') and name in ('permutation', 'shuffle', 'choice'):
            args.append(g.pick([array(g), array(g), g.int(-1, 9), [1, 2, 3], 'ab', None]))
        elif pn == 'replace':
            kw['replace'] = g.chance(0.5)
        elif pn in ('n', 'ngood', 'nbad', 'nsample', 'low', 'high') and name != 'uniform' and g.chance(0.8):
            args.append(g.pick([0, 1, 5, -1, 40] + ([2 ** 63 - 1, -2 ** 63, 2 ** 63] if pn in ('low', 'high') else [])))
        elif pn in ('pvals', 'alpha', 'mean', 'cov') and name in ('multinomial', 'dirichlet', 'multivariate_normal'):
            args.append(g.pick([[0.2, 0.8], [0.5, 0.5], [[1.0, 0.0], [0.0, 1.0]], [], [float('nan')], [-1.0, 2.0],
                                [[1.0]], [1.0], [0.1] * 10, None, array(g)]))
        elif not opt or g.chance(0.6):
            v = g.pick([0.0, -1.0, 0.5, 1.0, 2.5, 1e-300, 5e-324, 1e10, 1e300, -1e300, float('inf'), float('nan'), 3, 'x', None,
                        0.3, 4.0])
            if opt:
                kw[pn] = v
            else:
                args.append(v)
    return 'Generator.' + name, (lambda: getattr(r, name)(*args, **kw)), args, kw


def args_for(g, ps):
    if ps is None:
        return [value(g, 'x') for _ in range(g.int(0, 3))], {}
    args, kw = [], {}
    byname = False
    for name, opt in ps:
        if name.startswith('**'):
            continue
        if name.startswith('*'):
            args += [value(g, name[1:].rstrip('s') if not SHAPE.match(name[1:]) else name[1:])
                     for _ in range(g.int(0, 3))]
            byname = True
            continue
        if opt and g.chance(0.55):
            byname = True
            continue
        v = value(g, name)
        if byname:
            kw[name] = v
        else:
            args.append(v)
    if g.chance(0.03) and args:
        args.pop()
    if g.chance(0.02):
        args.append(junk(g))
    return args, kw


def show(x):
    if isinstance(x, rp.ndarray):
        try:
            return 'array(%s, %s, strides=%s)' % (x.dtype, tuple(x.shape), tuple(x.strides))
        except BaseException:
            return 'array(?)'
    if isinstance(x, (list, tuple)):
        s = ', '.join(show(y) for y in x)
        return '[%s]' % s if isinstance(x, list) else '(%s)' % s
    if callable(x) and not isinstance(x, type):
        return getattr(x, '__name__', 'f')
    return repr(x)[:60]


def text(name, args, kw):
    return '%s(%s)' % (name, ', '.join([show(a) for a in args] +
                                       ['%s=%s' % (k, show(v)) for k, v in kw.items()]))


def results(x, depth=0):
    if isinstance(x, rp.ndarray):
        yield x
    elif depth < 3 and isinstance(x, (list, tuple)):
        for y in x[:50]:
            yield from results(y, depth + 1)
    elif depth < 3 and isinstance(x, dict):
        for y in x.values():
            yield from results(y, depth + 1)
