"""Files and byte buffers.  Everything is written below MON_SCRATCH."""
import os
import zipfile
import numpy as np
from mon.core import Call, REAL
from mon.cat import op
from mon.cat.text import word
from mon.cat.datetimes import stamps, UNITS

NUM = ['bool', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64',
       'float16', 'float32', 'float64', 'complex64', 'complex128']
INTS = [d for d in NUM if 'int' in d]
FLOATS = ['float16', 'float32', 'float64']


def path(name):
    return os.path.join(os.environ['MON_SCRATCH'], 'io-%d-%s' % (os.getpid(), name))


def anyarr(g, nd=(0, 4), empty=0.1, strings=True):
    """An array of any dtype, shape and layout."""
    k = g.pick(['num', 'num', 'num', 'num', 'date'] + (['str', 'bytes'] if strings else []))
    shape = g.shape(nd=nd, cap=300, empty=empty)
    if k == 'num':
        return g.arr(NUM, shape=shape, prof=['wide', 'special', 'any'])
    if k == 'date':
        return stamps(g, shape, g.pick(UNITS), g.pick([0, 0.2]), g.pick(['datetime64', 'timedelta64']))
    n = int(np.prod(shape))
    hi = g.pick([1, 3, 8])
    alpha = list('ab Z9-') + (['é', '中'] if k == 'str' else [])
    v = np.array([word(g, alpha, hi) for _ in range(n)] or [''], dtype=('U%d' if k == 'str' else 'S%d') % hi)
    return g.wrap(v[:n].reshape(shape))


def spelled(a):
    """The name under which both libraries know the dtype."""
    return a.n.dtype.str if a.n.dtype.kind in 'US' else a.n.dtype.name


def nplike(m, a):
    """The same elements as a plain NumPy array, in the layout of the argument."""
    return a if isinstance(a, np.ndarray) else np.asarray(a)


@op('C22', 'npy_written', 6)
def _(g):
    """What rumpy saves is what NumPy reads."""
    p = path('w.npy')

    def f(m, a):
        m.save(p, a)
        return np.load(p)
    a = anyarr(g)
    return Call('save', f, (a,), key='%s|%d' % (a.n.dtype.kind, a.n.ndim))


@op('C22', 'npy_read', 6)
def _(g):
    """What NumPy saves, in C or Fortran order, is what rumpy reads."""
    p = path('r.npy')
    order = g.pick(['C', 'F', 'A'])

    def f(m, a):
        n = np.asarray(a)
        n = np.asfortranarray(n) if order == 'F' else np.ascontiguousarray(n).reshape(n.shape) if order == 'C' else n
        np.save(p, n)
        return m.load(p)
    a = anyarr(g)
    return Call('load', f, (a,), key='%s|%s|%d' % (order, a.n.dtype.kind, a.n.ndim))


@op('C22', 'npy_versions', 1)
def _(g):
    """Format versions 1.0, 2.0 and 3.0 and loosely written headers."""
    p = path('v.npy')
    ver = g.pick([(1, 0), (2, 0), (3, 0)])
    a = anyarr(g, strings=False)
    fortran = bool(g.chance(0.4))
    extra = g.int(0, 130)

    def f(m, a):
        n = np.asarray(a)
        head = "{'descr': %r, 'fortran_order': %r, 'shape': %r, }" % (n.dtype.str, fortran, n.shape)
        head = (head + ' ' * extra + '\n').encode()
        with open(p, 'wb') as fh:
            fh.write(b'\x93NUMPY' + bytes(ver))
            fh.write(len(head).to_bytes(2 if ver[0] == 1 else 4, 'little') + head)
            fh.write(n.tobytes('F' if fortran else 'C'))
        return m.load(p)
    return Call('load version', f, (a,), key='%d|%s' % (ver[0], fortran))


@op('C22', 'npz_written', 3)
def _(g):
    p = path('w.npz')
    k = g.int(1, 4)
    arrs = tuple(anyarr(g) for _ in range(k))
    names = [g.pick(['x', 'y', 'weights', 'a_b', 'Z9']) + str(i) for i in range(k)]
    npos = g.int(0, k)
    packed = bool(g.chance(0.5))

    def f(m, *xs):
        w = m.savez_compressed if packed else m.savez
        w(p, *xs[:npos], **dict(zip(names[npos:], xs[npos:])))
        with np.load(p) as z:
            return [z['arr_%d' % i] for i in range(npos)] + [z[n] for n in names[npos:]] + [np.array(len(z.files))]
    return Call('savez', f, arrs, key='%s|%d|%d' % (packed, npos, k))


@op('C22', 'npz_read', 3)
def _(g):
    p = path('r.npz')
    k = g.int(1, 4)
    arrs = tuple(anyarr(g) for _ in range(k))
    names = [g.pick(['x', 'y', 'deep/name', 'a.npy', 'Z9']) + str(i) for i in range(k)]
    packed = bool(g.chance(0.5))

    def f(m, *xs):
        w = np.savez_compressed if packed else np.savez
        w(p, **dict(zip(names, [np.asarray(x) for x in xs])))
        z = m.load(p)
        return [z[n] for n in names] + [np.array(len(list(z.keys())))]
    return Call('load npz', f, arrs, key='%s|%d' % (packed, k))


@op('C22', 'round_trip', 3)
def _(g):
    """Through rumpy alone, every way of storing an array."""
    a = anyarr(g)
    how = g.pick(['npy', 'npz', 'npzc', 'bytes', 'file'])
    dt = spelled(a)

    def f(m, x):
        if how == 'npy':
            m.save(path('t.npy'), x)
            return m.load(path('t.npy'))
        if how in ('npz', 'npzc'):
            (m.savez if how == 'npz' else m.savez_compressed)(path('t.npz'), v=x)
            return m.load(path('t.npz'))['v']
        x.tofile(path('t.bin'))
        if how == 'file':
            return m.fromfile(path('t.bin'), dtype=dt).reshape(x.shape)
        with open(path('t.bin'), 'rb') as fh:
            raw = fh.read()
        return m.frombuffer(raw, dtype=dt).reshape(x.shape)
    if how == 'bytes' and not a.n.size:
        how = 'file'
    return Call('round trip ' + how, f, (a,), key='%s|%s' % (how, a.n.dtype.kind))


@op('C22', 'binary', 4)
def _(g):
    """Counts and offsets into raw files and buffers."""
    a = anyarr(g, nd=(1, 2), empty=0)
    dt = spelled(a)
    n, size = a.n.size, a.n.dtype.itemsize
    how = g.pick(['fromfile', 'frombuffer'])
    count = g.pick([-1, -1, 0, 1, n, n + 1, g.int(0, n)])
    k = g.int(0, n)
    off = g.pick([0, 0, k * size, k * size, n * size, n * size + 1, g.int(0, n * size)])
    kw = {}
    if count != -1 or g.chance(0.5):
        kw['count'] = count
    if off or g.chance(0.5):
        kw['offset'] = off
    p = path('b.bin')

    def f(m, x):
        x.tofile(p)
        if how == 'fromfile':
            return m.fromfile(p, dtype=dt, **kw)
        with open(p, 'rb') as fh:
            raw = fh.read()
        return m.frombuffer(raw, dtype=dt, **kw)
    return Call(how, f, (a,), key='%s|%d|%d' % (how, count > 0, off > 0), note=str(kw),
                err='skip' if how == 'frombuffer' and (count == 0 or off == n * size) or off > n * size else 'both')


@op('C22', 'tofile_text', 2)
def _(g):
    a = g.arr(INTS + FLOATS, nd=(0, 3), cap=80, prof=['wide', 'any', 'special'])
    sep = g.pick([',', ' ', ';', ', ', '\n'])
    dt = a.n.dtype.name
    p = path('t.txt')

    def f(m, x):
        x.tofile(p, sep=sep)
        return np.fromfile(p, dtype=dt, sep=sep)
    return Call('tofile text', f, (a,), key='%s|%r' % (dt, sep))


@op('C22', 'fromfile_text', 2)
def _(g):
    a = g.arr(INTS + FLOATS, nd=(1, 1), cap=80, empty=0, mindim=1, prof=['wide', 'any', 'special'])
    sep = g.pick([',', ' ', ';', ', '])
    dt = a.n.dtype.name
    p = path('f.txt')
    count = g.pick([-1, -1, 1, g.int(1, a.n.size)])
    soft = g.pick(['', ' ', '\n'])

    def f(m, x):
        with open(p, 'w') as fh:
            fh.write((sep + soft).join(repr(v) for v in np.asarray(x).tolist()))
        return m.fromfile(p, dtype=dt, sep=sep, count=count)
    return Call('fromfile text', f, (a,), key='%s|%r' % (dt, sep), note='soft=%r' % soft)


@op('C22', 'savetxt_bytes', 4)
def _(g):
    """The text written is NumPy's, byte for byte."""
    p = path('s.txt')
    a = g.arr(INTS + FLOATS, nd=(1, 3), cap=60, empty=0.05, prof=['small', 'wide', 'special', 'any'])
    intfmt = a.n.dtype.kind in 'iu'
    kw = {}
    fmt = g.pick([None, '%.18e', '%.6e', '%.3f', '%10.4f', '%-12.3e|', '%+.2f', '%g', '%.4g', '%08.2f', '%.0f', '%G',
                  'v=%.5g', '%.17g', '% .3e'] + ['%d', '%5d', '%i', '%05d', '%-4d.'] * (2 if intfmt else 0))
    if fmt is not None:
        kw['fmt'] = fmt
    if g.chance(0.6):
        kw['delimiter'] = g.pick([',', '\t', ' ', '; '])
    if g.chance(0.2):
        kw['newline'] = g.pick(['\r\n', '\n', ' \n'])
    if g.chance(0.3):
        kw['header'] = g.pick(['col a', 'two\nlines'])
    if g.chance(0.2):
        kw['footer'] = g.pick(['end', 'the\nend'])
    if g.chance(0.2):
        kw['comments'] = g.pick(['// ', '', '%'])

    def f(m, x):
        if os.path.exists(p):
            os.remove(p)
        m.savetxt(p, x, **kw)
        with open(p, 'rb') as fh:
            return np.frombuffer(fh.read(), dtype='uint8')
    return Call('savetxt', f, (a,), key='%s|%s|%d' % (a.n.dtype.kind, fmt, a.n.ndim), note=str(kw))


@op('C22', 'savetxt_loadtxt', 3)
def _(g):
    """Text written by either library and read by the other gives the same numbers."""
    p = path('l.txt')
    a = g.arr(INTS + FLOATS + ['complex128'], nd=(1, 2), cap=60, empty=0, mindim=1, prof=['small', 'wide', 'any'])
    kind = a.n.dtype.kind
    fmt = '%d' if kind in 'iu' else '%.18e'
    dl = g.pick([None, ',', ';', ' '])
    kw = {'delimiter': dl} if dl and kind != 'c' else {}
    dt = a.n.dtype.name
    way = g.pick(['np-m', 'm-np', 'm-m'])

    def f(m, x):
        if way == 'np-m':
            np.savetxt(p, np.asarray(x), fmt=fmt, **kw)
        else:
            m.savetxt(p, x, **({} if kind == 'c' else {'fmt': fmt}), **kw)
        return (np if way == 'm-np' else m).loadtxt(p, dtype=dt, **kw)
    return Call('savetxt ' + way, f, (a,), key='%s|%s|%s' % (way, dt, dl))


def number(g, kind):
    r = g.rng.random()
    if kind == 'i':
        return str(g.int(-1000, 1000) if r < 0.6 else g.int(-2**63, 2**63 - 1))
    if r < 0.5:
        return str(g.int(-50, 50))
    if r < 0.8:
        return '%.*f' % (g.int(0, 6), g.rng.normal(0, 100))
    if r < 0.95:
        return '%.*e' % (g.int(0, 17), g.rng.normal(0, 1) * 10.0 ** g.int(-30, 30))
    return g.pick(['nan', 'inf', '-inf', '1e5', '+3', '.5', '2.'])


def page(g, kind, ncols, nrows, delim, comments, blank=True, holes=0.0, ragged=False, junk=0.0):
    """A text table with comments, blank lines and irregular spacing."""
    lines = []
    for i in range(nrows):
        while blank and g.chance(0.15):
            lines.append(g.pick(['', '' if delim else '   ', comments + ' note 1 2', comments]))
        row = []
        for _ in range(ncols + (ragged and i == nrows - 1)):
            s = '' if g.rng.random() < holes else number(g, kind)
            if g.rng.random() < junk:
                s = g.pick(['n/a', '--', 'x1'])
            row.append(s)
        gap = (lambda: ' ' * g.int(0, 2)) if delim else (lambda: '')
        sep = delim if delim else g.pick([' ', '  ', '\t'])
        line = gap() + sep.join(gap() + s + gap() for s in row)
        if not delim and g.chance(0.2):
            line = '  ' + line + ' '
        if blank and g.chance(0.15):
            line += ' ' + comments + ' tail 9'
        lines.append(line)
    return '\n'.join(lines) + ('\n' if g.chance(0.8) else '')


def write(p, text):
    with open(p, 'w') as fh:
        fh.write(text)


@op('C22', 'loadtxt', 6)
def _(g):
    p = path('q.txt')
    kind = g.pick(['f', 'f', 'i'])
    ncols, nrows = g.int(1, 5), g.int(1, 8)
    delim = g.pick([None, None, ',', ';', '\t'])
    comments = g.pick(['#', '#', '%', '//'])
    ragged = bool(g.chance(0.07))
    text = page(g, kind, ncols, nrows, delim, comments, ragged=ragged)
    skip = 0
    if g.chance(0.3):
        skip = g.int(1, 3)
        text = ''.join(g.pick(['title words\n', '\n', comments + ' c\n']) for _ in range(skip)) + text
    kw = {}
    if delim:
        kw['delimiter'] = delim
    if comments != '#':
        kw['comments'] = comments
    if skip:
        kw['skiprows'] = skip
    if g.chance(0.3):
        kw['usecols'] = [g.int(0, ncols - 1 + (g.chance(0.05))) for _ in range(g.int(1, 3))]
    if g.chance(0.25):
        kw['max_rows'] = g.int(1, nrows + 1)
    dt = 'int64' if kind == 'i' else g.pick(['float64', 'float64', 'float32'])
    if dt != 'float64':
        kw['dtype'] = dt

    def f(m):
        write(p, text)
        return m.loadtxt(p, **kw)
    return Call('loadtxt', f, (), key='%s|%s|%s' % (kind, delim, sorted(kw)), note=repr((text, kw)))


@op('C22', 'genfromtxt', 6)
def _(g):
    p = path('g.txt')
    ncols, nrows = g.int(1, 5), g.int(2, 8)
    delim = g.pick([None, ',', ',', ';'])
    comments = g.pick(['#', '#', '%'])
    text = page(g, 'f', ncols, nrows, delim, comments, holes=0.15 if delim and ncols > 1 else 0.0,
                ragged=bool(g.chance(0.05)), junk=g.pick([0, 0, 0.1]))
    kw = {}
    if delim:
        kw['delimiter'] = delim
    if comments != '#':
        kw['comments'] = comments
    if g.chance(0.3):
        n = g.int(1, 2)
        kw['skip_header'] = n
        text = 'title words\n' * n + text
    if g.chance(0.25):
        kw['skip_footer'] = g.int(1, 2)
    elif g.chance(0.25):
        kw['max_rows'] = g.int(1, nrows)
    if g.chance(0.4):
        kw['filling_values'] = float(g.int(-9, 9))
    if g.chance(0.3):
        kw['missing_values'] = g.pick(['n/a', '--'])
    if g.chance(0.25):
        kw['usecols'] = [g.int(0, ncols - 1) for _ in range(g.int(1, 3))]

    def f(m):
        write(p, text)
        return m.genfromtxt(p, **kw)
    return Call('genfromtxt', f, (), key='%s|%s' % (delim, sorted(kw)), note=repr((text, kw)))


@op('C22', 'damaged', 5)
def _(g):
    """A damaged file is refused or, where the damage does not matter, read as before: never wrong data."""
    p = path('d.npy')
    a = anyarr(g, nd=(1, 3), empty=0, strings=False)
    cut = g.pick(['cut', 'cut', 'cut', 'short', 'magic', 'len', 'shape', 'neg', 'huge', 'dtype', 'order', 'endian', 'empty', 'zip'])
    at = g.rng.random()

    def f(m, x):
        n = np.asarray(x)
        np.save(p, n)
        with open(p, 'rb') as fh:
            raw = fh.read()
        if cut == 'cut':
            raw = raw[:int(at * (len(raw) - 1))]
        elif cut == 'short':
            raw = raw[:-1]
        elif cut == 'magic':
            raw = b'\x93NUMPZ' + raw[6:]
        elif cut == 'len':
            raw = raw[:8] + b'\xff\xff' + raw[10:]
        elif cut == 'shape':
            raw = raw.replace(("'shape': (%d" % n.shape[0]).encode(), ("'shape': (%d" % (n.shape[0] * 100 + 7)).encode())
        elif cut == 'neg':
            raw = raw.replace(b"'shape': (", b"'shape': (-")
        elif cut == 'huge':
            raw = raw.replace(b"'shape': (", b"'shape': (%d" % 10**15, 1)
        elif cut == 'dtype':
            raw = raw.replace(n.dtype.str.encode(), b'<q9'.ljust(len(n.dtype.str), b' '), 1)
        elif cut == 'order':
            raw = raw.replace(b"'fortran_order': ", b"'fortran_odder': ")
        elif cut == 'endian':
            if n.dtype.str[0] != '<':
                raw = b''
            raw = raw.replace(n.dtype.str.encode(), b'>' + n.dtype.str[1:].encode(), 1)
        elif cut == 'empty':
            raw = b''
        q = p if cut != 'zip' else path('d.npz')
        if cut == 'zip':
            np.savez(q, x=n)
            with open(q, 'rb') as fh:
                raw = fh.read()
            raw = raw[:int(at * (len(raw) - 1))]
        with open(q, 'wb') as fh:
            fh.write(raw)
        if m is np:
            return np.array(0)
        try:
            r = m.load(q)
            if cut == 'zip':
                r = r['x']
        except (OSError, ValueError, TypeError, KeyError) as e:
            return np.array(0)
        if cut == 'endian':
            r = np.asarray(r)
            return np.array(0 if r.astype(n.dtype).tobytes() == np.load(q).astype(n.dtype).tobytes() else 1)
        return np.array(1)
    return Call('damaged ' + cut, f, (a,), key='%s|%s' % (cut, a.n.dtype.kind))


@op('C22', 'missing', 1)
def _(g):
    p = path('absent')
    what = g.pick(['load', 'loadtxt', 'genfromtxt', 'fromfile'])

    def f(m):
        return getattr(m, what)(p + ('.npz' if what == 'load' and g.chance(0.5) else ''))
    return Call('missing ' + what, f, (), key=what)


@op('C22', 'pickled', 2)
def _(g):
    """dumps() and dump() give a pickle of the elements."""
    import pickle
    a = anyarr(g)
    p = path('d.pkl') if g.chance(0.5) else None

    def f(m, x):
        if p is None:
            return pickle.loads(x.dumps())
        x.dump(p)
        with open(p, 'rb') as h:
            return pickle.load(h)
    return Call('dump', f, (a,), key='%s|%s' % (p is None, a.n.dtype.kind))
