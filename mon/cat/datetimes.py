"""Dates, durations and business days."""
import numpy as np
from mon.core import Call
from mon.cat import op

UNITS = ['Y', 'M', 'W', 'D', 'h', 'm', 's', 'ms', 'us', 'ns']
# values within about a century of the epoch, in each unit
SPAN = {'Y': 90, 'M': 1000, 'W': 4000, 'D': 30000, 'h': 700000, 'm': 4 * 10**7, 's': 2 * 10**9,
        'ms': 2 * 10**12, 'us': 2 * 10**15, 'ns': 2 * 10**18}
FIXED = UNITS[2:]


def stamps(g, shape, unit, nat=0.0, kind='datetime64'):
    n = int(np.prod(shape))
    style = g.pick(['wide', 'near', 'dups'])
    lim = {'wide': SPAN[unit], 'near': min(60, SPAN[unit]), 'dups': 4}[style]
    v = g.rng.integers(-lim, lim + 1, n).astype('int64').astype('%s[%s]' % (kind, unit))
    if nat and n:
        v[g.rng.random(n) < nat] = 'NaT'
    return g.wrap(v.reshape(shape))


def eras(g, shape, u):
    """Dates beside the ends of months, years, centuries and 400-year cycles, far from the epoch included."""
    n = int(np.prod(shape))
    y = np.array([g.pick([1600, 1700, 1900, 2000, 2000, 2100, 2400, 4, 1, 0, -1, -4, -100, -400, -2000, g.int(-30000, 30000)])
                  + g.pick([0, 0, 1, -1, 400]) for _ in range(n)], 'int64')
    v = (y - 1970).astype('M8[Y]').astype('M8[M]') + np.array([g.pick([0, 1, 2, 2, 3, 11]) for _ in range(n)], 'm8[M]')
    if u in 'YM':
        return g.wrap(v.astype('M8[%s]' % u).reshape(shape))
    v = v.astype('M8[D]') + np.array([g.pick([0, -1, -1, 1, 27, 28]) for _ in range(n)], 'm8[D]')
    v = v.astype('M8[%s]' % u)
    if u in 'hms':
        v = v + np.array([g.pick([0, -1, 1, g.int(0, 86399)]) for _ in range(n)], 'm8[%s]' % u)
    return g.wrap(v.reshape(shape))


def sh(g, lo=1, nd=(1, 3)):
    return g.shape(nd=nd, cap=60, empty=0, mindim=lo)


def bsh(g, base):
    return tuple(1 if g.chance(0.25) else d for d in base) if g.chance(0.5) else base


def nat(g):
    return g.pick([0, 0, 0.2])


@op('C23', 'dt_arith', 6)
def _(g):
    base = sh(g)
    u = g.pick(UNITS)
    what = g.pick(['M-M', 'M+m', 'm+M', 'M-m', 'm+m', 'm-m'])
    f = {'+': lambda m, x, y: x + y, '-': lambda m, x, y: x - y}[what[1]]
    kind = {'M': 'datetime64', 'm': 'timedelta64'}
    a = stamps(g, base, u, nat(g), kind[what[0]])
    b = stamps(g, bsh(g, base), u, nat(g), kind[what[2]])
    return Call('dt ' + what, f, (a, b), key='%s|%s' % (what, u))


@op('C23', 'dt_mixed_units', 3)
def _(g):
    base = sh(g)
    u, v = [FIXED[i] for i in (g.int(0, len(FIXED) - 1),) * 2]
    v = g.pick([x for x in FIXED if abs(FIXED.index(x) - FIXED.index(u)) <= 2])
    what = g.pick(['M-M', 'M+m', 'M-m', 'm+m', 'm-m', 'M<M', 'm<m'])
    f = {'+': lambda m, x, y: x + y, '-': lambda m, x, y: x - y, '<': lambda m, x, y: x < y}[what[1]]
    kind = {'M': 'datetime64', 'm': 'timedelta64'}

    def small(k, unit):
        x = g.rng.integers(-2000, 2000, base).astype('int64').astype('%s[%s]' % (kind[k], unit))
        return g.wrap(x)
    return Call('dt ' + what, f, (small(what[0], u), small(what[2], v)), key='%s|%s|%s' % (what, u, v))


@op('C23', 'td_scale', 2)
def _(g):
    base = sh(g)
    u = g.pick(UNITS)
    a = stamps(g, base, u, nat(g), 'timedelta64')
    k = g.pick([-3, -1, 0, 1, 2, 7])
    what = g.pick(['*', '*r', 'neg', 'abs'])
    f = {'*': lambda m, x: x * k, '*r': lambda m, x: k * x, 'neg': lambda m, x: -x, 'abs': lambda m, x: abs(x)}[what]
    return Call('td ' + what, f, (a,), key='%s|%s' % (what, u), note='k=%d' % k)


@op('C23', 'td_ratio', 3)
def _(g):
    """Durations divided by durations, durations scaled by whole and fractional numbers."""
    base = sh(g)
    u = g.pick(UNITS)
    a = stamps(g, base, u, nat(g), 'timedelta64')
    what = g.pick(['/', '//', '%', 'int', 'int/', 'float', 'float/', 'rint', '+1'])
    if what in ('/', '//', '%'):
        b = stamps(g, bsh(g, base), u, nat(g), 'timedelta64')
        f = {'/': lambda m, x, y: x / y, '//': lambda m, x, y: x // y, '%': lambda m, x, y: x % y}[what]
        return Call('td ' + what, f, (a, b), key='%s|%s' % (what, u))
    if what == '+1':
        k = g.int(-9, 9)
        kind = g.pick(['+', '-', 'r+'])
        f = {'+': lambda m, x: x + k, '-': lambda m, x: x - k, 'r+': lambda m, x: k + x}[kind]
        c = stamps(g, base, u, nat(g)) if g.chance(0.5) else a
        return Call('dt %s int' % kind, f, (c,), key='%s|%s' % (kind, u), note='k=%d' % k)
    n = g.rng.integers(-9, 10, bsh(g, base))
    if what in ('float', 'float/'):
        n = n / 4
    b = g.wrap(n.astype(g.pick(['int64', 'int32', 'int16']) if what in ('int', 'int/', 'rint') else g.pick(['float64', 'float32'])))
    f = {'/': lambda m, x, y: x / y}.get(what[-1], lambda m, x, y: x * y)
    if what == 'rint':
        f = lambda m, x, y: y * x
    small = g.wrap(g.rng.integers(-10**6, 10**6, base).astype('timedelta64[%s]' % u))
    return Call('td ' + what, f, (small if 'float' in what else a, b), key='%s|%s' % (what, u))


@op('C23', 'dt_extreme', 2)
def _(g):
    base = sh(g)
    u, kind = g.pick(UNITS), g.pick(['datetime64', 'timedelta64'])
    a, b = stamps(g, base, u, nat(g), kind), stamps(g, bsh(g, base), u, nat(g), kind)
    what = g.pick(['maximum', 'minimum', 'fmax', 'fmin'])
    return Call('dt ' + what, lambda m, x, y: getattr(m, what)(x, y), (a, b), key='%s|%s|%s' % (what, u, kind))


@op('C23', 'td_sum', 2)
def _(g):
    u = g.pick(UNITS)
    a = stamps(g, sh(g), u, nat(g), 'timedelta64')
    what = g.pick(['sum', 'cumsum', 'diff'])
    ax = g.int(-a.n.ndim, a.n.ndim - 1)
    return Call('td ' + what, lambda m, x: getattr(m, what)(x, axis=ax), (a,), key='%s|%s' % (what, u), note='axis=%d' % ax)


@op('C23', 'dt_compare', 4)
def _(g):
    base = sh(g)
    u, kind = g.pick(UNITS), g.pick(['datetime64', 'timedelta64'])
    a, b = stamps(g, base, u, nat(g), kind), stamps(g, bsh(g, base), u, nat(g), kind)
    what = g.pick(['==', '!=', '<', '<=', '>', '>='])
    f = eval('lambda m, x, y: x %s y' % what)
    return Call('dt ' + what, f, (a, b), key='%s|%s|%s' % (what, kind, u))


@op('C23', 'dt_reduce', 4)
def _(g):
    u, kind = g.pick(UNITS), g.pick(['datetime64', 'timedelta64'])
    a = stamps(g, sh(g), u, nat(g), kind)
    what = g.pick(['argmin', 'argmax', 'min', 'max'])
    ax = g.int(-a.n.ndim, a.n.ndim - 1) if g.chance(0.5) else None
    if what in ('min', 'max') and ax is None:
        # the whole array's extreme comes back as its number of units
        return Call('dt ' + what, lambda m, x: getattr(m, what)(x), (a,), key='%s|%s' % (what, u),
                    ref=lambda m, x: int(getattr(m, what)(x).astype('int64')))
    kw = {} if ax is None else {'axis': ax}
    return Call('dt ' + what, lambda m, x: getattr(m, what)(x, **kw), (a,), key='%s|%s|%s' % (what, u, ax), note='axis=%s' % ax)


@op('C23', 'dt_sort', 3)
def _(g):
    u, kind = g.pick(UNITS), g.pick(['datetime64', 'timedelta64'])
    a = stamps(g, sh(g), u, nat(g), kind)
    ax = g.int(-a.n.ndim, a.n.ndim - 1)
    return Call('dt sort', lambda m, x: m.sort(x, axis=ax), (a,), key='%s|%s|%d' % (u, kind, ax), note='axis=%d' % ax)


@op('C23', 'dt_pick', 2)
def _(g):
    """Dates move through the ordinary array machinery untouched."""
    u, kind = g.pick(UNITS), g.pick(['datetime64', 'timedelta64'])
    a = stamps(g, sh(g), u, nat(g), kind)
    what = g.pick(['rev', 'T', 'cat', 'take', 'mask', 'where', 'copy', 'reshape', 'unique'])
    fl = g.rng.integers(0, a.n.shape[0], 4).tolist()
    mk = g.arr('bool', a.n.shape)
    f = {
        'rev': lambda m, x, k: x[::-1], 'T': lambda m, x, k: x.T, 'cat': lambda m, x, k: m.concatenate([x, x[::-1]]),
        'take': lambda m, x, k: m.take(x, m.asarray(fl), axis=0), 'mask': lambda m, x, k: x[k],
        'where': lambda m, x, k: m.where(k, x, x[::-1]), 'copy': lambda m, x, k: x.copy(),
        'reshape': lambda m, x, k: x.reshape(-1), 'unique': lambda m, x, k: m.unique(x),
    }[what]
    return Call('dt ' + what, f, (a, mk), key='%s|%s|%s' % (what, u, kind))


@op('C23', 'isnat', 2)
def _(g):
    u, kind = g.pick(UNITS), g.pick(['datetime64', 'timedelta64'])
    a = stamps(g, sh(g, nd=(0, 3)), u, 0.3, kind)
    return Call('isnat', lambda m, x: m.isnat(x), (a,), key='%s|%s' % (u, kind))


@op('C23', 'dt_astype', 4)
def _(g):
    u = g.pick(UNITS)
    v = g.pick([x for x in UNITS if abs(UNITS.index(x) - UNITS.index(u)) <= 4])
    kind = 'datetime64'
    n = sh(g)
    lim = {True: SPAN[u], False: 3000}[UNITS.index(v) <= UNITS.index(u)]
    lim = min(lim, SPAN[u])
    if UNITS.index(v) >= UNITS.index('us'):
        lim = min(lim, 100)
    x = g.rng.integers(-lim, lim + 1, n).astype('int64').astype('%s[%s]' % (kind, u))
    if g.chance(0.2) and x.size:
        x.reshape(-1)[0] = 'NaT'
    a = g.wrap(x)
    return Call('dt astype', lambda m, y: y.astype('%s[%s]' % (kind, v)), (a,), key='%s|%s' % (u, v), note='to %s' % v)


@op('C23', 'dt_astype_eras', 3)
def _(g):
    us = [x for x in UNITS if x in 'YMWDhms']
    u, v = g.pick(us), g.pick(us)
    a = eras(g, sh(g), u)
    return Call('dt astype', lambda m, x: x.astype('datetime64[%s]' % v), (a,), key='%s|%s' % (u, v), note='to ' + v)


@op('C23', 'td_astype', 3)
def _(g):
    u = g.pick(FIXED)
    v = g.pick([x for x in FIXED if abs(FIXED.index(x) - FIXED.index(u)) <= 3])
    x = g.rng.integers(-9000, 9001, sh(g)).astype('int64').astype('timedelta64[%s]' % u)
    if g.chance(0.2) and x.size:
        x.reshape(-1)[0] = 'NaT'
    a = g.wrap(x)
    return Call('td astype', lambda m, y: y.astype('timedelta64[%s]' % v), (a,), key='%s|%s' % (u, v), note='to %s' % v)


@op('C23', 'datetime_as_string', 3)
def _(g):
    u = g.pick(UNITS)
    a = eras(g, sh(g, nd=(1, 2)), u) if u in 'YMWDhms' and g.chance(0.4) else stamps(g, sh(g, nd=(1, 2)), u, nat(g))
    v = g.pick([None, None] + UNITS[:UNITS.index(u) + 1])
    if v == 'W' or u == 'W':
        v = None
    return Call('datetime_as_string', lambda m, x: list(m.datetime_as_string(x, v) if v else m.datetime_as_string(x)), (a,),
                ref=lambda m, x: np.datetime_as_string(x.astype('datetime64[%s]' % v) if v else x).reshape(-1).tolist(), key='%s|%s' % (u, v), note='unit=%s' % v)


@op('C23', 'from_strings', 3)
def _(g):
    u = g.pick(UNITS)
    n = g.int(1, 8)
    src = g.pick(UNITS[:UNITS.index(u) + 1]) if g.chance(0.6) else u
    if src == 'W':
        src = 'D' if u != 'W' else 'W'
    v = np.asarray(stamps(g, (n,), src, nat(g)).n)
    text = np.datetime_as_string(v).tolist()
    if u == 'ns' and src in ('Y', 'M'):
        src = 'D'
    return Call('array of dates', lambda m: m.array(text, dtype='datetime64[%s]' % u), (),
                ref=lambda m: np.array(text, dtype='datetime64[D]' if u == 'W' else 'datetime64[%s]' % u).astype('datetime64[%s]' % u),
                key='%s|%s' % (u, src), note='%s -> %s' % (text, u))


@op('C23', 'date_text', 3)
def _(g):
    # well-formed text, with the odd slip: read as NumPy reads it, or refused
    u = g.pick([x for x in UNITS if x != 'W'])
    t = '%s%04d' % (g.pick(['', '', '', '', '-', '+']), g.pick([g.int(1700, 2200), g.int(0, 9999), 2000, 1900, 2020]))
    if u == 'ns':
        t = '%04d' % g.int(1700, 2200)
    if g.chance(0.1):
        t = '  ' + t                        # (without a sign: NumPy loses one after a space)
    parts = g.int(0, 6)
    if parts > 0:
        t += '-%02d' % g.pick([g.int(1, 12), 2, 12, 1, 0, 13])
    if parts > 1:
        t += '-%02d' % g.pick([g.int(1, 28), 29, 30, 31, 1, 0, 32])
    if parts > 2:
        t += g.pick('TTTT t') + '%02d' % g.pick([g.int(0, 23), 0, 23, 24])
    if parts > 3:
        t += ':%02d' % g.pick([g.int(0, 59), 0, 59, 60])
    if parts > 4:
        t += ':%02d' % g.pick([g.int(0, 59), 0, 59, 60])
    if parts > 5:
        t += '.' + ''.join(str(g.int(0, 9)) for _ in range(g.int(0, 12)))
    if parts > 2 and g.chance(0.25):
        t += g.pick(['Z', '+01', '-05:30', '+0130', 'z', '+24:00', '+1'])
    slip = g.int(0, 9)
    if slip == 0:
        i = g.int(0, len(t) - 1)
        t = t[:i] + t[i + 1:]
    elif slip == 1:
        i = g.int(0, len(t))
        t = t[:i] + g.pick('-:.T0x/W') + t[i:]
    elif slip == 2:
        t = t.replace('-0', '-', 1)
    elif slip == 3:
        t = g.pick(['nat', 'NaT', 'NAT', '', 'nan', 'ab', '1e3', t + ' ', t + '\u0665', '\u0662020'])

    if t.startswith(' '):
        t = '  ' + t.lstrip('+- ')

    def known(m):
        x = m.array([t], dtype='datetime64[%s]' % u)
        if m is np and not np.isnat(x[0]):
            days = int(np.array([t], 'datetime64[D]').astype('int64')[0])
            if abs(days) > {'ns': 106000, 'us': 106 * 10 ** 6}.get(u, 10 ** 18):
                raise ValueError('beyond the unit')
        return x
    return Call('date text %r' % t, known, (), key='%s|%d|%d' % (u, parts, slip), note=repr(t))


# -- business days ---------------------------------------------------------
DAYS = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']


def calendar(g):
    on = [g.chance(0.7) for _ in range(7)]
    if not any(on):
        on[g.int(0, 6)] = True
    mask = ' '.join(d for d, o in zip(DAYS, on) if o) if g.chance(0.5) else ''.join('1' if o else '0' for o in on)
    hol = [str(np.datetime64(g.int(-300, 300), 'D')) for _ in range(g.int(0, 12))]
    kw = {}
    if g.chance(0.7):
        kw['weekmask'] = mask
    if g.chance(0.7):
        kw['holidays'] = hol
    return kw


def cal(m, kw):
    return m.busdaycalendar(**kw)


@op('C23', 'is_busday', 3)
def _(g):
    kw = calendar(g)
    form = g.pick(['array', 'list', 'str'])
    a = stamps(g, sh(g, nd=(1, 3)), 'D', nat(g))
    small = g.wrap(g.rng.integers(-300, 300, a.n.shape).astype('datetime64[D]'))
    a = a if g.chance(0.4) else small
    if form == 'array':
        return Call('is_busday', lambda m, x: m.is_busday(x, busdaycal=cal(m, kw)), (a,), key='array', note=str(kw))
    text = [str(v) for v in a.n.reshape(-1)]
    arg = text if form == 'list' else text[0]
    return Call('is_busday', lambda m: m.is_busday(arg, busdaycal=cal(m, kw)), (), key=form, note='%s %s' % (arg, kw))


@op('C23', 'busday_count', 3)
def _(g):
    kw = calendar(g)
    n = g.pick([1, 1, 3, 5])
    b = [str(v) for v in g.rng.integers(-300, 300, n).astype('datetime64[D]')]
    e = [str(v) for v in g.rng.integers(-300, 300, n).astype('datetime64[D]')]
    if g.chance(0.3):
        b = b[0]
    if g.chance(0.3):
        e = e[0]
    return Call('busday_count', lambda m: m.busday_count(b, e, busdaycal=cal(m, kw)), (), key='%s|%s' % (type(b), type(e)), note='%s %s %s' % (b, e, kw))


@op('C23', 'busday_offset', 3)
def _(g):
    kw = calendar(g)
    n = g.pick([1, 1, 3, 5])
    c = np.busdaycalendar(**kw)
    d = g.rng.integers(-300, 300, n).astype('datetime64[D]')
    d = [str(v) for v in np.busday_offset(d, 0, roll='forward', busdaycal=c)]   # rumpy starts from any day
    o = g.rng.integers(-60, 60, n).tolist()
    if g.chance(0.3):
        d = d[0]
    if g.chance(0.3):
        o = o[0]
    return Call('busday_offset', lambda m: m.busday_offset(d, o, busdaycal=cal(m, kw)), (),
                ref=lambda m: np.asarray(m.busday_offset(d, o, busdaycal=c)), key='%s|%s' % (type(d), type(o)), note='%s %s %s' % (d, o, kw))


@op('C23', 'busdaycalendar', 1)
def _(g):
    kw = calendar(g)
    if g.chance(0.2):
        kw['weekmask'] = g.pick(['0000000', 'xyz', '11111', 'Mon Foo', '1111121'])
    return Call('busdaycalendar', lambda m: [bool(x) for x in cal(m, kw).weekmask], (), key=str(kw.get('weekmask')), note=str(kw))


@op('C23', 'datetime_data', 1)
def _(g):
    d = '%s[%s]' % (g.pick(['datetime64', 'timedelta64']), g.pick(UNITS))
    return Call('datetime_data', lambda m: list(m.datetime_data(d)), (), key=d, note=d)
