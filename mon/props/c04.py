"""The memory layout of an operand is not observable.

Every call of the catalogue is run by rumpy on the drawn views (reversed,
stepped, permuted, offset, broadcast, Fortran) and again on freshly allocated
contiguous arrays holding the same values.  Both must return the same or both
must refuse; NumPy does not take part in the comparison.
"""
import numpy as np
import rumpy as rp
from mon.core import (run, Violation, Skip, Arr, describe, case_key, is_rp, ename, compare)
from mon.props import Family
from mon import cat


def plain(a):
    """the same argument, every array contiguous and on its own"""
    if isinstance(a, Arr):
        n = np.array(a.n, order='C', copy=True).reshape(a.n.shape)
        return rp.asarray(n)
    if isinstance(a, list):
        return [plain(x) for x in a]
    if isinstance(a, tuple):
        return tuple(plain(x) for x in a)
    if isinstance(a, dict):
        return {k: plain(v) for k, v in a.items()}
    return a


def host(x):
    if is_rp(x):
        return np.array(np.asarray(x))
    if isinstance(x, list):
        return [host(y) for y in x]
    if isinstance(x, tuple):
        return tuple(host(y) for y in x)
    if isinstance(x, dict):
        return {k: host(v) for k, v in x.items()}
    return x


def identical(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(identical(x, y) for x, y in zip(a, b))
    if isinstance(a, complex):
        return identical(a.real, b.real) and identical(a.imag, b.imag)
    if isinstance(a, (float, np.datetime64, np.timedelta64)):
        return bool(a == b or (a != a and b != b))
    try:
        return bool(a == b)
    except Exception:
        return False


def count(x):
    if isinstance(x, np.ndarray):
        return int(x.size)
    if isinstance(x, (list, tuple)):
        return sum(count(y) for y in x)
    return 1


def layout(g, c):
    arrs = c.arrs()
    strided = sum(1 for a in arrs if a.lay not in ('C', 'C*'))
    if not strided or not c.layout:
        raise Skip('nothing strided')
    if c.err == 'skip' and run(c.ref or c.fn, np, *c.np_args())[0] == 'err':
        raise Skip('outside the operation\'s domain')
    s1, v1 = run(c.fn, rp, *c.rp_args())
    s2, v2 = run(c.fn, rp, *[plain(a) for a in c.args])
    if s1 != s2:
        raise Violation('outcome', '%r: on these views rumpy %s, on contiguous copies it %s' % (
            c, 'returned ' + describe(v1) if s1 == 'ok' else 'raised ' + ename(v1),
            'returned ' + describe(v2) if s2 == 'ok' else 'raised ' + ename(v2)))
    if s1 == 'err':
        return 'err', 0, case_key(c), lambda: repr(c)
    h1, h2 = host(v1), host(v2)
    n = count(h1)
    if not identical(h1, h2):
        try:
            if c.eqv is not None:
                c.eqv(h2, v1)
            else:
                compare(h2, v1, c.rtol, c.atol, True, c.signed_zero)
        except Violation as v:
            raise Violation(v.kind, '%r: result differs from the one on contiguous copies: %s'
                            % (c, v.msg))
    return 'ok', n, case_key(c), lambda: repr(c), {'operands_not_contiguous': strided}


def families(tier):
    from mon import meta
    n = meta.PROPS['C04']['n'][tier != 'quick']
    return [Family('layout:' + o.name, lambda g, o=o: layout(g, o.gen(g)), n * min(o.w, 1.5))
            for o in cat.load().values()]
