"""A request rumpy cannot serve is refused with an ordinary exception.

Arbitrary calls of the public interface, most of them wrong somewhere.  Each
either returns or raises a subclass of Exception; a Rust panic (PanicException,
which `except Exception` does not catch), a dead process or a call that never
returns is a violation.  After a refusal the operands must still be usable and
unchanged.
"""
import os
import numpy as np
import rumpy as rp
from mon.core import run, Violation
from mon.props import Family
from mon import hostile

INPLACE = {'ndarray.sort', 'ndarray.partition', 'ndarray.put', 'ndarray.fill', 'ndarray.resize',
           'ndarray.__setitem__', 'rp.put', 'rp.place', 'rp.putmask', 'rp.copyto', 'rp.fill_diagonal',
           'rp.put_along_axis'}


def api(g):
    name, call, args, kw = hostile.draw(g)
    t = hostile.text(name, args, kw)
    if 'MON_CASE' in os.environ:
        with open(os.environ['MON_CASE'], 'w') as f:
            f.write(t)
    ops = [a for a in hostile.results(list(args) + list(kw.values()))]
    before = [np.array(np.asarray(a)).tobytes() if a.size < 10 ** 5 else None for a in ops]
    st, v = run(call)
    if st == 'err':
        if not isinstance(v, Exception):
            raise Violation('panic:' + name, '%s: Rust panic %s' % (t, str(v)[:200]))
        for a, b in zip(ops, before):
            if b is not None and np.array(np.asarray(a)).tobytes() != b:
                raise Violation('half-done:' + name, '%s raised %s but had already changed its operand %s'
                                % (t, type(v).__name__, hostile.show(a)))
    return ('err' if st == 'err' else 'ok'), len(ops), '%s|%s|%s' % (
        name, st, type(v).__name__ if st == 'err' else ''), lambda: t, \
        {'calls_returned' if st == 'ok' else 'calls_refused': 1}


def families(tier):
    from mon import meta
    n = meta.PROPS['C28']['n'][tier != 'quick']
    return [Family('api', api, n)]
