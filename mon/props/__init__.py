import importlib
from mon.core import parity, case_key
from mon import cat


class Family:
    __slots__ = ('name', 'fn', 'n')

    def __init__(self, name, fn, n):
        self.name, self.fn, self.n = name, fn, max(1, int(n))


def schedule(fams):
    """Round robin over the families, each as often as its count says."""
    out = []
    top = max(f.n for f in fams)
    for i in range(top):
        for f in fams:
            if i < f.n:
                out.append((f, i))
    return out


def parity_family(op, n):
    def fn(g):
        c = op.gen(g)
        st, k = parity(g, c)
        return st, k, case_key(c), lambda: repr(c)
    return Family(op.name, fn, n * op.w)


def parity_families(group, n):
    return [parity_family(o, n) for o in cat.load().values() if o.group == group]


def families(pid, tier):
    """Own module if there is one, else the property's catalogue entries."""
    from mon import meta
    n = meta.PROPS[pid].get('n', (300, 4000))[tier != 'quick']
    try:
        m = importlib.import_module('mon.props.' + pid.lower())
    except ModuleNotFoundError as e:
        if e.name != 'mon.props.' + pid.lower():
            raise
        return parity_families(pid, n)
    return m.families(tier)
