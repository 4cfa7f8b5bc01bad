"""The operation catalogue: every entry draws one call on both libraries.

Groups are property ids; the cross-cutting monitors (inputs untouched, layout
independence, memory safety) run over all groups.
"""
OPS = {}


class Op:
    __slots__ = ('group', 'name', 'gen', 'w', 'mut')

    def __init__(self, group, name, gen, w, mut):
        self.group, self.name, self.gen, self.w, self.mut = group, name, gen, w, mut


def op(group, name, w=1.0, mut=False):
    def deco(f):
        key = name
        assert key not in OPS, key
        OPS[key] = Op(group, key, f, w, mut)
        return f
    return deco


_loaded = False


def load():
    global _loaded
    if _loaded:
        return OPS
    import importlib, os, pkgutil
    for m in sorted(x.name for x in pkgutil.iter_modules([os.path.dirname(__file__)])):
        importlib.import_module('mon.cat.' + m)
    _loaded = True
    return OPS
