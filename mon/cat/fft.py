"""Fourier transforms.  The reference is numpy.fft in double precision (rumpy
always answers in double precision)."""
import numpy as np
from mon.core import REAL, CPLX, Call
from mon.cat import op


def src(g, shape, pool):
    dt = g.pick(pool)
    return g.arr(dt, shape, prof=g.pick(['small', 'int', 'frac', 'pos']) if dt != 'bool' else None)


def dbl(x):
    return x.astype(np.complex128 if x.dtype.kind == 'c' else np.float64)


def dim(g, lo=1):
    if g.chance(0.25):
        return g.pick([7, 8, 9, 11, 13, 16, 17, 25, 32, 37, 49, 64, 97, 100, 128])
    return g.int(lo, 12)


def slack(*arrs):
    mag = 1.0
    for a in arrs:
        if a.n.size:
            mag = max(mag, float(np.max(np.abs(a.n.astype(complex)))) * a.n.size)
    return dict(rtol=1e-9, atol=1e-13 * mag)


ANY = REAL + CPLX


def one(fname, pool):
    def gen(g):
        nd = 1 if g.chance(0.95) else g.pick([0, 2])
        a = src(g, tuple(dim(g) for _ in range(nd)), pool)
        if nd != 1:
            # rumpy transforms vectors only
            return Call(fname, lambda m, x: getattr(m.fft, fname)(x), (a,), ref=refuse, key='nd')
        return Call(fname, lambda m, x: getattr(m.fft, fname)(x), (a,),
                    ref=lambda m, x: getattr(np.fft, fname)(dbl(x)), **slack(a))
    return gen


def refuse(*a):
    raise ValueError('not a vector')


for _f, _p in (('fft', ANY), ('ifft', ANY), ('rfft', REAL), ('irfft', ANY), ('ihfft', REAL)):
    op('C20', 'f_' + _f, 2)(one(_f, _p))


@op('C20', 'f_hfft', 2)
def _(g):
    a = src(g, (dim(g),), ANY)
    n = None if g.chance(0.4) else g.int(1, 2 * a.n.size + 4)
    return Call('hfft', lambda m, x: m.fft.hfft(x) if n is None else m.fft.hfft(x, n), (a,),
                ref=lambda m, x: np.fft.hfft(dbl(x), n), key='n%s' % (n is None), note='n=%s' % n, **slack(a))


def two(fname, pool):
    def gen(g):
        a = src(g, (dim(g), dim(g)) if g.chance(0.5) else (g.int(1, 9), g.int(1, 9)), pool)
        s = None
        if fname == 'irfft2' and g.chance(0.6):
            s = [g.int(1, 2 * a.n.shape[0]), g.int(1, 2 * a.n.shape[1] + 3)]
        if s is None:
            return Call(fname, lambda m, x: getattr(m.fft, fname)(x), (a,),
                        ref=lambda m, x: getattr(np.fft, fname)(dbl(x)), **slack(a))
        return Call(fname, lambda m, x: getattr(m.fft, fname)(x, s), (a,),
                    ref=lambda m, x: getattr(np.fft, fname)(dbl(x), s), key='s', note='s=%s' % s, **slack(a))
    return gen


for _f, _p in (('fft2', ANY), ('ifft2', ANY), ('rfft2', REAL), ('irfft2', ANY)):
    op('C20', 'f_' + _f, 2)(two(_f, _p))


def many(fname, pool):
    def gen(g):
        nd = g.int(1, 4)
        sh = tuple(g.int(1, 7) for _ in range(nd))
        if g.chance(0.04):
            sh = tuple(0 if g.chance(0.5) else d for d in sh)
        a = src(g, sh, pool)
        ax = None
        if g.chance(0.7):
            ax = g.perm(nd)[:g.int(1, nd)]
            if g.chance(0.05):
                ax = ax + [nd]
            ax = [int(x) for x in ax]
            if fname in ('fftn', 'ifftn') and g.chance(0.15):
                ax.append(ax[0])        # the same axis again
            ax = [x - nd if x < nd and g.chance(0.3) else x for x in ax]
        s = None
        if fname == 'irfftn' and g.chance(0.5) and (ax is None or nd not in ax):
            s = [g.int(1, 9) for _ in range(len(ax) if ax is not None else g.int(1, nd))]
        if 0 in sh:
            return Call(fname, lambda m, x: getattr(m.fft, fname)(x, **kw(ax, None)), (a,),
                        ref=lambda m, x: getattr(np.fft, fname)(dbl(x), **kw(ax, None)), err='skip', key='empty',
                        note='axes=%s' % ax, **slack(a))
        return Call(fname, lambda m, x: getattr(m.fft, fname)(x, **kw(ax, s)), (a,),
                    ref=lambda m, x: getattr(np.fft, fname)(dbl(x), **kw(ax, s)),
                    key='%s|%s' % (ax, s is None), note='axes=%s s=%s' % (ax, s), **slack(a))
    return gen


def kw(ax, s):
    d = {}
    if ax is not None:
        d['axes'] = ax
    if s is not None:
        d['s'] = s
    return d


for _f, _p in (('fftn', ANY), ('ifftn', ANY), ('rfftn', REAL), ('irfftn', ANY)):
    op('C20', 'f_' + _f, 2)(many(_f, _p))


@op('C20', 'f_shift', 3)
def _(g):
    how = g.pick(['fftshift', 'ifftshift'])
    a = g.arr(g.pick(ANY), nd=(1, 2), empty=0.05, cap=200)
    return Call(how, lambda m, x: getattr(m.fft, how)(x), (a,), rtol=None)


@op('C20', 'f_freq', 1)
def _(g):
    how = g.pick(['fftfreq', 'rfftfreq'])
    n = g.int(1, 70)
    d = g.pick([1.0, 0.5, 2.0, 0.1, 3.7, 1e-3])
    if g.chance(0.3):
        return Call(how, lambda m: getattr(m.fft, how)(n), (), rtol=1e-13, key='d', note='n=%d' % n)
    return Call(how, lambda m: getattr(m.fft, how)(n, d=d), (), rtol=1e-13, key='%d' % n, note='n=%d d=%s' % (n, d))


@op('C20', 'f_roundtrip', 2)
def _(g):
    """inverse after forward gives the input back"""
    k = g.int(0, 2)
    if k == 0:
        a = src(g, (dim(g),), ANY)
        f = lambda m, x: m.fft.ifft(m.fft.fft(x))
    elif k == 1:
        nd = g.int(1, 3)
        a = src(g, tuple(g.int(1, 7) for _ in range(nd)), ANY)
        f = lambda m, x: m.fft.ifftn(m.fft.fftn(x))
    else:
        nd = g.int(1, 3)
        a = src(g, tuple(g.int(1, 7) for _ in range(nd)), REAL)
        s = list(a.n.shape)
        f = lambda m, x: m.fft.irfftn(m.fft.rfftn(x), s=s)
    return Call('roundtrip', f, (a,), ref=lambda m, x: dbl(x).astype(complex) if k < 2 else dbl(x), key='k%d' % k, **slack(a))
