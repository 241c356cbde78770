"""Memory layouts of arrays: the same values stored in other ways."""

import numpy as np

def fortran(a):
    return np.asfortranarray(a)


def reverse(a):
    idx = tuple(slice(None, None, -1) for _ in a.shape)
    return a[idx].copy()[idx]


def strided(a):
    big = np.zeros([2 * n + 1 for n in a.shape], a.dtype)
    if a.dtype.names is None and a.dtype.kind in "fi":
        big[...] = 77
    v = big[tuple(slice(1, 2 * n + 1, 2) for n in a.shape)]
    v[...] = a
    return v


def inner(a):
    """The leading part of a larger array"""
    big = np.zeros([n + 2 for n in a.shape], a.dtype)
    v = big[tuple(slice(0, n) for n in a.shape)]
    v[...] = a
    return v


def unaligned(a):
    raw = np.zeros(a.nbytes + 1, "u1")
    v = raw[1:].view(a.dtype).reshape(a.shape) if a.size else a.copy()
    v[...] = a
    return v


def swapped(a):
    return a.astype(a.dtype.newbyteorder("S"))


def axes(k):
    def f(a):
        if a.ndim < 2:
            return a.copy()
        order = list(np.roll(np.arange(a.ndim), k))
        return np.ascontiguousarray(a.transpose(order)).transpose(np.argsort(order))

    return f


class Sub(np.ndarray):
    pass


def subclass(a):
    return a.copy().view(Sub)


def locked(a):
    b = a.copy()
    b.flags.writeable = False
    return b


LAYOUTS = {
    "fortran": fortran,
    "reversed": reverse,
    "strided": strided,
    "inner": inner,
    "unaligned": unaligned,
    "swapped": swapped,
    "rolled1": axes(1),
    "rolled2": axes(2),
    "subclass": subclass,
    "locked": locked,
}


# views and orders that ordinary array code produces; the others are left to C40
USUAL = ["fortran", "reversed", "strided", "inner", "rolled1", "rolled2"]


def thin(cases, n):
    """About n of the cases, spread evenly"""
    cases = list(cases)
    step = max(1, len(cases) // n)
    return cases[::step]


def space(base, n, chunk=None):
    """About n cases of each of the given spaces, executed on meshes whose arrays have the other layouts"""
    from . import snap
    from .engine import Space

    names = [*USUAL, "mixed"]

    def gen():
        for k, sp in enumerate(base):
            for j, c in enumerate(thin(sp.cases(), n)):
                for how in names[j % 2 :: 2]:
                    yield dict(space=k, layout=how, case=c)

    def run(c, ctx):
        snap.LAYOUT = c["layout"]
        try:
            base[c["space"]].run(c["case"], ctx)
        finally:
            snap.LAYOUT = None

    return Space("layouts", gen, run, chunk or max(sp.chunk for sp in base), timeout=max(sp.timeout for sp in base), bounds=f"about {n} cases of each of the spaces {', '.join(sp.name for sp in base)} with {len(names)} memory layouts of the arrays")
