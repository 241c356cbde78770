"""C02: the Nek5000 field layout, in both directions."""

import itertools

import numpy as np

from .. import codecs, data, layouts, sizes, snap
from ..engine import Space, deviations, expect, product
from .c01 import LR, size_cases

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of bounded fields against an independent model of the file format, both directions"
RULE = (
    "a state is one field file (reference bytes); written files are compared with the reference encoder, files made "
    "by the reference encoder (complete, partial, zero map) are decoded by readnek; distinct by content"
)
ASSUMPTIONS = ["the layout of the extrema of the scalars (by element or by scalar) is not fixed by the format"]


def mk(cfg):
    if cfg.get("elmap") == "shuffled":
        cfg = dict(cfg, elmap=sizes.shuffled(cfg["nel"]))
    return data.field(
        cfg["ndim"], cfg["lr1"], cfg["nel"], cfg["var"], dtype=cfg.get("dtype", "float64"),
        special=cfg.get("special"), elmap=cfg.get("elmap"), time=cfg.get("time", 0.25), istep=cfg.get("istep", 7),
        wdsz=cfg["wdsz"], endian=cfg["endian"], flat=cfg.get("flat"),
    )


def same_header(got, want):
    if len(got) < 132 or got[:4] != b"#std":
        return False
    a, b = got[:132].split(), want[:132].split()
    if len(a) != len(b):
        return False
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            try:
                if i == 0 or i == 11 or float(x) != float(y):
                    return False
            except ValueError:
                return False
    return True


def write(cfg, ctx):
    import pymech as pm

    s = mk(cfg)
    h = snap.to_hexa(s, cfg.get("dtype", "float64"))
    p = ctx.path()
    pm.writenek(p, h)
    ctx.step()
    got = open(p, "rb").read()
    want1 = codecs.nek_field(s, cfg["wdsz"], cfg["endian"])
    want2 = codecs.nek_field(s, cfg["wdsz"], cfg["endian"], trailer="scalar")
    ctx.validated()
    ctx.state(want1)
    expect(same_header(got, want1), lambda: f"header {got[:132]!r} instead of {want1[:132]!r}")
    expect(len(got) == len(want1), lambda: f"{len(got)} bytes instead of {len(want1)}")
    if got[132:] not in (want1[132:], want2[132:]):
        i = next(i for i in range(132, len(got)) if got[i] != want1[i])
        expect(False, f"byte {i} of {len(got)} is {got[i]:#x} instead of {want1[i]:#x}")


def read(cfg, ctx):
    """cfg may hold: elems (stored elements, zero-based), nelg (total), zeros (positions of zeros in the map)"""
    import pymech as pm

    s = mk(cfg)
    elems = cfg.get("elems")
    if isinstance(elems, str):
        elems = [i - 1 for i in sizes.shuffled(cfg["nel"])][: int(elems)]
    if elems is None:
        elems = [i - 1 for i in s["elmap"]]
    fmap = [i + 1 for i in elems]
    zeros = cfg.get("zeros") or []
    for z in zeros:
        fmap[z] = 0
    p = ctx.path()
    raw = codecs.nek_field(
        s, cfg["wdsz"], cfg["endian"], elems=elems, elmap=fmap, fid=cfg.get("fid", 0), nfiles=cfg.get("nfiles", 1),
        trailer=cfg.get("trailer", "element"),
    )
    with open(p, "wb") as fh:
        fh.write(raw)
    r = pm.readnek(p)
    ctx.step()
    got = snap.snap(r)
    want = snap.copy_snap(s)
    want["time"] = float("%.13E" % s["time"])
    placed = range(len(elems)) if zeros else elems
    want["elmap"] = [i + 1 for i in placed]
    for i, e in enumerate(want["elem"]):
        for name in snap.FIELDS:
            e[name] = np.zeros(e[name].shape)
    dt = np.float32 if cfg["wdsz"] == 4 else np.float64
    for to, frm in zip(placed, elems):
        for name in snap.FIELDS:
            want["elem"][to][name] = s["elem"][frm][name].astype(dt).astype(np.float64)
    d = snap.diff(got, want, curv=False, bcs=False)
    ctx.validated()
    ctx.state(raw)
    expect(d is None, lambda: f"decoded field: {d}")


def full_cases(maps):
    for nd in (2, 3):
        lr1 = [3, 2, 1] if nd == 2 else [2, 3, 2]
        for c in product(x=[1, 0], u=[1, 0], p=[1, 0], t=[1, 0], ns=[0, 1, 2, 3], endian=["little", "big"],
                         wdsz=[8, 4], elmap=maps):
            var = [c["x"], c["u"], c["p"], c["t"], c["ns"]]
            if any(var):
                yield dict(ndim=nd, lr1=lr1, nel=len(c["elmap"]), var=var, elmap=c["elmap"], wdsz=c["wdsz"],
                           endian=c["endian"])


def write_dev(k):
    for nd in (2, 3):
        dims = dict(
            lr1=LR[nd], nel=[3, 1, 2, 5, 11], mapkind=[0, 1, 2, 3, 4],
            var=[[1, 1, 1, 1, 2], [1, 0, 0, 0, 0], [0, 1, 0, 0, 0], [0, 0, 1, 1, 0], [0, 0, 0, 0, 10], [1, 0, 0, 0, 12]],
            dtype=["float64", "float32"], wdsz=[8, 4], endian=["little", "big"],
            time=[0.25, 0.0, -1e-7, 98765.4321, 1e99], istep=[7, 0, 123456789], special=[None, "nan", "tiny", "huge"],
        )
        for c in deviations(dims, k):
            maps = data.some_maps(c["nel"])
            mkd = c.pop("mapkind")
            if mkd < len(maps):
                yield dict(c, ndim=nd, elmap=maps[mkd])


def partial_cases(nmax):
    """Every ordered non-empty subset of the elements of a mesh, as one file of a multi-file dump"""
    for nd in (2, 3):
        lr1 = [3, 2, 1] if nd == 2 else [2, 3, 2]
        for n in range(1, nmax + 1):
            for m in range(1, n + 1):
                for elems in itertools.permutations(range(n), m):
                    for endian, wdsz in (("little", 8), ("big", 4)):
                        for var in ([1, 1, 1, 1, 2], [0, 1, 1, 0, 1], [1, 0, 0, 1, 0]):
                            yield dict(ndim=nd, lr1=lr1, nel=n, var=var, elems=list(elems), wdsz=wdsz, endian=endian,
                                       fid=2, nfiles=3)


def zero_cases(nmax):
    """Every pattern of zeros in the map, for complete and partial files"""
    for nd in (2, 3):
        lr1 = [3, 2, 1] if nd == 2 else [2, 2, 3]
        for n in range(1, nmax + 1):
            for m in range(1, n + 1):
                for r in range(1, m + 1):
                    for zeros in itertools.combinations(range(m), r):
                        for var in ([1, 1, 1, 1, 2], [0, 1, 1, 0, 0], [0, 0, 0, 0, 3], [1, 0, 0, 0, 0]):
                            for endian, wdsz in (("little", 4), ("big", 8)):
                                yield dict(ndim=nd, lr1=lr1, nel=n, var=var, elems=list(range(m)), zeros=list(zeros),
                                           wdsz=wdsz, endian=endian)


def trailer_cases():
    for c in product(wdsz=[4, 8], endian=["little", "big"], trailer=["element", "scalar", None],
                     var=[[1, 1, 1, 1, 2], [1, 1, 1, 0, 0], [0, 0, 0, 0, 2]], lr1=[[2, 3, 4], [4, 2, 2]]):
        yield dict(c, ndim=3, nel=3, elmap=[2, 3, 1])


def partial_sizes(t):
    """One file of a multi-file dump with many elements"""
    for n in sizes.counts(4097 if t else 1025, 20):
        for m in sorted({1, n // 2, n - 1} - {0}):
            for nd, endian, wdsz, var in ((2, "little", 8, [1, 0, 1, 0, 2]), (3, "big", 4, [1, 1, 0, 1, 0])):
                yield dict(ndim=nd, lr1=[2, 2, 1 if nd == 2 else 2], nel=n, var=var, elems=str(m), wdsz=wdsz, endian=endian,
                           fid=1, nfiles=2)
                yield dict(ndim=nd, lr1=[2, 2, 1 if nd == 2 else 2], nel=n, var=var, elems=list(range(m)) if m < 2 else str(m),
                           zeros=[0, m - 1], wdsz=wdsz, endian=endian, fid=1, nfiles=2)


def spaces(tier):
    t = tier == "thorough"
    maps = data.perms(3) + (data.perms(4) if t else [])
    out = [
        Space("write-sizes", lambda: size_cases(t), write, chunk=1, timeout=600, bounds="numbers of elements and orders as for C01"),
        Space("read-sizes", lambda: size_cases(t), read, chunk=1, timeout=600, bounds="as for write-sizes"),
        Space("read-partial-sizes", lambda: partial_sizes(t), read, chunk=2, timeout=600,
              bounds="files with 1, half or all but one of up to " + ("4097" if t else "1025") + " elements, with and without zeros in the map"),
        Space("write", lambda: full_cases(maps), write, chunk=48, bounds="2D/3D, all variable subsets, 0-3 scalars, all orders of 3"
              + (" and 4" if t else "") + " elements, both byte orders and word sizes"),
        Space("write-dev", lambda: write_dev(3 if t else 2), write, chunk=16, bounds=f"up to {3 if t else 2} deviations in 10 dimensions"),
        Space("read", lambda: full_cases(maps), read, chunk=48, bounds="as for write"),
        Space("read-dev", lambda: write_dev(3 if t else 2), read, chunk=16, bounds="as for write-dev"),
        Space("read-partial", lambda: partial_cases(5 if t else 4), read, chunk=64,
              bounds=f"all ordered subsets of up to {5 if t else 4} elements"),
        Space("read-zero-map", lambda: zero_cases(5 if t else 4), read, chunk=64,
              bounds=f"all zero patterns in maps of up to {5 if t else 4} elements"),
        Space("write-constant", lambda: data.flat_fields(), write, chunk=16, bounds="each and all variables zero, minus zero, one, constant or tiny: everywhere, in one component, in one element"),
        Space("read-constant", lambda: data.flat_fields(), read, chunk=16, bounds="as for write-constant"),
        Space("read-trailer", trailer_cases, read, bounds="with, without and with reordered extrema"),
    ]
    return out + [layouts.space(out[3:5], 160 if t else 40)]
