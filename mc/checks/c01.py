"""C01: field file round trip."""

import sys
from pathlib import Path

import numpy as np

from .. import data, layouts, sizes, snap
from ..engine import Space, deviations, expect, product

LEVEL = "model_checking"
TECHNIQUE = "explicit-state enumeration of all bounded fields, write/read transitions checked against a data model"
RULE = (
    "a state is a field configuration (dimension, orders, variables, map, byte order, word size, types, "
    "time, step, special values); every one is driven through write, read, write; distinct by content of the file"
)
ASSUMPTIONS = ["little-endian host", "numpy conversion to float32 rounds correctly"]

LR = {2: [[3, 4, 1], [2, 2, 1], [4, 3, 1], [9, 2, 1], [2, 11, 1]],
      3: [[2, 3, 4], [2, 2, 2], [4, 3, 2], [3, 2, 2], [2, 3, 2], [2, 2, 5], [8, 7, 9], [12, 2, 3]]}


def roundtrip(cfg, ctx):
    import pymech as pm

    nd = cfg["ndim"]
    s = data.field(
        nd,
        cfg["lr1"],
        cfg["nel"],
        cfg["var"],
        dtype=cfg["dtype"],
        special=cfg.get("special"),
        elmap=sizes.shuffled(cfg["nel"]) if cfg["elmap"] == "shuffled" else cfg["elmap"],
        time=cfg.get("time", 0.25),
        istep=cfg.get("istep", 7),
        wdsz=cfg["wdsz"],
        endian=cfg["endian"],
        flat=cfg.get("flat"),
    )
    kinds = cfg.get("kinds")
    if kinds:
        # arrays of several types in one structure; a value is held by its array
        for k, e in enumerate(s["elem"]):
            for name in snap.FIELDS:
                a = e[name] * (1 + 2.0**-30)
                e[name] = a.astype(kinds[name][k]).astype(np.float64)
    h = snap.to_hexa(s, cfg["dtype"])
    if kinds:
        for k, el in enumerate(h.elem):
            for name in snap.FIELDS:
                setattr(el, name, s["elem"][k][name].astype(kinds[name][k]))
    mt = cfg.get("maptype", "int32")
    if mt == "seq":
        h.elmap = np.array(s["elmap"], dtype=np.int64)
    else:
        h.elmap = np.array(s["elmap"], dtype=mt)
    conv = Path if cfg.get("path") == "path" else str
    p1 = conv(ctx.path("a0.f00001"))
    rc = pm.writenek(p1, h)
    ctx.step()
    expect(rc in (0, None), f"writenek returned {rc!r}")
    r = pm.readnek(p1)
    ctx.step()
    got = snap.snap(r)
    want = snap.copy_snap(s)
    want["time"] = float("%.13E" % s["time"])
    if s["endian"] not in ("little", "big"):
        want["endian"] = sys.byteorder
    for e in want["elem"]:
        for name in snap.FIELDS:
            a = e[name]
            if cfg["wdsz"] == 4:
                a = a.astype(np.float32)
            e[name] = a.astype(np.float64)
    d = snap.diff(got, want, curv=False, bcs=False, dtype=True)
    ctx.validated()
    expect(d is None, lambda: f"read back: {d}")
    expect(abs(got["time"] - s["time"]) <= 1e-13 * abs(s["time"]), "time lost more than 13 digits")
    p2 = conv(ctx.path("b0.f00001"))
    pm.writenek(p2, r)
    ctx.step()
    b1, b2 = open(p1, "rb").read(), open(p2, "rb").read()
    ctx.validated()
    expect(b1 == b2, "writing the field that was read gives a different file")
    ctx.state(b1)


def full_cases(maps):
    for nd in (2, 3):
        lr1 = [3, 2, 1] if nd == 2 else [2, 3, 2]
        for c in product(
            x=[1, 0], u=[1, 0], p=[1, 0], t=[1, 0], ns=[0, 1, 2, 3],
            endian=["little", "big"], wdsz=[8, 4], dtype=["float64", "float32"], elmap=maps,
        ):
            var = [c["x"], c["u"], c["p"], c["t"], c["ns"]]
            if not any(var):
                continue
            yield dict(ndim=nd, lr1=lr1, nel=len(c["elmap"]), var=var, dtype=c["dtype"], elmap=c["elmap"],
                       wdsz=c["wdsz"], endian=c["endian"])


def dev_cases(k):
    for nd in (2, 3):
        dims = dict(
            lr1=LR[nd],
            nel=[3, 1, 2, 4, 5, 8, 13],
            mapkind=[0, 1, 2, 3, 4],
            var=[[1, 1, 1, 1, 2], [1, 0, 0, 0, 0], [0, 1, 1, 0, 0], [0, 0, 0, 1, 0], [1, 1, 1, 0, 0],
                 [0, 0, 0, 0, 9], [0, 0, 1, 0, 10], [1, 0, 0, 1, 11], [0, 0, 0, 0, 99]],
            dtype=["float64", "float32"],
            wdsz=[8, 4],
            endian=["little", "big", "native"],
            time=[0.25, 0.0, -2.25e-5, 123456.789012345678, 1 / 3, 1e100, 9.99999999999999e9, 3e-310],
            istep=[7, 0, 99999, 1234567, 123456789, 2000000000],
            special=[None, "nan", "tiny", "huge"],
            maptype=["int32", "int64", "uint16", ">i4"],
            path=["str", "path"],
        )
        for c in deviations(dims, k):
            maps = data.some_maps(c["nel"])
            c = dict(c, ndim=nd)
            mk = c.pop("mapkind")
            if mk >= len(maps):
                continue
            c["elmap"] = maps[mk]
            yield c


def size_cases(thorough):
    """Numbers of elements and of points around every limit of blocks, buffers and integer widths"""
    for nd in (2, 3):
        lr1 = [2, 2, 1] if nd == 2 else [2, 2, 2]
        for n in sizes.counts(10001 if thorough else 4097):
            for var, wdsz, endian in (([1, 1, 1, 1, 2], 8, "little"), ([0, 0, 1, 0, 1], 4, "big")):
                yield dict(ndim=nd, lr1=lr1, nel=n, var=var, dtype="float64", elmap="shuffled", wdsz=wdsz, endian=endian)
    big = [16385, 32767, 32768, 32769, 65535, 65536, 65537, 100000] if thorough else [16385, 32769, 65537]
    for n in big:
        yield dict(ndim=2, lr1=[2, 1, 1], nel=n, var=[0, 0, 1, 0, 1], dtype="float32", elmap="shuffled", wdsz=4, endian="little")
    for n in list(range(2, 34)) + [63, 64, 65, 98, 99]:
        for wdsz, endian in ((8, "big"), (4, "little")):
            yield dict(ndim=2, lr1=[n, n, 1], nel=3, var=[1, 1, 1, 1, 2], dtype="float64", elmap=[2, 3, 1], wdsz=wdsz, endian=endian)
            if n <= (65 if thorough else 33):
                yield dict(ndim=3, lr1=[n, n, n], nel=2, var=[1, 1, 1, 0, 1], dtype="float64", elmap=[2, 1], wdsz=wdsz, endian=endian)


def flat_cases():
    for c in data.flat_fields():
        for dt in ("float64", "float32"):
            yield dict(c, dtype=dt, elmap=[2, 3, 1])


def mixed_cases(deep):
    """Arrays of two types: every choice by variable and by element"""
    for v in product(**{name: ["f4", "f8"] for name in snap.FIELDS}):
        for e in product(a=["same", "other"], b=["same", "other"], c=["same", "other"]):
            kinds = {n: [v[n] if x == "same" else {"f4": "f8", "f8": "f4"}[v[n]] for x in e.values()] for n in v}
            for var in [[1, 1, 1, 1, 2]] + ([[0, 1, 1, 1, 2], [1, 0, 0, 0, 0], [0, 0, 0, 0, 1]] if deep else []):
                for wdsz, endian in ((8, "little"), (4, "big"), (8, "big")):
                    for dtype in ("float64", "float32") if deep else ("float64",):
                        yield dict(ndim=2, lr1=[3, 2, 1], nel=3, var=var, dtype=dtype, elmap=[2, 3, 1], wdsz=wdsz, endian=endian, kinds=kinds)


def spaces(tier):
    thorough = tier == "thorough"
    maps = data.perms(3) if not thorough else data.perms(3) + data.perms(4) + data.perms(2)
    k = 2 if not thorough else 3
    out = [
        Space("sizes", lambda: size_cases(thorough), roundtrip, chunk=1, timeout=600,
              bounds="1 to 40 elements and both sides of every power of 2 and 10 and other block sizes up to "
                     + ("10001, 8 counts up to 100000" if thorough else "4097, 16385, 32769 and 65537")
                     + "; every order up to 33 and 63 to 65, 98 and 99 in 2D"),
        Space("variables", lambda: full_cases(maps), roundtrip, chunk=48,
              bounds=f"2D and 3D, all subsets of variables with 0-3 scalars, {len(maps)} element maps (all orders of 3"
                     + (", 4 and 2" if thorough else "") + " elements), both byte orders, word sizes and types"),
        Space("deviations", lambda: dev_cases(k), roundtrip, chunk=16,
              bounds=f"up to {k} simultaneous deviations from the base field in 12 dimensions"),
        Space("constant", flat_cases, roundtrip, chunk=16, bounds="each and all variables zero, minus zero, one, constant or tiny: everywhere, in one component, in one element"),
    ]
    out.append(Space("mixed", lambda: mixed_cases(thorough), roundtrip, chunk=16, bounds="every choice of single and double precision for each variable and each element of the structure that is written"))
    return out + [layouts.space(out[1:3], 160 if thorough else 40)]
