"""C27: conversion to VTK."""

import itertools
import os

import numpy as np

from .. import data, faketvtk, layouts, sizes, snap
from ..engine import Space, expect

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of bounded fields, each converted dataset compared with its definition"
RULE = (
    "a state is one field configuration (dimension, orders, elements, variables, type, downsampling); points, cells, types, offsets "
    "and every data array handed to VTK are compared with the grid points of the field"
)
ASSUMPTIONS = [
    "tvtk is not installed: a stand-in records what the conversion hands over, arrays being numbered in the order of addition as in VTK",
    "fields with a geometry, at most one temperature",
]


def expected(s, down):
    lx, ly, lz = s["lr1"]
    ix, iy, iz = ([0, n - 1] if down and n > 1 else list(range(n)) for n in (lx, ly, lz))
    pts, cells = [], []
    n = [len(ix), len(iy), len(iz)]
    per = n[0] * n[1] * n[2]
    for i in range(s["nel"]):
        pts += [(i, z, y, x) for z in iz for y in iy for x in ix]

        def at(a, b, c):
            return i * per + a + n[0] * (b + n[1] * c)

        for c, b, a in itertools.product(range(max(n[2] - 1, 1)), range(n[1] - 1), range(n[0] - 1)):
            quad = [at(a, b, c), at(a + 1, b, c), at(a + 1, b + 1, c), at(a, b + 1, c)]
            if s["ndim"] == 3:
                quad += [at(a, b, c + 1), at(a + 1, b, c + 1), at(a + 1, b + 1, c + 1), at(a, b + 1, c + 1)]
            cells.append(tuple(quad))
    return pts, cells


def run(c, ctx):
    vs = faketvtk.install()
    lr, nd = c["lr1"], 3 if c["lr1"][2] > 1 else 2
    s = data.field(nd, lr, c["nel"], [1] + list(c["var"]), dtype=c["dtype"])
    if c.get("flat"):
        data.flatten(s, c["flat"])
    if nd == 2 and c["zpos"]:
        for i, e in enumerate(s["elem"]):  # a 2D field may lie anywhere
            e["pos"][2] = i + 0.5
            e["vel"][2] = -i - 0.25
    m = snap.to_hexa(s, c["dtype"])
    s = snap.snap(m)
    before = snap.digest(s)
    down = c["down"]
    if c.get("write"):
        faketvtk.written.clear()
        vs.writevtk(c["write"], m)
        expect(len(faketvtk.written) == 1, "nothing is written")
        ds, fname = faketvtk.written[0]
        want = os.path.splitext(c["write"])[0] + ".vtp"
        expect(os.fspath(fname) == want, f"written to {fname} instead of {want}")
    else:
        ds = vs.hexa2vtk(m, downsample=down) if down is not None else vs.hexa2vtk(m)
    ctx.step()
    expect(snap.digest(snap.snap(m)) == before, "the field is modified")
    pts, cells = expected(s, bool(down))
    got = np.asarray(ds.points)
    expect(got.shape == (len(pts), 3), f"points of shape {got.shape}, {len(pts)} grid points")
    for n, (i, z, y, x) in enumerate(pts):
        w = s["elem"][i]["pos"][:, z, y, x].astype(float)
        expect((got[n] == w).all(), lambda: f"point {n} is {got[n]} instead of {w}")
    # data arrays by name
    want = {}
    if s["var"][1]:
        want["vel"] = ("vel", slice(0, 3))
    if s["var"][2]:
        want["pres"] = ("pres", 0)
    if s["var"][3]:
        want["temp"] = ("temp", 0)
    for k in range(s["var"][4]):
        want[f"scal_{k + 1}"] = ("scal", k)
    arrays = {a.name: a.a for a in ds.point_data.arrays}
    expect(len(arrays) == len(ds.point_data.arrays), "two arrays of the same name")
    expect(set(arrays) == set(want), lambda: f"arrays {sorted(map(str, arrays))} instead of {sorted(want)}")
    for name, (attr, k) in want.items():
        a = np.asarray(arrays[name])
        expect(len(a) == len(pts), lambda: f"{name} has shape {a.shape}")
        for n, (i, z, y, x) in enumerate(pts):
            w = s["elem"][i][attr][k, z, y, x].astype(float)
            expect(np.array_equal(a[n], w), lambda: f"{name} at point {n} is {a[n]} instead of {w}")
    if s["var"][1]:
        expect(ds.point_data.vectors is not None and ds.point_data.vectors.name == "vel", "the velocity is not the vector field")
    # cells
    nv = 8 if nd == 3 else 4
    raw = np.asarray(ds.cells.data)
    expect(int(ds.cells.n) == len(cells), f"{ds.cells.n} cells announced, there are {len(cells)}")
    expect(raw.shape == (len(cells) * (nv + 1),), f"connectivity of shape {raw.shape}")
    rows = raw.reshape(-1, nv + 1)
    expect((rows[:, 0] == nv).all(), "wrong number of corners")
    gotc = sorted(tuple(int(v) for v in r[1:]) for r in rows)
    wantc = sorted(cells)
    expect(gotc == wantc, lambda: f"cell {next((a, b) for a, b in zip(gotc, wantc) if a != b)}")
    expect(np.array_equal(ds.cell_types, [12 if nd == 3 else 9] * len(cells)), "cell types")
    expect(np.array_equal(ds.offsets, np.arange(len(cells)) * (nv + 1)), "cell offsets")
    ctx.state(c)
    ctx.validated(len(pts) + len(cells))


def cases(deep):
    nmax = 5 if deep else 4
    full = [1, 1, 1, 2]

    def gen():
        for lr in itertools.product(range(2, nmax + 1), range(2, nmax + 1), range(1, nmax + 1)):
            for nel, down in itertools.product((1, 2, 3), (None, False, True)):
                for zpos in (True, False) if lr[2] == 1 else (False,):
                    yield dict(lr1=lr, nel=nel, var=full, dtype="float64", down=down, zpos=zpos)
        for lr in ([2, 2, 1], [3, 2, 1], [2, 2, 2], [3, 4, 2]):
            for vel, p, t, sc in itertools.product((0, 1), (0, 1), (0, 1), range(0, 5)):
                for dt, down, nel in itertools.product(("float64", "float32"), (None, True), (1, 3)):
                    yield dict(lr1=lr, nel=nel, var=[vel, p, t, sc], dtype=dt, down=down, zpos=False)
        # variables that are zero or constant everywhere
        for lr, flat in itertools.product(([3, 2, 1], [3, 4, 2]), data.flat_cases([1, 1, 1, 2])):
            for down, dt in ((None, "float64"), (True, "float32")):
                yield dict(lr1=lr, nel=2, var=full, dtype=dt, down=down, zpos=False, flat=flat)
        for name in ("a.vtp", "a.vtk", "a", "dir/x.vtu"):
            for lr in ([2, 3, 1], [2, 3, 2]):
                yield dict(lr1=lr, nel=2, var=full, dtype="float64", down=None, zpos=False, write=name)

    return gen


def size_cases(deep):
    var = [1, 1, 1, 2]
    for n in sizes.counts(1025 if deep else 513):
        yield dict(lr1=[2, 2, 1 + n % 2], nel=n, var=var, dtype="float64", down=None, zpos=False)
        if n < 100 or deep:
            yield dict(lr1=[3, 2, 2], nel=n, var=[1, 0, 0, 0], dtype="float32", down=True, zpos=False)
    for n in list(range(5, 17)) + [32, 33]:
        for down in (None, True):
            yield dict(lr1=[n, n, 1], nel=2, var=var, dtype="float64", down=down, zpos=False)
            if n < 14:
                yield dict(lr1=[n, n, n], nel=1, var=[1, 0, 0, 1], dtype="float64", down=down, zpos=False)
    # more than 2**15 and 2**16 points
    for lr, nel in (([129, 128, 1], 2), ([129, 128, 1], 4), ([257, 256, 1], 1), ([21, 20, 20], 4), ([21, 20, 20], 8), ([41, 40, 40], 1), ([2, 3, 1], 11000), ([2, 2, 2], 8200)):
        yield dict(lr1=lr, nel=nel, var=[1, 0, 1, 0], dtype="float64", down=None, zpos=False)


def spaces(tier):
    deep = tier == "thorough"
    out = [
        Space("sizes", lambda: size_cases(deep), run, 4, timeout=600, bounds=f"1 to 40 elements and both sides of all block sizes up to {1025 if deep else 513}, orders up to 33, up to 68880 points"),
        Space("fields", cases(deep), run, 16, bounds=f"orders up to {5 if deep else 4}, 1 to 3 elements, all variables, both types, with and without downsampling; every variable zero or constant"),
    ]
    return out + [layouts.space(out[1:], 240 if deep else 60)]
