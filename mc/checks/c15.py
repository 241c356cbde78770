"""C15: merging meshes."""

import itertools

import numpy as np

from .. import layouts, meshes, sizes, snap
from .. import meshmodel as mm
from ..engine import Space, expect, fail

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of partitions and pairs of bounded meshes, each merge compared with a reference model"
RULE = (
    "a state is one merged mesh (all two-part partitions of bounded 2D and 3D meshes, pairs of adjacent boxes with all condition "
    "types on both sides, displacements around the tolerance, options); elements, links, conditions of every field, return value and "
    "metadata are compared with an independent model"
)
ASSUMPTIONS = ["both meshes have the same number of condition fields", "no face coincides with more than one face of the other mesh"]

FIELDS2 = ("pos", "vel", "pres", "temp", "scal")


def compare(a, b, c, ctx, same=False):
    """Merge the real meshes, compare with the model; returns the merged snapshot"""
    ma = snap.to_hexa(a)
    mb = ma if same else snap.to_hexa(b)
    kw = {k: c[k] for k in ("tol", "ignore_empty", "ignore_all_bcs") if k in c}
    want, n = mm.merge(a, b, kw.get("tol", 1e-2), kw.get("ignore_empty", True), kw.get("ignore_all_bcs", False))
    before = snap.digest(snap.snap(mb))
    got_n = ma.merge(mb, **kw)
    ctx.step()
    got = snap.snap(ma)
    ctx.state(snap.digest(got))
    expect(int(got_n) == n, f"{got_n} pairs reported, {n} coincide")
    d = snap.diff(got, want, meta=snap.META, fields=FIELDS2, bcs=False)
    d = d or mm.bcs_diff(got, want)
    expect(d is None, d)
    if not same:
        expect(snap.digest(snap.snap(mb)) == before, "the argument was modified")
    ctx.validated()
    return got


def run_parts(c, ctx):
    """Split a mesh in two parts, mark the cut, merge: the joined mesh is connected like the original one"""
    s = meshes.of(c["mesh"])
    n = s["nel"]
    inside = [i for i in range(n) if c["mask"] >> i & 1]
    rest = [i for i in range(n) if not c["mask"] >> i & 1]
    a, b = mm.keep(s, inside, c["mark"]), mm.keep(s, rest, c["mark"])
    if c.get("elmap"):
        a["elmap"], b["elmap"] = a["elmap"][::-1], b["elmap"][::-1]
    got = compare(a, b, c, ctx)
    if c["mark"] == "con" and c["mesh"]["ext"] in ("walls", "holes") and not c.get("ignore_all_bcs"):
        order = inside + rest
        new = {old + 1: k + 1 for k, old in enumerate(order)}
        for k, old in enumerate(order):
            for f in range(s["nbc"]):
                for face in range(mm.nfaces(s)):
                    w, g = s["elem"][old]["bcs"][f][face], got["elem"][k]["bcs"][f][face]
                    if w[0] == "E":
                        expect(g[0] == "E" and g[3:5] == (new[int(w[3])], w[4]), f"the cut at element {old} face {face} is joined as {g}")
        p = mm.problems(got)
        expect(p is None, p)


def parts(deep):
    def gen():
        grids = [([2, 2], 2), ([3, 1], 1), ([3, 2], 1), ([2, 1, 1], 2), ([2, 2, 1], 1)]
        if deep:
            grids += [([3, 3], 1), ([4, 2], 2), ([2, 2, 2], 1), ([1, 4], 3)]
        for (dims, nbc), ext, mark in itertools.product(grids, ("walls", "px", "py", "pp", "holes", "mixed"), ("con", "", "W")):
            n = int(np.prod(dims))
            for mask in range(1, 2**n - 1):
                base = dict(mesh=dict(dims=dims, nbc=nbc, ext=ext, curves="some" if mask % 2 else "none"), mask=mask, mark=mark)
                yield base
                if mark == "":
                    # empty faces are joined only on request; empty outer faces must not coincide then, so use other layouts
                    yield dict(base, ignore_empty=False)
                if mask % 3 == 0:
                    yield dict(base, ignore_all_bcs=True, elmap=True)
                    yield dict(base, elmap=True)

    return gen


TYPES = ["W", "O", "", "E", "P", "con", "t"]


def two_boxes(c):
    """Boxes side by side along a direction, with given conditions on the faces that touch"""
    dims = c["dims"]
    nbc = c["nbc"]
    ax = c["axis"]
    lo, hi = [(3, 1), (0, 2), (4, 5)][ax]
    nd = len(dims)
    a = meshes.structured(dims, nbc=nbc, ext="pp" if c["outer"] == "P" else "walls", straight=True, curves=c.get("curves", "none"))
    b = meshes.structured(dims, nbc=nbc, ext="pp" if c["outer"] == "P" else "walls", straight=True)
    if nd == 3:  # straighten
        for s in (a, b):
            for e in s["elem"]:
                e["pos"][:] = np.round(e["pos"] / 1.0)
    off = np.zeros(3)
    off[ax] = dims[ax]
    off = off + np.array(c.get("delta", [0, 0, 0]), float)
    for e in b["elem"]:
        e["pos"] += off[:, None, None, None]
    for s, side, typ in ((a, hi, c["ta"]), (b, lo, c["tb"])):
        for i, e in enumerate(s["elem"]):
            idx = np.unravel_index(i, dims[::-1])[::-1]
            at_end = idx[ax] == (dims[ax] - 1 if side == hi else 0)
            if not at_end:
                continue
            for f in range(nbc):
                t = typ[f % len(typ)]
                if t == "P" or t == "E":
                    if c["outer"] == "P" and t == "P":
                        continue  # keep the periodic link to the other end of the box
                    j = list(idx)
                    j[ax] = dims[ax] - 1 - idx[ax]
                    o = int(np.ravel_multi_index(j[::-1], dims[::-1]))
                    e["bcs"][f][side] = (t, i + 1, side + 1, o + 1.0, (lo if side == hi else hi) + 1.0, 0.0, 0.0, 0.0)
                elif t == "":
                    e["bcs"][f][side] = snap.NOBC
                else:
                    e["bcs"][f][side] = (t, i + 1, side + 1, 0.5, 1.5, 2.5, 3.5, 4.5 + i)
    return a, b


def run_pair(c, ctx):
    a, b = two_boxes(c)
    compare(a, b, c, ctx)


def pairs(deep):
    def gen():
        grids = [[1, 1], [2, 1], [1, 2], [2, 2], [1, 1, 1], [2, 1, 2]]
        for dims in grids:
            for ax in range(len(dims)):
                for ta, tb in itertools.product(TYPES, repeat=2):
                    for opts in ({}, {"ignore_empty": False}, {"ignore_all_bcs": True}, {"ignore_empty": False, "ignore_all_bcs": True}):
                        yield dict(dims=dims, axis=ax, nbc=1, ta=[ta], tb=[tb], outer="W", **opts)
                for ta, tb in itertools.product((["P", "P"], ["P", "W"], ["W", "P"], ["W", "t"]), repeat=2):
                    for nbc in (2, 3):
                        yield dict(dims=dims, axis=ax, nbc=nbc, ta=ta, tb=tb, outer="P")
                        yield dict(dims=dims, axis=ax, nbc=nbc, ta=ta, tb=tb, outer="W", curves="some")
        # tolerance: displaced by a bit less and a bit more than the tolerance (edges have length 1)
        for dims, tol, frac, dr in itertools.product(([1, 1], [2, 2], [1, 1, 1]), (None, 1e-1, 1e-3, 1e-5), (0.5, 0.98, 1.02, 2.0), range(6)):
            ax, sign = dr // 2, 1 if dr % 2 else -1
            if ax >= len(dims):
                continue
            delta = [0.0, 0.0, 0.0]
            delta[ax] = sign * frac * (tol or 1e-2)
            extra = {} if tol is None else {"tol": tol}
            yield dict(dims=dims, axis=0, nbc=1, ta=["W"], tb=["W"], outer="W", delta=delta, **extra)
        # not touching at all
        for dims in grids:
            yield dict(dims=dims, axis=0, nbc=2, ta=["W"], tb=["W"], outer="W", delta=[5, 0, 0])
            yield dict(dims=dims, axis=0, nbc=0, ta=["W"], tb=["W"], outer="W")
        if deep:
            for ta, tb in itertools.product(itertools.product(TYPES, repeat=2), repeat=2):
                if (ta[0] in ("E", "")) != (ta[1] in ("E", "")) or (tb[0] in ("E", "")) != (tb[1] in ("E", "")):
                    continue
                for dims, outer in itertools.product(([1, 1], [2, 2], [1, 1, 1]), ("W", "P")):
                    yield dict(dims=dims, axis=0, nbc=2, ta=list(ta), tb=list(tb), outer=outer)

    return gen


def run_scale(c, ctx):
    """The tolerance is relative to the shortest edge of both elements"""
    a = meshes.structured([1, 1], straight=True)
    b = meshes.structured([1, 1], straight=True)
    for e in b["elem"]:
        e["pos"][0] *= c["w"]
        e["pos"][0] += 1 + c["gap"]
    for s in (a, b):
        for e in s["elem"]:
            e["pos"] *= c["unit"]
    compare(a, b, c, ctx)


def scale():
    for w, unit in itertools.product((1.0, 0.1, 1e-3, 5.0), (1.0, 1e-4, 1e5, 2.0**-50)):
        for f in (0.9, 1.1):
            yield dict(w=w, gap=f * 1e-2 * min(w, 1.0), unit=unit)
            yield dict(w=w, gap=f * 0.2 * min(w, 1.0), unit=unit, tol=0.2)


def run_chain(c, ctx):
    """Build a row of boxes from pieces merged in any order"""
    n = len(c["order"])
    s = meshes.structured([n, 1], nbc=1, ext=c["ext"], straight=True)
    acc = None
    for i in c["order"]:
        piece = mm.keep(s, [i], "con")
        acc = piece if acc is None else compare(acc, piece, {}, ctx)
    if c["ext"] == "walls":
        p = mm.problems(acc)
        expect(p is None, p)
        expect(not any(bc[0] == "con" for e in acc["elem"] for bc in e["bcs"][0]), "a cut is left open")


def chain(n):
    def gen():
        for k in range(2, n + 1):
            for order in itertools.permutations(range(k)):
                for ext in ("walls", "py"):
                    yield dict(order=list(order), ext=ext)

    return gen


def run_long(c, ctx):
    """Two rows of elements that touch along their whole length, or at their ends"""
    dims = c["dims"]
    a = meshes.structured(dims, nbc=2, ext="walls", straight=True, curves="some")
    b = meshes.structured(c.get("other", dims), nbc=2, ext=c["ext"], straight=True)
    for e in b["elem"]:
        e["pos"][:2] += np.array(c["off"], float)[:, None, None, None]
    for e in a["elem"] + b["elem"]:
        e["pos"][:2] *= np.array(c.get("size", [1, 1]), float)[:, None, None, None]
    if c.get("shift"):
        for e in b["elem"]:
            e["pos"][:2] += np.array(c["shift"], float)[:, None, None, None]
    compare(a, b, {}, ctx)


def long(deep):
    def gen():
        for n in sizes.counts(257 if deep else 129):
            yield dict(dims=[n, 1], off=[0, 1], ext="walls")
            yield dict(dims=[1, n], off=[1, 0], ext="pp")
            if n > 1:
                yield dict(dims=[n, 1], off=[n - 1, 1], ext="px")
            yield dict(dims=[n, 1], other=[1, 1], off=[n, 0], ext="walls")
            yield dict(dims=[1, 1], other=[1, n], off=[0, -n], ext="walls")
            # long, flat and displaced elements
            yield dict(dims=[n, 1], off=[0, 1], ext="walls", size=[[8, 1], [1, 8], [0.125, 1], [1, 50]][n % 4], shift=[[0, 0], [0.005, 0], [0, -0.005]][n % 3])
            yield dict(dims=[n, 2], off=[n, 0], ext="walls", size=[[1, 8], [20, 1], [1, 0.125], [8, 1]][n % 4])

    return gen


def run_self(c, ctx):
    s = meshes.of(c["mesh"])
    compare(s, s, c, ctx, same=True)


def itself():
    for dims, ext, nbc in itertools.product(([1, 1], [2, 1], [3, 2], [1, 2, 1]), ("walls", "px", "holes"), (0, 1, 2)):
        if nbc or ext == "walls":
            yield dict(mesh=dict(dims=dims, nbc=nbc, ext=ext, curves="some"))
            yield dict(mesh=dict(dims=dims, nbc=nbc, ext=ext, curves="some"), ignore_all_bcs=True)


def run_bad(c, ctx):
    a = meshes.of(c["a"])
    b = meshes.of(c["b"])
    for s, lr in ((a, c.get("la")), (b, c.get("lb"))):
        if lr:
            s["lr1"] = lr
            for e in s["elem"]:
                for name in snap.FIELDS:
                    e[name] = np.zeros((e[name].shape[0], lr[2], lr[1], lr[0]))
    ma, mb = snap.to_hexa(a), snap.to_hexa(b)
    before = snap.digest(snap.snap(ma)), snap.digest(snap.snap(mb))
    try:
        ma.merge(mb)
    except Exception:
        ctx.step()
        expect((snap.digest(snap.snap(ma)), snap.digest(snap.snap(mb))) == before, "a rejected merge modified a mesh")
        ctx.state(c)
        ctx.validated()
        return
    fail("incompatible meshes are merged")


def bad():
    d2, d3 = dict(dims=[2, 1]), dict(dims=[1, 2, 1])
    yield dict(a=d2, b=d3)
    yield dict(a=d3, b=d2)
    for x, y in itertools.permutations((2, 3, 4, 8), 2):
        yield dict(a=d2, b=d2, la=[x, x, 1], lb=[y, y, 1])
        yield dict(a=d3, b=d3, la=[x, x, x], lb=[y, y, y])


def spaces(tier):
    deep = tier == "thorough"
    out = [
        Space("sizes", long(deep), run_long, 2, timeout=600, bounds=f"rows of 1 to 40 elements and both sides of all block sizes up to {257 if deep else 129}, joined along their length or at their ends, elements up to 50 times as long as wide"),
        Space("parts", parts(deep), run_parts, 16, bounds="all two-part partitions of grids up to " + ("3x3 and 2x2x2" if deep else "3x2 and 2x2x1") + ", six boundary layouts, three marks, options"),
        Space("pairs", pairs(deep), run_pair, 32, bounds=f"two boxes side by side along any axis, all pairs of condition types {TYPES}, all options, displacements around the tolerance"),
        Space("scale", scale, run_scale, 8, bounds="element widths 1e-3 to 5, units 1e-15 to 1e5"),
        Space("chain", chain(5 if deep else 4), run_chain, 8, bounds="rows assembled piece by piece in every order"),
        Space("itself", itself, run_self, 4, bounds="a mesh merged with itself"),
        Space("rejected", bad, run_bad, 8, bounds="different dimensions and orders"),
    ]
    return out + [layouts.space(out[1:6], 160 if deep else 40)]
