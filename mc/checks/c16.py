"""C16: keeping a subset of the elements."""

import itertools

import numpy as np

from .. import layouts, meshes, sizes, snap
from .. import meshmodel as mm
from ..engine import Space, expect, fail

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of all subsets of elements of bounded meshes, each reduced mesh compared with a reference model"
RULE = (
    "a state is one reduced mesh (every subset of every bounded mesh, requested in any order and container, with each replacement "
    "condition); elements, links, conditions of every field and metadata are compared with an independent model"
)
ASSUMPTIONS = []


def request(c):
    e = list(c["elems"])
    how = c.get("how", "list")
    if how == "reverse":
        return e[::-1]
    if how == "repeat":
        return e + e[:1] + e[::-1]
    if how == "array":
        return np.array(e, dtype=int)
    if how == "int32":
        return np.array(e[::-1], dtype=np.int32)
    if how == "tuple":
        return tuple(e)
    if how == "rotate":
        return e[1:] + e[:1]
    return e


def run(c, ctx):
    from pymech.meshtools import keep_elements

    s = meshes.of(c["mesh"])
    if c.get("fields"):
        s["var"] = [s["var"][0], s["var"][0], 1, 1, 2]
        for i, e in enumerate(s["elem"]):
            for name, n in (("pres", 1), ("temp", 1), ("scal", 2)):
                e[name] = np.zeros((n,) + e["pos"].shape[1:]) + i + 0.5
            e["vel"] += i * 2.0
        s["elmap"] = s["elmap"][::-1]
    m = snap.to_hexa(s)
    if isinstance(c["elems"], str):
        c = dict(c, elems=SETS[c["elems"]](s["nel"]))
    req = request(c)
    if c.get("ext") is None:
        keep_elements(m, req)
    else:
        keep_elements(m, req, external_bc=c["ext"])
    ctx.step()
    got = snap.snap(m)
    ctx.state(snap.digest(got))
    want = mm.keep(s, c["elems"], c.get("ext") or "")
    d = snap.diff(got, want, bcs=False)
    d = d or mm.bcs_diff(got, want)
    expect(d is None, d)
    if c.get("twice"):
        rest = list(range(0, got["nel"], 2))
        keep_elements(m, rest, external_bc="O")
        ctx.step()
        d = mm.bcs_diff(snap.snap(m), mm.keep(want, rest, "O"))
        expect(d is None, d)
    ctx.validated()


def subsets(n):
    for k in range(1, n + 1):
        yield from itertools.combinations(range(n), k)


def cases(deep):
    def gen():
        grids = [([2, 2], 1), ([3, 1], 3), ([3, 2], 2), ([2, 2, 1], 2), ([1, 1, 2], 1)]
        if deep:
            grids += [([3, 3], 2), ([5, 2], 1), ([2, 2, 2], 1), ([3, 2, 1], 2), ([8, 1], 1)]
        for (dims, nbc), ext in itertools.product(grids, ("walls", "px", "pp", "holes", "mixed")):
            n = int(np.prod(dims))
            for k, el in enumerate(subsets(n)):
                for repl in (None, "W", "con"):
                    yield dict(mesh=dict(dims=dims, nbc=nbc, ext=ext, curves=("none", "some", "all")[k % 3]), elems=el, ext=repl, fields=k % 2, twice=k % 4 == 3)
        for el in subsets(6):
            for how in ("reverse", "repeat", "array", "int32", "tuple", "rotate"):
                yield dict(mesh=dict(dims=[3, 2], nbc=2, ext="pp", curves="some"), elems=el, ext="W", how=how)
        for el in subsets(4):
            yield dict(mesh=dict(dims=[2, 2], nbc=0, curves="all"), elems=el)
            yield dict(mesh=dict(dims=[2, 2], nbc=2, internal=False, ext="none"), elems=el, ext="W")

    return gen


SETS = {
    "even": lambda n: list(range(0, n, 2)),
    "tail": lambda n: list(range(n // 3, n)),
    "hole": lambda n: [i for i in range(n) if i != n // 2],
    "last": lambda n: [n - 1],
    "all": lambda n: list(range(n)),
    "ends": lambda n: sorted({0, n - 1}),
    "thirds": lambda n: [i for i in range(n) if i % 3],
}


def size_cases(deep):
    def gen():
        for n in sizes.counts(2049 if deep else 513):
            for k, name in enumerate(SETS):
                if name == "thirds" and n < 2:
                    continue
                dims = [n, 1] if k % 2 else [n, 1, 1]
                yield dict(mesh=dict(dims=dims, nbc=2, ext="px", curves="some"), elems=name, ext=(None, "W")[k % 2], how=("list", "reverse", "array")[k % 3])

    return gen


def huge_cases(deep):
    for n in (32769, 65537) if deep else (32769,):
        for name in ("hole", "tail"):
            yield dict(mesh=dict(dims=[n, 1], nbc=1, ext="px"), elems=name, ext="W", how="array")


def run_bad(c, ctx):
    from pymech.meshtools import keep_elements

    m = snap.to_hexa(meshes.of(c["mesh"]))
    before = snap.digest(snap.snap(m))
    try:
        keep_elements(m, c["elems"], "W")
    except Exception:
        ctx.step()
        expect(snap.digest(snap.snap(m)) == before, "the rejected call modified the mesh")
        ctx.state(c)
        ctx.validated()
        return
    fail("element numbers out of range are accepted")


def bad():
    for dims in ([1, 1], [2, 2], [3, 1], [2, 1, 1]):
        n = int(np.prod(dims))
        for k in range(-n - 3, n + 4):
            if 0 <= k < n:
                continue
            for others in ([], [0], list(range(n))):
                for el in (others + [k], [k] + others):
                    yield dict(mesh=dict(dims=dims, ext="pp"), elems=el)


def spaces(tier):
    deep = tier == "thorough"
    out = [
        Space("sizes", size_cases(deep), run, 8, timeout=600, bounds=f"seven subsets of rows of 1 to 40 elements and both sides of all block sizes up to {2049 if deep else 513}"),
        Space("sizes-16bit", lambda: huge_cases(deep), run, 1, timeout=600, bounds="more elements than 16 bits count, without one element and without the first third"),
        Space("subsets", cases(deep), run, 32, bounds="all subsets of grids up to " + ("3x3, 5x2 and 2x2x2" if deep else "3x2 and 2x2x1") + ", five boundary layouts, three replacements, six ways to ask"),
        Space("rejected", bad, run_bad, 16, bounds="every number within 3 of the valid range and beyond, alone and with valid ones"),
    ]
    return out + [layouts.space(out[2:], 240 if deep else 60)]
