"""C13: extrusion."""

import itertools

import numpy as np

from .. import layouts, meshes, sizes, snap
from .. import meshmodel as mm
from ..engine import Space, expect, fail

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of bounded 2D meshes, levels and conditions; each extruded mesh compared with a reference model"
RULE = (
    "a state is one extruded mesh (parameters: 2D mesh with its conditions, curvature and fields, z levels, end conditions per field, "
    "internal conditions or not); every coordinate, condition, link, curved edge and metadata item is compared with an independent model"
)
ASSUMPTIONS = ["the 2D mesh names existing neighbours in its links and has at least one layer of elements to extrude into"]

Z = {
    "one": [0.0, 1.0],
    "two": [-0.5, 0.25, 2.0],
    "three": [0, 1, 2, 4],
    "five": [0.0, 0.1, 0.3, 0.7, 1.5, 3.1],
    "thirds": [1 / 3, 2 / 3, 1.0, 4 / 3],
    "far": [1e6, 1e6 + 1, 1e6 + 3],
}
ENDS = [
    (None, None),
    ("P", "P"),
    (["W", "t", "f"], ["O", "I", "t"]),
    (["v", "P", "t"], ["W", "P", "I"]),
    (["SYM", "", "W"], ["", "O", "W"]),
    (["mv", "ON", "on"], ["mv", "ON", "on"]),
]


def ends(c):
    n = c["mesh"].get("nbc", 1)
    out = []
    for b in c["ends"]:
        out.append(None if b is None else ["P"] * n if b == "P" else b[:n])
    return out


def source(c):
    if "disc" in c:
        return meshes.disc(*c["disc"], nbc=c["mesh"].get("nbc", 1))
    s = meshes.of(c["mesh"])
    if c.get("data"):  # a mesh that also holds fields
        s["var"] = list(c["data"])
        for e in s["elem"]:
            for name, k in (("pres", 2), ("temp", 3), ("scal", 4)):
                e[name] = np.zeros((s["var"][k], 1, 2, 2)) + 1.5
    s["time"], s["istep"], s["endian"], s["wdsz"] = 2.5, 7, "big", 4
    return s


def run(c, ctx):
    from pymech.meshtools import extrude

    s = source(c)
    m = snap.to_hexa(s, c.get("dtype", "float64"))
    s = snap.snap(m)
    if c.get("lr1") == "tuple":
        m.lr1 = tuple(m.lr1)
    b1, b2 = ends(c)
    z = Z[c["z"]] if isinstance(c["z"], str) else [k * (1 + 0.01 * (k % 7)) / 8 - 1.5 for k in range(c["z"] + 1)]
    zarg = {"list": list(z), "array": np.array(z, float), "tuple": tuple(z), "native": np.array(z)}[c.get("ztype", "array")]
    kw = {}
    if b1 is not None:
        kw["bc1"] = b1
    if b2 is not None:
        kw["bc2"] = b2
    if not c["internal"]:
        kw["internal_bcs"] = False
    before = snap.digest(snap.snap(m))
    out = extrude(m, zarg, **kw)
    ctx.step()
    got = snap.snap(out)
    ctx.state(snap.digest(got))
    want = mm.extrude(s, z, b1, b2, c["internal"])
    if c.get("dtype") == "float32":  # edge parameters are kept in the precision of the mesh
        for e in want["elem"]:
            e["curv"] = e["curv"].astype("float32")
    d = snap.diff(got, want, meta=("ndim", "nel", "ncurv", "nbc", "var", "lr1", "elmap"), fields=("pos", "pres", "temp", "scal"), bcs=False)
    d = d or mm.bcs_diff(got, want)
    expect(d is None, d)
    p = mm.problems(got)
    expect(p is None, p)
    expect(snap.digest(snap.snap(m)) == before, "the 2D mesh was modified")
    ctx.validated()


def cases(sizes, zs):
    def gen():
        for dims, z, internal in itertools.product(sizes, zs, (True, False)):
            for nbc, ext, curves in itertools.product((0, 1, 2, 3), ("walls", "px", "pp", "holes", "mixed"), ("none", "some", "all")):
                for e in ENDS:
                    if nbc == 0 and (e != ENDS[0] or ext != "walls"):
                        continue
                    yield dict(mesh=dict(dims=dims, nbc=nbc, ext=ext, curves=curves), z=z, ends=e, internal=internal)
        for dims, z, e, ext, meshint in itertools.product(([1, 1], [3, 2]), Z, ENDS, ("py", "none"), (True, False)):
            for internal, ztype in itertools.product((True, False), ("list", "tuple", "array")):
                yield dict(mesh=dict(dims=dims, nbc=2, ext=ext, internal=meshint), z=z, ends=e, internal=internal, ztype=ztype)
        for z, e, dtype, internal in itertools.product(Z, ENDS[:4], ("float32", "float64"), (True, False)):
            for curves, ztype in (("some", "list"), ("all", "native")):
                yield dict(mesh=dict(dims=[2, 2], nbc=3, ext="px", curves=curves), z=z, ends=e, internal=internal, ztype=ztype, dtype=dtype)
        for data, e, lr1 in itertools.product(([2, 2, 1, 0, 0], [2, 2, 1, 1, 3]), ENDS, ("list", "tuple")):
            yield dict(mesh=dict(dims=[2, 2], nbc=2, ext="px", curves="some"), z="two", ends=e, internal=True, data=data, lr1=lr1)
        for ns, no, nbc, e, internal in itertools.product((1, 2), (1, 2), (1, 2), ENDS[:3], (True, False)):
            yield dict(disc=[ns, no], mesh=dict(nbc=nbc), z="three", ends=e, internal=internal)

    return gen


def size_cases(deep):
    def gen():
        top = 1025 if deep else 513
        for n in sizes.counts(top):
            for k, e in enumerate((ENDS[1], ENDS[3])):
                yield dict(mesh=dict(dims=[n, 1], nbc=2, ext="px", curves="some"), z=1 + k, ends=e, internal=True)
                yield dict(mesh=dict(dims=[2 - k, 1], nbc=2, ext="py", curves="some"), z=n, ends=e, internal=True)
        for n in (32769, 65537) if deep else (32769,):
            yield dict(mesh=dict(dims=[n, 1], nbc=1, ext="px"), z=1, ends=ENDS[1], internal=True)
            yield dict(mesh=dict(dims=[2, 1], nbc=1, ext="px"), z=n // 2 + 1, ends=ENDS[1], internal=True)
        for a in range(2, 17):
            yield dict(mesh=dict(dims=[a, 33 - a], nbc=1, ext="pp", curves="all"), z=a % 5 + 2, ends=ENDS[1], internal=True)

    return gen


def run_bad(c, ctx):
    from pymech.meshtools import extrude

    s = meshes.of(c["mesh"])
    m = snap.to_hexa(s)
    for k, v in c.get("set", {}).items():
        setattr(m, k, v)
    try:
        extrude(m, np.array([0.0, 1.0, 2.0]), c.get("bc1"), c.get("bc2"))
    except Exception:
        ctx.step()
        ctx.state(c)
        ctx.validated()
        return
    fail("an invalid extrusion is accepted")


def bad():
    for nbc in (1, 2, 3):
        for mask1, mask2 in itertools.product(itertools.product((0, 1), repeat=nbc), repeat=2):
            if mask1 != mask2:
                pick = lambda m: ["P" if x else "W" for x in m]
                yield dict(mesh=dict(dims=[2, 2], nbc=nbc), bc1=pick(mask1), bc2=pick(mask2))
        yield dict(mesh=dict(dims=[2, 2], nbc=nbc), bc1=["W"] * nbc)
        yield dict(mesh=dict(dims=[2, 2], nbc=nbc), bc2=["W"] * nbc)
    for lr1 in ([3, 3, 1], [2, 3, 1], [3, 2, 1], [2, 2, 2], [5, 5, 1], [8, 8, 1]):
        yield dict(mesh=dict(dims=[2, 1]), set=dict(lr1=lr1))
    for v in ([0, 2, 1, 0, 0], [1, 0, 0, 0, 0]):
        yield dict(mesh=dict(dims=[2, 1]), set=dict(var=v))
    yield dict(mesh=dict(dims=[2, 1]), set=dict(ndim=3))
    yield dict(mesh=dict(dims=[2, 1, 1]))
    yield dict(mesh=dict(dims=[1, 1, 1], nbc=2, ext="pp"))


def spaces(tier):
    if tier == "thorough":
        sizes = [[a, b] for a in range(1, 5) for b in range(1, 5)]
        zs = list(Z)
    else:
        sizes, zs = [[1, 1], [2, 1], [2, 2], [3, 2]], ["one", "two", "three"]
    out = [
        Space("sizes", size_cases(deep=tier == "thorough"), run, 2, timeout=600,
              bounds="1 to 40 elements or layers, both sides of all block sizes up to " + ("1025" if tier == "thorough" else "513")),
        Space("extrude", cases(sizes, zs), run, 16,
              bounds=f"grids {sizes}, levels {zs}, 0-3 condition fields, 5 boundary layouts, 3 curvature layouts, 6 pairs of ends, with and without internal conditions; discs"),
        Space("rejected", bad, run_bad, 8, bounds="all one-sided periodic requests with up to 3 fields, 3D meshes, other orders, no geometry"),
    ]
    return out + [layouts.space(out[1:], 240 if tier == "thorough" else 60)]
