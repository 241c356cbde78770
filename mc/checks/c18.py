"""C18: the consistency checks."""

import itertools

import numpy as np

from .. import layouts, meshes, sizes, snap
from .. import meshmodel as mm
from ..engine import Space, expect
from . import c17

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of single (and double) mutations of consistent meshes, each verdict compared with a reference model"
RULE = (
    "a state is one mesh given to check_connectivity and check_bcs_present (consistent meshes and every mutation of type, linked element "
    "and linked face of every face and field, displacements around the tolerance, all sets of missing conditions); verdict and unchanged "
    "arguments are compared with an independent model"
)
ASSUMPTIONS = ["a mesh with a face number outside of 1 to 6 may be rejected by any exception, otherwise it is a ValueError"]


def verdict(call, kind=ValueError):
    try:
        r = call()
    except kind as err:
        return False, repr(err)
    expect(r is True, f"returned {r!r}")
    return True, "True"


def judge(s, ctx, tol=None, m=None):
    m = snap.to_hexa(s) if m is None else m
    before = snap.digest(snap.snap(m))
    why = mm.connectivity_ok(s, 1e-3 if tol is None else tol)
    # face numbers that do not exist may be refused in other ways
    known = all(1 <= int(bc[4]) <= 6 for e in s["elem"] for row in e["bcs"] for bc in row[: mm.nfaces(s)] if mm.linked(bc))
    got, msg = verdict(lambda: m.check_connectivity() if tol is None else m.check_connectivity(tol=tol), ValueError if known else Exception)
    expect(got == (why is None), lambda: f"check_connectivity {'accepts' if got else 'rejects'} ({msg}) a mesh that is {why or 'consistent'}")
    full = mm.complete(s)
    got, msg = verdict(m.check_bcs_present)
    expect(got == full, lambda: f"check_bcs_present {'accepts' if got else 'rejects'} ({msg}) a mesh whose conditions are {'' if full else 'in'}complete")
    expect(snap.digest(snap.snap(m)) == before, "a check modified the mesh")
    ctx.step(2)
    ctx.state((before, why is None, full))
    ctx.validated(2)
    ctx.count("accepted", why is None)
    ctx.count("rejected", why is not None)
    return why is None


def mutate(s, mut):
    i, k, f, what, val = mut
    row = s["elem"][i]["bcs"][k]
    bc = list(row[f])
    bc[{"type": 0, "elem": 3, "face": 4}[what]] = val
    row[f] = tuple(bc)


def run_mut(c, ctx):
    s = meshes.of(c["mesh"])
    for mut in c["muts"]:
        mutate(s, mut)
    judge(s, ctx)


def all_muts(dims, nbc):
    n = int(np.prod(dims))
    nf = 2 * len(dims)
    for i, k, f in itertools.product(range(n), range(nbc), range(nf)):
        for t in ("", "W", "E", "P", "e", "EP", "p"):
            yield [i, k, f, "type", t]
        for v in list(range(-n, n + 3)) + [0.25, -0.5, 1000]:
            yield [i, k, f, "elem", v]
        for v in list(range(-nf, 9)) + [0.5, 100]:
            yield [i, k, f, "face", v]


BASES = [([2, 1], 1, "px"), ([2, 2], 2, "pp"), ([1, 1, 2], 1, "pz"), ([2, 1, 1], 2, "px"), ([3, 1], 1, "walls"), ([1, 1], 1, "pp")]


def singles(deep):
    def gen():
        bases = BASES + ([([2, 2, 2], 1, "pp"), ([3, 3], 2, "px"), ([2, 2, 1], 3, "mixed")] if deep else [])
        for dims, nbc, ext in bases:
            for internal in (True, False):
                mesh = dict(dims=dims, nbc=nbc, ext=ext, internal=internal)
                yield dict(mesh=mesh, muts=[])
                for mut in all_muts(dims, nbc):
                    yield dict(mesh=mesh, muts=[mut])

    return gen


def joint(deep):
    """Both numbers of a link, and two faces at once"""

    def gen():
        for dims, nbc, ext in BASES[: 6 if deep else 3]:
            n, nf = int(np.prod(dims)), 2 * len(dims)
            mesh = dict(dims=dims, nbc=nbc, ext=ext)
            for i, k, f in itertools.product(range(n), range(nbc), range(nf)):
                for t, v, w in itertools.product((None, "E", "P"), range(0, n + 2), range(0, nf + 2)):
                    muts = [[i, k, f, "elem", v], [i, k, f, "face", w]]
                    yield dict(mesh=mesh, muts=muts + ([[i, k, f, "type", t]] if t else []))
        dims, nbc, ext = ([2, 1], 1, "px")
        small = [m for m in all_muts(dims, nbc) if m[4] in ("", "W", "E", "P", 0, 1, 2, 3, 4, 5)]
        if not deep:
            small = [m for m in small if m[4] in ("", "E", "P", 0, 1, 2, 4)]
        for a, b in itertools.combinations(small, 2):
            if a[:4] != b[:4]:
                yield dict(mesh=dict(dims=dims, nbc=nbc, ext=ext), muts=[a, b])

    return gen


def run_link(c, ctx):
    """Any two faces linked with each other: accepted exactly when they are at the same place"""
    s = meshes.of(c["mesh"])
    (i, a), (j, b) = c["x"], c["y"]
    for k in range(s["nbc"]):
        s["elem"][i]["bcs"][k][a] = (c["type"], i + 1, a + 1, j + 1.0, b + 1.0, 0.0, 0.0, 0.0)
        s["elem"][j]["bcs"][k][b] = (c["type"], j + 1, b + 1, i + 1.0, a + 1.0, 0.0, 0.0, 0.0)
    judge(s, ctx)


def links():
    for dims in ([2, 1], [2, 2], [1, 1, 2], [2, 1, 1]):
        faces = list(itertools.product(range(int(np.prod(dims))), range(2 * len(dims))))
        for x, y in itertools.combinations(faces, 2):
            for t in ("E", "P"):
                yield dict(mesh=dict(dims=dims, nbc=1, ext="none", internal=False), x=x, y=y, type=t)


def run_tol(c, ctx):
    s = meshes.structured(c["dims"], nbc=c["nbc"], ext="walls", straight=True)
    if len(c["dims"]) == 3:
        for e in s["elem"]:
            e["pos"] = np.round(e["pos"])
    w, tol = c["width"], 1e-3 if c["tol"] is None else c["tol"]
    e = s["elem"][1]
    e["pos"][0] = 1 + (e["pos"][0] - 1) * w
    e["pos"] += (np.array(c["dir"], float) * c["frac"] * tol * min(1.0, w))[:, None, None, None]
    for e in s["elem"]:
        e["pos"] *= c["unit"]
    if c["swap"]:
        s = swap(s)
    ok = judge(s, ctx, c["tol"])
    expect(ok == (c["frac"] < 1), "harness: displacement")


def run_graded(c, ctx):
    """Elements of very different sizes: the tolerance is that of the two elements of a link"""
    nd, ax = c["ndim"], c["axis"]
    w = c17.GRADED[c["sizes"]]
    dims, widths = [1] * nd, [None] * nd
    dims[ax], widths[ax] = len(w), w
    s = c17.grid_of(dims, 1, widths, ext=c["ext"])
    i = c["elem"]
    size = [mm.smallest_edge(e, nd) for e in s["elem"]]
    links = [size[j] for j in (i - 1, i + 1) if 0 <= j < len(w)]
    near, far = min(min(size[i], v) for v in links), max(min(size[i], v) for v in links)
    # within the tolerance of both links, and (when they differ) of one of them only
    d = c["frac"] * 1e-3 * (near if c["of"] == "near" else far)
    s["elem"][i]["pos"][(ax + 1) % nd] += d
    want = d < 1e-3 * near
    ok = judge(s, ctx)
    expect(ok == want, f"harness: displacement {d} of {i}, sizes {size}")


def graded():
    for nd in (2, 3):
        for name, ax, ext, of, frac in itertools.product(c17.GRADED, range(nd), ("walls", "none"), ("near", "far"), (0.0, 0.9, 1.1)):
            for i in range(len(c17.GRADED[name])):
                if nd == 2 or i % 3 == 0:
                    yield dict(ndim=nd, sizes=name, axis=ax, ext=ext, elem=i, of=of, frac=frac)


def swap(s):
    """Exchange the numbers of two elements"""
    t = snap.copy_snap(s)
    t["elem"] = t["elem"][::-1]
    for e in t["elem"]:
        for row in e["bcs"]:
            for f, bc in enumerate(row):
                if mm.linked(bc):
                    row[f] = (bc[0], 3 - bc[1], bc[2], 3 - bc[3]) + bc[4:]
    return t


def tolerance():
    for dims, tol, frac, width, unit, sw in itertools.product(
        ([2, 1], [2, 1, 1]), (None, 0.1, 1e-6), (0.0, 0.9, 0.99, 1.01, 1.1, 5.0), (1.0, 0.05, 4.0), (1.0, 1e-5, 1e4, 2.0**-50), (False, True)
    ):
        for d in ([1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0]) + (([0, 0, 1], [0, 0, -1]) if len(dims) == 3 else ()):
            yield dict(dims=dims, nbc=1 + sw, tol=tol, frac=frac, width=width, unit=unit, dir=d, swap=sw)


def run_missing(c, ctx):
    s = meshes.of(c["mesh"])
    faces = [(i, k, f) for i in range(s["nel"]) for k in range(s["nbc"]) for f in range(mm.nfaces(s))]
    for n, (i, k, f) in enumerate(faces):
        if c["mask"] >> n & 1:
            s["elem"][i]["bcs"][k][f] = snap.NOBC
    judge(s, ctx)


def missing(deep):
    def gen():
        for dims, nbc in (([1, 1], 1), ([2, 1], 1), ([1, 1], 2), ([1, 1, 1], 1), ([1, 1], 0)) + ((([1, 1, 1], 2), ([1, 1], 3), ([3, 1], 1)) if deep else ()):
            for ext in ("walls", "pp"):
                for mask in range(2 ** (int(np.prod(dims)) * nbc * 2 * len(dims))):
                    yield dict(mesh=dict(dims=dims, nbc=nbc, ext=ext), mask=mask)

    return gen


def run_again(c, ctx):
    """The verdicts follow the mesh: the same mesh is changed and examined again"""
    s = meshes.of(c["mesh"])
    m = snap.to_hexa(s)
    judge(s, ctx, m=m)
    for mut in c["muts"]:
        mutate(s, mut)
        i, k, f, what, val = mut
        m.elem[i].bcs[k, f][{"type": 0, "elem": 3, "face": 4}[what]] = val
        judge(s, ctx, m=m)
    for i, k, f in sorted({tuple(mut[:3]) for mut in c["muts"]}):
        # put back
        orig = meshes.of(c["mesh"])["elem"][i]["bcs"][k][f]
        s["elem"][i]["bcs"][k][f] = orig
        for j, v in enumerate(orig):
            m.elem[i].bcs[k, f][j] = v
        judge(s, ctx, m=m)
    for e, el in zip(s["elem"], m.elem):
        # moved apart and back
        e["pos"][0] += 0.5
        el.pos = el.pos + np.array([0.5, 0, 0])[:, None, None, None]
        judge(snap.snap(m), ctx, m=m)
    judge(s, ctx, tol=1e-6, m=m)
    judge(s, ctx, tol=10.0, m=m)
    judge(s, ctx, m=m)


def again():
    for dims, nbc, ext in (([2, 1], 1, "px"), ([1, 1, 2], 1, "pz"), ([2, 1], 2, "px")):
        small = [m for m in all_muts(dims, nbc) if m[4] in ("", "W", "E", "P", 0, 1, 2, 3)]
        for a in small:
            yield dict(mesh=dict(dims=dims, nbc=nbc, ext=ext), muts=[a])
        for a in small[::3]:
            for b in small[::7]:
                yield dict(mesh=dict(dims=dims, nbc=nbc, ext=ext), muts=[a, b])


def run_made(c, ctx):
    """Meshes made by the library are consistent (with internal conditions), and complete exactly then"""
    from pymech import meshtools as mt

    var = [2, 2, 1, c["nbc"] > 1, max(0, c["nbc"] - 2)]
    var = [int(v) for v in var]
    bc = ["W", "t", "I"][: c["nbc"]]
    if c["kind"] == "box":
        m = mt.gen_box(*c["n"], -1.0, 2.0, 0.0, 0.5, var=var, internal_bcs=c["internal"])
    else:
        m = mt.gen_circle(1.0, 0.5, *c["n"], var=var, bc=bc, internal_bcs=c["internal"])
    if c["z"]:
        m = mt.extrude(m, list(np.linspace(0, 1, c["z"] + 1)), internal_bcs=c["internal"])
    s = snap.snap(m)
    expect(judge(s, ctx, m=m), "a generated mesh is not accepted")


def made(deep):
    n = 6 if deep else 4
    return lambda: (
        dict(kind=kind, n=[a, b], nbc=nbc, z=z, internal=i)
        for kind, a, b, nbc, z, i in itertools.product(("box", "disc"), range(1, n), range(1, n), (1, 3), (0, 1, 3), (True, False))
    )


def size_cases(deep):
    """One fault anywhere in a long row of elements"""

    def gen():
        for n in (32769, 65537) if deep else (32769,):
            for mut in ([], [[n - 1, 0, 1, "elem", n - 1]], [[n - 2, 0, 0, "type", ""]]):
                yield dict(mesh=dict(dims=[n, 1], nbc=1, ext="px"), muts=mut)
        for n in sizes.counts(1025 if deep else 257):
            for nd in (2, 3):
                mesh = dict(dims=[n, 1, 1][:nd], nbc=2, ext="px")
                yield dict(mesh=mesh, muts=[])
                for i in sorted({0, n // 2, n - 2, n - 1} - {-1}):
                    for mut in ([i, 1, 1, "elem", i + 1], [i, 0, 1, "face", 1], [i, 1, 3, "type", "W"], [i, 1, 0, "type", ""], [i, 0, 1, "elem", n + 1], [i, 1, 3, "elem", 0]):
                        yield dict(mesh=mesh, muts=[mut])

    return gen


def spaces(tier):
    deep = tier == "thorough"
    out = [
        Space("sizes", size_cases(deep), run_mut, 8, timeout=600, bounds=f"six faults at four places of rows of 1 to 40 elements and both sides of all block sizes up to {1025 if deep else 257}"),
        Space("mutations", singles(deep), run_mut, 64, bounds="every change of type, linked element and linked face of every face and field of small meshes"),
        Space("joint", joint(deep), run_mut, 64, bounds="every new target of every link; all pairs of changes on two elements"),
        Space("links", links, run_link, 64, bounds="any two faces linked"),
        Space("tolerance", tolerance, run_tol, 32, bounds="distances 0 to 5 tolerances, tolerances 1e-6 to 0.1, widths 0.05 to 4, units 1e-15 to 1e4"),
        Space("graded", graded, run_graded, 16, bounds=f"rows of elements of very different sizes ({len(c17.GRADED)} sequences): each element displaced by parts of the tolerances of its links"),
        Space("missing", missing(deep), run_missing, 64, bounds="every set of missing conditions on one and two elements"),
        Space("again", again, run_again, 32, bounds="the same mesh changed, examined, changed back and examined"),
        Space("made", made(deep), run_made, 8, bounds="generated and extruded meshes"),
    ]
    return out + [layouts.space(out[1:], 120 if deep else 30)]
