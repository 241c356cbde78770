"""C17: generating and deleting internal conditions."""

import itertools

import numpy as np

from .. import data, layouts, meshes, sizes, snap
from .. import meshmodel as mm
from ..engine import Space, expect, fail

LEVEL = "model_checking"
TECHNIQUE = (
    "exhaustive enumeration of the condition states of all coincident face pairs of bounded meshes, each result compared with a reference model"
)
RULE = (
    "a state is one mesh after delete_internal_bcs or generate_internal_bcs (every assignment of condition states to the coincident pairs "
    "of bounded meshes, every pair of element orientations, displacements around the tolerance, every zero edge); all conditions and "
    "the return value are compared with an independent model"
)
ASSUMPTIONS = [
    "the first field tells which faces have a condition",
    "no face coincides with more than one face of the other elements",
]

# states of the two faces of a coincident pair, in every field
STATES = {
    "--": ("", ""),
    "EE": ("E", "E"),
    "W-": ("W", ""),
    "-W": ("", "W"),
    "WO": ("W", "O"),
    "PP": ("P", "P"),
    "E-": ("E", ""),
}


def put(s, i, f, typ, other, link):
    for k in range(s["nbc"]):
        if typ == "":
            bc = snap.NOBC
        elif typ in ("E", "P"):
            o, g = other if link else ((i + 1) % s["nel"], 2)
            bc = (typ, i + 1, f + 1, o + 1.0, g + 1.0, 0.0, 0.0, 0.0)
        else:
            bc = (typ if k == 0 else "t", i + 1, f + 1, 0.5, 1.5 + i, 2.5 + f, 3.5 + k, 4.5)
        s["elem"][i]["bcs"][k][f] = bc


def check_generate(s, ctx, tol=None):
    m = snap.to_hexa(s)
    want, n = mm.generate_internal(s, *(() if tol is None else (tol,)))
    from pymech.meshtools import generate_internal_bcs

    got_n = generate_internal_bcs(m) if tol is None else generate_internal_bcs(m, tol)
    ctx.step()
    got = snap.snap(m)
    ctx.state(snap.digest(got))
    d = snap.diff(got, want, bcs=False) or mm.bcs_diff(got, want, nface=6)
    expect(d is None, d)
    expect(int(got_n) == n, f"{got_n} links reported, {n} made")
    ctx.validated()
    return m, got


def check_delete(s, ctx):
    from pymech.meshtools import delete_internal_bcs

    m = snap.to_hexa(s)
    want, n = mm.delete_internal(s)
    got_n = delete_internal_bcs(m)
    ctx.step()
    got = snap.snap(m)
    ctx.state(snap.digest(got))
    d = snap.diff(got, want)
    expect(d is None, d)
    expect(int(got_n) == n, f"{got_n} deletions reported, {n} made")
    ctx.validated()
    return m, got


def run_pairs(c, ctx):
    s = meshes.of(c["mesh"])
    pairs = mm.coincident(s, 1e-3)
    expect(len(pairs) == len(c["states"]), "harness: number of pairs")
    for (i, a, j, b), st in zip(pairs, c["states"]):
        ta, tb = STATES[st]
        put(s, i, a, ta, (j, b), st != "E-")
        put(s, j, b, tb, (i, a), st != "E-")
    check_generate(s, ctx)
    _, gone = check_delete(s, ctx)
    check_generate(gone, ctx)


def run_long(c, ctx):
    s = meshes.of(c["mesh"])
    _, gone = check_delete(s, ctx)
    check_generate(gone, ctx)
    if c["mesh"]["ext"] != "none":
        # only some of the conditions are missing
        for i, e in enumerate(s["elem"]):
            for row in e["bcs"]:
                if i % 3:
                    row[1] = snap.NOBC
                if i % 2:
                    row[3] = snap.NOBC
        check_generate(s, ctx)
    # faces that do not coincide exactly, elements longer than wide
    far = snap.copy_snap(gone)
    for i, e in enumerate(far["elem"]):
        k = c["at"] if i == c["at"] else i * 7 % 5
        if c["all"] or i == c["at"]:
            e["pos"][:2] += (4e-4 * np.array([1 - k % 3, k % 2]))[:, None, None, None]
        if c["long"]:
            e["pos"][:2] *= np.array(c["long"], float)[:, None, None, None]
    check_generate(far, ctx)


def long(deep):
    def gen():
        for n in sizes.counts(257 if deep else 129):
            long = [None, [8, 1], [1, 8], [50, 1], [1, 50]][n % 5]
            for k, at in enumerate(sorted({0, n // 2, n - 1})):
                yield dict(mesh=dict(dims=[n, 1, 1][: 2 + n % 2], nbc=1, ext="walls", straight=True), at=at, all=k == 1 and n % 2, long=long)
            yield dict(mesh=dict(dims=[1, 1, n][-2 - n % 2:], nbc=1, ext="walls"), at=n - 1, all=True, long=long)
            if n <= 16:
                yield dict(mesh=dict(dims=[n, 17 - n], nbc=2, ext="walls"), at=n // 2, all=n % 2, long=long)

    return gen


def npairs(dims):
    n = list(dims) + [1] * (3 - len(dims))
    tot = int(np.prod(n))
    return sum(tot // n[a] * (n[a] - 1) for a in range(3))


def pairs(deep):
    def gen():
        grids = [([2, 1], 1), ([2, 1], 3), ([1, 2], 2), ([3, 1], 1), ([2, 2], 1), ([1, 1, 2], 2), ([2, 1, 1], 1), ([1, 3, 1], 1), ([2, 1, 2], 1)]
        for (dims, nbc), ext in itertools.product(grids, ("walls", "none", "px")):
            for st in itertools.product(STATES, repeat=npairs(dims)):
                if npairs(dims) >= 4 and not deep and "PP" in st:
                    continue
                yield dict(mesh=dict(dims=dims, nbc=nbc, ext=ext, internal=False), states=st)
        if deep:
            for dims, n in (([3, 2], 7),):
                for st in itertools.product(("--", "EE", "W-", "WO"), repeat=n):
                    yield dict(mesh=dict(dims=dims, nbc=1, ext="none", internal=False), states=st)

    return gen


# every orientation of the two elements: quarter turns in 2D, all rotations of the cube in 3D
def orientations(ndim):
    if ndim == 2:
        return [[0, k] for k in range(4)]
    return list(range(24))


def rotate_elem(s, i, how):
    """Renumber the corners of element i (its conditions are empty)"""
    e = s["elem"][i]
    p = e["pos"]
    if s["ndim"] == 2:
        # turned grids: quarter turn of the (r, s) directions
        e["pos"] = np.rot90(p, how[1], axes=(2, 3)).copy()
        return
    perms = list(itertools.permutations((0, 1, 2)))
    out = []
    for perm in perms:
        for flips in itertools.product((0, 1), repeat=3):
            q = np.transpose(p, (0,) + tuple(1 + a for a in perm))
            for a, f in enumerate(flips):
                if f:
                    q = np.flip(q, 1 + a)
            par = (1 if perm in ((0, 1, 2), (1, 2, 0), (2, 0, 1)) else 0) + sum(flips)
            if par % 2 == 1:
                out.append(q)
    assert len(out) == 24
    e["pos"] = np.ascontiguousarray(out[how])


def run_orient(c, ctx):
    s = meshes.structured(c["dims"], nbc=c["nbc"], ext="none", internal=False)
    for i, how in enumerate(c["turns"]):
        rotate_elem(s, i, how)
    m, got = check_generate(s, ctx)
    bad = mm.connectivity_ok(got)
    expect(bad is None, bad)
    n = sum(bc[0] == "E" for e in got["elem"] for row in e["bcs"] for bc in row)
    expect(n == 2 * npairs(c["dims"]) * c["nbc"], "a coincident pair is not linked")
    m.check_connectivity()


def orient(deep):
    def gen():
        for dims in ([2, 1], [1, 2]):
            for t in itertools.product(orientations(2), repeat=2):
                yield dict(dims=dims, turns=t, nbc=1 + len(dims) % 2)
        for t in itertools.product(orientations(2), repeat=4):
            yield dict(dims=[2, 2], turns=t, nbc=1)
        for dims in ([2, 1, 1], [1, 2, 1], [1, 1, 2]) if deep else ([1, 2, 1],):
            for t in itertools.product(orientations(3), repeat=2):
                yield dict(dims=dims, turns=t, nbc=2)

    return gen


def run_tol(c, ctx):
    s = meshes.structured(c["dims"], nbc=1, ext="none", internal=False, straight=True)
    if len(c["dims"]) == 3:
        for e in s["elem"]:
            e["pos"] = np.round(e["pos"])
    w = c["width"]
    tol = 1e-3 if c["tol"] is None else c["tol"]
    e = s["elem"][1]
    e["pos"][0] = 1 + (e["pos"][0] - 1) * w
    d = np.array(c["dir"], float)
    e["pos"] += (d * c["frac"] * tol * min(1.0, w))[:, None, None, None]
    for e in s["elem"]:
        e["pos"] *= c["unit"]
    _, got = check_generate(s, ctx, c["tol"])
    linked = any(bc[0] == "E" for e in got["elem"] for row in e["bcs"] for bc in row)
    expect(linked == (c["frac"] < 1), f"faces at {c['frac']} of the tolerance are {'' if linked else 'not '}linked")


def tolerance():
    for dims, tol, frac, width, unit in itertools.product(([2, 1], [2, 1, 1]), (None, 0.1, 1e-2, 1e-6), (0.0, 0.9, 0.99, 1.01, 1.1, 3.0), (1.0, 0.05, 4.0), (1.0, 1e-5, 1e4, 2.0**-50)):
        for d in ([1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0]) + (([0, 0, 1], [0, 0, -1]) if len(dims) == 3 else ()):
            yield dict(dims=dims, tol=tol, frac=frac, width=width, unit=unit, dir=d)


def stretch(s, widths):
    """Elements of very different sizes: the planes between the cells of a straight grid are moved"""
    for e in s["elem"]:
        for a, w in enumerate(widths):
            if w:
                at = np.concatenate([[0.0], np.cumsum(w)])
                e["pos"][a] = at[np.round(e["pos"][a]).astype(int)]
    return s


def grid_of(dims, nbc, widths, **kw):
    s = meshes.structured(dims, nbc=nbc, straight=True, **kw)
    for e in s["elem"]:
        e["pos"] = np.round(e["pos"])
    return stretch(s, widths)


# sizes of neighbouring cells
GRADED = {
    "two-large": [0.1] * 9 + [5.0, 5.0],
    "large-first": [5.0, 5.0] + [0.1] * 9,
    "large-inside": [0.1, 0.1, 7.0, 7.0, 0.1, 0.1, 0.1, 0.1, 0.1, 0.1],
    "growing": [2.0**k for k in range(10)],
    "falling": [2.0**-k for k in range(10)],
    "alternating": [1.0, 4e-3] * 4,
    "one-small": [1.0, 1.0, 4e-3, 1.0, 1.0],
    "small-end": [1.0, 1.0, 1.0, 1e-3],
    "small-start": [1e-3, 1.0, 1.0, 1.0],
    "one-large": [1.0, 1.0, 1e3, 1.0, 1.0],
    "one-huge": [1e-4, 1e-4, 1e4, 1e-4],
}


def run_graded(c, ctx):
    nd, ax = c["ndim"], c["axis"]
    w = GRADED[c["sizes"]]
    dims, widths = [1] * nd, [None] * nd
    dims[ax], widths[ax] = len(w), w
    if c["rows"] > 1:
        dims[(ax + 1) % nd], widths[(ax + 1) % nd] = c["rows"], [c["across"]] * c["rows"]
    elif c["across"] != 1:
        widths[(ax + 1) % nd] = [c["across"]]
    s = grid_of(dims, 1, widths, ext=c["ext"], internal=False)
    if c["frac"]:
        # every other element is moved by a part of the tolerance of its own links
        for i, e in enumerate(s["elem"]):
            if i % 2:
                e["pos"][(ax + 1) % nd] += c["frac"] * 1e-3 * min(mm.smallest_edge(o, nd) for o in s["elem"] if touch(e, o, nd))
    _, got = check_generate(s, ctx)
    n = sum(bc[0] == "E" for e in got["elem"] for row in e["bcs"] for bc in row)
    expect(n == 2 * npairs(dims), f"{n} faces of {2 * npairs(dims)} are linked")


def touch(e, o, nd):
    lo = [np.maximum(e["pos"][a].min(), o["pos"][a].min()) for a in range(3)]
    hi = [np.minimum(e["pos"][a].max(), o["pos"][a].max()) for a in range(3)]
    size = min(mm.smallest_edge(e, nd), mm.smallest_edge(o, nd))
    return all(a <= b + 1e-2 * size for a, b in zip(lo, hi))


def graded():
    for nd in (2, 3):
        for name, ax, across, rows, ext, frac in itertools.product(GRADED, range(nd), (1.0, 0.01, 30.0), (1, 2), ("none", "walls"), (0, 0.4)):
            if rows == 2 and (nd == 3 or ext == "walls" or frac):
                continue
            yield dict(ndim=nd, sizes=name, axis=ax, across=across, rows=rows, ext=ext, frac=frac)


def run_zero(c, ctx):
    from pymech.meshtools import generate_internal_bcs

    s = meshes.of(c["mesh"])
    e = s["elem"][c["elem"]]
    a, b = mm.EDGES[c["edge"]]
    e["pos"][:, b[2] * (e["pos"].shape[1] - 1), b[1], b[0]] = e["pos"][:, a[2] * (e["pos"].shape[1] - 1), a[1], a[0]]
    m = snap.to_hexa(s)
    before = snap.digest(snap.snap(m))
    try:
        generate_internal_bcs(m)
    except Exception:
        ctx.step()
        ctx.state(c)
        expect(snap.digest(snap.snap(m)) == before, "the rejected call modified the mesh")
        ctx.validated()
        return
    fail("an edge of zero length is accepted")


def zero():
    for dims in ([1, 1], [2, 1], [2, 2], [1, 1, 1], [2, 1, 1]):
        for i in range(int(np.prod(dims))):
            for k in range(4 if len(dims) == 2 else 12):
                for internal in (True, False):
                    yield dict(mesh=dict(dims=dims, internal=internal, ext="holes"), elem=i, edge=k)


def make(c):
    from pymech import meshtools as mt

    kind = c["kind"]
    nbc = c["nbc"]
    var = [2, 2, 1, 1 if nbc > 1 else 0, max(0, nbc - 2)]
    if kind == "grid":
        return meshes.of(c["mesh"])
    if kind == "box":
        m = mt.gen_box(c["n"][0], c["n"][1], -1.0, 2.0, 0.0, 0.5, var=var, internal_bcs=True)
    else:
        m = mt.gen_circle(1.0, 0.5, c["n"][0], c["n"][1], var=var, bc=["W", "t", "I"][:nbc], internal_bcs=True)
    if c.get("z"):
        m = mt.extrude(m, [0.0, 1.0, 1.5][: c["z"] + 1], bc1=["v"] * nbc, bc2=["O"] * nbc)
    return snap.snap(m)


def run_restore(c, ctx):
    """Delete and regenerate: nothing is lost, nothing is gained"""
    from pymech.meshtools import delete_internal_bcs, generate_internal_bcs

    s = make(c)
    m, gone = check_delete(s, ctx)
    expect(not any(bc[0] == "E" for e in gone["elem"] for row in e["bcs"] for bc in row), "an internal condition is left")
    n = generate_internal_bcs(m)
    ctx.step()
    got = snap.snap(m)
    d = snap.diff(got, s, bcs=False) or mm.bcs_diff(got, s, own=False)
    expect(d is None, f"not restored: {d}")
    ctx.state(snap.digest(got))
    expect(generate_internal_bcs(m) == 0, "complete connectivity is extended")
    expect(2 * n == delete_internal_bcs(m), "not every link was counted")
    ctx.step(2)


def restore(deep):
    def gen():
        for dims in ([1, 1], [2, 2], [2, 1, 2]):
            yield dict(kind="grid", nbc=0, mesh=dict(dims=dims, nbc=0, curves="some"))
        for dims, nbc, ext in itertools.product(([1, 1], [2, 2], [3, 2], [5, 1], [2, 2, 2], [3, 1, 2]), (1, 2, 3), ("walls", "px", "pp", "mixed")):
            yield dict(kind="grid", nbc=nbc, mesh=dict(dims=dims, nbc=nbc, ext=ext, curves="some"))
        for n, nbc, z in itertools.product(itertools.product(range(1, 5 if deep else 4), repeat=2), (1, 2, 3), (0, 1, 2)):
            yield dict(kind="box", n=n, nbc=nbc, z=z)
            if n[0] < 4 and nbc < 3:
                yield dict(kind="disc", n=n, nbc=nbc, z=z)

    return gen


def run_fold(c, ctx):
    """Folded elements: two faces of one element have the same centre, which links nothing"""
    s = meshes.structured(c["dims"], nbc=c["nbc"], ext=c["ext"], internal=False, straight=True)
    nd = s["ndim"]
    for e in s["elem"]:
        e["pos"] = np.round(e["pos"])
    for i, (a, b) in enumerate(c["folds"]):
        if (a, b) == (0, 0):
            continue
        p = s["elem"][i]["pos"]
        at = [slice(None)] * 4
        at[3 - b] = -1
        part = p[tuple(at)].copy()
        axis = [x for x in (2, 1, 0) if x != b].index(a)  # directions left: slowest first
        p[tuple(at)] = np.flip(part, 1 + axis)
    own = 0
    for e in s["elem"]:
        ctr = [mm.face_center(e, f) for f in range(2 * nd)]
        own += any(np.allclose(ctr[f], ctr[g], atol=1e-6) for f in range(2 * nd) for g in range(f))
    expect(own == sum(f != (0, 0) for f in map(tuple, c["folds"])), "harness: the elements are not folded")
    _, got = check_generate(s, ctx)
    bad = mm.connectivity_ok(got)
    expect(bad is None, bad)
    for i, e in enumerate(got["elem"]):
        for row in e["bcs"]:
            expect(all(bc[0] != "E" or int(bc[3]) != i + 1 for bc in row), f"element {i + 1} is linked to itself")


def folded(deep):
    def gen():
        for dims in ([1, 1], [2, 1], [1, 2], [2, 2], [1, 1, 1], [2, 1, 1], [1, 1, 2]) + (([3, 2], [2, 2, 1]) if deep else ()):
            nd = len(dims)
            kinds = [(0, 0)] + list(itertools.permutations(range(nd), 2))
            n = int(np.prod(dims))
            for folds in itertools.product(kinds, repeat=n) if n <= 4 else ([k if i in (e, e + 1) else (0, 0) for i in range(n)] for k in kinds[1:] for e in range(n)):
                if any(map(any, folds)):
                    yield dict(dims=dims, folds=folds, nbc=1 + n % 2, ext=("none", "walls")[sum(map(sum, folds)) % 2])

    return gen


TYPES = ["", "W", "E", "e", "EA", "P", "O", "E1"]


def run_types(c, ctx):
    s = meshes.structured(c["dims"], nbc=c["nbc"], ext="walls")
    it = iter(c["types"])
    for f in range(mm.nfaces(s)):
        t = next(it)
        for k in range(c["nbc"]):
            tk = t if k == 0 else TYPES[(TYPES.index(t) + k) % len(TYPES)]
            s["elem"][c["elem"]]["bcs"][k][f] = snap.NOBC if tk == "" else (tk, c["elem"] + 1, f + 1, 1.0, 2.0, 0.5, 0.25, 3.0)
    check_delete(s, ctx)


def types(deep):
    def gen():
        for t in itertools.product(TYPES, repeat=4):
            yield dict(dims=[2, 1], nbc=2, elem=sum(map(len, t)) % 2, types=t)
        for t in itertools.product(TYPES if deep else ["", "W", "E", "P"], repeat=6 if deep else 6):
            if deep and len(set(t)) > 3:
                continue
            yield dict(dims=[1, 1, 1], nbc=1, elem=0, types=t)

    return gen


def spaces(tier):
    deep = tier == "thorough"
    out = [
        Space("sizes", long(deep), run_long, 1, timeout=600, bounds=f"rows of 1 to 40 elements and both sides of all block sizes up to {257 if deep else 129}, rectangles of 16 to 72 elements; displaced within the tolerance, elements up to 50 times as long as wide"),
        Space("pairs", pairs(deep), run_pairs, 32, bounds=f"all assignments of {list(STATES)} to the coincident pairs of grids up to 2x2 and 2x1x2" + (", 3x2" if deep else "")),
        Space("orientations", orient(deep), run_orient, 32, bounds="all orientations of 2 and 4 quadrilaterals, all pairs of the 24 orientations of two hexahedra"),
        Space("tolerance", tolerance, run_tol, 32, bounds="distances 0 to 3 tolerances, tolerances 1e-6 to 0.1, widths 0.05 to 4, units 1e-15 to 1e4"),
        Space("graded", graded, run_graded, 8, bounds=f"rows of 4 to 11 elements of very different sizes ({len(GRADED)} sequences) along every axis, one or two rows, exact and displaced"),
        Space("zero", zero, run_zero, 8, bounds="every edge of every element of five meshes"),
        Space("restore", restore(deep), run_restore, 4, bounds="structured, box, disc and extruded meshes"),
        Space("folded", folded(deep), run_fold, 16, bounds="every way to fold the elements of grids of up to 2x2 and 2x1x1" + (", one or two elements of 3x2 and 2x2x1" if deep else "")),
        Space("types", types(deep), run_types, 64, bounds="all condition types on the faces of one element"),
    ]
    return out + [layouts.space(out[1:], 120 if deep else 30)]
