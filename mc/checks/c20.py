"""C20: coordinate transforms and edge midpoints."""

import itertools
import math

import numpy as np

from .. import layouts, meshes, sizes, snap
from .. import meshmodel as mm
from ..engine import Space, expect

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of bounded meshes, curvature assignments, condition assignments and transforms, compared with a reference model"
RULE = (
    "a state is one transformed mesh or one edge (all assignments of curvature and condition types to the edges of an element, "
    "rotations and maps of several meshes, arcs of all sizes and orientations on every edge); vertices, curvature, conditions and "
    "midpoints are compared with their definitions"
)
ASSUMPTIONS = ["arcs of at most half a circle, seen under at least 0.01 rad for the way back", "C curvature only on the edges 1 to 8"]


# ---------------------------------------------------------------------------------------------------------------
def run_rotate(c, ctx):
    from pymech.meshtools import rotate_2d

    s = meshes.of(c["mesh"])
    want = s
    m = snap.to_hexa(s)
    for x0, y0, th in c["ops"]:
        rotate_2d(m, x0, y0, th)
        want = mm.rotate(want, x0, y0, th)
        ctx.step()
    got = snap.snap(m)
    big = 1 + max(abs(o[0]) + abs(o[1]) for o in c["ops"])
    d = snap.diff(got, want, atol=1e-13 * big * len(c["ops"]) * 10, rtol=1e-12)
    expect(d is None, d)
    if c.get("back"):
        d = snap.diff(got, s, atol=1e-12 * big, rtol=1e-12)
        expect(d is None, f"the inverse rotation does not restore the mesh: {d}")
    ctx.state(snap.digest(got))
    ctx.validated()


def rotations(deep):
    centres = [(0, 0), (1.5, -0.25), (-20, 3), (0.3, 100.0)]
    angles = [0.0, math.pi / 2, -math.pi / 2, math.pi, 0.1, -2.3, 2 * math.pi, 7.0]

    def gen():
        for dims, curves in itertools.product(([1, 1], [2, 2], [3, 1], [1, 1, 1], [2, 1, 2]), ("none", "some", "all")):
            mesh = dict(dims=dims, nbc=2, ext="px", curves=curves)
            for (x0, y0), th in itertools.product(centres, angles):
                yield dict(mesh=mesh, ops=[[x0, y0, th]])
                yield dict(mesh=mesh, ops=[[x0, y0, th], [x0, y0, -th]], back=True)
            # small angles and angles next to quarters of a turn, seen from far away
            for (x0, y0), th, q in itertools.product(((1e6, -3e5), (0.0, 2e4)), (1e-3, -5e-8, 1e-9, 1e-12), range(4)):
                th += q * math.pi / 2
                yield dict(mesh=mesh, ops=[[x0, y0, th]])
                yield dict(mesh=mesh, ops=[[x0, y0, th], [x0, y0, -th]], back=True)
            for a, b in itertools.product(itertools.product(centres[:3] if deep else centres[:2], angles[1:] if deep else angles[1:5]), repeat=2):
                if dims in ([2, 2], [1, 1, 1]):
                    yield dict(mesh=mesh, ops=[[*a[0], a[1]], [*b[0], b[1]]])

    return gen


# ---------------------------------------------------------------------------------------------------------------
MAPS = {
    "identity": lambda x, y: (x, y),
    "affine": lambda x, y: (2 * x - 0.5 * y + 1, 0.25 * x + 3 * y - 2),
    "polar": lambda x, y: ((2 + x) * math.cos(0.3 * y), (2 + x) * math.sin(0.3 * y)),
    "quadratic": lambda x, y: (x + 0.1 * y * y, y + 0.05 * x * x),
}


def scaled(fun, unit, shift):
    """The same map in other units, applied to a mesh that was moved"""
    if not unit:
        return fun

    def g(x, y):
        a, b = fun((x - shift[0]) / unit, (y - shift[1]) / unit)
        return a * unit, b * unit

    return g


def run_map(c, ctx):
    from pymech.meshtools import map2D

    s = meshes.structured(**c["mesh"])
    for (i, k), typ in zip(itertools.product(range(s["nel"]), range(4)), c.get("curves", ())):
        s["elem"][i]["ccurv"][k] = typ
    meshes.physical(s)
    s["ncurv"] = snap.count_curved(s)
    for (i, k), typ in zip(itertools.product(range(s["nel"]), range(4)), c.get("bcs", ())):
        for f in range(s["nbc"]):
            t = typ if f == 0 else ("W" if typ in ("", "E") else "")
            s["elem"][i]["bcs"][f][k] = (t, i + 1, k + 1, 1.0, 2.0, 0.5, 0.0, 0.25) if t else snap.NOBC
    unit, shift = c.get("unit", 0), c.get("shift", (0.0, 0.0))
    if unit:
        for e in s["elem"]:
            e["pos"] *= unit
            e["curv"] *= unit
            for j in (0, 1):
                e["pos"][j] += shift[j]
                for k in range(12):
                    if e["ccurv"][k] in ("m", "s"):
                        e["curv"][k, j] += shift[j]
    fun = scaled(MAPS[c["map"]], unit, shift)
    kw = {k: c[k] for k in ("curvature", "boundary_curvature") if k in c}
    m = snap.to_hexa(s)
    before = snap.digest(snap.snap(m))
    r = map2D(m, fun, **kw)
    ctx.step()
    expect(snap.digest(snap.snap(m)) == before, "the original mesh is modified")
    expect(r is not m, "the original mesh is returned")
    got = snap.snap(r)
    want = mm.map2d(s, fun, kw.get("curvature", True), kw.get("boundary_curvature", True))
    for e, w in zip(got["elem"], want["elem"]):
        # only the coordinates of a midpoint are defined
        for k in range(4):
            if w["ccurv"][k] == "m":
                e["curv"][k, 2:], w["curv"][k, 2:] = 0, 0
    d = snap.diff(got, want, atol=1e-12 * (unit or 1) + 2e-14 * max(map(abs, shift)), rtol=1e-12)
    expect(d is None, d)
    ctx.state(snap.digest(got))
    ctx.validated()


OPTS = [{}] + [dict(curvature=a, boundary_curvature=b) for a in (True, False) for b in (True, False)]


def maps(deep):
    def gen():
        one = dict(dims=[1, 1], nbc=1, ext="none")
        for cv in itertools.product(("", "m", "C", "s"), repeat=4):
            for opt, name in itertools.product(OPTS, MAPS if deep else ("polar",)):
                yield dict(mesh=one, curves=cv, map=name, **opt)
        for bc in itertools.product(("", "E", "W", "P", "e"), repeat=4):
            for opt in OPTS[1:]:
                yield dict(mesh=dict(one, nbc=1 + len(set(bc)) % 2), bcs=bc, map="quadratic", **opt)
        for dims, nbc, ext, internal, opt, name in itertools.product(
            ([2, 1], [3, 2], [1, 4]), (0, 1, 3), ("walls", "px", "holes"), (True, False), OPTS, MAPS
        ):
            n = dims[0] * dims[1]
            for step in (2, 3):
                cv = [("", "m", "C", "s")[(k * step) % 4] for k in range(4 * n)]
                yield dict(mesh=dict(dims=dims, nbc=nbc, ext=ext, internal=internal), curves=cv, map=name, **opt)

    return gen


def units(deep):
    """The same meshes in very different units and far from the origin"""
    far = [(1e-11, (0.0, 0.0)), (1e-6, (0.0, 0.0)), (1e9, (0.0, 0.0)), (1e-5, (1.0, -2.0)), (1e-3, (1e4, 1.0))]
    for (unit, shift), dims, opt, name in itertools.product(far, ([1, 1], [2, 1], [3, 2]), OPTS, MAPS):
        n = dims[0] * dims[1]
        for step in (0, 3) if deep else (3,):
            cv = [("", "m", "C", "s")[(k * step) % 4] for k in range(4 * n)]
            yield dict(mesh=dict(dims=dims, nbc=1, ext="px"), curves=cv, map=name, unit=unit, shift=shift, **opt)


def size_rot(deep):
    for n in sizes.counts(1025 if deep else 257):
        yield dict(mesh=dict(dims=[n, 1, 1][: 2 + n % 2], nbc=1, ext="px", curves="all"), ops=[[1.5, -0.25, 0.7]])


def size_map(deep):
    for n in sizes.counts(1025 if deep else 257):
        cv = [("", "m", "C", "s")[(k * 3) % 4] for k in range(4 * n)]
        for k, opt in enumerate(OPTS):
            if k == n % 5 or n < 20:
                yield dict(mesh=dict(dims=[n, 1], nbc=2, ext="px"), curves=cv, map="quadratic", **opt)


# ---------------------------------------------------------------------------------------------------------------
def elem3d(ndim):
    s = snap.blank(ndim, 1, [2, 2, 2 if ndim == 3 else 1], [ndim, 0, 0, 0, 0], 0)
    e = s["elem"][0]
    for i, (z, y, x) in enumerate(itertools.product(range(e["pos"].shape[1]), range(2), range(2))):
        e["pos"][:, z, y, x] = (50 + i, 60 - 2 * i, 70 + 3 * i)
    return s, e


def place(e, corner, xyz):
    e["pos"][:, corner[2] * (e["pos"].shape[1] - 1), corner[1], corner[0]] = xyz


def run_arc(c, ctx):
    """An arc of known centre and radius on a given edge"""
    from pymech.meshtools import edge_circle, edge_mid

    s, e = elem3d(c["ndim"])
    k, r, sweep, phi = c["edge"], c["r"], c["sweep"], c["phi"]
    ctr = np.array([*c["centre"], 0.75 if c["ndim"] == 3 else 0.0])

    def at(angle):
        return ctr + r * np.array([math.cos(angle), math.sin(angle), 0.0])

    a, b = mm.EDGES[k]
    pa, pb, mid = at(phi), at(phi + sweep), at(phi + sweep / 2)
    if c.get("align") is not None:
        # the chord is exactly parallel to an axis
        pb[c["align"]] = pa[c["align"]]
        mid[1 - c["align"]] = 0.5 * (pa + pb)[1 - c["align"]]
    place(e, a, pa)
    place(e, b, pb)
    # going counter-clockwise around the centre the arc bulges to the right: positive radius
    sign = 1 if sweep > 0 else -1
    e["ccurv"][k] = "C"
    e["curv"][k] = [sign * r, 0, 0, 0, 0]
    el = snap.to_hexa(s).elem[0]
    before = (el.pos.copy(), el.curv.copy(), list(el.ccurv))
    got = np.array(edge_mid(el, k), float)
    scale = r + np.abs(ctr).max()
    tol = 1e-13 * scale / max(1e-3, abs(math.cos(sweep / 2)))
    expect(np.abs(got - mid).max() <= tol * 10, lambda: f"midpoint of the arc at {got} instead of {mid}")
    back = edge_circle(el, k, mid.copy())
    half = abs(math.sin(sweep / 2))
    tol = 1e-12 * scale / half**4
    expect(abs(back[0] - sign * r) <= tol, lambda: f"radius {back[0]} instead of {sign * r}")
    expect(np.abs(np.array(back[1:4]) - ctr).max() <= tol, lambda: f"centre {back[1:4]} instead of {ctr}")
    expect((el.pos == before[0]).all() and (el.curv == before[1]).all() and list(el.ccurv) == before[2], "the element is modified")
    # the way round: midpoint curvature
    el.ccurv[k] = "m"
    el.curv[k, :3] = mid
    got = edge_mid(el, k)
    expect((np.array(got) == mid).all(), f"midpoint {got} instead of {mid}")
    got[0] = 1e9
    expect(el.curv[k, 0] == mid[0], "the returned midpoint is part of the element")
    ctx.step(3)
    ctx.state(c)
    ctx.validated(3)


def arcs(deep):
    def gen():
        sweeps = [0.01, 0.05, 0.3, 1.0, math.pi / 2, 2.0, 3.0, 3.1]
        phis = [i * math.pi / 4 + 0.1 for i in range(8)] + [0.0, math.pi / 2]
        if deep:
            phis = [i * math.pi / 16 for i in range(32)]
            sweeps += [0.02, 0.1, 0.7, 1.3, 2.5, 2.9]
        for nd in (2, 3):
            for k in range(4 if nd == 2 else 8):
                for r, sw, sg, phi, ctr in itertools.product((1.0, 0.02, 300.0), sweeps, (1, -1), phis, ((0, 0), (3.0, -2.0))):
                    yield dict(ndim=nd, edge=k, r=r, sweep=sg * sw, phi=phi, centre=ctr)
                # chords parallel to the axes, in both directions
                for r, sw, sg, q, ctr in itertools.product((1.0, 0.02, 300.0), sweeps, (1, -1), range(4), ((0, 0), (3.0, -2.0))):
                    phi = q * math.pi / 2 - sg * sw / 2
                    yield dict(ndim=nd, edge=k, r=r, sweep=sg * sw, phi=phi, centre=ctr, align=q % 2)

    return gen


def run_vertical(c, ctx):
    """Arcs on the edges between the two ends, and edges out of the plane: radius and centre"""
    from pymech.meshtools import edge_circle, edge_mid

    s, e = elem3d(3)
    k, r, sweep = c["edge"], c["r"], c["sweep"]
    u = np.array(c["u"], float)
    u /= np.linalg.norm(u)
    w = np.array(c["w"], float)
    w -= u * (u @ w)
    w /= np.linalg.norm(w)
    ctr = np.array([0.5, -1.0, 2.0])

    def at(angle):
        return ctr + r * (math.cos(angle) * u + math.sin(angle) * w)

    a, b = mm.EDGES[k]
    pa, pb, mid = at(0.3), at(0.3 + sweep), at(0.3 + sweep / 2)
    place(e, a, pa)
    place(e, b, pb)
    el = snap.to_hexa(s).elem[0]
    back = edge_circle(el, k, mid.copy())
    tol = 1e-12 * (r + 2) / abs(math.sin(sweep / 2)) ** 4
    expect(abs(abs(back[0]) - r) <= tol, lambda: f"radius {back[0]} instead of {r}")
    expect(np.abs(np.array(back[1:4]) - ctr).max() <= tol, lambda: f"centre {back[1:4]} instead of {ctr}")
    # sphere around the same centre: same midpoint
    el.ccurv[k] = "s"
    el.curv[k] = [*ctr, 0, r]
    got = edge_mid(el, k)
    expect(np.abs(np.array(got) - mid).max() <= 1e-12 * (r + 2) / abs(math.cos(sweep / 2)), lambda: f"midpoint on the sphere at {got} instead of {mid}")
    # straight
    el.ccurv[k] = ""
    got = edge_mid(el, k)
    expect(np.abs(np.array(got) - (pa + pb) / 2).max() <= 1e-14 * (r + 2) * 4, f"midpoint of a straight edge at {got}")
    got[:] = 7e7
    expect(not (el.pos == 7e7).any() and not (el.curv == 7e7).any(), "the returned midpoint is part of the element")
    flat = edge_circle(el, k, (pa + pb) / 2)
    expect(np.isfinite(flat).all() and flat[0] == 0, lambda: f"a straight edge has radius {flat[0]}")
    ctx.step(4)
    ctx.state(c)
    ctx.validated(4)


def verticals():
    dirs = [[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [1, -2, 3], [-1, 0.5, 1]]
    for k, r, sw, sg, u, w in itertools.product(range(12), (1.0, 0.05, 20.0), (0.05, 0.3, 1.0, 2.0, 3.0), (1, -1), dirs, dirs):
        if u != w:
            yield dict(edge=k, r=r, sweep=sg * sw, u=u, w=w)


def spaces(tier):
    deep = tier == "thorough"
    out = [
        Space("rotate-sizes", lambda: size_rot(deep), run_rotate, 4, timeout=600, bounds=f"rows of 1 to 40 elements and both sides of all block sizes up to {1025 if deep else 257}"),
        Space("map-sizes", lambda: size_map(deep), run_map, 4, timeout=600, bounds="as for rotate-sizes"),
        Space("rotate", rotations(deep), run_rotate, 32, bounds="five meshes with all kinds of curvature, 4 centres, 8 angles, sequences of two; small angles around far centres"),
        Space("map", maps(deep), run_map, 64, bounds="all curvature and condition types on the edges of one element, other meshes, 4 maps, all options"),
        Space("units", lambda: units(deep), run_map, 16, bounds="the maps in units of 1e-11 to 1e9 and far from the origin"),
        Space("arcs", arcs(deep), run_arc, 128, bounds="arcs of 0.01 to 3.1 rad, both directions, radii 0.02 to 300, every edge"),
        Space("space", verticals, run_vertical, 64, bounds="arcs in any plane on all 12 edges, spheres, straight edges"),
    ]
    return out + [layouts.space([x for x in out if x.name in ('rotate', 'map', 'arcs')], 160 if deep else 40)]
