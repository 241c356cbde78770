"""C22: histories of mesh operations."""

import copy
import hashlib
import math
import os

import numpy as np

from .. import meshes, snap
from .. import meshmodel as mm
from ..engine import Space, expect

LEVEL = "model_checking"
TECHNIQUE = (
    "breadth-first search over the histories of the real mesh operations with deduplication of mesh states; an invariant checker written "
    "on plain snapshots decides well-formedness of every state reached"
)
RULE = (
    "a state is a distinct mesh reached by a history of operations (keep, merge, rotate, map, delete, generate, extrude, refine, write and "
    "read back); in every state the independent invariant, the connectivity check and all three writers must succeed"
)
ASSUMPTIONS = [
    "operations are enabled only where they apply: extrusion and mapping of 2D meshes, extrusion that splits only with uniform conditions around, "
    "merges whose touching faces are periodic on both sides or on none",
]

MAX2, MAX3 = 20, 40


def bounds(s):
    p = np.concatenate([e["pos"].reshape(3, -1) for e in s["elem"]], axis=1)
    return p.min(axis=1), p.max(axis=1)


def shifted(mesh, axis, s):
    lo, hi = bounds(s)
    m = copy.deepcopy(mesh)
    for el in m.elem:
        el.pos[axis] += hi[axis] - lo[axis]
        for k, c in enumerate(el.ccurv):
            if c in ("m", "s"):
                el.curv[k, axis] += hi[axis] - lo[axis]
    return m


def mergeable(a, b):
    """Touching faces are periodic on both sides or on none, in every field"""
    if a["nel"] + b["nel"] > (MAX2 if a["ndim"] == 2 else MAX3):
        return False
    faces = range(mm.nfaces(a))
    ca = [(mm.face_center(e, f), [r[f][0] for r in e["bcs"]]) for e in a["elem"] for f in faces]
    cb = [(mm.face_center(e, f), [r[f][0] for r in e["bcs"]]) for e in b["elem"] for f in faces]
    pa, pb = np.array([c for c, _ in ca]), np.array([c for c, _ in cb])
    d = np.linalg.norm(pa[:, None, :] - pb[None, :, :], axis=2)
    lim = 2e-2 * min(mm.smallest_edge(e, a["ndim"]) for e in a["elem"] + b["elem"])
    near = np.argwhere(d <= lim)
    if len(set(near[:, 0])) != len(near) or len(set(near[:, 1])) != len(near):
        return False
    nf = mm.nfaces(a)
    for i, j in near:
        if a["ndim"] == 2:  # the edges that touch have the same curvature
            mi, mj = mm.edge_mid(a["elem"][i // nf], i % nf), mm.edge_mid(b["elem"][j // nf], j % nf)
            if np.linalg.norm(mi - mj) > 1e-4 * np.linalg.norm(lim):
                return False
        ta, tb = ca[i][1], cb[j][1]
        if any((x == "P") != (y == "P") for x, y in zip(ta, tb)) or (ta and (ta[0] == "E" or tb[0] == "E")):
            return False
        # faces are joined in every field if they are in the first one
        if any("" in (x, y) for x, y in zip(ta, tb)) and any("P" in (x, y) for x, y in zip(ta, tb)):
            return False
    return True


def op_keep(which, bc):
    def op(mesh, s, ctx):
        from pymech.meshtools import keep_elements

        n = s["nel"]
        sel = {"half": list(range((n + 1) // 2)), "odd": list(range(0, n, 2))[::-1], "tail": np.arange(n - 1, 0, -1) if n > 1 else [0]}[which]
        keep_elements(mesh, sel, bc)
        return mesh

    return op


def op_merge(axis, part=False, **kw):
    def op(mesh, s, ctx):
        from pymech.meshtools import keep_elements

        if axis == 2 and s["ndim"] == 2:
            return None
        other = shifted(mesh, axis, s)
        if part:
            keep_elements(other, list(range(0, s["nel"], 2)), "W")
        if not mergeable(s, snap.snap(other)):
            return None
        mesh.merge(other, **kw)
        return mesh

    return op


def op_rotate(angle):
    def op(mesh, s, ctx):
        from pymech.meshtools import rotate_2d

        rotate_2d(mesh, 0.25, -0.5, angle)
        return mesh

    return op


def op_map(**kw):
    def op(mesh, s, ctx):
        from pymech.meshtools import map2D

        if s["ndim"] != 2:
            return None
        return map2D(mesh, lambda x, y: (1.1 * x + 0.1 * y + 0.02 * math.sin(x), y - 0.05 * x), **kw)

    return op


def op_delete(mesh, s, ctx):
    from pymech.meshtools import delete_internal_bcs

    delete_internal_bcs(mesh)
    return mesh


def op_generate(mesh, s, ctx):
    from pymech.meshtools import generate_internal_bcs

    generate_internal_bcs(mesh)
    return mesh


def op_extrude(z, ends, internal=True):
    def op(mesh, s, ctx):
        from pymech.meshtools import extrude

        if s["ndim"] != 2 or s["nel"] * (len(z) - 1) > MAX3:
            return None
        b1, b2 = (None, None) if ends is None else ([["W", "t", "f", "I"][k] for k in range(s["nbc"])], [["O", "I", "f", "t"][k] for k in range(s["nbc"])])
        return extrude(mesh, z, b1, b2, internal_bcs=internal)

    return op


def op_refine(mesh, s, ctx):
    """Extrusion that refines the part of the mesh below a line"""
    from pymech.meshtools import extrude_refine

    if s["ndim"] != 2 or s["nel"] * 6 > 2 * MAX3:
        return None
    lo, hi = bounds(s)
    if any(bc[0] == "P" for e in s["elem"] for row in e["bcs"] for bc in row):
        return None
    at = lo[1] + 0.4 * (hi[1] - lo[1])
    for e in s["elem"]:
        # the line has to cut elements through opposite sides
        low = [mm.corner(e, (*v, 0))[1] <= at for v in mm.LOOP]
        if sum(low) in (1, 3) or (sum(low) == 2 and low[0] == low[2]):
            return None
    b1, b2 = [["W", "t", "f", "I"][k] for k in range(s["nbc"])], [["O", "I", "f", "t"][k] for k in range(s["nbc"])]
    return extrude_refine(mesh, [0.0, 0.5, 1.0, 1.5, 2.0], bc1=b1, bc2=b2, fun=[lambda x, y, p: y - at])


def op_file(kind):
    def op(mesh, s, ctx):
        import pymech as pm

        w, r, ext = {"re2": ("writere2", "readre2", ".re2"), "rea": ("writerea", "readrea", ".rea"), "nek": ("writenek", "readnek", ".f00001")}[kind]
        path = ctx.path("history" + ext)
        getattr(pm, w)(path, mesh)
        return getattr(pm, r)(path)

    return op


OPS = {
    "keep_half": op_keep("half", ""),
    "keep_odd": op_keep("odd", "W"),
    "keep_tail": op_keep("tail", "O"),
    "merge_x": op_merge(0),
    "merge_y": op_merge(1),
    "merge_z": op_merge(2),
    "merge_part": op_merge(0, part=True),
    "merge_empty": op_merge(1, ignore_empty=False),
    "merge_ignore": op_merge(0, ignore_all_bcs=True),
    "rotate": op_rotate(0.3),
    "turn": op_rotate(math.pi / 2),
    "map": op_map(),
    "map_straight": op_map(curvature=False, boundary_curvature=False),
    "delete": op_delete,
    "generate": op_generate,
    "extrude": op_extrude([0.0, 0.7], None),
    "extrude_ends": op_extrude([0.0, 0.5, 1.25], "W"),
    "extrude_open": op_extrude([0.0, 0.5, 1.25], None, internal=False),
    "refine": op_refine,
    "re2": op_file("re2"),
    "rea": op_file("rea"),
    "nek": op_file("nek"),
}


def start(spec):
    kind, arg = spec
    if kind == "box":
        from pymech.meshtools import gen_box

        nx, ny, var, ends, internal = arg
        return gen_box(nx, ny, 0.0, 1.0 * nx, 0.0, 1.5 * ny, var=var, internal_bcs=internal, **({} if not ends else dict(zip(("bcs_xmin", "bcs_xmax", "bcs_ymin", "bcs_ymax"), ends))))
    if kind == "circle":
        from pymech.meshtools import gen_circle

        ns, no, kw = arg
        return gen_circle(1.0, 0.5, ns, no, **kw)
    s = meshes.of(arg)
    if arg.get("curves", "none") != "none" and s["ndim"] == 3:
        meshes.physical(s, bulge=0.02)
    elif arg.get("curves", "none") != "none":
        meshes.conforming_curves(s, bulge=0.02, radius=6.0)
    return snap.to_hexa(s)


def examine(mesh, hist, ctx):
    """The invariant of one state; returns its snapshot and digest"""
    import pymech as pm

    s = snap.snap(mesh)
    where = " -> ".join(hist) or "start"
    p = mm.problems(s)
    expect(p is None, lambda: f"after {where}: {p}")
    return s, hashlib.blake2b(snap.bytes_of(s), digest_size=10).digest(), where


def complete(mesh, s, where, ctx):
    """It passes the connectivity check and can be written"""
    import pymech as pm

    before = snap.digest(s)
    try:
        ok = mesh.check_connectivity()
    except Exception as err:
        ok = err
    expect(ok is True, lambda: f"after {where}: check_connectivity gives {ok!r}")
    for fn, name in ((pm.writere2, "w.re2"), (pm.writerea, "w.rea"), (pm.writenek, "w.f00001")):
        path = os.path.join(ctx.scratch, name)
        try:
            r = fn(path, mesh)
            bad = None if r == 0 else f"returns {r!r}"
        except Exception as err:
            bad = f"raises {err!r}"
        expect(bad is None, lambda: f"after {where}: {fn.__name__} {bad}")
    ctx.step(4)
    queries(mesh, s, where, ctx)
    expect(snap.digest(snap.snap(mesh)) == before, lambda: f"after {where}: changed by checking or writing")


def near(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-12)


def queries(mesh, s, where, ctx):
    """The queries of the mesh answer for its present content"""
    if not s["nel"]:
        return
    if all(e["pos"].shape == s["elem"][0]["pos"].shape for e in s["elem"]):
        pts = mesh.get_points()
        want = np.array([e["pos"].reshape(3, -1).T for e in s["elem"]])
        expect(near(pts, want), lambda: f"after {where}: get_points does not give the points of the mesh")
    lims = mesh.lims
    for name in snap.FIELDS:
        a = np.array([[(e[name][k].min(), e[name][k].max()) for k in range(len(e[name]))] for e in s["elem"]], dtype=float)
        want = np.stack([a[..., 0].min(0), a[..., 1].max(0)], axis=-1) if a.size else np.zeros((0, 2))
        got = np.array(getattr(lims, name), dtype=float).reshape(-1, 2)
        expect(got.shape == want.shape and (got == want).all(), lambda: f"after {where}: extrema of {name} are {got.tolist()} instead of {want.tolist()}")
    for i in sorted({0, s["nel"] - 1}):
        el, e = mesh.elem[i], s["elem"][i]
        expect(near(el.centroid, e["pos"].reshape(3, -1).mean(1)), lambda: f"after {where}: centroid of element {i} is {el.centroid}")
        expect(near(el.smallest_edge(), mm.smallest_edge(e, s["ndim"])), lambda: f"after {where}: smallest edge of element {i} is {el.smallest_edge()}")
        for f in range(mm.nfaces(s)):
            expect(near(el.face_center(f), mm.face_center(e, f)), lambda: f"after {where}: centre of face {f} of element {i} is {el.face_center(f)}")
    ctx.step(2)
    full = mm.complete(s)
    try:
        got = bool(mesh.check_bcs_present())
    except Exception:
        got = False
    expect(got == full, lambda: f"after {where}: check_bcs_present gives {got}, the conditions are {'' if full else 'in'}complete")


def run(c, ctx):
    mesh = start(c["start"])
    hist = []
    s, key, where = examine(mesh, hist, ctx)
    complete(mesh, s, where, ctx)
    ctx.state(key)
    for name in c["first"]:
        new = OPS[name](copy.deepcopy(mesh), s, ctx)
        if new is None:
            return
        ctx.step()
        mesh, hist = new, hist + [name]
        s, key, where = examine(mesh, hist, ctx)
        complete(mesh, s, where, ctx)
        ctx.state(key)
    seen = {key}
    level = [(mesh, s, hist)]
    for depth in range(c["depth"] - len(c["first"])):
        nxt = []
        for mesh, s, hist in level:
            for name, op in OPS.items():
                m = copy.deepcopy(mesh)
                try:
                    new = op(m, s, ctx)
                except Exception as err:
                    expect(False, lambda: f"after {' -> '.join(hist) or 'start'}: {name} raises {err!r}")
                if new is None:
                    ctx.count("disabled")
                    continue
                ctx.step()
                ctx.validated()
                h = hist + [name]
                t, key, where = examine(new, h, ctx)
                ctx.count("histories")
                ctx.count("after_" + name)
                if key in seen:
                    continue
                seen.add(key)
                ctx.state(key)
                complete(new, t, where, ctx)
                nxt.append((new, t, h))
        level = nxt


def starts(deep):
    W3 = ["W", "t", "I"]
    side = lambda *t: [[x] * 3 for x in t]
    out = [
        ("box", [2, 1, [2, 2, 1, 0, 0], None, True]),
        ("box", [1, 2, [2, 2, 1, 1, 1], [None, None, W3, ["v", "t", "O"]], True]),
        ("box", [2, 2, [2, 2, 1, 1, 0], [["W", "t"], ["O", "I"], ["SYM", "I"], ["on", "f"]], False]),
        ("box", [1, 1, [2, 2, 1, 0, 0], None, True]),
        ("circle", [1, 1, dict()]),
        ("circle", [1, 2, dict(var=[2, 2, 1, 1, 0], bc=["v", "t"], internal_bcs=False)]),
        ("mesh", dict(dims=[2, 2], nbc=2, ext="mixed", curves="some")),
        ("mesh", dict(dims=[3, 1], nbc=1, ext="px", straight=True)),
        ("mesh", dict(dims=[2, 2], nbc=3, ext="holes", straight=True, curves="some")),
        ("mesh", dict(dims=[2, 1], nbc=0)),
        ("mesh", dict(dims=[2, 1], nbc=1, ext="none", internal=False, straight=True)),
        ("mesh", dict(dims=[2, 1, 1], nbc=1, ext="pp", curves="some")),
        ("mesh", dict(dims=[1, 1, 2], nbc=2, ext="pz")),
    ]
    if deep:
        out += [
            ("box", [3, 3, [2, 2, 1, 1, 2], None, True]),
            ("circle", [2, 1, dict(var=[2, 2, 1, 1, 1], bc=["W", "t", "I"])]),
            ("mesh", dict(dims=[2, 2, 2], nbc=1, ext="px", curves="some")),
            ("mesh", dict(dims=[2, 2], nbc=1, ext="pp", straight=True, curves="some")),
        ]
    return out


# these are explored one operation further in the thorough run
DEEPER = [starts(False)[k] for k in (0, 3, 4, 7, 10, 12)]


def histories(deep):
    def gen():
        for st in starts(deep):
            for a in OPS:
                if deep and st in DEEPER:
                    for b in OPS:
                        yield dict(start=st, first=[a, b], depth=4)
                else:
                    yield dict(start=st, first=[a], depth=3)

    return gen


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("histories", histories(deep), run, 1, timeout=3000 if deep else 500, bounds=f"all histories of length 3{' (4 from six of the meshes)' if deep else ''} over {len(OPS)} operations from {len(starts(deep))} meshes, up to {MAX2} (2D) and {MAX3} (3D) elements when merging or extruding"),
    ]
