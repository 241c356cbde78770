"""C14: refined extrusion."""

import itertools
import math

import numpy as np

from .. import layouts, meshes, snap
from .. import meshmodel as mm
from ..engine import Space, expect, fail

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of bounded 2D meshes and splitting lines; geometry and connectivity of each result decided face by face"
RULE = (
    "a state is one refined extrusion (2D mesh, orientation of its elements, one to three splitting lines and their direction, finest "
    "part, number of layers, end conditions, internal conditions or not); volumes, orientation, conformity of every face, z levels "
    "of every column, and every condition are checked"
)
ASSUMPTIONS = [
    "faces are matched by their corners with a tolerance of 1e-6; every splitting line crosses the elements it cuts through two opposite sides",
    "periodic conditions link elements on the same side of every splitting line",
]

Q = 1e-6


def fun_of(spec):
    """Splitting functions, from a spec [kind, position, sign]; the parameter shifts the position"""
    kind, pos, sign = spec
    if kind == "x":
        return lambda x, y, p: sign * (x - pos) - p
    if kind == "y":
        return lambda x, y, p: sign * (y - pos) - p
    if kind == "strip":
        return lambda x, y, p: sign * (abs(x - 2) - pos) - p
    if kind == "circle":
        return lambda x, y, p: sign * (x * x + y * y - pos**2) - p
    if kind == "tilt":
        return lambda x, y, p: sign * (x - pos + 0.1 * (y - 1)) - p
    raise AssertionError(kind)


def turn(s, q):
    """Renumber the corners of each element: quarter turns given per element; faces and edges follow"""
    t = snap.copy_snap(s)
    new = {}  # (element, old face) -> new face
    for i, e in enumerate(s["elem"]):
        k = q[i % len(q)]
        for a, c in enumerate(mm.LOOP):
            o = mm.LOOP[(a + k) % 4]
            t["elem"][i]["pos"][:, 0, c[1], c[0]] = e["pos"][:, 0, o[1], o[0]]
        for f in range(4):
            new[(i, (f + k) % 4)] = f
            t["elem"][i]["ccurv"][f] = e["ccurv"][(f + k) % 4]
            t["elem"][i]["curv"][f] = e["curv"][(f + k) % 4]
    for i, e in enumerate(s["elem"]):
        for b, row in enumerate(e["bcs"]):
            for f in range(4):
                bc = row[f]
                p = list(bc[3:])
                if mm.linked(bc):
                    p[1] = new[(int(p[0]) - 1, int(p[1]) - 1)] + 1.0
                g = new[(i, f)]
                t["elem"][i]["bcs"][b][g] = (bc[0], bc[1], g + 1 if bc[2] else 0) + tuple(p)
    return t


def source(c):
    if "disc" in c:
        s = meshes.disc(*c["disc"], nbc=c["nbc"])
    else:
        s = meshes.structured(c["dims"], nbc=c["nbc"], ext=c.get("ext", "walls"), straight=c.get("straight", False))
        if c.get("kinds"):
            meshes.conforming_curves(s, c["kinds"])
    if c.get("turn"):
        s = turn(s, c["turn"])
    return s


def key(p):
    return tuple(int(round(float(v) / Q)) for v in p)


def near(index, p):
    """Number of the vertex at p (merging vertices closer than the tolerance)"""
    k = key(p)
    for d in itertools.product((0, -1, 1), repeat=len(k)):
        v = index.get(tuple(a + b for a, b in zip(k, d)))
        if v is not None:
            return v
    index[k] = len(index)
    return index[k]


def levels(c, nz):
    """Coarsening level of every part: parts 0..nsplit"""
    return [abs(k - c["high"]) for k in range(len(c["funs"]) + 1)]


def zlist(c):
    z = [0.0]
    for i in range(c["nz"]):
        z.append(z[-1] + (0.5 if c.get("even") else 0.25 + 0.05 * ((3 * i) % 4)))
    return z


def call(c, s):
    from pymech.meshtools import extrude_refine

    n = c["nbc"]
    e1, e2 = c.get("ends", [None, None])
    # only the sign of the splitting functions matters: powers of two change nothing else
    amp = c.get("amp", 1.0)
    funs = [lambda x, y, p, f=fun_of(f): amp * f(x, y, p) for f in c["funs"]]
    par = c.get("par")
    kw = dict(bc1=None if e1 is None else e1[:n], bc2=None if e2 is None else e2[:n], fun=funs, imesh_high=c["high"], internal_bcs=c["internal"])
    if par is not None:
        kw["funpar"] = par
    m = snap.to_hexa(s)
    before = snap.digest(snap.snap(m))
    out = extrude_refine(m, np.array(zlist(c)), **kw)
    expect(snap.digest(snap.snap(m)) == before, "the 2D mesh was modified")
    return snap.snap(out)


def sound(c, s):
    """Whether every line leaves two neighbouring corners of each element that it cuts on either side"""
    par = c.get("par") or [0.0] * len(c["funs"])
    for e in s["elem"]:
        for k, fs in enumerate(c["funs"]):
            val = [bool(fun_of(fs)(*mm.corner(e, (*q, 0))[:2], par[k]) <= 0) for q in mm.LOOP]
            if all(val):
                break
            if any(val):
                if sum(val) != 2 or val[0] == val[2]:
                    return False
                break
    return True


def run(c, ctx):
    s = source(c)
    if "disc" in c and not sound(c, s):
        return run_bad(c, ctx)
    g = call(c, s)
    ctx.step()
    ctx.state(snap.digest(g))
    z = zlist(c)
    nbc = c["nbc"]
    par = c.get("par") or [0.0] * len(c["funs"])
    expect((g["ndim"], g["lr1"], g["var"], g["nbc"]) == (3, [2, 2, 2], [3, 0, 0, 0, 0], nbc), f"ndim {g['ndim']} lr1 {g['lr1']} var {g['var']} nbc {g['nbc']}")
    # an element map, sizes and link targets are sound
    p = mm.problems(g)
    expect(p is None, p)
    # volumes
    curved = any(t for e in s["elem"] for t in e["ccurv"])
    total = 0.0
    for i, e in enumerate(g["elem"]):
        v, jac = mm.hexa_volume(e)
        expect(v > 0 and min(jac) > -1e-12 * abs(v), f"element {i} is not positively oriented: volume {v}, Jacobians {jac}")
        total += v
    area = sum(mm.quad_area(mm.loop2d(e)) for e in s["elem"])
    if not curved:
        expect(abs(total - area * (z[-1] - z[0])) <= 1e-6 * abs(total), f"the volumes add up to {total} instead of {area * (z[-1] - z[0])}")
    # 2D mesh: vertices, boundary edges, parts
    v2, edges = {}, {}
    side = {}
    for i, e in enumerate(s["elem"]):
        for f in range(4):
            a, b = (near(v2, mm.corner(e, x)[:2]) for x in mm.EDGES[f])
            edges.setdefault(frozenset((a, b)), []).append((i, f))
        x = [mm.corner(e, (*q, 0))[:2] for q in mm.LOOP]
        part = None
        for k, fs in enumerate(c["funs"]):
            val = [fun_of(fs)(*q, par[k]) <= 0 for q in x]
            if all(val):
                part = (k, None)
                break
            if any(val):
                part = (k, val)
                break
        side[i] = part or (len(c["funs"]), None)
    lev = levels(c, c["nz"])
    # 3D faces
    v3 = {}
    verts = [{q: near(v3, mm.corner(e, q)) for q in itertools.product((0, 1), repeat=3)} for e in g["elem"]]
    coord = {}
    for e, vs in zip(g["elem"], verts):
        for q, n in vs.items():
            coord[n] = mm.corner(e, q)
    faces = {}
    for i, vs in enumerate(verts):
        expect(len(set(vs.values())) == 8, f"element {i} has coinciding corners")
        for f in range(6):
            faces.setdefault(frozenset(vs[q] for q in mm.FACES[f]), []).append((i, f))
    lat = {}
    ends = [0.0, 0.0]
    outer = {}
    for vs, who in faces.items():
        expect(len(who) <= 2, f"{len(who)} faces coincide: {who}")
        if len(who) == 2:
            expect(who[0][0] != who[1][0], f"faces {who} of one element coincide")
            continue
        i, f = who[0]
        x = [coord[n] for n in vs]
        zs = [q[2] for q in x]
        if max(zs) - min(zs) < Q and abs(zs[0] - z[0]) < Q or abs(min(zs) - z[-1]) < Q:
            end = 0 if abs(zs[0] - z[0]) < Q else 1
            expect(f == 4 + end, f"face {f} of element {i} lies on end {end}")
            outer[(i, f)] = ("end", end, frozenset(near(v2_3d(v2), q[:2]) for q in x))
            o = [mm.corner(g["elem"][i], (*q, end))[:2] for q in mm.LOOP]
            ends[end] += mm.quad_area(o)
            continue
        outer[(i, f)] = ("side", x)
    if not curved:
        for end in (0, 1):
            expect(abs(ends[end] - area) <= 1e-6 * area, f"end {end} has an area of {ends[end]} instead of {area}")
    boundary = {e: w[0] for e, w in edges.items() if len(w) == 1}
    where = {}
    sums = {w: 0.0 for w in boundary.values()}
    for (i, f), info in outer.items():
        if info[0] != "side":
            continue
        x = np.array(info[1])
        hit = None
        for (j, h) in boundary.values():
            a, b = (mm.corner(s["elem"][j], q)[:2] for q in mm.EDGES[h])
            d = b - a
            L = np.linalg.norm(d)
            tt = (x[:, :2] - a) @ d / L**2
            off = np.abs((x[:, :2] - a) @ np.array([-d[1], d[0]]) / L)
            lim = Q * 10 if not s["elem"][j]["ccurv"][h] else 0.2 * L
            if off.max() <= lim and tt.min() > -1e-5 and tt.max() < 1 + 1e-5:
                hit = (j, h, tt)
                break
        expect(hit is not None, f"face {f} of element {i} at {x.tolist()} has no neighbour and is not on the boundary")
        j, h, tt = hit
        where[(i, f)] = (j, h, tt, x[:, 2])
        lo = sorted(set(np.round(tt, 4)))
        # area of the face in the (edge, z) plane
        pts = sorted(zip(tt, x[:, 2]), key=lambda q: math.atan2(q[1] - x[:, 2].mean(), q[0] - tt.mean()))
        sums[(j, h)] += abs(mm.quad_area([np.array(q) for q in pts]))
    for w, tot in sums.items():
        expect(abs(tot - (z[-1] - z[0])) <= 1e-5 * (z[-1] - z[0]), f"edge {w} of the boundary is covered {tot / (z[-1] - z[0])} times")
    # levels of every vertical line over a vertex of the 2D mesh
    column = {}
    for n, q in coord.items():
        k = near_existing(v2, q[:2])
        if k is not None:
            column.setdefault(k, set()).add(round(q[2] / Q))
    want = {}
    for i, e in enumerate(s["elem"]):
        part, val = side[i]
        for a, q in enumerate(mm.LOOP):
            k = near(v2, mm.corner(e, (*q, 0))[:2])
            if val is None:
                w = lev[part]
            else:
                w = lev[part] if val[a] else lev[part + 1]
            want.setdefault(k, set()).add(w)
    for k, ws in want.items():
        expect(len(ws) == 1, "a test mesh asks for two levels at one vertex")
        w = ws.pop()
        levels_z = {round(q / Q) for q in z[:: 2**w]}
        got = column.get(k, set())
        expect(len(got) == len(levels_z) and all(min(abs(a - b) for b in levels_z) <= 1 for a in got),
               f"the column over vertex {k} has levels {sorted(v * Q for v in got)} instead of {z[:: 2**w]}")
    # curvature: elements agree on the curve of a shared edge; edges over an edge of the 2D mesh keep its shape
    m2 = {}
    for i, e in enumerate(s["elem"]):
        for k in range(4):
            a, b = (near(v2, mm.corner(e, q)[:2]) for q in mm.EDGES[k])
            m2[frozenset((a, b))] = mm.edge_mid(e, k)[:2]
    m3 = {}
    for i, e in enumerate(g["elem"]):
        for k in range(12):
            a, b = (mm.corner(e, q) for q in mm.EDGES[k])
            m = mm.edge_mid(e, k)
            w = m3.setdefault(frozenset(verts[i][q] for q in mm.EDGES[k]), m)
            expect(np.abs(m - w).max() <= 1e-6, f"edge {k} of element {i} goes through {m.tolist()}, another element says {w.tolist()}")
            if abs(a[2] - b[2]) < Q:
                expect(abs(m[2] - a[2]) < Q, f"edge {k} of element {i} at z = {a[2]} goes through {m.tolist()}")
                ends2 = [near_existing(v2, q[:2]) for q in (a, b)]
                w = m2.get(frozenset(ends2))
                if w is not None:
                    expect(np.abs(m[:2] - w).max() <= 1e-6, f"edge {k} of element {i} goes through {m.tolist()}, in 2D through {w.tolist()}")
    # conditions
    e1, e2 = c.get("ends", [None, None])
    e1 = ["P"] * nbc if e1 is None else e1[:nbc]
    e2 = ["P"] * nbc if e2 is None else e2[:nbc]
    byfoot = {}
    for (i, f), info in outer.items():
        if info[0] == "end":
            byfoot[(info[1], info[2])] = (i, f)
    for b in range(nbc):
        for vs, who in faces.items():
            for n, (i, f) in enumerate(who):
                bc = g["elem"][i]["bcs"][b][f]
                if len(who) == 2:
                    o = who[1 - n]
                    if c["internal"]:
                        expect(bc[0] == "E" and bc[3:5] == (o[0] + 1, o[1] + 1), f"face {f} of element {i} field {b} has {bc} but coincides with {(o[0] + 1, o[1] + 1)}")
                    else:
                        expect(bc[0] == "" and not any(bc[3:]), f"inner face {f} of element {i} field {b} has {bc}")
                    continue
                info = outer[(i, f)]
                if info[0] == "end":
                    typ = (e1, e2)[info[1]][b]
                    expect(bc[0] == typ, f"end face {f} of element {i} field {b} has {bc} instead of {typ!r}")
                    if typ == "P":
                        o = byfoot.get((1 - info[1], info[2]))
                        expect(o is not None and bc[3:5] == (o[0] + 1, o[1] + 1), f"end face {f} of element {i} field {b}: {bc}, the opposite face is {o}")
                    else:
                        expect(not any(bc[3:5]), f"end face {f} of element {i} field {b} has {bc}")
                    continue
                j, h, tt, zz = where[(i, f)]
                o = s["elem"][j]["bcs"][b][h]
                expect(bc[0] == o[0], f"side face {f} of element {i} field {b} has {bc}, the 2D mesh has {o}")
                if o[0] == "P":
                    m, fm = int(bc[3]) - 1, int(bc[4]) - 1
                    w = where.get((m, fm))
                    expect(w is not None and (w[0] + 1, w[1] + 1) == (int(o[3]), int(o[4])), f"side face {f} of element {i} field {b} is periodic with {(m + 1, fm + 1)}, the 2D mesh has {o}")
                    expect(np.allclose(np.sort(w[3]), np.sort(zz), atol=Q * 10), f"side face {f} of element {i} is periodic with a face at other levels")
                else:
                    expect(all(abs(a - q) <= 1e-12 * abs(q) for a, q in zip(bc[3:], o[3:])), f"side face {f} of element {i} field {b} has {bc}, the 2D mesh has {o}")
    ctx.validated()


def v2_3d(v2, _memo={}):
    """A vertex table for footprints (kept apart from the 2D vertices: mid elements add vertices)"""
    k = id(v2)
    if _memo.get("k") != k:
        _memo.clear()
        _memo["k"], _memo["v"], _memo["hold"] = k, {}, v2
    return _memo["v"]


def near_existing(index, p):
    k = key(p)
    for d in itertools.product((0, -1, 1), repeat=len(k)):
        v = index.get(tuple(a + b for a, b in zip(k, d)))
        if v is not None:
            return v
    return None


KINDS = [["m"], ["C"], ["", "m", "C"], ["m", "C"], ["C", ""], ["", "m"]]
ENDS = [[None, None], [["W", "t"], ["O", "I"]], [["v", "P"], ["O", "P"]]]


def min_nz(nsplit, high):
    return max(2 ** abs(high + 1), 2 ** abs(nsplit - high + 1))


def cases(deep):
    def gen():
        turns = [None, [1], [2], [3], [0, 1, 2, 3], [3, 1, 0, 2, 1]]
        # one line
        one = [("x", 1.5, 1), ("x", 1.5, -1), ("y", 0.5, 1), ("y", 0.5, -1), ("tilt", 1.5, 1), ("tilt", 1.5, -1)]
        for f, t, high, internal in itertools.product(one, turns, (0, 1), (True, False)):
            dims = [3, 2] if f[0] != "y" else [2, 3]
            for ext, ends in (("walls", ENDS[0]), ("walls", ENDS[1]), ("py" if f[0] != "y" else "px", ENDS[0]), ("holes", ENDS[2])):
                for nbc in (1, 2):
                    yield dict(dims=dims, nbc=nbc, ext=ext, turn=t, funs=[list(f)], high=high, nz=4, ends=ends, internal=internal)
        for f, t, high in itertools.product(one, turns[1::2], (0, 1)):
            for nz in (8, 12):
                yield dict(dims=[3, 1] if f[0] != "y" else [1, 3], nbc=1, turn=t, funs=[list(f)], high=high, nz=nz, internal=True, even=True)
        # every position of the line, on the grid lines as well, and outside of the mesh
        for pos, sign, high, internal in itertools.product((-1.0, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 3.5, 4.0, 9.0), (1, -1), (0, 1), (True, False)):
            if sign == -1 and pos == 0 or pos in (4.0,) and sign == -1:
                continue
            yield dict(dims=[4, 2], nbc=1, straight=True, funs=[["x", pos, sign]], high=high, nz=4, internal=internal)
        # parameters instead of positions
        for p, high in itertools.product((0.0, 0.5, 1.0, 1.5), (0, 1)):
            yield dict(dims=[4, 1], nbc=1, straight=True, funs=[["x", 1.0, 1]], par=[p], high=high, nz=4, internal=True)
        # two and three lines, any finest part
        two = [[["x", 1.5, 1], ["x", 3.5, 1]], [["x", 3.5, -1], ["x", 1.5, -1]], [["x", 1.5, 1], ["x", 2.5, 1]], [["y", 1.5, 1], ["y", 3.5, 1]]]
        for fs, high, internal, nbc in itertools.product(two, (0, 1, 2), (True, False), (1, 2)):
            dims = [5, 1] if fs[0][0] == "x" else [2, 5]
            for t in (None, [0, 1, 2, 3]):
                yield dict(dims=dims, nbc=nbc, ext="walls", turn=t, funs=fs, high=high, nz=min_nz(2, high), ends=ENDS[nbc - 1], internal=internal)
        three = [["x", 1.5, 1], ["x", 3.5, 1], ["x", 5.5, 1]]
        for high, internal in itertools.product((0, 1, 2, 3), (True, False)):
            yield dict(dims=[7, 1], nbc=1, funs=three, high=high, nz=min_nz(3, high), internal=internal)
        # closed regions: a strip and discs, both kept periodic in the other direction
        for sign, high, internal, ext in itertools.product((1, -1), (0, 1), (True, False), ("py", "px", "pp", "walls")):
            yield dict(dims=[4, 2], nbc=2, ext=ext, straight=True, funs=[["strip", 0.5, sign]], high=high, nz=4, internal=internal)
        for ns, no, rad, sign, high, internal in itertools.product((1, 2, 3), (2, 3), (0.7, 0.8, 0.9), (1, -1), (0, 1), (True, False)):
            yield dict(disc=[ns, no], nbc=1, funs=[["circle", rad, sign]], high=high, nz=4, internal=internal)
        # curvature
        for f, t, high, cur in itertools.product(one, turns, (0, 1), KINDS):
            dims = [3, 2] if f[0] != "y" else [2, 3]
            yield dict(dims=dims, nbc=1, kinds=cur, turn=t, funs=[list(f)], high=high, nz=4, internal=True)
        if deep:
            for nx, ny, f, t, high, internal in itertools.product((3, 4, 5), (1, 2, 3), one, turns, (0, 1), (True, False)):
                dims = [nx, ny] if f[0] != "y" else [ny, nx]
                for nz in (4, 8, 16):
                    yield dict(dims=dims, nbc=2, ext="py" if f[0] != "y" else "px", turn=t, funs=[list(f)], high=high, nz=nz, internal=internal)
            for fs, t, high in itertools.product(two, turns, (0, 1, 2)):
                dims = [5, 3] if fs[0][0] == "x" else [3, 5]
                for mult in (1, 2, 3):
                    yield dict(dims=dims, nbc=2, ext="walls", turn=t, funs=fs, high=high, nz=mult * min_nz(2, high), internal=True)

    return gen


AMPS = [1.0, 2.0**-40, 2.0**30]


def varied(cases):
    def gen():
        for n, c in enumerate(cases()):
            yield dict(c, amp=AMPS[n % 7 % 3])

    return gen


def run_plain(c, ctx):
    """Without splitting functions: a plain extrusion; without parameters: zeros"""
    from pymech.meshtools import extrude, extrude_refine

    s = source(c)
    z = np.array(zlist(c))
    n = c["nbc"]
    e1, e2 = c["ends"]
    kw = dict(bc1=None if e1 is None else e1[:n], bc2=None if e2 is None else e2[:n], internal_bcs=c["internal"])
    if c["what"] == "plain":
        a = snap.snap(extrude(snap.to_hexa(s), z, **kw))
        if c["how"] != "absent":
            kw["fun"] = c["how"]
            if c["how"] is not None and c.get("par"):
                kw["funpar"] = []
        b = snap.snap(extrude_refine(snap.to_hexa(s), z, **kw))
    else:
        funs = [fun_of(f) for f in c["funs"]]
        a = snap.snap(extrude_refine(snap.to_hexa(s), z, fun=funs, funpar=[0.0] * len(funs), imesh_high=c["high"], **kw))
        if c["how"] == "none":
            kw["funpar"] = None
        b = snap.snap(extrude_refine(snap.to_hexa(s), z, fun=funs, imesh_high=c["high"], **kw))
    ctx.step(2)
    ctx.state(snap.digest(b))
    d = snap.diff(b, a, fields=("pos",))
    expect(d is None, d)
    ctx.validated()


def plain():
    for dims, nbc, ends, internal, nz in itertools.product(([1, 1], [3, 2]), (0, 1, 2), ENDS, (True, False), (1, 2, 3, 4, 5)):
        if nbc == 0 and ends != ENDS[0]:
            continue
        for how, par in (("absent", 0), (None, 0), ([], 0), ([], 1)):
            yield dict(what="plain", how=how, par=par, dims=dims, nbc=nbc, ends=ends, internal=internal, nz=nz, kinds=["", "m", "C"])
    for fs in ([["x", 1.5, 1]], [["x", 1.5, 1], ["x", 3.5, 1]]):
        for high, internal, how in itertools.product(range(len(fs) + 1), (True, False), ("absent", "none")):
            yield dict(what="zeros", how=how, dims=[5, 1], nbc=1, ends=ENDS[0], internal=internal, nz=min_nz(len(fs), high), funs=fs, high=high)


def run_spherical(c, ctx):
    """Spherical edges: arcs of the same radius where elements are split, unchanged elsewhere"""
    s = source(c)
    t = snap.copy_snap(s)
    n = 0
    count = [0] * s["nel"]
    centre = c["centre"]
    for i, e in enumerate(t["elem"]):
        for k in range(4):
            if e["ccurv"][k] == "C":
                if c["mask"][n % len(c["mask"])]:
                    r = float(e["curv"][k][0])
                    e["ccurv"][k] = "s"
                    e["curv"][k] = np.array([*centre, 0.0, r])
                    count[i] += 1
                n += 1
    a, b = call(c, s), call(c, t)
    ctx.step(2)
    ctx.state(snap.digest(b))
    expect(a["nel"] == b["nel"] and a["ncurv"] == b["ncurv"], f"{b['nel']} elements, {b['ncurv']} curves instead of {a['nel']}, {a['ncurv']}")
    kept = 0
    for i, (ea, eb) in enumerate(zip(a["elem"], b["elem"])):
        expect(np.array_equal(ea["pos"], eb["pos"]) and ea["bcs"] == eb["bcs"], f"element {i} differs")
        for k in range(12):
            if eb["ccurv"][k] == "s":
                kept += 1
                expect(ea["ccurv"][k] == "C" and np.array_equal(eb["curv"][k], [*centre, 0.0, ea["curv"][k][0]]), f"edge {k} of element {i}: spherical {eb['curv'][k].tolist()}, with arcs {ea['ccurv'][k]!r} {ea['curv'][k].tolist()}")
            else:
                expect(ea["ccurv"][k] == eb["ccurv"][k] and np.array_equal(ea["curv"][k], eb["curv"][k], equal_nan=True), f"edge {k} of element {i}: {eb['ccurv'][k]!r} {eb['curv'][k].tolist()}, with arcs {ea['ccurv'][k]!r} {ea['curv'][k].tolist()}")
    lev = levels(c, c["nz"])
    want = 0
    for i, e in enumerate(s["elem"]):
        for k, fs in enumerate(c["funs"]):
            val = [bool(fun_of(fs)(*mm.corner(e, (*q, 0))[:2], 0.0) <= 0) for q in mm.LOOP]
            if any(val):
                want += 2 * count[i] * (c["nz"] // 2 ** lev[k]) if all(val) else 0
                break
        else:
            want += 2 * count[i] * (c["nz"] // 2 ** lev[-1])
    expect(kept == want, f"{kept} spherical edges remain instead of {want}")
    ctx.validated(b["nel"])


def spherical():
    lines = [("x", 1.5, 1), ("x", 1.5, -1), ("y", 0.5, 1), ("y", 0.5, -1)]
    for f, t, high, cur, mask in itertools.product(lines, [None, [1], [0, 1, 2, 3]], (0, 1), (["C"], ["m", "C"]), ([1], [1, 0], [0, 1, 1], [0, 0, 0, 1])):
        yield dict(dims=[3, 2] if f[0] != "y" else [2, 3], nbc=1, kinds=cur, turn=t, funs=[list(f)], high=high, nz=4, internal=True, mask=mask, centre=[1.0, -2.0, 0.5])
    for fs, high, mask in itertools.product(([["x", 1.5, 1], ["x", 3.5, 1]], [["x", 3.5, -1], ["x", 1.5, -1]]), (0, 1, 2), ([1], [1, 0], [0, 0, 1])):
        yield dict(dims=[5, 1], nbc=1, kinds=["C"], funs=fs, high=high, nz=min_nz(2, high), internal=False, mask=mask, centre=[0.0, 0.0, 0.0])


def run_bad(c, ctx):
    s = source(c)
    try:
        call(c, s)
    except Exception:
        ctx.step()
        ctx.state(c)
        ctx.validated()
        return
    fail("an invalid refined extrusion is accepted")


def bad():
    for nsplit, fs in ((1, [["x", 1.5, 1]]), (2, [["x", 1.5, 1], ["x", 3.5, 1]])):
        for high in range(nsplit + 1):
            for nz in range(1, 33):
                need = min_nz(nsplit, high)
                if nz % need:
                    yield dict(dims=[5, 1], nbc=1, straight=True, funs=fs, high=high, nz=nz, internal=True)
    # lines leaving one or three corners of an element on one side
    for r, sign in itertools.product((0.3, 0.6, 1.2, 1.5, 1.7), (1, -1)):
        yield dict(dims=[2, 2], nbc=1, straight=True, funs=[["circle", r, sign]], high=0, nz=4, internal=True)
        yield dict(dims=[2, 2], nbc=1, straight=True, funs=[["circle", r, sign]], high=1, nz=8, internal=False)
    base = dict(dims=[3, 1], nbc=2, funs=[["x", 1.5, 1]], high=0, nz=4, internal=True)
    for e in ([["P", "W"], ["W", "W"]], [["W", "W"], ["W", "P"]], [None, ["W", "W"]], [["W", "P"], None], [["P", "W"], ["W", "P"]]):
        yield dict(base, ends=e)
    for p in ([], [0.0, 0.0], [0.0, 1.0, 2.0]):
        yield dict(base, par=p)
    # out of the limits of the number of lines: one line and no layer left to merge
    yield dict(base, nz=2)
    yield dict(base, nz=6)


def apart():
    """Periodic sides that end up in different parts with the same levels"""
    for ext, internal in itertools.product(("px", "pp"), (True, False)):
        yield dict(dims=[5, 2], nbc=1, ext=ext, straight=True, funs=[["x", 1.5, 1], ["x", 3.5, 1]], high=1, nz=4, internal=internal)


def spaces(tier):
    deep = tier == "thorough"
    out = [
        Space("apart", apart, run, 4, bounds="periodic sides in different parts with the same levels (known finding)"),
        Space("refine", varied(cases(deep)), run, 8, bounds="grids up to 5x3 with any corner numbering, 1-3 lines in both directions and on grid lines, every finest part, up to 16 layers, discs, curvature; splitting functions multiplied by 1, 2^-40 and 2^30"),
        Space("plain", plain, run_plain, 16, bounds="no splitting functions in every spelling, no parameters in every spelling"),
        Space("spherical", spherical, run_spherical, 8, bounds="one or two lines, several subsets of the arcs given as spheres of the same radius"),
        Space("rejected", varied(bad), run_bad, 16, bounds="all invalid layer counts up to 32, lines leaving one or three corners on one side, one-sided periodic ends, wrong number of parameters"),
    ]
    return out + [layouts.space(out[1:3], 100 if deep else 25)]
