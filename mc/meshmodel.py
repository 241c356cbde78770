"""Reference models of the mesh operations, on plain snapshots (see snap.py).

Everything here is written from the documented conventions (Nek5000 face and edge numbering, boundary condition records
``(type, own element, own face, p1..p5)`` where p1, p2 of an 'E' or 'P' condition name the neighbour), not from the code.
"""

import itertools
import math

import numpy as np

from .engine import fail
from .snap import NOBC, FIELDS, copy_snap, count_curved

# corners (ix, iy, iz) of every face, 0 or 1 along each direction
FACES = [
    [(i, 0, k) for i in (0, 1) for k in (0, 1)],
    [(1, j, k) for j in (0, 1) for k in (0, 1)],
    [(i, 1, k) for i in (0, 1) for k in (0, 1)],
    [(0, j, k) for j in (0, 1) for k in (0, 1)],
    [(i, j, 0) for i in (0, 1) for j in (0, 1)],
    [(i, j, 1) for i in (0, 1) for j in (0, 1)],
]
# end points of every edge, in Nek order
LOOP = [(0, 0), (1, 0), (1, 1), (0, 1)]
EDGES = (
    [((*LOOP[a], 0), (*LOOP[(a + 1) % 4], 0)) for a in range(4)]
    + [((*LOOP[a], 1), (*LOOP[(a + 1) % 4], 1)) for a in range(4)]
    + [((*LOOP[a], 0), (*LOOP[a], 1)) for a in range(4)]
)


def nfaces(s):
    return 2 * s["ndim"]


def corner(e, c):
    lz, ly, lx = e["pos"].shape[1:]
    return e["pos"][:, c[2] * (lz - 1), c[1] * (ly - 1), c[0] * (lx - 1)].astype(float)


def face_center(e, face):
    return sum(corner(e, c) for c in FACES[face]) / 4


def smallest_edge(e, ndim):
    edges = EDGES[:4] if ndim == 2 else EDGES
    return min(float(np.linalg.norm(corner(e, a) - corner(e, b))) for a, b in edges)


def quad_area(p):
    """Signed area of a planar quad given by its four corners in loop order"""
    return 0.5 * sum(p[i][0] * p[(i + 1) % 4][1] - p[(i + 1) % 4][0] * p[i][1] for i in range(4))


def loop2d(e, k=0):
    return [corner(e, (*c, k))[:2] for c in LOOP]


def hexa_volume(e):
    """Exact volume of the trilinear hexahedron, and the eight corner Jacobians"""
    p = {c: corner(e, c) for c in itertools.product((0, 1), repeat=3)}
    g = (0.5 - 0.5 / math.sqrt(3), 0.5 + 0.5 / math.sqrt(3))

    def jac(r, s, t):
        d = np.zeros((3, 3))
        for (i, j, k), x in p.items():
            a, b, c = (r if i else 1 - r), (s if j else 1 - s), (t if k else 1 - t)
            d[0] += (1 if i else -1) * b * c * x
            d[1] += (1 if j else -1) * a * c * x
            d[2] += (1 if k else -1) * a * b * x
        return float(np.linalg.det(d))

    vol = sum(jac(r, s, t) for r in g for s in g for t in g) / 8
    return vol, [jac(r, s, t) for r in (0, 1) for s in (0, 1) for t in (0, 1)]


def refresh(s):
    s["nel"] = len(s["elem"])
    s["elmap"] = list(range(1, s["nel"] + 1))
    s["ncurv"] = count_curved(s)
    return s


def setbc(e, f, face, typ, own=0, other=None, params=(0.0,) * 5):
    if other is not None:
        params = (float(other[0]), float(other[1]), 0.0, 0.0, 0.0)
    e["bcs"][f][face] = (typ, own, face + 1 if own else 0) + tuple(float(x) for x in params)


def linked(bc):
    return bc[0] in ("E", "P")


# ---------------------------------------------------------------------------------------------------------------
def keep(s, elems, ext=""):
    t = copy_snap(s)
    kept = sorted(set(int(i) for i in elems))
    new = {old + 1: n + 1 for n, old in enumerate(kept)}
    t["elem"] = [t["elem"][i] for i in kept]
    for n, e in enumerate(t["elem"]):
        for row in e["bcs"]:
            for face in range(nfaces(s)):
                bc = row[face]
                typ, p = bc[0], list(bc[3:])
                if linked(bc):
                    if int(p[0]) in new:
                        p[0] = float(new[int(p[0])])
                    else:
                        typ, p[0], p[1] = ext, 0.0, 0.0
                row[face] = (typ, n + 1 if bc[1] else 0, bc[2]) + tuple(p)
    return refresh(t)


def shift(s, offset):
    """Renumber all links and own numbers"""
    t = copy_snap(s)
    for e in t["elem"]:
        for row in e["bcs"]:
            for face in range(nfaces(s)):
                bc = row[face]
                p = list(bc[3:])
                if linked(bc):
                    p[0] += offset
                row[face] = (bc[0], bc[1] + offset if bc[1] else 0, bc[2]) + tuple(p)
    return t


def merge(a, b, tol=1e-2, ignore_empty=True, ignore_all=False):
    """Returns (merged, number of joined pairs)"""
    n1 = a["nel"]
    t = copy_snap(a)
    u = shift(b, n1)
    t["elem"] = t["elem"] + u["elem"]
    t["nel"] = n1 + b["nel"]
    t["ncurv"] = a["ncurv"] + b["ncurv"]
    t["elmap"] = list(a["elmap"]) + [i + n1 for i in b["elmap"]]
    nbc = a["nbc"]
    if nbc == 0 or ignore_all:
        return t, 0
    faces = range(nfaces(a))
    cen = [[face_center(e, f) for f in faces] for e in t["elem"]]
    size = [smallest_edge(e, a["ndim"]) for e in t["elem"]]

    def open_(e, f):
        typ = t["elem"][e]["bcs"][0][f][0]
        return typ != "E" and not (ignore_empty and typ == "")

    pairs = [
        ((i, fi), (j, fj))
        for i in range(n1)
        for fi in faces
        if open_(i, fi)
        for j in range(n1, t["nel"])
        for fj in faces
        if open_(j, fj) and np.linalg.norm(cen[i][fi] - cen[j][fj]) <= tol * min(size[i], size[j])
    ]
    seen = [x for p in pairs for x in p]
    assert len(seen) == len(set(seen)), "ambiguous merge in a test mesh"
    for k in range(nbc):
        # former periodic partners: pair them first, following every rewiring
        partner = {}
        for i, e in enumerate(t["elem"]):
            for f in faces:
                bc = e["bcs"][k][f]
                if bc[0] == "P":
                    partner[(i, f)] = (int(bc[3]) - 1, int(bc[4]) - 1)
        for x, y in pairs:
            if x in partner and y in partner:
                p, q = partner[x], partner[y]
                partner[p], partner[q] = q, p
        for x, f in partner:
            p = partner[(x, f)]
            bc = t["elem"][x]["bcs"][k][f]
            t["elem"][x]["bcs"][k][f] = ("P",) + bc[1:3] + (p[0] + 1.0, p[1] + 1.0) + bc[5:]
        for (i, fi), (j, fj) in pairs:
            for (m, fm), (o, fo) in (((i, fi), (j, fj)), ((j, fj), (i, fi))):
                bc = t["elem"][m]["bcs"][k][fm]
                t["elem"][m]["bcs"][k][fm] = ("E",) + bc[1:3] + (o + 1.0, fo + 1.0) + bc[5:]
    return t, len(pairs)


def delete_internal(s):
    t = copy_snap(s)
    n = 0
    for e in t["elem"]:
        for row in e["bcs"]:
            for face in range(6):
                if row[face][0] == "E":
                    row[face] = NOBC
                    n += 1
    return t, n


def coincident(s, tol):
    """Pairs of faces of different elements whose centres coincide"""
    faces = range(nfaces(s))
    cen = np.array([[face_center(e, f) for f in faces] for e in s["elem"]])
    size = [smallest_edge(e, s["ndim"]) for e in s["elem"]]
    out = []
    for i in range(s["nel"]):
        for j in range(i + 1, s["nel"]):
            lim = tol * min(size[i], size[j])
            d = np.linalg.norm(cen[i][:, None, :] - cen[j][None, :, :], axis=2)
            out += [(i, int(a), j, int(b)) for a, b in np.argwhere(d <= lim)]
    return out


def generate_internal(s, tol=1e-3):
    t = copy_snap(s)
    n = 0
    pairs = [
        (i, a, j, b)
        for i, a, j, b in coincident(s, tol)
        if s["nbc"] > 0 and s["elem"][i]["bcs"][0][a][0] == "" and s["elem"][j]["bcs"][0][b][0] == ""
    ]
    seen = [x for i, a, j, b in pairs for x in ((i, a), (j, b))]
    assert len(seen) == len(set(seen)), "ambiguous connectivity in a test mesh"
    for k in range(s["nbc"]):
        for i, a, j, b in pairs:
            n += 1
            for (m, fm), (o, fo) in (((i, a), (j, b)), ((j, b), (i, a))):
                t["elem"][m]["bcs"][k][fm] = ("E", m + 1, fm + 1, o + 1.0, fo + 1.0) + t["elem"][m]["bcs"][k][fm][5:]
    return t, n


def connectivity_ok(s, tol=1e-3):
    """None if every link is sound, else what is wrong"""
    nf = nfaces(s)
    for i, e in enumerate(s["elem"]):
        for k, row in enumerate(e["bcs"]):
            for f in range(nf):
                bc = row[f]
                if not linked(bc):
                    continue
                j, g = bc[3], bc[4]
                if not (1 <= j <= s["nel"] and 1 <= g <= nf):
                    return f"element {i + 1} face {f + 1} field {k}: {bc} points nowhere"
                j, g = int(j) - 1, int(g) - 1
                o = s["elem"][j]["bcs"][k][g]
                if o[0] != bc[0] or (int(o[3]), int(o[4])) != (i + 1, f + 1):
                    return f"element {i + 1} face {f + 1} field {k}: {bc} but its neighbour has {o}"
                if bc[0] == "E":
                    d = np.linalg.norm(face_center(e, f) - face_center(s["elem"][j], g))
                    lim = tol * min(smallest_edge(e, s["ndim"]), smallest_edge(s["elem"][j], s["ndim"]))
                    if d > lim:
                        return f"element {i + 1} face {f + 1} field {k}: linked to a face at distance {d}"
    return None


def complete(s):
    return all(bc[0] != "" for e in s["elem"] for row in e["bcs"] for bc in row[: nfaces(s)])


def extrude(s, z, bc1=None, bc2=None, internal=True):
    nz, n2 = len(z) - 1, s["nel"]
    bc1 = ["P"] * s["nbc"] if bc1 is None else bc1
    bc2 = ["P"] * s["nbc"] if bc2 is None else bc2
    t = copy_snap(s)
    t.update(ndim=3, lr1=[2, 2, 2], var=[3, 0, 0, 0, 0], elem=[])
    for k in range(nz):
        for i in range(n2):
            o = s["elem"][i]
            iel = i + k * n2
            e = {name: np.zeros((0, 2, 2, 2)) for name in FIELDS}
            e["vel"] = np.zeros((3, 2, 2, 2))
            e["pos"] = np.zeros((3, 2, 2, 2))
            for c in (0, 1):
                e["pos"][:2, c] = o["pos"][:2, 0]
                e["pos"][2, c] = z[k + c]
            e["ccurv"] = o["ccurv"][:4] * 2 + [""] * 4
            e["curv"] = np.concatenate([o["curv"][:4], o["curv"][:4], o["curv"][8:]]).astype(float)
            for edge in range(8):
                if e["ccurv"][edge] == "m":
                    e["curv"][edge, 2] = z[k + edge // 4]
            e["bcs"] = []
            for f in range(s["nbc"]):
                row = [NOBC] * 6
                for face in range(4):
                    bc = o["bcs"][f][face]
                    if bc[0] == "E" and not internal:
                        continue
                    p = list(bc[3:])
                    if linked(bc):
                        p[0] += k * n2
                    row[face] = (bc[0], iel + 1 if bc[1] else 0, face + 1 if bc[2] else 0) + tuple(p)
                if internal and k > 0:
                    row[4] = ("E", iel + 1, 5, iel + 1.0 - n2, 6.0, 0.0, 0.0, 0.0)
                if internal and k < nz - 1:
                    row[5] = ("E", iel + 1, 6, iel + 1.0 + n2, 5.0, 0.0, 0.0, 0.0)
                if k == 0:
                    link = (i + (nz - 1) * n2 + 1.0, 6.0) if bc1[f] == "P" else (0.0, 0.0)
                    row[4] = (bc1[f], iel + 1, 5) + link + (0.0, 0.0, 0.0)
                if k == nz - 1:
                    link = (i + 1.0, 5.0) if bc2[f] == "P" else (0.0, 0.0)
                    row[5] = (bc2[f], iel + 1, 6) + link + (0.0, 0.0, 0.0)
                e["bcs"].append(row)
            t["elem"].append(e)
    return refresh(t)


def rotate(s, x0, y0, theta):
    t = copy_snap(s)
    rot = np.array([[math.cos(theta), -math.sin(theta)], [math.sin(theta), math.cos(theta)]])
    ctr = np.array([x0, y0])
    for e in t["elem"]:
        xy = e["pos"][:2].reshape(2, -1).astype(float)
        e["pos"][:2] = (rot @ (xy - ctr[:, None]) + ctr[:, None]).reshape(e["pos"][:2].shape)
        for edge in range(12):
            if e["ccurv"][edge] in ("m", "s"):
                e["curv"][edge, :2] = rot @ (e["curv"][edge, :2] - ctr) + ctr
    return t


def edge_mid(e, edge):
    """Midpoint of an edge, from the definition of each kind of curvature"""
    a, b = (corner(e, c) for c in EDGES[edge])
    typ, par = e["ccurv"][edge], e["curv"][edge].astype(float)
    if typ == "m":
        return par[:3].copy()
    mid = (a + b) / 2
    if typ == "":
        return mid
    if typ == "C":
        # arc of radius |R| in the (x, y) plane; a positive radius bulges to the right of the direction of the edge,
        # which is out of a counter-clockwise element
        d = (b - a)[:2]
        half = np.linalg.norm(d) / 2
        r = abs(par[0])
        sagitta = r - math.sqrt(r * r - half * half)
        right = np.array([d[1], -d[0]]) / (2 * half)
        mid[:2] += math.copysign(sagitta, par[0]) * right
        return mid
    if typ == "s":
        c = par[:3]
        return c + (mid - c) / np.linalg.norm(mid - c) * par[4]
    raise AssertionError(typ)


def map2d(s, fun, curvature=True, boundary=True):
    t = copy_snap(s)
    for e, o in zip(t["elem"], s["elem"]):
        for c in LOOP:
            e["pos"][:2, 0, c[1], c[0]] = fun(*(float(v) for v in corner(o, (*c, 0))[:2]))
        for edge in range(4):
            outer = s["nbc"] > 0 and o["bcs"][0][edge][0] not in ("", "E")
            if curvature or o["ccurv"][edge] != "" or (boundary and outer):
                mid = edge_mid(o, edge)
                e["ccurv"][edge] = "m"
                e["curv"][edge, :2] = fun(float(mid[0]), float(mid[1]))
    t["ncurv"] = count_curved(t)
    return t


def box(nx, ny, xmin, xmax, ymin, ymax, var, sides, internal=True):
    """sides: conditions at xmin, xmax, ymin, ymax (None or one per field)"""
    from .snap import blank

    nbc = (var[1] > 0) + (var[3] > 0) + var[4]
    sides = [["P"] * nbc if b is None else b for b in sides]
    s = blank(2, nx * ny, [2, 2, 1], var, nbc)
    xs = [xmin + (xmax - xmin) * i / nx for i in range(nx)] + [xmax]
    ys = [ymin + (ymax - ymin) * j / ny for j in range(ny)] + [ymax]
    # face -> (di, dj, opposite face, which side)
    nb = [(0, -1, 2, 2), (1, 0, 3, 1), (0, 1, 0, 3), (-1, 0, 1, 0)]
    for j, i in itertools.product(range(ny), range(nx)):
        iel = i + nx * j
        e = s["elem"][iel]
        for b, a in itertools.product((0, 1), (0, 1)):
            e["pos"][0, 0, b, a], e["pos"][1, 0, b, a] = xs[i + a], ys[j + b]
        for f in range(nbc):
            for face, (di, dj, opp, side) in enumerate(nb):
                a, b = i + di, j + dj
                other = (a % nx + nx * (b % ny) + 1, opp + 1)
                if 0 <= a < nx and 0 <= b < ny:
                    if internal:
                        setbc(e, f, face, "E", iel + 1, other)
                else:
                    typ = sides[side][f]
                    setbc(e, f, face, typ, iel + 1, other if typ == "P" else None)
    return s


# ---------------------------------------------------------------------------------------------------------------
def bcs_diff(got, want, own=True, rtol=1e-12, nface=None):
    """First difference between the conditions of two snapshots; the own numbers of empty faces are not compared"""
    if got["nel"] != want["nel"] or len(got["elem"]) != len(want["elem"]):
        return f"{got['nel']} / {len(got['elem'])} elements instead of {want['nel']}"
    for i, (g, w) in enumerate(zip(got["elem"], want["elem"])):
        if len(g["bcs"]) != len(w["bcs"]):
            return f"element {i}: {len(g['bcs'])} fields of conditions instead of {len(w['bcs'])}"
        for f, (rg, rw) in enumerate(zip(g["bcs"], w["bcs"])):
            for face in range(nface or nfaces(want)):
                a, b = rg[face], rw[face]
                bad = a[0] != b[0] or (own and b[0] != "" and b[1] and tuple(a[1:3]) != tuple(b[1:3]))
                if not bad:
                    bad = any(
                        x != y and not (x != x and y != y) and abs(x - y) > rtol * abs(y) for x, y in zip(a[3:], b[3:])
                    )
                if bad:
                    return f"element {i} face {face} field {f}: {a} instead of {b}"
    return None


def problems(s, finite=True):
    """What makes a snapshot ill formed, or None"""
    n = s["nel"]
    if len(s["elem"]) != n:
        return f"nel is {n} but there are {len(s['elem'])} elements"
    if sorted(s["elmap"]) != list(range(1, n + 1)):
        return f"element map {s['elmap']} is not a permutation of 1..{n}"
    if count_curved(s) != s["ncurv"]:
        return f"ncurv is {s['ncurv']} but {count_curved(s)} edges are curved"
    lx, ly, lz = s["lr1"]
    if (lz > 1) != (s["ndim"] == 3):
        return f"orders {s['lr1']} in {s['ndim']} dimensions"
    shape = (lz, ly, lx)
    for i, e in enumerate(s["elem"]):
        for name, nc in zip(FIELDS, (3, 3, s["var"][2], s["var"][3], s["var"][4])):
            if e[name].shape != (nc,) + shape:
                return f"element {i}: {name} has shape {e[name].shape} instead of {(nc,) + shape}"
            if finite and not np.isfinite(e[name]).all():
                return f"element {i}: {name} is not finite"
        if e["curv"].shape != (12, 5) or len(e["ccurv"]) != 12:
            return f"element {i}: curvature of shape {e['curv'].shape}, {len(e['ccurv'])} types"
        if finite and not np.isfinite(e["curv"]).all():
            return f"element {i}: curvature is not finite"
        if len(e["bcs"]) != s["nbc"] or any(len(r) != 6 for r in e["bcs"]):
            return f"element {i}: conditions of {len(e['bcs'])} fields instead of {s['nbc']}"
    for i, e in enumerate(s["elem"]):
        for k, row in enumerate(e["bcs"]):
            for f in range(nfaces(s)):
                bc = row[f]
                if linked(bc):
                    if not (1 <= bc[3] <= n and bc[3] == int(bc[3]) and 1 <= bc[4] <= nfaces(s) and bc[4] == int(bc[4])):
                        return f"element {i} face {f} field {k}: {bc} points to a face that does not exist"
                    o = s["elem"][int(bc[3]) - 1]["bcs"][k][int(bc[4]) - 1]
                    if o[0] != bc[0] or (o[3], o[4]) != (i + 1, f + 1):
                        return f"element {i} face {f} field {k}: {bc}, but the face it points to has {o}"
    return None


def check(cond, msg):
    if not cond:
        fail(msg() if callable(msg) else msg)
