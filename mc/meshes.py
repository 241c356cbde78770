"""Small meshes with conditions and curvature, described by JSON-able specs."""

import math

import numpy as np

from . import data, snap

# conditions of the faces ymin, xmax, ymax, xmin (, zmin, zmax); a list gives one type per field
EXT = {
    "walls": ["W", "O", "SYM", "v", "ON", "mv"],
    "px": ["W", "P", "W", "P", "v", "O"],
    "py": ["P", "o", "P", "I", "v", "O"],
    "pp": ["P", "P", "P", "P", "P", "P"],
    "holes": ["", "W", "O", "", "", "W"],
    "none": ["", "", "", "", "", ""],
    "mixed": [["W", "t", "f"], ["O", "I", "O"], ["P", "P", "P"], ["v", "f", "t"], ["W", "t", "f"], ["O", "I", "t"]],
    "pz": ["W", "O", "SYM", "v", "P", "P"],
}
EXT["mixed"][0] = ["P", "P", "P"]


def ext_of(kind, nbc):
    out = []
    for b in EXT[kind]:
        out.append(b if isinstance(b, str) else [b[f % len(b)] for f in range(nbc)])
    return out


def structured(dims, nbc=1, ext="walls", internal=True, curves="none", params=True, shift=(0, 0, 0), straight=False):
    """A distorted nx x ny (x nz) mesh; curves: none, some, all"""
    if len(dims) == 2:
        s = data.mesh2d(*dims, nbc=nbc, jitter=not straight)
    else:
        s = data.mesh3d(*dims, nbc=nbc)
    data.connect(s, dims, ext_of(ext, nbc), internal, params)
    nedge = 4 if len(dims) == 2 else 12
    if curves != "none":
        kinds = ("m", "C", "s")
        step = 1 if curves == "all" else 3
        data.curve(s, [(i, k, kinds[(i + k) % 3]) for i in range(s["nel"]) for k in range(nedge) if (i * nedge + k) % step == 0])
    if any(shift):
        for e in s["elem"]:
            e["pos"] += np.array(shift, float)[:, None, None, None]
    return s


def of(spec):
    spec = dict(spec)
    return structured(spec.pop("dims"), **spec)


def disc(ns, no, nbc=1, internal=True):
    """A disc made by the code under test, as a snapshot"""
    from pymech.meshtools import gen_circle

    var = [2, 2, 1, 1 if nbc > 1 else 0, max(0, nbc - 2)]
    return snap.snap(gen_circle(1.0, 0.5, ns, no, var=var, bc=["W", "t", "I"][:nbc], internal_bcs=internal))


def physical(s, radius=4.0, bulge=0.04):
    """Replace the made-up curvature parameters by values that describe real edges close to the straight ones"""
    from . import meshmodel as mm

    for e in s["elem"]:
        for k, typ in enumerate(e["ccurv"]):
            if typ == "":
                continue
            a, b = (mm.corner(e, c) for c in mm.EDGES[k])
            mid, d = (a + b) / 2, b - a
            right = np.array([d[1], -d[0], 0.0])
            if typ == "C":
                e["curv"][k] = [radius * (1 if k % 2 else -1), 0, 0, 0, 0]
            elif typ == "m":
                e["curv"][k] = [*(mid + bulge * right), 0, 0]
            else:
                h = np.linalg.norm(d) / 2
                n = right / np.linalg.norm(right) if np.linalg.norm(right) else np.array([1.0, 0, 0])
                e["curv"][k] = [*(mid - n * math.sqrt(radius**2 - h**2)), 0, radius]
                e["curv"][k][3], e["curv"][k][4] = 0.0, radius
    return s


def conforming_curves(s, kinds=("", "m", "C"), radius=4.0, bulge=0.04):
    """Give the edges of a 2D mesh consistent curvature: both elements at an edge describe the same curve"""
    from . import meshmodel as mm

    seen = {}
    for i, e in enumerate(s["elem"]):
        for k in range(4):
            a, b = (mm.corner(e, c)[:2] for c in mm.EDGES[k])
            key = tuple(np.round((a + b) / 2, 6))
            first = key not in seen
            n = seen.setdefault(key, len(seen))
            typ = kinds[n % len(kinds)]
            d = (b - a) * (1 if first else -1)
            e["ccurv"][k] = typ
            if typ == "C":
                e["curv"][k] = [radius * (1 if first else -1) * (1 if n % 2 else -1), 0, 0, 0, 0]
            elif typ == "m":
                e["curv"][k] = [*((a + b) / 2 + bulge * (1 if n % 2 else -1) * np.array([d[1], -d[0]])), 0, 0, 0]
    s["ncurv"] = snap.count_curved(s)
    return s
