"""Deterministic meshes and fields with distinct values everywhere, used as inputs."""

import itertools
import math

import numpy as np

from .snap import FIELDS, blank, count_curved


def injective(n, start=0, scale=math.pi / 7):
    """n values, all different also in single precision, of both signs and full mantissas"""
    k = np.arange(start, start + n)
    return np.where(k % 2 == 0, 1.0, -1.0) * (k + 1) * scale


def fill_field(s, dtype="float64", special=None):
    """Give every stored quantity of every element a different value"""
    n = 0
    ncomp = {"pos": s["var"][0], "vel": s["var"][1], "pres": s["var"][2], "temp": s["var"][3], "scal": s["var"][4]}
    for e in s["elem"]:
        for name in FIELDS:
            for c in range(ncomp[name]):
                a = e[name][c]
                a[...] = injective(a.size, n).reshape(a.shape).astype(dtype)
                n += a.size
    if special:
        vals = {
            "nan": [np.nan, np.inf, -np.inf, 0.0, -0.0],
            "tiny": [5e-324, -2.3e-308, 1e-45, 1e-38, -0.0],
            "huge": [1.7e308, -1.7e308, 3.4e38, 1e30, 65504.0],
        }[special]
        k = 0
        for e in s["elem"]:
            for name in FIELDS:
                for c in range(ncomp[name]):
                    flat = e[name][c].reshape(-1)
                    flat[k % flat.size] = np.float64(vals[k % 5]).astype(dtype)
                    k += 1
    return s


def field(ndim, lr1, nel, var, dtype="float64", special=None, elmap=None, time=0.0, istep=0, wdsz=8, endian="little", flat=None):
    """Snapshot of a field (no boundary conditions)"""
    v = [ndim if var[0] else 0, ndim if var[1] else 0, var[2], var[3], var[4]]
    s = blank(ndim, nel, lr1, v, 0, dtype)
    fill_field(s, dtype, special)
    if flat:
        flatten(s, flat)
    if elmap is not None:
        s["elmap"] = list(elmap)
    s["time"], s["istep"], s["wdsz"], s["endian"] = time, istep, wdsz, endian
    return s


FLAT = {"zero": 0.0, "negzero": -0.0, "one": 1.0, "const": -2.5, "tiny": 1e-30}


def flatten(s, spec):
    """Give variables one value everywhere; spec: [variable, kind, component or None, element (all)] ..."""
    for name, kind, comp, *elem in spec:
        for e in [s["elem"][k] for k in elem] or s["elem"]:
            a = e[name]
            a[slice(0, 2 if s["ndim"] == 2 and name in ("pos", "vel") else None) if comp is None else comp] = FLAT[kind]
    return s


def flat_cases(var, kinds=FLAT):
    """All variables, one variable, one component of the velocity, all but one; var: velocity, pressure, temperature, scalars"""
    names = [n for n, v in zip(("vel", "pres", "temp", "scal"), var) if v]
    for kind in kinds:
        yield [[n, kind, None] for n in names]
        for k in (0, -1):
            yield [[n, kind, None, k] for n in names]
            for n in names:
                yield [[n, kind, None, k]]
        for n in names:
            yield [[n, kind, None]]
            if len(names) > 2:
                yield [[m, kind, None] for m in names if m != n]
        for k in range(2) if var[0] else ():
            yield [["vel", kind, k]]
        for k in range(var[3]):
            yield [["scal", kind, k]]


def flat_fields(geometry=True):
    """Fields of which some variables have one value everywhere or in one element"""
    for nd, wdsz, endian, var in itertools.product((2, 3), (8, 4), ("little", "big"), ([1, 1, 1, 1, 2], [0, 1, 0, 1, 1], [0, 0, 1, 0, 2])):
        if (wdsz == 4) != (endian == "big") and var[0] == 0:
            continue
        base = dict(ndim=nd, lr1=[3, 2, 1] if nd == 2 else [2, 3, 2], nel=3, var=var, wdsz=wdsz, endian=endian)
        for spec in flat_cases(var[1:]):
            yield dict(base, flat=spec)
        if var[0] and geometry:
            for kind in FLAT:
                for extra in ([], [["vel", "zero", None]], [["vel", kind, None], ["temp", kind, None], ["pres", "zero", None], ["scal", "zero", None]]):
                    yield dict(base, flat=[["pos", kind, None], *extra])
                    yield dict(base, flat=[["pos", kind, 1], *extra])
                    yield dict(base, flat=[["pos", kind, None, 1], *extra])


def perms(n):
    return [list(p) for p in itertools.permutations(range(1, n + 1))]


def some_maps(n):
    """Representative element maps for any n: identity, reverse, rotation, riffle, one swap"""
    ident = list(range(1, n + 1))
    out = [ident]
    for m in (
        ident[::-1],
        ident[1:] + ident[:1],
        ident[::2] + ident[1::2],
        ident[:-2] + ident[-1:] + ident[-2:-1] if n > 1 else ident,
    ):
        if m not in out:
            out.append(m)
    return out


def mesh2d(nx, ny, nbc=1, jitter=True):
    """A conforming distorted nx x ny quad mesh with every vertex different; no conditions set"""
    s = blank(2, nx * ny, [2, 2, 1], [2, 0, 0, 0, 0], nbc)
    for j in range(ny):
        for i in range(nx):
            e = s["elem"][i + nx * j]
            for b in range(2):
                for a in range(2):
                    x, y = i + a, j + b
                    e["pos"][0, 0, b, a] = x + (0.1 * math.sin(1 + 2.3 * x + 5.1 * y) if jitter else 0)
                    e["pos"][1, 0, b, a] = y + (0.1 * math.cos(2 + 4.1 * x + 1.7 * y) if jitter else 0)
    return s


def mesh3d(nx, ny, nz, nbc=1):
    s = blank(3, nx * ny * nz, [2, 2, 2], [3, 0, 0, 0, 0], nbc)
    for k in range(nz):
        for j in range(ny):
            for i in range(nx):
                e = s["elem"][i + nx * (j + ny * k)]
                for c in range(2):
                    for b in range(2):
                        for a in range(2):
                            x, y, z = i + a, j + b, k + c
                            e["pos"][0, c, b, a] = x + 0.1 * math.sin(1 + 2.3 * x + 5.1 * y + 0.7 * z)
                            e["pos"][1, c, b, a] = y + 0.1 * math.cos(2 + 4.1 * x + 1.7 * y + 1.9 * z)
                            e["pos"][2, c, b, a] = z + 0.1 * math.sin(3 + 0.9 * x + 3.3 * y + 2.7 * z)
    return s


# neighbours of a structured mesh: face -> (di, dj, dk, opposite face)
NEIGH = [(0, -1, 0, 2), (1, 0, 0, 3), (0, 1, 0, 0), (-1, 0, 0, 1), (0, 0, -1, 5), (0, 0, 1, 4)]


def connect(s, dims, ext=("W", "W", "W", "W", "W", "W"), internal=True, params=True):
    """Set the conditions of a structured mesh in every field; ext[face] may be a list (per field)"""
    n = list(dims) + [1] * (3 - len(dims))
    nf = 2 * s["ndim"]
    for k in range(n[2]):
        for j in range(n[1]):
            for i in range(n[0]):
                iel = i + n[0] * (j + n[1] * k)
                e = s["elem"][iel]
                for f in range(s["nbc"]):
                    for face in range(nf):
                        di, dj, dk, opp = NEIGH[face]
                        a, b, c = i + di, j + dj, k + dk
                        inside = 0 <= a < n[0] and 0 <= b < n[1] and 0 <= c < n[2]
                        other = (a % n[0]) + n[0] * ((b % n[1]) + n[1] * (c % n[2]))
                        if inside:
                            if internal:
                                e["bcs"][f][face] = ("E", iel + 1, face + 1, other + 1.0, opp + 1.0, 0.0, 0.0, 0.0)
                        else:
                            bc = ext[face] if isinstance(ext[face], str) else ext[face][f]
                            if bc == "P":
                                e["bcs"][f][face] = ("P", iel + 1, face + 1, other + 1.0, opp + 1.0, 0.0, 0.0, 0.0)
                            elif bc == "":
                                pass
                            elif params:
                                p = [0.5 * (f + 1) + 0.125 * face + j2 + 0.25 * iel for j2 in range(5)]
                                e["bcs"][f][face] = (bc, iel + 1, face + 1, *p)
                            else:
                                e["bcs"][f][face] = (bc, iel + 1, face + 1, 0.0, 0.0, 0.0, 0.0, 0.0)
    return s


def curve(s, spec):
    """spec: list of (element, edge, type); parameters are made up but distinct"""
    for n, (iel, edge, typ) in enumerate(spec):
        e = s["elem"][iel]
        e["ccurv"][edge] = typ
        e["curv"][edge] = [0.75 + n + 0.1 * j for j in range(5)] if typ != "C" else [2.5 + 0.3 * n, 0, 0, 0, 0]
    s["ncurv"] = count_curved(s)
    return s
