"""Plain snapshots of meshes, independent of the code under test: building, comparing, hashing."""

import hashlib

import numpy as np

FIELDS = ("pos", "vel", "pres", "temp", "scal")


def snap_elem(el):
    d = {name: np.array(getattr(el, name)) for name in FIELDS}
    d["curv"] = np.array(el.curv)
    d["ccurv"] = [str(c) for c in el.ccurv]
    d["bcs"] = [
        [
            (str(f[0]), int(f[1]), int(f[2])) + tuple(float(f[3 + j]) for j in range(5))
            for f in row
        ]
        for row in el.bcs
    ]
    return d


def snap(mesh):
    return {
        "ndim": int(mesh.ndim),
        "nel": int(mesh.nel),
        "ncurv": int(mesh.ncurv),
        "nbc": int(mesh.nbc),
        "var": [int(v) for v in mesh.var],
        "lr1": [int(v) for v in mesh.lr1],
        "time": float(mesh.time),
        "istep": int(mesh.istep),
        "wdsz": int(mesh.wdsz),
        "endian": str(mesh.endian),
        "elmap": [int(i) for i in mesh.elmap],
        "elem": [snap_elem(el) for el in mesh.elem],
    }


META = (
    "ndim nel ncurv nbc var lr1 time istep wdsz endian elmap".split()
)


def bytes_of(s, meta=META, fields=FIELDS, curv=True, bcs=True):
    """Canonical bytes of a snapshot"""
    out = [repr([s[k] for k in meta]).encode()]
    for e in s["elem"]:
        for name in fields:
            a = e[name]
            out.append(repr((a.shape, a.dtype.str)).encode())
            out.append(np.ascontiguousarray(a).tobytes())
        if curv:
            out.append(repr(e["ccurv"]).encode())
            out.append(np.ascontiguousarray(e["curv"]).tobytes())
        if bcs:
            out.append(repr(e["bcs"]).encode())
    return b"".join(out)


def digest(s, **kw):
    return hashlib.blake2b(bytes_of(s, **kw), digest_size=12).digest()


def arr_diff(a, b, rtol=0.0, atol=0.0, dtype=True):
    """None if equal, else a description"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return f"shape {a.shape} instead of {b.shape}"
    if dtype and a.dtype != b.dtype:
        return f"type {a.dtype} instead of {b.dtype}"
    if a.size == 0:
        return None
    if rtol == 0 and atol == 0:
        same = (a == b) | ((a != a) & (b != b))
        if a.dtype.kind == "f":
            same &= (np.signbit(a) == np.signbit(b)) | (a != a)
    else:
        same = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
    if same.all():
        return None
    i = tuple(int(k) for k in np.argwhere(~same)[0])
    return f"at {i}: {a[i]!r} instead of {b[i]!r}"


def bc_diff(a, b, rtol=0.0, atol=0.0, own=True, cols=range(5)):
    """Compare two condition tuples"""
    if a[0] != b[0]:
        return f"type {a[0]!r} instead of {b[0]!r}"
    if own and a[1:3] != b[1:3]:
        return f"own element/face {a[1:3]} instead of {b[1:3]}"
    for j in cols:
        x, y = a[3 + j], b[3 + j]
        if x != y and not (x != x and y != y):
            if not (rtol or atol) or not np.isclose(x, y, rtol=rtol, atol=atol):
                return f"parameter {j + 1} {x!r} instead of {y!r} in {a} / {b}"
    return None


def diff(
    got,
    want,
    meta=META,
    fields=FIELDS,
    curv=True,
    bcs=True,
    rtol=0.0,
    atol=0.0,
    dtype=False,
    own=True,
    nface=None,
):
    """First difference between two snapshots, or None"""
    for k in meta:
        if got[k] != want[k]:
            return f"{k} is {got[k]} instead of {want[k]}"
    if len(got["elem"]) != len(want["elem"]):
        return f"{len(got['elem'])} elements instead of {len(want['elem'])}"
    for iel, (g, w) in enumerate(zip(got["elem"], want["elem"])):
        for name in fields:
            d = arr_diff(g[name], w[name], rtol, atol, dtype)
            if d:
                return f"element {iel} {name}: {d}"
        if curv:
            if g["ccurv"] != w["ccurv"]:
                return f"element {iel} ccurv: {g['ccurv']} instead of {w['ccurv']}"
            d = arr_diff(g["curv"], w["curv"], rtol, atol, dtype)
            if d:
                return f"element {iel} curv: {d}"
        if bcs:
            if len(g["bcs"]) != len(w["bcs"]):
                return f"element {iel}: {len(g['bcs'])} condition fields instead of {len(w['bcs'])}"
            for ibc, (rg, rw) in enumerate(zip(g["bcs"], w["bcs"])):
                for iface, (fg, fw) in enumerate(zip(rg, rw)):
                    if nface is not None and iface >= nface:
                        continue
                    d = bc_diff(fg, fw, rtol, atol, own)
                    if d:
                        return f"element {iel} face {iface} field {ibc}: {d}"
    return None


def copy_snap(s):
    t = dict(s)
    t["var"], t["lr1"], t["elmap"] = list(s["var"]), list(s["lr1"]), list(s["elmap"])
    t["elem"] = []
    for e in s["elem"]:
        f = {name: e[name].copy() for name in FIELDS}
        f["curv"] = e["curv"].copy()
        f["ccurv"] = list(e["ccurv"])
        f["bcs"] = [list(row) for row in e["bcs"]]
        t["elem"].append(f)
    return t


NOBC = ("", 0, 0, 0.0, 0.0, 0.0, 0.0, 0.0)


def blank(ndim, nel, lr1, var, nbc=0, dtype="float64"):
    """An empty model mesh"""
    lx, ly, lz = lr1
    return {
        "ndim": ndim,
        "nel": nel,
        "ncurv": 0,
        "nbc": nbc,
        "var": list(var),
        "lr1": list(lr1),
        "time": 0.0,
        "istep": 0,
        "wdsz": 8,
        "endian": "little",
        "elmap": list(range(1, nel + 1)),
        "elem": [
            {
                "pos": np.zeros((3, lz, ly, lx), dtype),
                "vel": np.zeros((3, lz, ly, lx), dtype),
                "pres": np.zeros((var[2], lz, ly, lx), dtype),
                "temp": np.zeros((var[3], lz, ly, lx), dtype),
                "scal": np.zeros((var[4], lz, ly, lx), dtype),
                "curv": np.zeros((12, 5), dtype),
                "ccurv": [""] * 12,
                "bcs": [[NOBC] * 6 for _ in range(nbc)],
            }
            for _ in range(nel)
        ],
    }


def count_curved(s):
    return sum(1 for e in s["elem"] for c in e["ccurv"] if c != "")


LAYOUT = None  # how the arrays of new meshes lie in memory (see layouts.py)


def relayout(m, how):
    from .layouts import LAYOUTS, USUAL as names

    for i, el in enumerate(m.elem):
        for n, name in enumerate(FIELDS + ("curv", "bcs")):
            key = names[(3 * i + n) % len(names)] if how == "mixed" else how
            setattr(el, name, LAYOUTS[key](getattr(el, name)))


def to_hexa(s, dtype="float64"):
    """Build the real structure from a snapshot"""
    from pymech.core import HexaData

    m = HexaData(s["ndim"], s["nel"], list(s["lr1"]), list(s["var"]), s["nbc"], dtype)
    m.ncurv = s["ncurv"]
    m.time, m.istep, m.wdsz, m.endian = s["time"], s["istep"], s["wdsz"], s["endian"]
    m.elmap = np.array(s["elmap"], dtype=np.int32)
    for el, e in zip(m.elem, s["elem"]):
        for name in FIELDS:
            a = getattr(el, name)
            if a.shape == e[name].shape:
                a[...] = e[name]
            else:
                setattr(el, name, e[name].copy())
        el.curv[...] = e["curv"]
        for i, c in enumerate(e["ccurv"]):
            el.ccurv[i] = c
        for ibc, row in enumerate(e["bcs"]):
            for iface, bc in enumerate(row):
                for j, v in enumerate(bc):
                    el.bcs[ibc, iface][j] = v
    if LAYOUT:
        relayout(m, LAYOUT)
    return m
