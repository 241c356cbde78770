"""C07: re2 meshes."""

import itertools
import struct
import sys

import numpy as np

from .. import codecs, data, layouts, sizes, snap
from ..engine import Space, deviations, expect, product

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of bounded meshes against an independent model of the re2 layout, both directions"
RULE = (
    "a state is one re2 file (bytes of the reference encoder); each mesh is written (bytes compared), read back, and "
    "files made by the reference encoder with every padding and record order are decoded; distinct by content"
)
ASSUMPTIONS = ["little-endian host"]

TYPES = ["W", "v", "O", "SYM", "ON", "f", "I", "A", "int", "msi", "t", "o", "P", "con"]
CURVES = ["C", "m", "s", "e"]


def build(c):
    """c: ndim, n (mesh sizes), nbc, ext, internal, spec (curves), special, links"""
    nd, n = c["ndim"], c["n"]
    s = data.mesh2d(*n, c["nbc"]) if nd == 2 else data.mesh3d(*n, c["nbc"])
    ext = c.get("ext") or ["W"] * 6
    s = data.connect(s, n, ext=ext, internal=c.get("internal", True))
    spec = c.get("spec", ())
    if isinstance(spec, int):  # every that many edges
        ne = 4 if nd == 2 else 12
        spec = [(k // ne, k % ne, CURVES[k % 4]) for k in range(0, ne * s["nel"], spec)]
    s = data.curve(s, [tuple(x) for x in spec])
    s["endian"] = c.get("endian", "little")
    sp = c.get("special")
    if sp == "values":
        vals = [np.nan, np.inf, -np.inf, -0.0, 5e-324, 1.7e308, 1 / 3, -1e-300]
        k = 0
        for e in s["elem"]:
            e["pos"][:nd].reshape(-1)[k % (nd * 2**nd)] = vals[k % 8]
            for row in e["bcs"]:
                for f, bc in enumerate(row[: 2 * nd]):
                    if bc[0] not in ("", "E", "P"):
                        row[f] = bc[:3] + tuple(float(vals[(k + f + j) % 8]) for j in range(5))
            for i in range(12):
                if e["ccurv"][i]:
                    e["curv"][i] = [vals[(k + i + j) % 8] for j in range(5)]
            k += 1
    if sp == "zeros":  # curves and conditions whose parameters are all zero
        for e in s["elem"]:
            e["curv"][...] = 0.0
            for row in e["bcs"]:
                for f, bc in enumerate(row[: 2 * nd]):
                    if bc[0] not in ("", "E", "P"):
                        row[f] = bc[:3] + (0.0,) * 5
    if sp == "origin":  # only one value is not zero
        for k, e in enumerate(s["elem"]):
            for i in range(12):
                e["curv"][i] = [float(j == (i + k) % 5) for j in range(5)] if e["ccurv"][i] else 0.0
    if sp in ("noown", "noown0"):
        # conditions without the numbers of their own faces, as the disc generator leaves them
        for e in s["elem"]:
            for k, row in enumerate(e["bcs"]):
                for f, bc in enumerate(row):
                    if bc[0] not in ("", "E", "P") and (sp == "noown" or k > 0):
                        row[f] = (bc[0], 0, 0) + bc[3:]
    if sp == "blankparams":
        # conditions that must not be stored although they carry numbers
        for e in s["elem"]:
            for row in e["bcs"]:
                row[0] = ("",) + (7, 3, 1.0, 2.0, 3.0, 4.0, 5.0)
        for e in s["elem"]:
            e["curv"][11] = [9.0] * 5 if e["ccurv"][11] == "" else e["curv"][11]
    return s


def stored(s):
    """What a re2 file keeps of a mesh"""
    w = snap.copy_snap(s)
    nd = s["ndim"]
    w["time"], w["istep"], w["wdsz"] = 0.0, 0, 8
    w["elmap"] = list(range(1, s["nel"] + 1))
    w["ncurv"] = snap.count_curved(s)
    for i, e in enumerate(w["elem"]):
        for name in snap.FIELDS:
            e[name] = e[name].astype(float)
        if nd == 2:
            e["pos"][2] = 0.0
        for k in range(12):
            if e["ccurv"][k] == "":
                e["curv"][k] = 0.0
        for row in e["bcs"]:
            for f in range(6):
                bc = row[f]
                if f >= 2 * nd or bc[0] in ("", "E"):
                    row[f] = snap.NOBC
                else:
                    row[f] = (bc[0], i + 1, f + 1) + bc[3:]
    return w


def compare_read(r, want, ctx, what):
    got = snap.snap(r)
    if want["nbc"] == 0:
        for e in got["elem"]:
            expect(all(bc[0] == "" for row in e["bcs"] for bc in row), f"{what}: conditions out of nothing")
        d = snap.diff(dict(got, nbc=0), want, bcs=False)
    else:
        d = snap.diff(got, want)
    ctx.validated()
    expect(d is None, lambda: f"{what}: {d}")


def parse_header(raw):
    h = raw[:80]
    try:
        return h[:5], int(h[5:14]), int(h[14:17]), int(h[17:26])
    except ValueError:
        return None


def write(c, ctx):
    import pymech as pm

    s = build(c)
    dt = c.get("dtype", "float64")
    h = snap.to_hexa(s, dt)
    s = snap.snap(h)  # after rounding to the type of the mesh
    if c.get("lr1") == "tuple":
        h.lr1 = tuple(h.lr1)
    p = ctx.path()
    rc = pm.writere2(p, h)
    ctx.step()
    expect(rc in (0, None), f"writere2 returned {rc!r}")
    endian = s["endian"] if s["endian"] in ("little", "big") else sys.byteorder
    raw = open(p, "rb").read()
    want = codecs.re2(s, endian)
    ctx.state(want)
    expect(len(raw) == len(want), lambda: f"{len(raw)} bytes instead of {len(want)}")
    expect(parse_header(raw) == parse_header(want), lambda: f"header {raw[:80]!r}")
    nc = snap.count_curved(s)
    start = 84 + 8 * s["nel"] * (1 + s["ndim"] * 2 ** s["ndim"]) + 8
    a, b = bytearray(raw[80:]), bytearray(want[80:])
    for i in range(nc):  # the rest of a curvature code carries no information
        o = start - 80 + 64 * i + 56
        for m in (a, b):
            m[o + 1 : o + 8] = bytes(0 if ch in b" \0" else ch for ch in m[o + 1 : o + 8])
    ctx.validated()
    if a != b:
        i = next(i for i in range(len(a)) if a[i] != b[i]) + 80
        expect(False, f"byte {i} of {len(raw)} is {raw[i]:#x} instead of {want[i]:#x} (data start at 84, curves at {start - 8})")
    r = pm.readre2(p)
    ctx.step()
    w = stored(s)
    w["endian"] = endian
    compare_read(r, w, ctx, "read back")
    # the mesh read from the file is stored identically
    p2 = ctx.path()
    if s["nbc"]:
        pm.writere2(p2, r)
        ctx.step()
        expect(open(p2, "rb").read() == raw, "writing the mesh that was read gives another file")


def read(c, ctx):
    import pymech as pm

    s = build(c)
    pad = {"nul": b"\0" * 7, "space": b" " * 7, "junk": b"\0\0\0\0\0\xe0?", "ones": b"\xff" * 7, "text": b"mCs xyz"}
    raw = codecs.re2(s, c["endian"], curve_pad=pad[c.get("curve_pad", "nul")], order=c.get("order"),
                     zero=c.get("zero", 0.0), head=c.get("head", "#v002"), note=c.get("note", " this is the hdr"))
    p = ctx.path()
    with open(p, "wb") as fh:
        fh.write(raw)
    r = pm.readre2(p)
    ctx.step()
    ctx.state(raw)
    w = stored(s)
    w["endian"] = c["endian"]
    compare_read(r, w, ctx, "decoded")


SIZES = {2: [[2, 2], [1, 1], [3, 1], [2, 3], [5, 4]], 3: [[2, 1, 2], [1, 1, 1], [2, 2, 1], [2, 2, 2], [3, 2, 4]]}


def grid(nd):
    ext = [
        ["W", "v", "O", "SYM", "ON", "f"],
        [["W", "t", "I"], ["v", "", "t"], ["O", "o", ""], ["SYM", "I", "A"], ["P", "t", "P"], ["ON", "f", "s"]],
        ["P", "P", "P", "P", "P", "P"],
        ["", "", "", "", "", ""],
        ["int", "msi", "con", "A", "I", "W"],
    ]
    specs = [
        [], [[0, 0, "C"]], [[0, 11, "m"], [0, 3, "s"]], [[0, k, CURVES[k % 4]] for k in range(12)],
    ]
    return dict(
        n=SIZES[nd], nbc=[2, 1, 3, 0], ext=ext, internal=[True, False], spec=specs,
        endian=["little", "big", "native"], special=[None, "values", "blankparams", "zeros", "origin", "noown", "noown0"],
    )


def writes(thorough):
    for nd in (2, 3):
        dims = dict(grid(nd), dtype=["float64", "float32"], lr1=["list", "tuple"])
        for c in deviations(dims, 4 if thorough else 3):
            yield dict(c, ndim=nd)
        for endian in ("little", "big"):
            for e in range(12):  # every edge with every curvature
                for t in CURVES:
                    yield dict(ndim=nd, n=SIZES[nd][0], nbc=1, ext=["W"] * 6, spec=[[1, e, t]], endian=endian)
            for f in range(2 * nd):  # every face with every condition in every field
                for t in TYPES:
                    for fld in range(3):
                        ext = [["W", "t", "t"] for _ in range(6)]
                        ext[f][fld] = t
                        yield dict(ndim=nd, n=SIZES[nd][0], nbc=3, ext=ext, endian=endian)


def reads(thorough):
    for nd in (2, 3):
        dims = dict(
            grid(nd), curve_pad=["nul", "space", "junk", "ones", "text"], order=["", "reverse", "faces"],
            zero=[0.0, 1.0], head=["#v002", "#v001", "#v003"], note=[" this is the hdr", "", " " * 50 + "x"],
        )
        dims["endian"] = ["little", "big"]
        for c in deviations(dims, 4 if thorough else 3):
            yield dict(c, ndim=nd)


def size_cases(th):
    """Numbers of elements, curved edges and conditions around every limit of blocks and buffers"""
    ext = [["W", "t"], ["v", "I"], ["O", "f"], ["SYM", "t"], ["ON", "I"], ["W", "f"]]
    for n in sizes.counts(8193 if th else 1025):
        for nd in (2, 3):
            for k, (spec, internal, endian) in enumerate(((1, True, "little"), (5, False, "big"))):
                if n > 600 and k + nd == 3 and not th:
                    continue
                yield dict(ndim=nd, n=[n, 1] if nd == 2 else [n, 1, 1], nbc=2 - k, ext=ext, internal=internal, spec=spec, endian=endian)
    for n in (16385, 32769, 65537) if th else (4097,):
        yield dict(ndim=2, n=[n, 1], nbc=1, ext=ext, internal=True, spec=3, endian="little")
    for nbc in range(1, 34):
        yield dict(ndim=2, n=[2, 2], nbc=nbc, ext=[[t[0], *["t", "I", "f"] * 11] for t in ext], spec=3, endian="little")


def names(th):
    """All names of one to three letters over an alphabet, and those known to Nek5000"""
    letters = "EPWNOve1" if th else "EPWv1"
    codes = ["".join(t) for n in (1, 2, 3) for t in itertools.product(letters, repeat=n)]
    codes += [c for c in "A C F H I J L M O R S T a c d e f h i j l m o p r s t v KD INS MF MM MS MSI mf mm ms msi mv MV mvn ON on on_ SH SL sl shl SYM vl VL VN vn NO NON CON EXO E+ -E .E EE* (E)".split() if c not in codes]
    codes = [c for c in codes if c not in ("E", "P")]
    for nd in (2, 3):
        per = 2 * nd * 3
        for i in range(0, len(codes), per):
            group = (codes[i : i + per] + codes)[:per]
            yield dict(ndim=nd, n=SIZES[nd][0], nbc=3, ext=[group[3 * f : 3 * f + 3] for f in range(2 * nd)], endian=("little", "big")[i // per % 2])


def spaces(tier):
    th = tier == "thorough"
    out = [
        Space("write-sizes", lambda: size_cases(th), write, chunk=2, timeout=600,
              bounds="1 to 40 elements, both sides of all block sizes up to " + ("8193 and 16385, 32769, 65537" if th else "1025 and 4097")
                     + ", with all and some edges curved, with and without internal conditions; up to 33 condition fields"),
        Space("read-sizes", lambda: size_cases(th), read, chunk=2, timeout=600, bounds="as for write-sizes"),
        Space("write", lambda: writes(th), write, chunk=16, bounds="meshes within k deviations, every edge/face with every type"),
        Space("names", lambda: names(th), write, chunk=8, bounds="conditions named by every word of up to three letters over " + ("eight" if th else "five") + " letters, and those known to Nek5000"),
        Space("read", lambda: reads(th), read, chunk=16, bounds="reference files within k deviations"),
    ]
    return out + [layouts.space(out[2:3], 320 if th else 80)]
