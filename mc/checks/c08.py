"""C08: rea meshes."""

import gc

import numpy as np

from .. import codecs, data, layouts, snap
from ..engine import Space, deviations, expect
from .c07 import CURVES, SIZES, TYPES, build, grid, names

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of bounded meshes through the real writer and reader, and against an independent encoder"
RULE = (
    "a state is one mesh (content of its rea file by the reference encoder); each mesh is written and read back and "
    "files made by the reference encoder are decoded; element counts cover every column format and both sides of each limit"
)
ASSUMPTIONS = [
    "numbers have decimal exponents of at most two digits (the format has no room for more)",
    "files of a million elements and more use 11 columns for the element and one for the face, as the project writes them",
]


def sig7(x):
    return np.array([float("%.6e" % v) for v in np.asarray(x, dtype=float).ravel()]).reshape(np.shape(x))


def rea_model(s, zero_face_own=True):
    """What a rea file keeps of a mesh"""
    w = snap.copy_snap(s)
    nd = s["ndim"]
    w["time"], w["istep"], w["wdsz"], w["endian"] = 0.0, 0, 8, "little"
    w["elmap"] = list(range(1, s["nel"] + 1))
    w["ncurv"] = snap.count_curved(s)
    for i, e in enumerate(w["elem"]):
        e["pos"] = sig7(e["pos"])
        if nd == 2:
            e["pos"][2] = 0.0
        for k in range(12):
            if e["ccurv"][k] == "":
                e["curv"][k] = 0.0
        e["curv"] = sig7(e["curv"])
        for row in e["bcs"]:
            for f in range(6):
                bc = row[f]
                if f >= 2 * nd or bc[0] == "":
                    row[f] = snap.NOBC
                else:
                    p = [float("%.11e" % v) if s["nel"] >= 10**6 else float("%.6e" % v) for v in bc[3:]]
                    own = (i + 1, f + 1) if bc[1] or s["nel"] >= 1000 else (0, 0)
                    row[f] = (bc[0], *own, *p)
    return w


META = [k for k in snap.META if k not in ("wdsz", "endian", "time", "istep")]


def compare_read(r, want, ctx, what):
    got = snap.snap(r)
    for i, (g, w) in enumerate(zip(got["elem"], want["elem"])):
        for rg, rw in zip(g["bcs"], w["bcs"]):
            for f, (bg, bw) in enumerate(zip(rg, rw)):
                if bw[0] and not bw[1] and tuple(bg[1:3]) == (i + 1, f + 1):
                    rg[f] = bg[:1] + bw[1:3] + bg[3:]  # numbers that were not given may be filled in
    d = snap.diff(got, want, meta=META, rtol=2e-7, atol=0)
    if d is None:
        for i, (g, w) in enumerate(zip(got["elem"], want["elem"])):
            for rg, rw in zip(g["bcs"], w["bcs"]):
                for bg, bw in zip(rg, rw):
                    if bw[0] in ("E", "P") and bg[3:5] != bw[3:5]:
                        d = f"element {i + 1}: link {bg} instead of {bw}"
    ctx.validated()
    expect(d is None, lambda: f"{what}: {d}")


def roundtrip(c, ctx):
    import pymech as pm

    s = build(c)
    h = snap.to_hexa(s, c.get("dtype", "float64"))
    s = snap.snap(h)
    if c.get("ncurv_wrong"):
        h.ncurv = 77
    p = ctx.path("m.rea")
    rc = pm.writerea(p, h)
    ctx.step()
    expect(rc in (0, None), f"writerea returned {rc!r}")
    ctx.state(codecs.rea_mesh(s).encode())
    r = pm.readrea(p)
    ctx.step()
    compare_read(r, rea_model(s), ctx, "read back")
    p2 = ctx.path("m2.rea")
    pm.writerea(p2, r)
    ctx.step()
    expect(open(p2).read() == open(p).read() or str(c.get("special")).startswith("noown"), "writing the mesh that was read gives another file")


def read(c, ctx):
    import pymech as pm

    s = build(c)
    text = codecs.rea(s, npar=c.get("npar", 3), npsc=c.get("npsc", 2), nsw=c.get("nsw", 2),
                      fluid=c.get("fluid", True), i5i1=c.get("i5i1", False), sep=c.get("sep", " "))
    p = ctx.path("m.rea")
    with open(p, "w") as fh:
        fh.write(text)
    r = pm.readrea(p)
    ctx.step()
    ctx.state(text.encode())
    compare_read(r, rea_model(s), ctx, "decoded")


def columns(n):
    """Column limits of the curve and condition lines"""
    if n < 1000:
        return [3, 6, 20, 34, 48, 62, 76], [4, 7, 10] + [24 + 14 * j for j in range(5)]
    if n < 1000000:
        return [2, 8, 22, 36, 50, 64, 78], [4, 9, 10] + [24 + 14 * j for j in range(5)]
    return [2, 12, 26, 40, 54, 68, 82], [4, 15, 16] + [34 + 18 * j for j in range(5)]


def write_text(fh, n, nd, verts, curves, bcs):
    """A rea file in the fixed-column layout, streamed"""
    fh.write(codecs.rea_header(nd))
    fh.write(f"  ***** MESH DATA *****\n  {n:10d} {nd:1d} {n:10d} NEL,NDIM,NELV\n")
    for i in range(n):
        fh.write(f"           ELEMENT {i + 1:10d} [  1a]    GROUP 1\n")
        for row in verts(i):
            fh.write("%14.6e%14.6e%14.6e%14.6e\n" % tuple(row))
    cc, bb = columns(n)
    fh.write(f"  ***** CURVED SIDE DATA *****\n  {3 * len(curves):10d} Curved sides follow IEDGE,IEL,CURVE(I),I=1,5, CCURVE\n")
    fmt = f"%{cc[0]}d%{cc[1] - cc[0]}d" + "%14.6e" * 5 + " %s\n"
    for i in sorted(curves):
        for k in (0, 3, 11):
            fh.write(fmt % (k + 1, i + 1, k + 0.5, 1.25, -2.5, 1e-7, 3e9, "Cms"[k % 3]))
    fh.write("  ***** BOUNDARY CONDITIONS *****\n  ***** FLUID   BOUNDARY CONDITIONS *****\n")
    fmt = f" %-3s%{bb[1] - bb[0]}d%{bb[2] - bb[1]}d" + ("%14.6e" if n < 1000000 else "%18.11e") * 5 + "\n"
    for i in range(n):
        for f, b in enumerate(bcs(i)):
            fh.write(fmt % (("E", i + 1, f + 1) + b[3:] if b[0] == "" else b))
    fh.write("  ***** NO THERMAL BOUNDARY CONDITIONS *****\n" + codecs.REA_TAIL)


def check_text(path, n, nd, verts, curves, bcs):
    """Decode a written file by its columns, without the reader of the code under test"""
    with open(path) as fh:
        for line in fh:
            if "MESH DATA" in line:
                break
        expect(int(fh.readline().split()[0]) == n, "element count")
        for i in range(n):
            fh.readline()
            for row in verts(i):
                got = [float(v) for v in fh.readline().split()]
                ok = len(got) == 4 and all(abs(a - b) <= 6e-7 * abs(b) for a, b in zip(got, row))
                expect(ok, lambda: f"element {i + 1}: {got} instead of {row}")
        fh.readline()
        expect(int(fh.readline().split()[0]) == 3 * len(curves), "curved edge count")
        cc, bb = columns(n)
        for i in sorted(curves):
            for k in (0, 3, 11):
                line = fh.readline()
                got = [float(line[a:b]) for a, b in zip([0] + cc, cc)]
                want = [k + 1, i + 1, k + 0.5, 1.25, -2.5, 1e-7, 3e9]
                ok = all(abs(a - b) <= (0 if j < 2 else 6e-7 * abs(b)) for j, (a, b) in enumerate(zip(got, want)))
                expect(ok and line[cc[-1]:].strip() == "Cms"[k % 3], lambda: f"curved edge {line!r} instead of {want}")
        fh.readline()
        fh.readline()
        for i in range(n):
            for f, b in enumerate(bcs(i)):
                line = fh.readline()
                name = line[1:4].strip()
                if n >= 1000000:
                    own = (int(line[4:15]), int(line[15:16]))
                else:
                    own = (i + 1, f + 1)
                par = [float(line[x:y]) for x, y in zip(bb[2:], bb[3:])]
                if b[0] == "":
                    ok = name in ("", "E") and not any(par)
                else:
                    ok = name == b[0] and own == b[1:3] and all(
                        abs(x - y) <= (6e-7 * abs(y) if name == "SYM" else 0) for x, y in zip(par, b[3:]))
                expect(ok and own == (i + 1, f + 1), lambda: f"element {i + 1} face {f + 1}: {line!r} instead of {b}")


def large(c, ctx):
    gc.disable()
    try:
        _large(c, ctx)
    finally:
        gc.enable()


def _large(c, ctx):
    """A million elements: the mesh is a structured strip, one element object per element is made up on the fly"""
    import pymech as pm
    from pymech.core import HexaData

    n, nd = c["nel"], c["ndim"]
    proto = HexaData(nd, 1, [2, 2, nd - 1], [nd, 0, 0, 0, 0], 1)
    el = proto.elem[0]

    base = np.zeros_like(el.pos)
    base[0, :, :, 0], base[0, :, :, 1], base[1, :, 0, :], base[1, :, 1, :] = 0.5, 0.75, 0.125, 0.375
    step = np.zeros((3, 1, 1, 1))
    curves = {0, 7, 999_999, n - 1} & set(range(n))

    def bcs(i):
        own = i + 1
        return [
            ("W", own, 1, 0.0, 0.0, 0.0, 0.0, 0.0),
            ("E", own, 2, float(own % n + 1), 4.0, 0.0, 0.0, 0.0),
            ("SYM", own, 3, 1 / 3 - i / 7, i / 3, -i / 11, 1e-9 * i, 1e20) if i % 5 == 0 else snap.NOBC,
            ("P", own, 4, float((i - 1) % n + 1), 2.0, 0.0, 0.0, 0.0),
            snap.NOBC,
            snap.NOBC,
        ][: 2 * nd]

    class Lazy(type(el)):
        """The element number ``i``, each array filled when it is asked for"""

        i, npos, nbcs, ncurv = 0, None, None, None

        def __init__(self):
            pass

        @property
        def pos(self):
            if self.npos != self.i:
                self.__dict__["npos"] = i = self.i
                step[0], step[1] = i % 1000, i // 1000
                np.add(base, step, out=el.pos)
            return el.pos

        @property
        def bcs(self):
            if self.nbcs != self.i:
                self.__dict__["nbcs"] = i = self.i
                for f, bc in enumerate(bcs(i)):
                    el.bcs[0, f] = bc
            return el.bcs

        def _curves(self):
            curved = self.i in curves
            if self.ncurv != curved:
                self.__dict__["ncurv"] = curved
                for k in (0, 3, 11):
                    el.ccurv[k] = "Cms"[k % 3] if curved else ""
                    el.curv[k] = [k + 0.5, 1.25, -2.5, 1e-7, 3e9] if curved else 0.0

        @property
        def ccurv(self):
            self._curves()
            return el.ccurv

        @property
        def curv(self):
            self._curves()
            return el.curv

        def __getattr__(self, name):
            return getattr(el, name)

    one = Lazy()

    class Elements:
        def __len__(self):
            return n

        def __getitem__(self, i):
            if not 0 <= i < n:
                raise IndexError(i)
            one.__dict__["i"] = i
            return one

    proto.nel = n
    proto.ncurv = 3 * len(curves)
    lazy = Elements()
    proto.__dict__["elem"] = lazy
    expect(proto.elem is lazy, "cannot substitute the elements")
    p = ctx.path("big.rea")

    def verts(i):
        x, y = i % 1000, i // 1000
        x = [x + v for v in (0.5, 0.75, 0.75, 0.5)]
        y = [y + v for v in (0.125, 0.125, 0.375, 0.375)]
        return ([x, y] if nd == 2 else [x, y, [0.0] * 4] * 2)

    if c["do"] == "write":
        pm.writerea(p, proto)
        ctx.step()
        ctx.state(("written", n, nd))
        check_text(p, n, nd, verts, curves, bcs)
        ctx.validated(n)
        return
    with open(p, "w") as fh:
        write_text(fh, n, nd, verts, curves, bcs)
    r = pm.readrea(p)
    ctx.step()
    ctx.state(("large", n, nd))
    expect(r.nel == n and len(r.elem) == n and r.ndim == nd and r.nbc == 1, "sizes")
    expect(r.ncurv == proto.ncurv, f"{r.ncurv} curved edges")
    for i, g in enumerate(r.elem):
        step[0], step[1] = i % 1000, i // 1000
        d = g.pos - base - step
        expect(max(d.max(), -d.min()) <= 6e-4, lambda: f"element {i + 1}: {g.pos}")
        curved = i in curves
        expect([c for c in g.ccurv if c != ""] == (["Cms"[k % 3] for k in (0, 3, 11)] if curved else []), lambda: f"element {i + 1}: {g.ccurv}")
        if curved:
            for k in (0, 3, 11):
                ok = g.ccurv[k] == "Cms"[k % 3] and np.allclose(g.curv[k], [k + 0.5, 1.25, -2.5, 1e-7, 3e9], rtol=6e-7, atol=0)
                expect(ok, lambda: f"element {i + 1}: {g.ccurv[k]} {g.curv[k]}")
        for f, b in enumerate(bcs(i)):
            a = g.bcs[0, f].item()
            if a != b:
                same = a[:3] == b[:3] and b[0] == "SYM" and np.allclose(a[3:], b[3:], rtol=6e-7, atol=0)
                expect(same, lambda: f"element {i + 1} face {f + 1}: {a} instead of {b}")
    ctx.validated(n)


def writes(thorough):
    for nd in (2, 3):
        dims = dict(grid(nd), dtype=["float64", "float32"], ncurv_wrong=[0, 1])
        dims["special"] = [None, "blankparams", "zeros", "origin", "noown", "noown0"]
        del dims["endian"]
        for c in deviations(dims, 4 if thorough else 3):
            yield dict(c, ndim=nd)
        for e in range(12):
            for t in CURVES:
                yield dict(ndim=nd, n=SIZES[nd][0], nbc=1, ext=["W"] * 6, spec=[[1, e, t]])
        for f in range(2 * nd):
            for t in TYPES:
                for fld in range(3):
                    ext = [["W", "t", "t"] for _ in range(6)]
                    ext[f][fld] = t
                    yield dict(ndim=nd, n=SIZES[nd][0], nbc=3, ext=ext)


FORMATS = {2: [[27, 37], [25, 40], [7, 143], [2, 499], [50, 45]], 3: [[9, 3, 37], [10, 10, 10], [7, 11, 13]]}


def formats(thorough):
    """Element counts on both sides of the first limit (999, 1000, 1001 ...)"""
    for nd in (2, 3):
        for n in FORMATS[nd] + ([[100, 101] if nd == 2 else [20, 25, 21]] if thorough else []):
            nel = int(np.prod(n))
            for nbc in (1, 2):
                yield dict(ndim=nd, n=n, nbc=nbc, ext=["SYM", "P", "ON", "P", ["W", "t"], ["v", "int"]],
                           spec=[[0, 0, "C"], [98, 1, "m"], [nel - 1, 11, "s"], [nel // 2, 7, "e"], [nel - 1, 3, "C"]])


def reads(thorough):
    for nd in (2, 3):
        dims = dict(grid(nd), npar=[3, 0, 118], npsc=[2, 0, 4], nsw=[2, 0, 13], fluid=[True, False], sep=[" ", "   "])
        dims["special"] = [None, "blankparams", "zeros", "origin", "noown", "noown0"]
        del dims["endian"]
        for c in deviations(dims, 3 if thorough else 2):
            if c["nbc"] == 0 and not c["fluid"]:
                continue
            if c["special"] == "blankparams":
                continue
            yield dict(c, ndim=nd)
    for c in formats(thorough):
        for i5 in (False, True):
            yield dict(c, i5i1=i5)


def spaces(tier):
    th = tier == "thorough"
    out = [
        Space("million", lambda: [dict(do=d, nel=n, ndim=nd) for n, nd in [(1_000_000, 2)] + ([(1_000_003, 3), (999_999, 2)] if th else [])
                                 for d in ("read", "write")],
              large, chunk=1, timeout=3000 if th else 850, bounds="one mesh of 10^6 elements (thorough: also 999999 and 1000003, 2D and 3D)"),
        Space("formats", lambda: formats(th), roundtrip, chunk=1, bounds="999, 1000, 1001, .. elements"),
        Space("roundtrip", lambda: writes(th), roundtrip, chunk=16, bounds="meshes within k deviations, every edge/face with every type"),
        Space("names", lambda: names(th), roundtrip, chunk=8, bounds="as for C07"),
        Space("read", lambda: reads(th), read, chunk=4, bounds="reference files within k deviations, all small-count formats"),
    ]
    return out + [layouts.space(out[2:3], 160 if th else 40)]
