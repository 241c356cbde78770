"""C09: chains of format conversions."""

import numpy as np

from .. import data, snap
from ..engine import Space, deviations, expect
from .c07 import SIZES, build, grid, stored
from .c08 import META, rea_model

LEVEL = "model_checking"
TECHNIQUE = "breadth-first exploration of the state graph of a mesh under format conversions, checked against a model"
RULE = (
    "a state is the full content of the mesh after a chain of conversions; from every reachable state every conversion is "
    "executed (write, then read) up to the depth bound, states are merged by content; each result is compared with the "
    "model of what the formats keep"
)
ASSUMPTIONS = ["numbers have decimal exponents of at most two digits in chains through rea"]

OPS = ["rea", "re2l", "re2b", "nek8l", "nek8b", "nek4l", "nek"]


def apply(op, mesh, ctx):
    import pymech as pm

    p = ctx.path("m0.f00001" if op.startswith("nek") else None)
    ctx.step()
    if op == "rea":
        pm.writerea(p, mesh)
        return pm.readrea(p)
    if op == "nek":  # in the precision and byte order that the mesh has by itself
        pm.writenek(p, mesh)
        return pm.readnek(p)
    mesh.endian = "big" if op.endswith("b") else "little"
    if op.startswith("re2"):
        pm.writere2(p, mesh)
        return pm.readre2(p)
    mesh.wdsz = int(op[3])
    pm.writenek(p, mesh)
    return pm.readnek(p)


def width(op, wdsz):
    """Word size of the mesh after a conversion: only single precision field files reduce it"""
    return wdsz if op == "nek" else int(op[3]) if op.startswith("nek") else 8


def model(op, s, wdsz):
    if op == "rea":
        return rea_model(s)
    if op.startswith("re2"):
        w = stored(s)
        if w["nbc"] == 0:
            w["nbc"] = 1
            for e in w["elem"]:
                e["bcs"] = [[snap.NOBC] * 6]
        return w
    w = snap.copy_snap(s)
    w["nbc"], w["ncurv"] = 0, 0
    for e in w["elem"]:
        dt = np.float32 if width(op, wdsz) == 4 else np.float64
        e["pos"] = e["pos"].astype(dt).astype(float)
        e["curv"], e["ccurv"], e["bcs"] = np.zeros((12, 5)), [""] * 12, []
    return w


def external(s):
    return [[[bc if bc[0] not in ("", "E") else None for bc in row] for row in e["bcs"]] for e in s["elem"]]


def run(c, ctx):
    s0 = build(c)
    s0["elmap"] = data.some_maps(s0["nel"])[c.get("map", 0) % len(data.some_maps(s0["nel"]))]
    h0 = snap.to_hexa(s0)
    frontier = [(h0, snap.snap(h0), (), 8)]
    seen = {snap.digest(frontier[0][1])}
    ctx.state(next(iter(seen)))
    for depth in range(c["depth"]):
        nxt = []
        for mesh, s, chain, wdsz in frontier:
            for op in OPS:
                h = snap.to_hexa(s)
                h.elmap = np.array(s["elmap"], dtype=mesh.elmap.dtype)
                h.wdsz = mesh.wdsz
                r = apply(op, h, ctx)
                got = snap.snap(r)
                want = model(op, s, wdsz)
                what = lambda: " -> ".join(chain + (op,))
                if want["nbc"] == 1 and s["nbc"] == 0 and got["nbc"] == 0:
                    want = dict(want, nbc=0, elem=[dict(e, bcs=[]) for e in want["elem"]])
                d = snap.diff(got, want, meta=META, rtol=6e-7 if op == "rea" else 0.0)
                ctx.validated()
                expect(d is None, lambda: f"{what()}: {d}")
                # passing it again changes nothing more
                r2 = apply(op, r, ctx)
                got2 = snap.snap(r2)
                d = snap.diff(got2, got, meta=META)
                ctx.validated()
                expect(d is None, lambda: f"{what()} twice: {d}")
                key = snap.digest(got2)
                if key not in seen:
                    seen.add(key)
                    ctx.state(key)
                    nxt.append((r2, got2, chain + (op,), width(op, wdsz)))
        frontier = nxt
    ctx.count("frontier_left", len(frontier))


def cases(thorough):
    for nd in (2, 3):
        dims = grid(nd)
        del dims["endian"]
        dims["special"] = [None]
        dims["map"] = [0, 1, 2]
        if not thorough:
            dims["n"] = dims["n"][:4]
        for c in deviations(dims, 3 if thorough else 2):
            yield dict(c, ndim=nd, depth=5 if thorough else 3)
    # both sides of the limit between column formats
    for nd, n in ((2, [27, 37]), (2, [7, 143]), (3, [10, 10, 10])):
        yield dict(ndim=nd, n=n, nbc=2, ext=["SYM", "P", "ON", "P", ["W", "t"], "v"], spec=[[0, 0, "C"], [998, 3, "m"]],
                   depth=3 if thorough else 1)


def spaces(tier):
    th = tier == "thorough"
    return [Space("chains", lambda: cases(th), run, chunk=2, timeout=3000 if th else 300,
                  bounds="all chains of 3 (quick) or 5 (thorough) conversions, each possibly repeated, over 7 formats")]
