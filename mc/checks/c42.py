"""C42: symmetry of the mesh operations."""

import itertools
import math
import os

import numpy as np

from .. import meshes, snap
from .. import meshmodel as mm
from ..engine import Space, expect
from . import c22

LEVEL = "model_checking"
TECHNIQUE = (
    "bounded exploration of histories of real mesh operations; in every state every operation is executed on every transformed copy of the mesh "
    "(renumbered, moved, turned, scaled) and every pair of independent operations in both orders, and the squares must commute"
)
RULE = (
    "a state is a mesh reached by a history of operations; a transition is one commuting square: an operation and a transformation of the numbering or of "
    "the coordinates, or two independent operations; the two ways round give the same mesh up to the numbering of its elements"
)
ASSUMPTIONS = [
    "operations are enabled as in C22",
    "coordinates are compared to 1e-9 of the size of the mesh",
]


# -- transformations (on plain snapshots) ---------------------------------------------------------------------------
class Move:
    """x -> k R x + t, and a new order of the elements"""

    def __init__(self, spec, n):
        self.k = spec.get("scale", 1.0)
        th = spec.get("turn", 0.0)
        c, s = (round(math.cos(th)), round(math.sin(th))) if spec.get("quarter") else (math.cos(th), math.sin(th))
        self.r = np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.0]])
        self.t = np.array(spec.get("shift", (0.0, 0.0, 0.0)), float)
        self.order = order(spec.get("order"), n)  # new position -> old element
        self.new = {old: i for i, old in enumerate(self.order)}

    def point(self, p):
        p = np.asarray(p, float)
        return self.k * np.tensordot(self.r, p, 1) + self.t.reshape((3,) + (1,) * (p.ndim - 1))

    def xy(self, x, y):
        q = self.k * (self.r[:2, :2] @ np.array([x, y], float)) + self.t[:2]
        return float(q[0]), float(q[1])

    def back(self, x, y):
        q = self.r[:2, :2].T @ (np.array([x, y], float) - self.t[:2]) / self.k
        return float(q[0]), float(q[1])

    def back_y(self, x, y):
        return (self.r[0, 1] * (x - self.t[0]) + self.r[1, 1] * (y - self.t[1])) / self.k

    def levels(self, z):
        return [self.k * v + self.t[2] for v in z]

    def mesh(self, s, renumber=True):
        t = snap.copy_snap(s)
        flat = s["ndim"] == 2
        for e in t["elem"]:
            z = e["pos"][2].copy()
            e["pos"] = self.point(e["pos"])
            if flat:
                e["pos"][2] = z
            for k in range(12):
                if e["ccurv"][k] in ("m", "s"):
                    zz = e["curv"][k, 2]
                    e["curv"][k, :3] = self.point(e["curv"][k, :3])
                    if flat:
                        e["curv"][k, 2] = zz
                    e["curv"][k, 3:] *= self.k
                elif e["ccurv"][k] == "C":
                    e["curv"][k, 0] *= self.k
        return renumbered(t, self.order) if renumber else t


def order(kind, n):
    o = list(range(n))
    if kind is None or n < 2:
        return o
    if kind == "reverse":
        return o[::-1]
    if kind == "cycle":
        return o[1:] + o[:1]
    if kind == "swap":
        return [1, 0] + o[2:]
    if kind == "odd":
        return o[1::2] + o[::2]
    if kind == "last":
        return o[-1:] + o[:-1]
    raise AssertionError(kind)


def renumbered(s, order):
    """The elements in another order"""
    new = {old + 1: i + 1 for i, old in enumerate(order)}
    t = snap.copy_snap(s)
    t["elem"] = [t["elem"][i] for i in order]
    for e in t["elem"]:
        for row in e["bcs"]:
            for f in range(6):
                bc = row[f]
                p = list(bc[3:])
                if mm.linked(bc) and int(p[0]) in new:
                    p[0] = float(new[int(p[0])])
                row[f] = (bc[0], new.get(bc[1], bc[1]), bc[2]) + tuple(p)
    return t


MOVES = {
    "reverse": dict(order="reverse"),
    "cycle": dict(order="cycle"),
    "swap": dict(order="swap"),
    "odd": dict(order="odd"),
    "shift": dict(shift=(3.0, -2.0, 0.5)),
    "far": dict(shift=(2e4, -1e4, 5e3)),
    "double": dict(scale=2.0),
    "small": dict(scale=1e-3, order="last"),
    "tiny": dict(scale=1e-9, order="reverse"),
    "minute": dict(scale=2.0**-50, order="odd"),
    "huge": dict(scale=1e9),
    "large": dict(scale=1e4, shift=(-2e3, 1e3, 1e3)),
    "quarter": dict(turn=math.pi / 2, quarter=True),
    "turn": dict(turn=0.7, shift=(1.0, 0.0, 0.0), order="reverse"),
    "half": dict(turn=math.pi, quarter=True, scale=0.25, shift=(0.5, 0.5, -1.0), order="odd"),
}


MEANING = {"m": 3, "C": 1}


def same(got, want, size):
    """Difference of two meshes up to the numbering of the elements"""
    for k in ("ndim", "nel", "nbc", "lr1", "var", "ncurv"):
        if (list(got[k]) if isinstance(got[k], (list, tuple)) else got[k]) != (list(want[k]) if isinstance(want[k], (list, tuple)) else want[k]):
            return f"{k}: {got[k]} instead of {want[k]}"
    if len(got["elem"]) != len(want["elem"]):
        return f"{len(got['elem'])} elements instead of {len(want['elem'])}"
    if not got["elem"]:
        return None
    cg = np.array([e["pos"].reshape(3, -1).mean(1) for e in got["elem"]])
    cw = np.array([e["pos"].reshape(3, -1).mean(1) for e in want["elem"]])
    d = np.linalg.norm(cw[:, None, :] - cg[None, :, :], axis=2)
    o = d.argmin(1).tolist()
    if len(set(o)) != len(o):
        return "the elements are in other places"
    g = renumbered(got, o)
    tol = 1e-9 * size
    for i, (a, b) in enumerate(zip(g["elem"], want["elem"])):
        if np.abs(a["pos"] - b["pos"]).max() > tol:
            return f"element {i}: corners {a['pos'].tolist()} instead of {b['pos'].tolist()}"
        if list(a["ccurv"]) != list(b["ccurv"]):
            return f"element {i}: edges {a['ccurv']} instead of {b['ccurv']}"
        for k in range(12):
            used = MEANING.get(a["ccurv"][k], 5)  # the other parameters mean nothing
            if a["ccurv"][k] and np.abs(a["curv"][k] - b["curv"][k])[:used].max() > 1e-7 * max(size, np.abs(b["curv"][k][:used]).max()):
                return f"element {i}: parameters of edge {k} {a['curv'][k].tolist()} instead of {b['curv'][k].tolist()}"
    return mm.bcs_diff(g, want, own=False, rtol=1e-9)


def extent(s):
    if not s["elem"]:
        return 1.0
    lo, hi = c22.bounds(s)
    return float(max((hi - lo).max(), np.abs(lo).max() * 1e-3, np.abs(hi).max() * 1e-3))


# -- operations: function of (real mesh, move, untransformed snapshot) -> mesh or other result; None: not enabled -----------
def ident(n):
    return Move({}, n)


def keep(which, bc):
    def op(m, mv, s):
        from pymech.meshtools import keep_elements

        n = s["nel"]
        sel = {"half": range((n + 1) // 2), "odd": range(0, n, 2), "tail": range(n - 1, 0, -1) if n > 1 else [0]}[which]
        keep_elements(m, [mv.new[i] for i in sel], bc)
        return m

    return op


def partner(s, axis, part=False):
    o = snap.copy_snap(s)
    lo, hi = c22.bounds(s)
    for e in o["elem"]:
        e["pos"][axis] += hi[axis] - lo[axis]
        for k, c in enumerate(e["ccurv"]):
            if c in ("m", "s"):
                e["curv"][k, axis] += hi[axis] - lo[axis]
    return mm.keep(o, range(0, s["nel"], 2), "W") if part else o


def merge(axis, part=False, flip=False, **kw):
    def op(m, mv, s):
        if axis == 2 and s["ndim"] == 2:
            return None
        o = partner(s, axis, part)
        if not c22.mergeable(s, o):
            return None
        ov = Move.__new__(Move)
        ov.__dict__.update(mv.__dict__, order=order("cycle", o["nel"]) if mv.order != list(range(s["nel"])) else list(range(o["nel"])))
        other = snap.to_hexa(ov.mesh(o))
        if flip:
            other.merge(m, **kw)
            return other
        m.merge(other, **kw)
        return m

    return op


def rotate(m, mv, s):
    from pymech.meshtools import rotate_2d

    rotate_2d(m, *mv.xy(0.25, -0.5), 0.3)
    return m


def mapping(**kw):
    def op(m, mv, s):
        from pymech.meshtools import map2D

        if s["ndim"] != 2:
            return None
        f = lambda x, y: (1.1 * x + 0.1 * y + 0.02 * math.sin(x), y - 0.05 * x)
        return map2D(m, lambda x, y: mv.xy(*f(*mv.back(x, y))), **kw)

    return op


def delete(m, mv, s):
    from pymech.meshtools import delete_internal_bcs

    delete_internal_bcs(m)
    return m


def generate(m, mv, s):
    from pymech.meshtools import generate_internal_bcs

    generate_internal_bcs(m)
    return m


def ends(s):
    return [["W", "t", "f", "I"][k] for k in range(s["nbc"])], [["O", "I", "f", "t"][k] for k in range(s["nbc"])]


def extrude(z, bcs, internal=True):
    def op(m, mv, s):
        from pymech.meshtools import extrude

        if s["ndim"] != 2 or s["nel"] * (len(z) - 1) > c22.MAX3:
            return None
        b1, b2 = ends(s) if bcs else (None, None)
        return extrude(m, mv.levels(z), b1, b2, internal_bcs=internal)

    return op


def refine(side, two=False):
    def op(m, mv, s):
        from pymech.meshtools import extrude_refine

        if s["ndim"] != 2 or s["nel"] * 6 > 2 * c22.MAX3 or any(bc[0] == "P" for e in s["elem"] for row in e["bcs"] for bc in row):
            return None
        lo, hi = c22.bounds(s)
        at = lo[1] + 0.4 * (hi[1] - lo[1])
        for e in s["elem"]:
            low = [mm.corner(e, (*v, 0))[1] <= at for v in mm.LOOP]
            if sum(low) in (1, 3) or (sum(low) == 2 and low[0] == low[2]):
                return None
            if any(abs(mm.corner(e, (*v, 0))[1] - at) < 1e-6 * (hi[1] - lo[1]) for v in mm.LOOP):
                return None
        b1, b2 = ends(s)
        fun = lambda x, y, p: side * (mv.back_y(x, y) - at)
        return extrude_refine(m, mv.levels([0.0, 0.5, 1.0, 1.5, 2.0]), bc1=b1, bc2=b2, fun=[fun], imesh_high=0)

    return op


def io(kind):
    def op(m, mv, s):
        import pymech as pm

        w, r, ext = {"re2": (pm.writere2, pm.readre2, ".re2"), "nek": (pm.writenek, pm.readnek, ".f00001")}[kind]
        p = os.path.join(SCRATCH[0], "sym" + ext)
        w(p, m)
        return r(p)

    return op


SCRATCH = [""]
OPS = {
    "keep_half": keep("half", ""),
    "keep_odd": keep("odd", "W"),
    "keep_tail": keep("tail", "O"),
    "merge_x": merge(0),
    "merge_y": merge(1),
    "merge_z": merge(2),
    "merge_part": merge(0, part=True),
    "merge_flip": merge(1, flip=True),
    "merge_empty": merge(1, ignore_empty=False),
    "merge_ignore": merge(0, ignore_all_bcs=True),
    "rotate": rotate,
    "map": mapping(),
    "map_straight": mapping(curvature=False, boundary_curvature=False),
    "delete": delete,
    "generate": generate,
    "extrude": extrude([0.0, 0.7], False),
    "extrude_ends": extrude([0.0, 0.5, 1.25], True),
    "extrude_open": extrude([0.0, 0.5, 1.25], False, internal=False),
    "refine": refine(1),
    "refine_other": refine(-1),
    "re2": io("re2"),
    "nek": io("nek"),
}
EXTRUDING = ("extrude", "refine")


def result(name, s, mv, base):
    """Snapshot of what an operation makes of a mesh"""
    m = snap.to_hexa(s)
    try:
        out = OPS[name](m, mv, base)
    except Exception as err:
        return ("raises", type(err).__name__)
    return None if out is None else snap.snap(out)


def queries(s):
    m = snap.to_hexa(s)
    out = []
    for fn in (m.check_connectivity, m.check_bcs_present):
        try:
            out.append(bool(fn()))
        except Exception:
            out.append(False)
    lims = [np.array(getattr(m.lims, n), float) for n in ("pos",)] if s["nel"] else []
    els = [[np.array(e.centroid, float), float(e.smallest_edge())] + [np.array(e.face_center(f), float) for f in range(mm.nfaces(s))] for e in m.elem]
    return out, lims, els


def damaged(s):
    """The mesh and copies with one damaged link"""
    yield s
    links = [(i, k, f) for i, e in enumerate(s["elem"]) for k, row in enumerate(e["bcs"]) for f in range(mm.nfaces(s)) if mm.linked(row[f])]
    for i, k, f in links[:: max(1, len(links) // 3)]:
        for what in ("face", "type", "element"):
            t = snap.copy_snap(s)
            bc = list(t["elem"][i]["bcs"][k][f])
            if what == "face":
                bc[4] = bc[4] % mm.nfaces(s) + 1.0
            elif what == "element":
                bc[3] = bc[3] % s["nel"] + 1.0
            else:
                bc[0] = "W"
            t["elem"][i]["bcs"][k][f] = tuple(bc)
            yield t


def squares(s, where, ctx, moves):
    n = s["nel"]
    size = extent(s)
    for name in OPS:
        one = result(name, s, ident(n), s)
        if one is None:
            ctx.count("disabled")
            continue
        for label in moves:
            mv = Move(MOVES[label], n)
            two = result(name, mv.mesh(s), mv, s)
            ctx.step()
            ctx.validated()
            if isinstance(one, tuple) or isinstance(two, tuple) or two is None:
                d = None if one == two else f"{two if isinstance(two, tuple) else 'another mesh'} instead of {one if isinstance(one, tuple) else 'a mesh'}"
            else:
                d = same(two, mv.mesh(one, renumber=False), mv.k * max(size, extent(one), np.abs(mv.t).max() / mv.k * 1e-2))
            expect(d is None, lambda: f"{where}: {name} after {label} differs from {label} after {name}: {d}")
    # queries of the mesh and of damaged ones
    for t in damaged(s):
        checks, lims, els = queries(t)
        for label in moves:
            mv = Move(MOVES[label], n)
            c2, _, e2 = queries(mv.mesh(t))
            ctx.step()
            expect(c2 == checks, lambda: f"{where}: the verdicts on the mesh are {checks}, after {label} {c2}")
            eps = 1e-8 * mv.k * max(size, np.abs(mv.t).max() / mv.k)
            for i, old in enumerate(mv.order):
                a, b = e2[i], els[old]
                pt = lambda p: np.append(mv.point(p)[:2], p[2]) if s["ndim"] == 2 else mv.point(p)
                ok = abs(a[1] - mv.k * b[1]) <= eps and all(np.abs(x - pt(y)).max() <= eps for x, y in zip([a[0], *a[2:]], [b[0], *b[2:]]))
                expect(ok, lambda: f"{where}: centres or edges of element {i} after {label}: {a} from {b}")


# operations that have nothing to do with each other, with the restriction under which they commute
INDEPENDENT = [
    ("rotate", "delete"), ("rotate", "keep_half"), ("rotate", "keep_odd"), ("rotate", "generate"), ("rotate", "extrude"), ("rotate", "extrude_ends"),
    ("rotate", "extrude_open"), ("rotate", "re2"), ("rotate", "nek"), ("map", "delete"), ("map", "keep_odd"), ("map_straight", "delete"), ("map_straight", "keep_tail"),
    ("delete", "re2"), ("delete", "nek"),
]  # fmt: skip


def apply(name, s):
    return result(name, s, ident(s["nel"]), s)


def commuting(s, where, ctx):
    for a, b in INDEPENDENT:
        ra, rb = apply(a, s), apply(b, s)
        if not isinstance(ra, dict) or not isinstance(rb, dict):
            ctx.count("disabled")
            continue
        ab, ba = apply(b, ra), apply(a, rb)
        ctx.step(2)
        if not isinstance(ab, dict) or not isinstance(ba, dict):
            expect(ab == ba, lambda: f"{where}: {a} then {b} gives {ab if isinstance(ab, tuple) else 'a mesh'}, the other order {ba if isinstance(ba, tuple) else 'a mesh'}")
            continue
        d = same(ab, ba, max(extent(ab), extent(ba)))
        ctx.validated()
        expect(d is None, lambda: f"{where}: {a} then {b} differs from {b} then {a}: {d}")
    layers(s, where, ctx)
    subsets(s, where, ctx)
    assembly(s, where, ctx)


def layers(s, where, ctx):
    """keep then extrude = extrude then keep the same columns"""
    from pymech.meshtools import extrude, keep_elements

    if s["ndim"] != 2:
        return
    z = [0.0, 0.5, 1.25]
    n = s["nel"]
    if n * 2 > c22.MAX3:
        return
    for sel in ([0], list(range(n))[1:] or [0], list(range(0, n, 2))):
        for bc in ("", "W"):
            m = snap.to_hexa(s)
            keep_elements(m, sel, bc)
            one = snap.snap(extrude(m, z, *ends(s)))
            m = extrude(snap.to_hexa(s), z, *ends(s))
            keep_elements(m, [i + k * n for k in range(2) for i in sel], bc)
            two = snap.snap(m)
            ctx.step(4)
            ctx.validated()
            d = same(one, two, extent(two))
            expect(d is None, lambda: f"{where}: keeping {sel} ({bc!r}) before extruding differs from keeping it afterwards: {d}")


def subsets(s, where, ctx):
    """keeping in two steps = keeping the common part"""
    from pymech.meshtools import keep_elements

    n = s["nel"]
    for a, b in itertools.product(([*range(n)][: (n + 2) // 2], [*range(0, n, 2)], [*range(n)]), repeat=2):
        both = [i for i in a if i in b]
        if not both:
            continue
        m = snap.to_hexa(s)
        keep_elements(m, a, "W")
        keep_elements(m, [sorted(a).index(i) for i in both], "W")
        k = snap.to_hexa(s)
        keep_elements(k, both, "W")
        ctx.step(3)
        ctx.validated()
        d = same(snap.snap(m), snap.snap(k), extent(s))
        expect(d is None, lambda: f"{where}: keeping {a} and then {both} differs from keeping {both}: {d}")


def assembly(s, where, ctx):
    """three copies in a row: both ways to put the brackets"""
    if s["nel"] * 3 > (c22.MAX2 if s["ndim"] == 2 else c22.MAX3) or any(bc[0] == "P" for e in s["elem"] for row in e["bcs"] for bc in row):
        return
    for axis in range(s["ndim"]):
        b = partner(s, axis)
        lo, hi = c22.bounds(s)
        c = Move(dict(shift=[2 * (hi[k] - lo[k]) * (k == axis) for k in range(3)]), s["nel"]).mesh(s)
        if not (c22.mergeable(s, b) and c22.mergeable(b, c) and c22.mergeable(s, c)):
            continue
        x, y = snap.to_hexa(s), snap.to_hexa(b)
        x.merge(y)
        x.merge(snap.to_hexa(c))
        y2 = snap.to_hexa(b)
        y2.merge(snap.to_hexa(c))
        z = snap.to_hexa(s)
        z.merge(y2)
        ctx.step(4)
        ctx.validated()
        d = same(snap.snap(x), snap.snap(z), extent(s) * 3)
        expect(d is None, lambda: f"{where}: merging along {axis} one after the other differs from merging the last two first: {d}")


def run(c, ctx):
    os.makedirs(ctx.scratch, exist_ok=True)
    SCRATCH[0] = ctx.scratch
    s = snap.snap(c22.start(c["start"]))
    where = "start"
    for name in c["hist"]:
        s = result(name, s, ident(s["nel"]), s)
        if s is None:
            return
        expect(isinstance(s, dict), lambda: f"{where} -> {name} raises")
        where += " -> " + name
    if c["what"] == "moves":
        squares(s, where, ctx, c["moves"])
    else:
        commuting(s, where, ctx)
    ctx.state(snap.digest(s))


def cases(deep):
    def gen():
        depth = 2 if deep else 1
        for st in c22.starts(deep):
            for d in range(depth + 1):
                for hist in itertools.product(OPS, repeat=d):
                    yield dict(start=st, hist=hist, what="commute")
                    if deep and d == 2:
                        yield dict(start=st, hist=hist, what="moves", moves=list(MOVES)[sum(map(len, hist)) % 2 :: 2])
                    else:
                        yield dict(start=st, hist=hist, what="moves", moves=list(MOVES))

    return gen


def spaces(tier):
    deep = tier == "thorough"
    n = len(c22.starts(deep))
    return [
        Space("squares", cases(deep), run, 1, timeout=1500 if deep else 300,
              bounds=f"all histories of up to {2 if deep else 1} of {len(OPS)} operations from {n} meshes; in every state {len(OPS)} operations and the queries x {len(MOVES)} transformations, {len(INDEPENDENT)} pairs of independent operations, keeping and extruding, keeping twice, merging three meshes"),
    ]
