"""C12: disc meshes."""

import itertools
import math

import numpy as np

from .. import meshmodel as mm
from .. import snap
from ..engine import Space, expect

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of bounded disc parameters, each generated mesh checked for tiling, conformity and connectivity"
RULE = (
    "a state is one generated mesh (parameters: radius, square ratio, counts, conditions, spacing and curvature functions, with or "
    "without internal conditions); orientation, exact cover of the inscribed polygon, conformity of all faces, conditions, "
    "curvature and radial positions are checked on each"
)
ASSUMPTIONS = [
    "curvature functions are increasing with f(0)=0 and f(1)=1, spacing functions are increasing with b(0)=0 and b(1)=1",
    "geometric comparisons use a relative tolerance of 1e-9 of the radius",
]

CURV = {
    "default": None,
    "sqrt": lambda x: math.sqrt(1 - (1 - x) ** 2),
    "linear": lambda x: x,
    "square": lambda x: x * x,
    "cubic": lambda x: x * x * (3 - 2 * x),
}
BL = {
    "default": None,
    "linear": lambda x: x,
    "fine": lambda x: 1 - (1 - x) ** 2,
    "coarse": lambda x: x**1.5,
    "sin": lambda x: math.sin(0.5 * math.pi * x),
}
VARS = {1: [2, 2, 1, 0, 0], 2: [2, 2, 1, 1, 0], 4: [2, 2, 1, 1, 2], 0: [2, 0, 0, 0, 0]}
BCS = [["W"], ["v"], ["W", "t"], ["O", "I"], ["mv", "f", "t", "I"], []]


def generate(c):
    from pymech.meshtools import gen_circle

    kw = {}
    if c["curv"] != "default":
        kw["curvature_fun"] = CURV[c["curv"]]
    if c["bl"] != "default":
        kw["bl_fun"] = BL[c["bl"]]
    if c["bc"] != ["W"]:
        kw["bc"] = list(c["bc"])
        kw["var"] = list(VARS[len(c["bc"])])
    if not c["internal"]:
        kw["internal_bcs"] = False
    return gen_circle(c["r"], c["s"], c["ns"], c["no"], **kw)


def run(c, ctx):
    s = snap.snap(generate(c))
    ctx.step()
    ctx.state(snap.digest(s))
    r, ns, no, nbc = c["r"], c["ns"], c["no"], len(c["bc"])
    tol = 1e-9 * r
    expect(s["nel"] == len(s["elem"]) == ns * ns + 4 * ns * no, f"{s['nel']} elements")
    expect(s["elmap"] == list(range(1, s["nel"] + 1)), f"element map {s['elmap']}")
    expect((s["ndim"], s["lr1"], s["nbc"]) == (2, [2, 2, 1], nbc), f"ndim {s['ndim']} lr1 {s['lr1']} nbc {s['nbc']}")
    expect(s["var"] == VARS[nbc], f"var is {s['var']}")
    expect(s["ncurv"] == snap.count_curved(s) == 4 * ns, f"ncurv is {s['ncurv']}, {snap.count_curved(s)} edges are curved, expected {4 * ns}")
    p = mm.problems(s)
    expect(p is None, p)
    area = 0.0
    for i, e in enumerate(s["elem"]):
        loop = mm.loop2d(e)
        a = mm.quad_area(loop)
        expect(a > 0, f"element {i} is not counter-clockwise (area {a})")
        for k in range(4):
            u, v = loop[(k + 1) % 4] - loop[k], loop[(k + 2) % 4] - loop[(k + 1) % 4]
            expect(u[0] * v[1] - u[1] * v[0] > -1e-9 * r * r, f"element {i} is not convex at corner {k + 1}")
        expect(not e["pos"][2].any(), f"element {i} has non-zero z")
        area += a
    n = 4 * ns
    want = 0.5 * n * r * r * math.sin(2 * math.pi / n)
    expect(abs(area - want) <= 1e-9 * r * r, f"the elements cover {area} instead of {want}")
    # faces: pairs sharing both end points, and the others
    ends = {}
    faces = []
    for i, e in enumerate(s["elem"]):
        for f in range(4):
            a, b = (mm.corner(e, x)[:2] for x in mm.EDGES[f])
            faces.append((i, f, a, b))
    mids = np.array([(a + b) / 2 for _, _, a, b in faces])
    d = np.abs(mids[:, None, :] - mids[None, :, :]).max(axis=2)
    partner = {}
    for k, (i, f, a, b) in enumerate(faces):
        close = [m for m in np.nonzero(d[k] <= tol)[0] if m != k]
        expect(len(close) <= 1, f"face {f} of element {i} coincides with {len(close)} others")
        if close:
            j, g, x, y = faces[close[0]]
            expect(i != j and np.abs(a - y).max() <= tol and np.abs(b - x).max() <= tol,
                   f"face {f} of element {i} and face {g} of element {j} do not share their end points")
            partner[(i, f)] = (j, g)
    outer = [(i, f, a, b) for i, f, a, b in faces if (i, f) not in partner]
    expect(len(outer) == n, f"{len(outer)} faces have no neighbour, expected {n}")
    ang = sorted(math.atan2(a[1], a[0]) % (2 * math.pi) for _, _, a, _ in outer)
    for _, _, a, b in outer:
        expect(abs(np.linalg.norm(a) - r) <= tol and abs(np.linalg.norm(b) - r) <= tol, "an outer face is not on the circle")
        expect(a[0] * b[1] - a[1] * b[0] > 0, "an outer face is not traversed counter-clockwise")
    gaps = [(ang[(k + 1) % n] - ang[k]) % (2 * math.pi) for k in range(n)]
    expect(all(abs(x - 2 * math.pi / n) <= 1e-9 for x in gaps), "the outer vertices are not evenly spread over the circle")
    isouter = {(i, f) for i, f, _, _ in outer}
    for i, e in enumerate(s["elem"]):
        for f in range(12):
            if (i, f) in isouter:
                expect(e["ccurv"][f] == "C" and e["curv"][f][0] == r and not e["curv"][f][1:].any(),
                       f"outer face {f} of element {i} has curvature {e['ccurv'][f]!r} {e['curv'][f].tolist()}")
                m = mm.edge_mid(e, f)
                expect(abs(np.linalg.norm(m) - r) <= 1e-7 * r, f"the arc of face {f} of element {i} is not on the circle")
            else:
                expect(e["ccurv"][f] == "" and not e["curv"][f].any(), f"inner edge {f} of element {i} is curved")
    for k in range(nbc):
        for i, e in enumerate(s["elem"]):
            for f in range(6):
                bc = e["bcs"][k][f]
                if f >= 4:
                    expect(bc[0] == "", f"face {f} of element {i} has condition {bc}")
                elif (i, f) in isouter:
                    expect(bc[0] == c["bc"][k] and not any(bc[3:]), f"outer face {f} of element {i} field {k} has {bc}")
                elif c["internal"]:
                    j, g = partner[(i, f)]
                    expect(bc[0] == "E" and bc[3:5] == (j + 1, g + 1), f"face {f} of element {i} field {k}: {bc}, neighbour is {(j + 1, g + 1)}")
                else:
                    expect(bc[0] == "" and not any(bc[3:]), f"inner face {f} of element {i} field {k} has {bc}")
    # radial positions
    verts = np.array([mm.corner(e, (*x, 0))[:2] for e in s["elem"] for x in mm.LOOP])
    half = s_half = c["s"] * r / math.sqrt(2)
    bl = BL[c["bl"]]
    cf = CURV[c["curv"]] or (lambda x: math.sin(0.5 * math.pi * x) ** 2)

    def on_ray(angle):
        u = np.array([math.cos(angle), math.sin(angle)])
        t = verts @ u
        side = np.abs(verts @ np.array([-u[1], u[0]]))
        vals = np.sort(t[(side <= tol) & (t > c["s"] * r / math.sqrt(2) - tol)])
        out = [vals[0]]
        for v in vals[1:]:
            if v - out[-1] > tol:
                out.append(v)
        return np.array(out)

    for q in range(4):
        diag = on_ray(math.pi / 4 + q * math.pi / 2)
        diag = diag[diag > c["s"] * r - tol]
        expect(len(diag) == no + 1 or c["bl"] == "default" and len(diag) <= no + 1, f"{len(diag)} vertices on a diagonal instead of {no + 1}")
        eta = (diag - c["s"] * r) / (r * (1 - c["s"]))
        expect(abs(eta[0]) <= 1e-8 and abs(eta[-1] - 1) <= 1e-8, f"the diagonal goes from {diag[0]} to {diag[-1]}")
        if bl is not None:
            w = np.array([bl(k / no) for k in range(no + 1)])
            expect(np.abs(eta - w).max() <= 1e-8, f"radial positions {eta.tolist()} instead of {w.tolist()}")
        if ns % 2 == 0:
            mid = on_ray(q * math.pi / 2)
            if len(mid) == len(eta):
                g = np.array([cf(x) for x in np.clip(eta, 0, 1)])
                w = g * (half + eta * (r - half)) + (1 - g) * (half + eta * (r / math.sqrt(2) - half))
                expect(np.abs(mid - w).max() <= 1e-7 * r, f"positions {mid.tolist()} instead of {w.tolist()} on the axis")
    ctx.validated()


def cases(n, radii, ratios):
    def gen():
        for r, s, ns, no, internal in itertools.product(radii, ratios, range(1, n + 1), range(1, n + 1), (True, False)):
            yield dict(r=r, s=s, ns=ns, no=no, internal=internal, bc=BCS[(ns + no) % len(BCS)] if not internal else ["W"], curv="default", bl="default")
        for bc, internal, (ns, no) in itertools.product(BCS, (True, False), ((1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3))):
            yield dict(r=1.0, s=0.5, ns=ns, no=no, internal=internal, bc=bc, curv="default", bl="default")
        for curv, bl, r, s, ns, no in itertools.product(CURV, BL, (1.0, 0.03), (0.2, 0.5, 0.75), (1, 2, 3, 4), (1, 2, 4)):
            yield dict(r=r, s=s, ns=ns, no=no, internal=ns == 2, bc=["W"], curv=curv, bl=bl)
        for ns, no in ((6, 3), (1, 9), (7, 1), (8, 5)):
            yield dict(r=2.0, s=0.4, ns=ns, no=no, internal=False, bc=["W", "t"], curv="default", bl="default")

    return gen


def spaces(tier):
    if tier == "thorough":
        n, radii, ratios = 5, (1.0, 0.5, 3e-4, 12.0, 1e3), (0.05, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9)
    else:
        n, radii, ratios = 3, (1.0, 3e-4, 12.0), (0.1, 0.25, 0.5, 0.7, 0.9)
    return [
        Space("disc", cases(n, radii, ratios), run, 4,
              bounds=f"ns, no <= {n}, radii {radii}, ratios {ratios}; all pairs of 5 curvature and 5 spacing functions; 6 choices of conditions")
    ]
