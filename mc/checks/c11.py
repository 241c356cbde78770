"""C11: box meshes."""

import itertools

import numpy as np

from .. import meshmodel as mm
from .. import sizes, snap
from ..engine import Space, expect, fail

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of bounded box parameters, each generated mesh compared with a reference model and tiled"
RULE = (
    "a state is one generated mesh (parameters: counts, bounds, variables, conditions of each side and field, with or without "
    "internal conditions); every face, corner, condition and metadata item is compared with an independent model, and the "
    "elements are checked to tile the box"
)
ASSUMPTIONS = ["corner coordinates are compared with a relative tolerance of 1e-12 of the box"]

VARS = [[2, 2, 1, 0, 0], [2, 0, 0, 0, 0], [2, 2, 1, 1, 0], [2, 2, 1, 1, 2], [2, 2, 0, 0, 3], [2, 0, 0, 1, 0], [2, 0, 0, 0, 1]]
BOUNDS = [(0, 1, 0, 1), (-1.5, 2.25, 3.0, 3.1), (1e-6, 2e-6, -1e6, 1e6), (-7, -2, -0.3, 100), (0.1, 0.7, -1e-3, 1e-3)]


def nbc_of(var):
    return (var[1] > 0) + (var[3] > 0) + var[4]


SIDES = [  # (xmin, xmax, ymin, ymax): None or a list of types used field by field, cyclically
    [None, None, None, None],
    [["v"], ["O"], ["W"], ["SYM"]],
    [["W", "t", "f"], ["o", "I", "t"], ["ON", "f", "I"], ["mv", "t", "O"]],
    [None, None, ["W", "t"], ["v", "I"]],
    [["v", "t"], ["O", "I"], None, None],
    [["P", "W"], ["P", "O"], ["W", "P"], ["SYM", "P"]],
    [["W", "P", "t"], ["v", "P", "I"], ["P", "P", "W"], ["P", "P", "O"]],
    [["", "t"], ["O", ""], ["W"], [""]],
]


def args(c):
    nbc = nbc_of(c["var"])
    return [None if b is None else [b[f % len(b)] for f in range(nbc)] for b in c["sides"]]


def generate(c):
    from pymech.meshtools import gen_box

    s = args(c)
    kw = dict(bcs_xmin=s[0], bcs_xmax=s[1], bcs_ymin=s[2], bcs_ymax=s[3])
    kw = {k: v for k, v in kw.items() if v is not None}
    if not c["internal"]:
        kw["internal_bcs"] = False
    if c["var"] != [2, 2, 1, 0, 0]:
        kw["var"] = list(c["var"])
    return gen_box(c["nx"], c["ny"], *c["bounds"], **kw)


def run(c, ctx):
    got = snap.snap(generate(c))
    ctx.step()
    ctx.state(snap.digest(got))
    x0, x1, y0, y1 = c["bounds"]
    want = mm.box(c["nx"], c["ny"], *c["bounds"], c["var"], args(c), c["internal"])
    d = snap.diff(got, want, meta=("ndim", "nel", "ncurv", "nbc", "var", "lr1", "elmap"), fields=("vel", "pres", "temp", "scal"), bcs=False)
    d = d or mm.bcs_diff(got, want)
    expect(d is None, d)
    scale = np.array([max(abs(x0), abs(x1)), max(abs(y0), abs(y1)), 1.0]) * 1e-12
    for i, (g, w) in enumerate(zip(got["elem"], want["elem"])):
        err = np.abs(g["pos"] - w["pos"]).reshape(3, -1).max(axis=1)
        expect((err <= scale).all(), lambda: f"element {i}: corners {g['pos'].tolist()} instead of {w['pos'].tolist()}")
        expect(mm.quad_area(mm.loop2d(g)) > 0, f"element {i} is not counter-clockwise")
    area = sum(mm.quad_area(mm.loop2d(e)) for e in got["elem"])
    expect(abs(area - (x1 - x0) * (y1 - y0)) <= 1e-9 * abs((x1 - x0) * (y1 - y0)), f"the elements cover an area of {area}")
    ctx.validated()


def cases(n):
    def gen():
        for nx, ny in itertools.product(range(1, n + 1), repeat=2):
            for var, sides, internal in itertools.product(VARS, SIDES, (True, False)):
                yield dict(nx=nx, ny=ny, var=var, sides=sides, internal=internal, bounds=BOUNDS[(nx + ny) % 5])
        for b in BOUNDS:
            for nx, ny in itertools.product((1, 2, 3, 7, 10), repeat=2):
                yield dict(nx=nx, ny=ny, var=VARS[0], sides=SIDES[0], internal=True, bounds=b)
        for nx, ny in ((40, 1), (1, 37), (13, 17), (25, 24), (33, 31)):
            for sides in SIDES[:2]:
                yield dict(nx=nx, ny=ny, var=VARS[3], sides=sides, internal=True, bounds=BOUNDS[1])

    return gen


def size_cases(deep):
    for n in sizes.counts(4097 if deep else 1025):
        for k, (nx, ny) in enumerate(((n, 1), (1, n), (n, 2))):
            if n > 600 and k == 2 and not deep:
                continue
            yield dict(nx=nx, ny=ny, var=VARS[3 * (k % 2)], sides=SIDES[(n + k) % 2], internal=True, bounds=BOUNDS[(n + k) % 5])


def run_bad(c, ctx):
    from pymech.meshtools import gen_box

    try:
        gen_box(c["nx"], c["ny"], *c["bounds"])
    except Exception:
        ctx.step()
        ctx.state(c)
        ctx.validated()
        return
    fail("a box of non-positive size is accepted")


def bad():
    vals = [-1.0, 0.0, 1e-300, 2.0, 5]
    for x0, x1, y0, y1 in itertools.product(vals, repeat=4):
        if x1 <= x0 or y1 <= y0:
            for nx, ny in ((1, 1), (2, 3)):
                yield dict(nx=nx, ny=ny, bounds=[x0, x1, y0, y1])


def run_side(c, ctx):
    """Full product of conditions on the four sides of one field next to a fixed second field"""
    run(c, ctx)


def side_cases(types):
    def gen():
        for sx in types:
            for sy in types:
                for tx in types:
                    for ty in types:
                        if (sx == "P") != (tx == "P") or (sy == "P") != (ty == "P"):
                            continue
                        for nx, ny in ((1, 1), (1, 2), (2, 1), (3, 2)):
                            yield dict(nx=nx, ny=ny, var=[2, 2, 1, 1, 0], internal=True, bounds=(0, 2, -1, 1),
                                       sides=[[sx, "t"], [tx, "I"], [sy, "f"], [ty, "O"]])

    return gen


def spaces(tier):
    deep = tier == "thorough"
    n = 9 if deep else 5
    types = ["P", "W", "v", "SYM", "O", "", "mv", "ON"] if deep else ["P", "W", "SYM", "O", ""]
    return [
        Space("sizes", lambda: size_cases(deep), run, 4, timeout=600, bounds=f"rows, columns and double rows of 1 to 40 elements and both sides of all block sizes up to {4097 if deep else 1025}"),
        Space("box", cases(n), run, 32, bounds=f"nx, ny <= {n} (and up to 40), 7 variable lists, 8 choices of conditions, 5 boxes"),
        Space("sides", side_cases(types), run_side, 64, bounds=f"all four-tuples of side conditions from {types}, periodic in pairs"),
        Space("bad", bad, run_bad, 64, bounds="all bounds from five values with a non-positive size"),
    ]
