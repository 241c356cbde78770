"""C39: renumbering of links when elements are inserted or removed."""

import itertools

import numpy as np

from .. import layouts, meshes, sizes, snap
from .. import meshmodel as mm
from ..engine import Space, expect

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of bounded meshes, offsets, first elements and sequences of calls, compared with a reference model"
RULE = (
    "a state is one mesh after a sequence of renumberings (offset, first element); every link and own number must be that of a model, everything else "
    "unchanged; a block of elements inserted in the gap, or removed before closing it, must leave every link mutual"
)
ASSUMPTIONS = []


def offset(s, k, first):
    t = snap.copy_snap(s)
    for iel, e in enumerate(t["elem"]):
        for row in e["bcs"]:
            for face in range(mm.nfaces(s)):
                typ, own, of, p1, *rest = row[face]
                if typ in ("E", "P") and int(p1) > first:
                    p1 += k
                if iel >= first and own > first:
                    own += k
                row[face] = (typ, own, of, p1, *rest)
    return t


def apply(m, k, first, how):
    if how == "default" and first == 0:
        m.offset_connectivity(k)
    elif how == "keyword":
        m.offset_connectivity(offset=k, iel_min=first)
    else:
        m.offset_connectivity(k, first)


def run(c, ctx):
    m = snap.to_hexa(meshes.of(c["mesh"]))
    want = snap.snap(m)
    for k, first in c["calls"]:
        apply(m, k, first, c["how"])
        ctx.step()
        want = offset(want, k, first)
        got = snap.snap(m)
        d = snap.diff(got, want, dtype=True)
        expect(d is None, lambda: f"after {k} from {first}: {d}")
        ctx.state(snap.digest(got))
        ctx.validated()


def cases(deep):
    def gen():
        grids = [[1, 1], [3, 2], [4, 1], [2, 1, 2]] + ([[3, 3], [2, 2, 2]] if deep else [])
        for dims, (nbc, ext), internal in itertools.product(grids, ((1, "walls"), (2, "pp"), (3, "mixed"), (1, "px"), (0, "none"), (2, "holes")), (True, False)):
            n = int(np.prod(dims))
            mesh = dict(dims=dims, nbc=nbc, ext=ext, internal=internal, curves="some")
            for first, k in itertools.product(range(n + 1), (0, 1, 2, 5, 1000)):
                for how in ("default", "keyword", "plain"):
                    yield dict(mesh=mesh, calls=[[k, first]], how=how)
            for a, b in itertools.product(range(n + 1), repeat=2):
                for j, k in ((1, 1), (3, -3), (2, 5)):
                    if k < 0 and a != b:  # numbers would collide
                        continue
                    yield dict(mesh=mesh, calls=[[j, a], [k, b]], how="plain")
            if deep:
                for a, b, d in itertools.product(range(0, n + 1), repeat=3):
                    yield dict(mesh=mesh, calls=[[1, a], [2, b], [4, d]], how="plain")

    return gen


def size_cases(deep):
    def gen():
        for n in (32769, 65537) if deep else (32769,):
            yield dict(mesh=dict(dims=[n, 1], nbc=1, ext="px"), calls=[[n, n // 2]], how="plain")
        for n in sizes.counts(1025 if deep else 513):
            for first in sorted({0, n // 2, n - 1, n}):
                for k in (1, n):
                    yield dict(mesh=dict(dims=[n, 1, 1][: 2 + n % 2], nbc=2, ext="px"), calls=[[k, first]], how="plain")

    return gen


def mutual(s):
    """First link that does not come back, or None"""
    for iel, e in enumerate(s["elem"]):
        for f, row in enumerate(e["bcs"]):
            for face in range(mm.nfaces(s)):
                bc = row[face]
                if bc[1] and bc[1] != iel + 1:
                    return f"element {iel + 1} has own number {bc[1]}"
                if bc[0] not in ("E", "P"):
                    continue
                j, g = int(bc[3]) - 1, int(bc[4]) - 1
                if not (0 <= j < len(s["elem"]) and 0 <= g < mm.nfaces(s)):
                    return f"element {iel + 1} face {face + 1} points to {j + 1}, {g + 1}"
                back = s["elem"][j]["bcs"][f][g]
                if back[0] != bc[0] or int(back[3]) - 1 != iel or int(back[4]) - 1 != face:
                    return f"element {iel + 1} face {face + 1} points to element {j + 1} face {g + 1}, which does not point back"
    return None


def run_insert(c, ctx):
    """Insert the elements of another mesh at a position"""
    m = snap.to_hexa(meshes.of(c["mesh"]))
    o = snap.to_hexa(meshes.of(c["other"]))
    at = c["at"]
    m.offset_connectivity(o.nel, at)
    o.offset_connectivity(at)
    m.elem[at:at] = o.elem
    m.nel += o.nel
    ctx.step(2)
    s = snap.snap(m)
    msg = mutual(s)
    expect(msg is None, lambda: f"inserting {o.nel} elements at {at}: {msg}")
    # and take them out again
    del m.elem[at : at + o.nel]
    m.nel -= o.nel
    m.offset_connectivity(-o.nel, at)
    # links of elements at and beyond the removed block were larger than the block, so nothing collides
    ctx.step()
    d = snap.diff(snap.snap(m), meshes.of(c["mesh"]))
    expect(d is None, lambda: f"removing the {o.nel} elements at {at} again: {d}")
    ctx.state(c)
    ctx.validated()


def insert_cases(deep):
    def gen():
        for dims, other in itertools.product(([3, 2], [2, 2], [5, 1]), ([1, 1], [2, 1], [2, 2])):
            for nbc, ext, oext in ((1, "walls", "walls"), (2, "pp", "px"), (3, "mixed", "walls"), (1, "px", "pp")):
                for at in range(int(np.prod(dims)) + 1):
                    yield dict(mesh=dict(dims=dims, nbc=nbc, ext=ext), other=dict(dims=other, nbc=nbc, ext=oext), at=at)

    return gen


def spaces(tier):
    deep = tier == "thorough"
    out = [
        Space("sizes", size_cases(tier == "thorough"), run, 8, timeout=600,
              bounds="rows of 1 to 40 elements and both sides of all block sizes up to " + ("1025" if tier == "thorough" else "513")),
        Space("offsets", cases(deep), run, 64, bounds="meshes of up to " + ("nine" if deep else "six") + f" elements, every first element, five offsets, sequences of up to {3 if deep else 2} calls"),
        Space("inserted", insert_cases(deep), run_insert, 32, bounds="every position in meshes of up to six elements, blocks of one to four elements"),
    ]
    return out + [layouts.space(out[1:], 200 if deep else 50)]
