"""C19: geometry queries and extrema."""

import itertools
import math

import numpy as np

from .. import data, meshes, sizes, snap
from .. import meshmodel as mm
from ..engine import Space, expect, fail

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of bounded element shapes, orders, types and value placements against definitions evaluated by an independent model"
RULE = (
    "a state is one element or mesh (every order up to the bound in each direction, both float types, every choice of shortest edge, "
    "every position of the extrema, every set of curved edges); each query is compared with its definition"
)
ASSUMPTIONS = ["elements have finite coordinates"]


def warp(s, seed=0):
    """Distinct, irregular coordinates"""
    for i, e in enumerate(s["elem"]):
        lz, ly, lx = e["pos"].shape[1:]
        k, j, i2 = np.meshgrid(range(lz), range(ly), range(lx), indexing="ij")
        e["pos"][0] = i2 + 0.2 * np.sin(1.3 * j + 2.1 * k + i2 + i + seed) + 3 * i
        e["pos"][1] = j + 0.2 * np.cos(1.7 * i2 + 0.9 * k + 3 * j + i + seed)
        e["pos"][2] = k + 0.2 * np.sin(0.6 * i2 + 1.9 * j + 2 * k + 2 * i + seed) if lz > 1 or seed % 2 else 0.0
    return s


def close(a, b, rtol, what):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    expect(a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=rtol), lambda: f"{what} is {a.tolist()} instead of {b.tolist()}")


def run_orders(c, ctx):
    lr = c["lr1"]
    nd = 3 if lr[2] > 1 else 2
    dt = c["dtype"]
    s = snap.blank(nd, c["nel"], lr, [nd, nd, 1, 1, 2], 1, dt)
    warp(s, c["seed"])
    for e in s["elem"]:
        e["pos"] *= c["unit"]
    s = snap.copy_snap(s)
    m = snap.to_hexa(s, dt)
    before = snap.digest(snap.snap(m))
    rt = 1e-12 if dt == "float64" else 2e-6
    exact = snap.snap(m)
    for i, el in enumerate(m.elem):
        e = exact["elem"][i]
        for f in range(6):
            # in 2D the faces 5 and 6 are the element itself
            got = el.face_center(f)
            want = sum(mm.corner(e, k) for k in mm.FACES[f]) / 4
            close(np.array(got) / c["unit"], want / c["unit"], rt, f"face_center({f}) of element {i}")
        close(np.array(el.centroid) / c["unit"], e["pos"].astype(float).reshape(3, -1).mean(1) / c["unit"], rt, f"centroid of element {i}")
        close(el.smallest_edge() / c["unit"], mm.smallest_edge(e, nd) / c["unit"], rt, f"smallest_edge of element {i}")
        for f in (-1, -6, 6, 7, 100):
            try:
                got = el.face_center(f)
            except Exception:
                continue
            fail(f"face_center({f}) gives {got} although there is no such face")
    pts = m.get_points()
    n = lr[0] * lr[1] * lr[2]
    expect(pts.shape == (c["nel"], n, 3), f"points of shape {pts.shape}")
    for i, e in enumerate(exact["elem"]):
        p = 0
        for iz, iy, ix in itertools.product(range(lr[2]), range(lr[1]), range(lr[0])):
            expect((pts[i, p] == e["pos"][:, iz, iy, ix]).all(), f"point {p} of element {i} is {pts[i, p]}")
            p += 1
    repr(m)
    repr(m.elem[0])
    expect(snap.digest(snap.snap(m)) == before, "a query modified the mesh")
    ctx.step(9 * c["nel"] + 1)
    ctx.state(c)
    ctx.validated(9 * c["nel"] + 1)


def orders(n):
    def gen():
        for lr in itertools.product(range(2, n + 1), range(2, n + 1), range(1, n + 1)):
            for dt, nel in itertools.product(("float64", "float32"), (1, 2)):
                for seed in (0, 1, 2):
                    yield dict(lr1=lr, dtype=dt, nel=nel, seed=seed, unit=(1.0, 1e-6, 1e5)[seed])

    return gen


def run_edge(c, ctx):
    """Move single vertices so that any edge is the shortest"""
    nd = c["ndim"]
    s = snap.blank(nd, 1, [2, 2, 2 if nd == 3 else 1], [nd, 0, 0, 0, 0], 0)
    e = s["elem"][0]
    lz = e["pos"].shape[1]
    for z, y, x in itertools.product(range(lz), range(2), range(2)):
        e["pos"][:, z, y, x] = (x * 2.0, y * 2.1, z * 2.2)
    a, b = mm.EDGES[c["edge"]]
    pa, pb = mm.corner(e, a), mm.corner(e, b)
    for q in (c["end"],):
        tgt = (a, b)[q]
        e["pos"][:, tgt[2] * (lz - 1), tgt[1], tgt[0]] += c["frac"] * ((pb - pa) if q == 0 else (pa - pb))
    th = c["angle"]
    r = np.array([[math.cos(th), -math.sin(th), 0], [math.sin(th), math.cos(th), 0], [0, 0, 1]])
    if nd == 3:
        r = r @ np.array([[1, 0, 0], [0, math.cos(th), -math.sin(th)], [0, math.sin(th), math.cos(th)]])
    e["pos"] = np.einsum("ij,jklm->iklm", r, e["pos"])
    el = snap.to_hexa(s).elem[0]
    close(el.smallest_edge(), mm.smallest_edge(e, nd), 1e-12, "smallest_edge")
    close(el.smallest_edge(), (1 - c["frac"]) * np.linalg.norm(pb - pa), 1e-9, "length of the shortened edge")
    ctx.step()
    ctx.state(c)
    ctx.validated()


def edges():
    for nd in (2, 3):
        for k in range(4 if nd == 2 else 12):
            for end, frac, angle in itertools.product((0, 1), (0.5, 0.9, 0.999), (0.0, 0.4, 2.0)):
                yield dict(ndim=nd, edge=k, end=end, frac=frac, angle=angle)


NAMES = ("pos", "vel", "pres", "temp", "scal")


def run_lims(c, ctx):
    """Extrema anywhere: element, variable, component and point"""
    var, lr = c["var"], c["lr1"]
    nd = 3 if lr[2] > 1 else 2
    s = snap.blank(nd, c["nel"], lr, var, 0, c["dtype"])
    data.fill_field(s, c["dtype"])
    for e in s["elem"]:
        for name in NAMES:
            e[name] *= np.dtype(c["dtype"]).type(0.01)
            e[name] += np.dtype(c["dtype"]).type(c["base"])
    if c.get("at"):
        name, comp, el, point, big = c["at"]
        a = s["elem"][el][name]
        a[comp].reshape(-1)[point] = big
    m = snap.to_hexa(s, c["dtype"])
    lims = m.lims
    before = snap.digest(snap.snap(m))
    for name, nc in zip(NAMES, (3, 3, var[2], var[3], var[4])):
        got = getattr(lims, name)
        expect(len(got) == nc, f"{len(got)} extrema for {name}, {nc} components")
        for k in range(nc):
            all_ = np.concatenate([e[name][k].reshape(-1) for e in s["elem"]])
            expect(
                tuple(got[k]) == (float(all_.min()), float(all_.max())),
                f"extrema of {name} {k} are {got[k]} instead of {(float(all_.min()), float(all_.max()))}",
            )
    for name in NAMES + ("_initialized", "other", "_variables"):
        try:
            setattr(lims, name, ((0.0, 1.0),))
        except Exception:
            continue
        fail(f"lims.{name} can be set")
    for name, nc in zip(NAMES, (3, 3, var[2], var[3], var[4])):
        val = getattr(lims, name)
        for target in [val] + list(val):
            try:
                target[0] = None
            except Exception:
                continue
            fail(f"lims.{name} can be modified in place")
    repr(lims)
    expect(snap.digest(snap.snap(m)) == before, "taking the extrema modified the mesh")
    # the extrema follow the mesh
    m.elem[-1].pos[0].reshape(-1)[0] = 1e6
    expect(m.lims.pos[0][1] == 1e6 and lims.pos[0][1] != 1e6, "the extrema do not follow the mesh")
    ctx.step(2)
    ctx.state(c)
    ctx.validated()


def lims(deep):
    def gen():
        for dt, lr, nel, var in itertools.product(
            ("float64", "float32"), ([2, 2, 1], [3, 4, 1], [2, 3, 4], [2, 2, 2]), (1, 2, 3, 5), ([3, 3, 1, 1, 2], [2, 2, 0, 0, 0], [3, 0, 0, 1, 0], [0, 3, 1, 0, 1])
        ):
            for base in (0.0, 5.0, -5.0):
                yield dict(dtype=dt, lr1=lr, nel=nel, var=var, base=base)
        var = [3, 3, 1, 1, 2]
        for lr in ([2, 2, 1], [2, 3, 2]) + (([3, 4, 2],) if deep else ()):
            n = int(np.prod(lr))
            for nel in (1, 2, 3):
                for name, nc in zip(NAMES, (3, 3, 1, 1, 2)):
                    for k, el, p, big in itertools.product(range(nc), range(nel), range(n), (99.0, -99.0)):
                        yield dict(dtype="float64", lr1=lr, nel=nel, var=var, base=0.0, at=[name, k, el, p, big])

    return gen


def run_big(c, ctx):
    """Extrema and points of many elements or many points, extrema at both ends and in the middle"""
    nd = 3 if c["lr1"][2] > 1 else 2
    s = snap.blank(nd, c["nel"], c["lr1"], [nd, nd, 1, 1, 2], 1)
    data.fill_field(s)
    npt = int(np.prod(c["lr1"]))
    for e in s["elem"]:
        for name in NAMES:
            e[name] *= 1e-6
    for k, (name, comp) in enumerate((("pos", 0), ("pos", 2), ("vel", 1), ("pres", 0), ("temp", 0), ("scal", 1))):
        at = {"first": 0, "middle": c["nel"] * npt // 2, "last": c["nel"] * npt - 1}[c["at"]]
        s["elem"][at // npt][name][comp].reshape(-1)[at % npt] = (-1) ** k * (100.0 + k)
    for i, e in enumerate(s["elem"]):
        for k in range(4):
            if (i * 4 + k) % 3 == 0:
                e["ccurv"][k] = "C"
    m = snap.to_hexa(s)
    values = check_lims(m.lims, s, "at first")
    pts = m.get_points()
    want = np.array([e["pos"].reshape(3, -1).T for e in s["elem"]])
    expect(pts.shape == want.shape and (pts == want).all(), "other points")
    m.update_ncurv()
    expect(m.ncurv == snap.count_curved(s), f"{m.ncurv} curved edges counted instead of {snap.count_curved(s)}")
    for i in sorted({0, c["nel"] // 2, c["nel"] - 1}):
        close(m.elem[i].centroid, s["elem"][i]["pos"].reshape(3, -1).mean(1), 1e-11, f"centroid of element {i}")
        for f in range(2 * nd):
            close(m.elem[i].face_center(f), mm.face_center(s["elem"][i], f), 1e-12, f"face_center({f}) of element {i}")
        close(m.elem[i].smallest_edge(), mm.smallest_edge(s["elem"][i], nd), 1e-12, f"smallest_edge of element {i}")
    ctx.state(c)
    ctx.step(6)
    ctx.validated(6)


def big(deep):
    def gen():
        for n in sizes.counts(4097 if deep else 1025):
            for k, at in enumerate(("first", "middle", "last")):
                yield dict(nel=n, lr1=[2, 2, 1 + (n + k) % 2], at=at)
        for n in list(range(2, 34)) + [64, 65, 99]:
            for at in ("first", "middle", "last"):
                yield dict(nel=2, lr1=[n, n, 1], at=at)
                if n < 34 or (deep and n < 66):
                    yield dict(nel=1, lr1=[n, n, n], at=at)

    return gen


def run_ncurv(c, ctx):
    s = meshes.structured(c["dims"], nbc=0)
    n = 0
    for i, e in enumerate(s["elem"]):
        for k in range(12):
            if c["masks"][i] >> k & 1:
                e["ccurv"][k] = ("C", "m", "s", "e", "fx")[(i + k) % 5]
                n += 1
    s["ncurv"] = c["stale"]
    m = snap.to_hexa(s)
    m.update_ncurv()
    expect(m.ncurv == n, f"{m.ncurv} curved edges counted, there are {n}")
    got = snap.snap(m)
    s["ncurv"] = n
    d = snap.diff(got, s)
    expect(d is None, d)
    m.update_ncurv()
    expect(m.ncurv == n, "the count is not stable")
    ctx.step(2)
    ctx.state(c)
    ctx.validated(2)


def ncurv(deep):
    def gen():
        for mask in range(4096):
            if deep or mask % 4 == 0 or bin(mask).count("1") <= 2:
                yield dict(dims=[1, 1, 1], masks=[mask], stale=mask % 3)
        for a, b in itertools.product(range(16), repeat=2):
            yield dict(dims=[2, 1], masks=[a, b], stale=7)
        for k in range(12):
            yield dict(dims=[1, 3, 1], masks=[0, 1 << k, 4095 ^ (1 << k)], stale=0)

    return gen


def _pos(i, where, val):
    def change(m):
        m.elem[i].pos[(..., *where)] = val

    return change


def _whole(i, name, f):
    def change(m):
        a = getattr(m.elem[i], name)
        setattr(m.elem[i], name, f(a))

    return change


def _swap(m):
    m.elem[0], m.elem[-1] = m.elem[-1], m.elem[0]


def _drop(m):
    if m.nel > 1:
        del m.elem[0]
        m.nel -= 1


def _dup(m):
    import copy

    m.elem.append(copy.deepcopy(m.elem[0]))
    m.elem[-1].pos += 1.5
    m.nel += 1


def _list(m):
    m.elem = list(reversed(m.elem))


def _curve(m):
    m.elem[-1].ccurv[2] = "" if m.elem[-1].ccurv[2] else "C"


def _curve_list(m):
    m.elem[0].ccurv = ["m" if not c else "" for c in m.elem[0].ccurv]


CHANGES = {
    "corner": _pos(0, (0, 0, 0), -4.0),
    "inner": _pos(-1, (0, 1, 1), 9.5),
    "end": _pos(-1, (-1, -1, -1), 30.25),
    "scale": lambda m: [el.pos.__imul__(1.5) for el in m.elem],
    "replace": _whole(0, "pos", lambda a: 2.0 * a - 1.0),
    "velocity": _whole(-1, "vel", lambda a: a + 50.0),
    "scalar": lambda m: m.elem[0].scal.__isub__(70.0),
    "pressure": lambda m: m.elem[-1].pres.fill(-3.5),
    "swap": _swap,
    "drop": _drop,
    "copy": _dup,
    "list": _list,
    "curve": _curve,
    "curves": _curve_list,
}


def ask(m, s, ctx, where):
    nd = s["ndim"]
    for i, (el, e) in enumerate(zip(m.elem, s["elem"])):
        for f in range(2 * nd):
            close(el.face_center(f), mm.face_center(e, f), 1e-12, f"{where}: face_center({f}) of element {i}")
        close(el.centroid, e["pos"].reshape(3, -1).mean(1), 1e-12, f"{where}: centroid of element {i}")
        close(el.smallest_edge(), mm.smallest_edge(e, nd), 1e-12, f"{where}: smallest_edge of element {i}")
    pts = m.get_points()
    want = np.array([e["pos"].reshape(3, -1).T for e in s["elem"]])
    expect(pts.shape == want.shape and (pts == want).all(), f"{where}: other points")
    lims = m.lims
    values = check_lims(lims, s, where)
    m.update_ncurv()
    expect(m.ncurv == snap.count_curved(s), f"{where}: {m.ncurv} curved edges counted instead of {snap.count_curved(s)}")
    ctx.step(3 + 8 * len(s["elem"]))
    ctx.validated(3 + 8 * len(s["elem"]))
    return lims, values


def check_lims(lims, s, where):
    values = {}
    for name in NAMES:
        got = np.array(getattr(lims, name), dtype=float).reshape(-1, 2)
        want = np.array([(min(float(e[name][k].min()) for e in s["elem"]), max(float(e[name][k].max()) for e in s["elem"])) for k in range(len(s["elem"][0][name]))]).reshape(-1, 2)
        expect(got.shape == want.shape and (got == want).all(), lambda: f"{where}: extrema of {name} are {got.tolist()} instead of {want.tolist()}")
        values[name] = want
    return values


def run_again(c, ctx):
    """The queries follow every change of the mesh"""
    s = snap.blank(c["ndim"], c["nel"], c["lr1"], [c["ndim"], c["ndim"], 1, 1, 2], 1)
    data.fill_field(s)
    warp(s, 1)
    m = snap.to_hexa(s)
    got = [ask(m, s, ctx, "at first")]
    done = []
    for name in c["changes"]:
        CHANGES[name](m)
        done.append(name)
        s = snap.snap(m)
        if not c["between"] and len(done) < len(c["changes"]):
            continue
        got.append(ask(m, s, ctx, "after " + ", ".join(done)))
        ctx.state((c["ndim"], c["nel"], snap.digest(s)))
    for k, (lims, values) in enumerate(got):
        for name in NAMES:
            a = np.array(getattr(lims, name), dtype=float).reshape(-1, 2)
            expect((a == values[name]).all(), lambda: f"extrema taken earlier changed with the mesh ({', '.join(done)})")


def again(deep):
    def gen():
        for nd, nel, lr in ((2, 2, [3, 3, 1]), (3, 1, [2, 3, 2])) + (((2, 3, [4, 3, 1]), (3, 2, [3, 3, 3])) if deep else ()):
            for seq in itertools.product(CHANGES, repeat=3 if nel > 1 or deep else 2):
                yield dict(ndim=nd, nel=nel, lr1=lr, changes=seq, between=True)
            for seq in itertools.product(CHANGES, repeat=2):
                yield dict(ndim=nd, nel=nel, lr1=lr, changes=seq, between=False)

    return gen


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("sizes", big(deep), run_big, 4, timeout=600, bounds=f"1 to 40 elements and both sides of all block sizes up to {4097 if deep else 1025}, orders up to 33"),
        Space("orders", orders(8 if deep else 5), run_orders, 32, bounds=f"all orders up to {8 if deep else 5} in each direction, both float types, three units"),
        Space("edges", edges, run_edge, 32, bounds="every edge made the shortest by moving either end, three orientations"),
        Space("lims", lims(deep), run_lims, 32, bounds="extremum at every element, variable, component and point; 1 to 5 elements"),
        Space("again", again(deep), run_again, 64, bounds=f"all sequences of three changes out of {len(CHANGES)}, all queries after every change"),
        Space("ncurv", ncurv(deep), run_ncurv, 128, bounds="sets of curved edges of one to three elements"),
    ]
