"""C23: field files opened as datasets."""

import itertools
import math

import numpy as np

from .. import codecs, data, sizes, snap
from ..engine import Space, expect, fail

LEVEL = "model_checking"
TECHNIQUE = (
    "exhaustive enumeration of bounded box meshes (all element orders), variables and deformations, each dataset compared node by node with the field"
)
RULE = (
    "a state is one field file opened as a dataset (every numbering of the elements of bounded boxes, orders, variables, every subset of "
    "the elements, reversed, turned or deformed elements); the dataset is compared as the set of all (coordinates, values) with the nodes"
)
ASSUMPTIONS = [
    "grid points more than 1e-7 apart and lines of points straight to 1e-9",
    "velocity components absent from the file may be present as zeros",
    "a mesh that is not a box may also be opened if all its nodes are labelled correctly",
]


def lines(n, m, grade, lo, scale):
    """Grid points of n elements of m points along a direction"""
    x = [lo]
    for i in range(n):
        x.append(x[-1] + scale * (1 + grade * (i % 3)))
    out = []
    for a, b in zip(x, x[1:]):
        if m == 1:
            out.append(np.array([lo]))
        else:
            # exact ends, increasing in between
            t = [0.5 - 0.5 * math.cos(math.pi * k / (m - 1)) for k in range(m)]
            p = np.array([a + (b - a) * u for u in t])
            p[0], p[-1] = a, b
            out.append(p)
    return out


def build(c):
    lr = c["lr1"]
    nd = 3 if lr[2] > 1 else 2
    dims = list(c["dims"]) + [1] * (3 - len(c["dims"]))
    v = c.get("var", [1, 1, 1, 1, 1])
    s = data.field(nd, lr, int(np.prod(dims)), v, time=c.get("time", 0.5), wdsz=c.get("wdsz", 8), endian=c.get("endian", "little"), flat=c.get("flat"))
    if not v[1]:
        for e in s["elem"]:
            e["vel"][...] = 0
    sc = c.get("scale", 1.0)
    lin = [lines(dims[a], lr[a], c.get("grade", 0), c.get("lo", [0.0, -1.0, 2.0])[a] * sc, sc) for a in range(3)]
    order = c.get("perm") or list(range(s["nel"]))
    if order == "shuffled":
        order = [i - 1 for i in sizes.shuffled(s["nel"])]
    for pos, i in enumerate(order):
        e = s["elem"][i]
        idx = np.unravel_index(pos, dims[::-1])[::-1]
        z, y, x = np.meshgrid(lin[2][idx[2]], lin[1][idx[1]], lin[0][idx[0]], indexing="ij")
        e["pos"][0], e["pos"][1], e["pos"][2] = x, y, z
        if nd == 2:
            e["pos"][2] = 0
    if c.get("keep"):
        s["elem"] = [s["elem"][i] for i in c["keep"]]
        s["nel"] = len(s["elem"])
        s["elmap"] = list(range(1, s["nel"] + 1))
    for d in c.get("deform", ()):
        deform(s, d)
    if c.get("map") is not None:
        maps = data.some_maps(s["nel"])
        s["elmap"] = maps[c["map"] % len(maps)]
    return s


def deform(s, d):
    kind, els, val = d
    for i in els if els is not None else range(s["nel"]):
        e = s["elem"][i]
        p = e["pos"]
        if kind == "flip":  # storage order reversed along some directions
            for name in snap.FIELDS:
                e[name] = np.ascontiguousarray(np.flip(e[name], [3 - a for a in val]))
        elif kind == "turn":  # directions exchanged
            for name in snap.FIELDS:
                e[name] = np.ascontiguousarray(np.transpose(e[name], [0] + [1 + a for a in val]))
        elif kind == "turnflip":
            for name in snap.FIELDS:
                e[name] = np.ascontiguousarray(np.flip(np.swapaxes(e[name], 2, 3), val))
        elif kind == "rotate":
            x, y = p[0].copy(), p[1].copy()
            p[0], p[1] = math.cos(val) * x - math.sin(val) * y, math.sin(val) * x + math.cos(val) * y
        elif kind == "shear":
            a, b, v = val
            p[a] = p[a] + v * p[b]
        elif kind == "bump":
            comp, point, v = val
            p[comp].reshape(-1)[point] += v
        elif kind == "swap":  # two nodes exchanged
            i, j = val
            for a in range(3):
                q = p[a].reshape(-1)
                q[[i, j]] = q[[j, i]]
        elif kind == "interior":  # other points in between, same ends
            a, v = val
            sl = [slice(None)] * 3
            sl[2 - a] = slice(1, -1)
            p[a][tuple(sl)] += v
        elif kind == "move":
            a, v = val
            p[a] += v
        else:
            raise AssertionError(kind)


NAMES = ("xmesh", "ymesh", "zmesh", "ux", "uy", "uz")


def variables(s):
    """name -> (attribute, component) of what the file holds"""
    out = {"xmesh": ("pos", 0), "ymesh": ("pos", 1), "zmesh": ("pos", 2), "ux": ("vel", 0), "uy": ("vel", 1), "uz": ("vel", 2)}
    if s["var"][2]:
        out["pressure"] = ("pres", 0)
    if s["var"][3]:
        out["temperature"] = ("temp", 0)
    for k in range(s["var"][4]):
        out[f"s{k + 1:02d}"] = ("scal", k)
    return out


def stored(s, wdsz):
    """The field as the file holds it"""
    t = snap.copy_snap(s)
    if wdsz == 4:
        for e in t["elem"]:
            for name in snap.FIELDS:
                e[name] = e[name].astype("f4").astype("f8")
    return t


def judge(ds, s, wdsz, dropped=(), optional=()):
    """Compare a dataset with the nodes of the field; returns a message or None"""
    t = stored(s, wdsz)
    lx, ly, lz = s["lr1"]
    total = s["nel"] * lx * ly * lz
    for d in "xyz":
        if d not in ds.coords or ds[d].dims != (d,):
            return f"no dimension coordinate {d}"
    if float(ds.coords["time"]) != s["time"]:
        return f"time is {float(ds.coords['time'])} instead of {s['time']}"
    want = {k: v for k, v in variables(s).items() if k not in dropped}
    got = set(ds.data_vars)
    if got != set(want):
        return f"variables {sorted(got)} instead of {sorted(want)}"
    x, y, z = (np.asarray(ds[d].values, float) for d in "xyz")
    if len(x) * len(y) * len(z) != total:
        return f"{len(x)} x {len(y)} x {len(z)} points, the file has {total}"
    zz, yy, xx = np.meshgrid(z, y, x, indexing="ij")
    cols = [xx.ravel(), yy.ravel(), zz.ravel()]
    ref = [np.concatenate([e["pos"][a].ravel() for e in t["elem"]]) for a in range(3)]
    for name in sorted(want):
        a = ds[name]
        if set(a.dims) != set("xyz"):
            return f"{name} has dimensions {a.dims}"
        cols.append(np.asarray(a.transpose("z", "y", "x").values, float).ravel())
        attr, k = want[name]
        ref.append(np.concatenate([e[attr][k].ravel() for e in t["elem"]]))
    ra = [np.round(c, 7) if i < 3 else c for i, c in enumerate(cols)]
    rb = [np.round(c, 7) if i < 3 else c for i, c in enumerate(ref)]
    # every node has different values, so sort by these (if there are any) and compare the coordinates
    keys_a, keys_b = ra[3:] + ra[:3], rb[3:] + rb[:3]
    oa, ob = np.lexsort(keys_a[::-1]), np.lexsort(keys_b[::-1])
    for n, (ca, cb) in enumerate(zip(cols, ref)):
        p, q = ca[oa], cb[ob]
        bad = np.abs(p - q) > 1e-7 if n < 3 else ~(p == q)
        if bad.any():
            i = int(np.argmax(bad))
            name = "xyz"[n] if n < 3 else sorted(want)[n - 3]
            return f"{name} is {p[i]} instead of {q[i]} at ({ref[0][ob][i]}, {ref[1][ob][i]}, {ref[2][ob][i]})"
    return None


def opener(how):
    import pymech as pm
    import xarray as xr

    if how == "xarray":
        return lambda p, **kw: xr.open_dataset(p, engine="pymech", **kw)
    if how == "guess":
        return lambda p, **kw: xr.open_dataset(p, **kw)
    return pm.open_dataset


def run(c, ctx):
    s = build(c)
    path = ctx.path("a.f00001")
    with open(path, "wb") as fh:
        fh.write(codecs.nek_field(s, s["wdsz"], s["endian"]))
    kw = {}
    drop = c.get("drop")
    if drop:
        kw["drop_variables"] = drop
    ds = None
    try:
        ds = opener(c.get("how"))(path, **kw)
    except Exception as err:
        if not c.get("deform") and not c.get("partial"):
            raise
        expect(c.get("must") != "open", lambda: f"refused: {err!r}")
        ctx.count("refused")
    ctx.step()
    ctx.state(c)
    ctx.validated()
    if ds is None:
        return
    msg = judge(ds, s, s["wdsz"], drop if isinstance(drop, (list, tuple)) else [drop] if drop else ())
    expect(msg is None, lambda: f"mislabelled: {msg}" if c.get("deform") or c.get("partial") else msg)
    expect(c.get("must") != "refuse", "a mesh that is not a box aligned with its elements is opened")
    ctx.count("opened")
    ds.close()


def orders(deep):
    def gen():
        n = 5 if deep else 4
        for lr in itertools.product(range(2, n + 1), range(2, n + 1), range(1, n + 1)):
            nd = 3 if lr[2] > 1 else 2
            for dims in ([1, 1, 1][:nd], [2, 2, 1][:nd], [2, 1, 2][:nd]):
                yield dict(lr1=lr, dims=dims, map=sum(lr), grade=0.5)

    return gen


def size_cases(deep):
    for n in sizes.counts(129 if deep else 40, 40 if deep else 20):
        for k, perm in enumerate((None, "shuffled")):
            yield dict(lr1=[2, 3, 1] if k else [2, 2, 2], dims=[[n, 1, 1], [1, n, 1], [1, 1, n]][n % (2 if k else 3)][: 3 - k], perm=perm, map=n % 4)
    for n in list(range(5, 17)) + [20, 25, 32, 33]:
        yield dict(lr1=[n, 3, 1], dims=[2, 1], map=1)
        yield dict(lr1=[3, n, 2], dims=[1, 2, 1], map=1)
        yield dict(lr1=[2, 2, n], dims=[1, 1, 2], map=1)
        yield dict(lr1=[n, n, 1], dims=[2, 2], perm="shuffled", map=2)
    if deep:
        yield dict(lr1=[4, 4, 4], dims=[5, 5, 5], perm="shuffled", map=2, grade=0.1)
        yield dict(lr1=[3, 3, 1], dims=[20, 13], perm="shuffled", map=2, grade=0.1)


def perms(deep):
    def gen():
        grids = [([2, 1], [3, 2, 1]), ([1, 3], [2, 2, 1]), ([2, 2], [2, 3, 1]), ([2, 1, 2], [2, 2, 2]), ([1, 2, 2], [2, 3, 2])]
        for dims, lr in grids:
            for p in itertools.permutations(range(int(np.prod(dims)))):
                for m in (0, 1) if sum(p[::2]) % 2 else (2,):
                    yield dict(lr1=lr, dims=dims, perm=p, map=m, grade=0.3)
        for k, p in enumerate(itertools.permutations(range(6))):
            if True:
                yield dict(lr1=[2, 2, 1], dims=[3, 2], perm=p, map=k % 4, grade=0.0)
        if deep:
            for k, p in enumerate(itertools.permutations(range(8))):
                if k % 17 == 0:
                    yield dict(lr1=[2, 2, 2], dims=[2, 2, 2], perm=p, map=k % 4)
        # larger boxes
        for dims, lr in (([5, 4], [3, 3, 1]), ([3, 2, 2], [3, 2, 4]), ([1, 1, 6], [2, 2, 3]), ([12, 1], [2, 2, 1])):
            n = int(np.prod(dims))
            for p in (list(range(n)), list(range(n))[::-1], [(7 * i + 3) % n if n % 7 else i for i in range(n)]):
                for m in range(4):
                    yield dict(lr1=lr, dims=dims, perm=p, map=m, grade=0.2)

    return gen


def variables_space(deep):
    def gen():
        for v in itertools.product((0, 1), (0, 1), (0, 1), (0, 1, 2, 3, 12)):
            for lr, wdsz, endian in (([2, 3, 1], 8, "little"), ([2, 2, 2], 4, "big")):
                for time in (0.0, 1234.56789, -2.1, 3.3333333333e-6, 16666666.16, 2.5e-13):
                    yield dict(lr1=lr, dims=[2, 1] if lr[2] == 1 else [2, 1, 1], var=[1, *v], wdsz=wdsz, endian=endian, time=time, map=1)
        for flat in data.flat_cases([1, 1, 1, 2]):
            for lr in ([2, 3, 1], [2, 2, 2]):
                yield dict(lr1=lr, dims=[2, 1] if lr[2] == 1 else [1, 2, 1], var=[1, 1, 1, 1, 2], map=1, flat=flat)
        for scale in (1e-6, 1e-5, 1e-4, 1e-3, 0.1, 10.0, 1e4):
            for lo in ([0, 0, 0], [-3.5, 100.0, 7.0], [-1, -1, -1]):
                for lr, wdsz in (([3, 3, 1], 8), ([3, 2, 3], 8), ([3, 3, 1], 4)):
                    yield dict(lr1=lr, dims=[2, 2], scale=scale, lo=lo, wdsz=wdsz, grade=0.25)
        names = ["xmesh", "ymesh", "zmesh", "ux", "uy", "uz", "pressure", "temperature", "s01", "s02"]
        for how in (None, "xarray", "guess"):
            yield dict(lr1=[2, 2, 1], dims=[2, 1], var=[1, 1, 1, 1, 2], how=how)
            for n in names:
                yield dict(lr1=[2, 2, 1], dims=[2, 1], var=[1, 1, 1, 1, 2], drop=[n], how=how)
                if how != "guess":
                    yield dict(lr1=[2, 2, 1], dims=[2, 1], var=[1, 1, 1, 1, 2], drop=n, how=how)
            for pair in itertools.combinations(names, 2):
                if how is None or deep:
                    yield dict(lr1=[2, 2, 2], dims=[2, 1], var=[1, 1, 1, 1, 2], drop=list(pair), how=how)
            yield dict(lr1=[2, 2, 2], dims=[2, 1], var=[1, 1, 1, 1, 2], drop=names, how=how)

    return gen


def deformed(deep):
    def gen():
        two = [(dict(dims=[2, 1], lr1=[3, 3, 1])), dict(dims=[1, 2], lr1=[2, 2, 1]), dict(dims=[2, 2], lr1=[2, 2, 1]), dict(dims=[1, 1], lr1=[3, 3, 1])]
        three = [dict(dims=[2, 1, 1], lr1=[2, 2, 2]), dict(dims=[1, 1, 2], lr1=[3, 3, 3])]
        for base in two + three:
            nd = len(base["dims"])
            n = int(np.prod(base["dims"]))
            subsets = [[i for i in range(n) if k >> i & 1] for k in range(1, 2**n)]
            flips = [list(f) for k in range(1, nd + 1) for f in itertools.combinations(range(nd), k)]
            turns = [list(t) for t in itertools.permutations(range(3)) if (nd == 3 or t[0] == 0) and list(t) != [0, 1, 2]]
            for els in subsets:
                for f in flips:
                    yield dict(base, deform=[["flip", els, f]])
                for t in turns:
                    # directions exchanged: only correct for meshes of single points along a direction
                    yield dict(base, deform=[["turn", els, t]])
                yield dict(base, deform=[["turnflip", els, 2]])
                yield dict(base, deform=[["turnflip", els, 3]])
                for v in (1e-6, 1e-3, 0.2, math.pi / 2, math.pi):
                    yield dict(base, deform=[["rotate", els, v]], **({"must": "refuse"} if v < 1 else {}))
                for a, b in itertools.permutations(range(nd), 2):
                    for v in (1e-6, 0.1):
                        yield dict(base, deform=[["shear", els, [a, b, v]]], must="refuse")
                for a in range(nd):
                    if base["lr1"][a] > 2:
                        for v in (1e-6, 0.05):
                            yield dict(base, deform=[["interior", els, [a, v]]])
                    for v in (0.25, -0.25, 1.0, 1e-6):
                        yield dict(base, deform=[["move", els, [a, v]]])
            npt = int(np.prod(base["lr1"]))
            for i, comp, point, v in itertools.product(range(n), range(nd), range(npt), (1e-6, 0.3)):
                yield dict(base, deform=[["bump", [i], [comp, point, v]]], must="refuse")
            for i in range(n):
                for a, b in itertools.combinations(range(npt), 2):
                    yield dict(base, deform=[["swap", [i], [a, b]]], must="refuse")
        # a few nodes of elements of high order: corners, edges, inside
        for lr, dims in (([5, 5, 1], [2, 1]), ([7, 4, 1], [1, 1]), ([8, 8, 1], [1, 2]), ([11, 12, 1], [1, 1]), ([16, 17, 1], [1, 1]), ([33, 32, 1], [1, 1]), ([4, 5, 4], [1, 1, 1]), ([6, 6, 6], [1, 1, 1]), ([9, 8, 7], [1, 1, 1])):
            base = dict(lr1=lr, dims=dims)
            nd, n = len(dims), int(np.prod(dims))
            axes = [sorted({0, 1, m // 2, m - 2, m - 1} if deep else {0, 1, m // 2, m - 1}) for m in lr]
            nodes = [a + lr[0] * (b + lr[1] * z) for z in axes[2] for b in axes[1] for a in axes[0] if z < lr[2] and z >= 0]
            nodes = sorted(set(nodes))
            for i in range(n):
                for k, node in enumerate(nodes):
                    for comp in range(nd):
                        yield dict(base, deform=[["bump", [i], [comp, node, (1e-6, 0.01)[k % 2]]]], must="refuse")
                    if node != nodes[-1 - k]:
                        yield dict(base, deform=[["swap", [i], [node, nodes[-1 - k]]]], must="refuse")
                    if k and (nd == 2 or deep):
                        yield dict(base, deform=[["swap", [i], [nodes[k - 1], node]]], must="refuse")

    return gen


def partial(deep):
    """Every subset of the elements of a box"""

    def gen():
        for dims, lr in (([2, 2], [2, 2, 1]), ([3, 2], [2, 3, 1]), ([4, 1], [2, 2, 1]), ([2, 2, 2], [2, 2, 2])):
            n = int(np.prod(dims))
            for mask in range(1, 2**n):
                keep = [i for i in range(n) if mask >> i & 1]
                if n == 8 and not deep and mask % 2:
                    continue
                # a contiguous block of elements is a box
                idx = [np.unravel_index(i, dims[::-1]) for i in keep]
                rng = [(min(v), max(v)) for v in zip(*idx)]
                block = int(np.prod([b - a + 1 for a, b in rng]))
                extra = {"must": "open"} if block == len(keep) else {}
                yield dict(lr1=lr, dims=dims, keep=keep, partial=True, grade=0.2, **extra)

    return gen


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("sizes", lambda: size_cases(deep), run, 2, timeout=600, bounds=f"rows of up to {129 if deep else 41} elements in order and shuffled, orders up to 33"),
        Space("orders", orders(deep), run, 4, bounds=f"all orders up to {5 if deep else 4} in each direction"),
        Space("perms", perms(deep), run, 4, bounds="all numberings of the elements of boxes up to 2x2 and 2x1x2 and of 3x2, boxes up to 20 elements"),
        Space("variables", variables_space(deep), run, 4, bounds="all combinations of variables up to 12 scalars, word sizes, byte orders, times, scales; variables that are zero or constant everywhere, in one component or in one element; dropped variables; opened through pymech and through xarray"),
        Space("deformed", deformed(deep), run, 8, bounds="every subset of the elements reversed, turned, rotated, sheared, moved; every node displaced, every two nodes exchanged; the same on selected nodes of elements of order up to 33"),
        Space("partial", partial(deep), run, 8, bounds="every subset of the elements of boxes up to 3x2 and 2x2x2"),
    ]
