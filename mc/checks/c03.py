"""C03: skipped variables and changed precision."""

import itertools

import numpy as np

from .. import codecs, data, sizes, snap
from ..engine import Space, expect, product

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of skip sets, types and file shapes against a data model"
RULE = (
    "a state is a (file, skip set, result type) triple; the result of the reading is compared entry by entry with the "
    "model (zeros for the skipped quantities, the stored values elsewhere)"
)
ASSUMPTIONS = []

# quantity -> accepted names
NAMES = {
    ("pos", 0): ["x"], ("pos", 1): ["y"], ("pos", 2): ["z"],
    ("vel", 0): ["ux", "vx"], ("vel", 1): ["uy", "vy"], ("vel", 2): ["uz", "vz"],
    ("pres", 0): ["p", "pressure"], ("temp", 0): ["t", "temperature"],
}


def quantity(name):
    for q, names in NAMES.items():
        if name in names:
            return q
    if name[0] == "s" and name[1:].isdigit():
        return ("scal", int(name[1:]) - 1)
    return None


def run(cfg, ctx):
    import pymech as pm

    s = data.field(cfg["ndim"], cfg["lr1"], cfg["nel"], cfg["var"], wdsz=cfg["wdsz"], endian=cfg["endian"], flat=cfg.get("flat"))
    elems = cfg["elems"]
    if isinstance(elems, int):
        elems = [i - 1 for i in sizes.shuffled(cfg["nel"])][:elems]
    fmap = [0] * len(elems) if cfg.get("zeromap") else [i + 1 for i in elems]
    raw = codecs.nek_field(s, cfg["wdsz"], cfg["endian"], elems=elems, elmap=fmap)
    p = ctx.path()
    with open(p, "wb") as fh:
        fh.write(raw)
    cont = {"tuple": tuple, "list": list, "set": set}[cfg.get("cont", "tuple")]
    dtype = cfg.get("dtype", "float64")
    kw = {}
    if dtype is not None:
        kw["dtype"] = {"np.float32": np.float32, "np.float64": np.float64}.get(dtype, dtype)
    if cfg["skip"] is not None:
        kw["skip_vars"] = cont(cfg["skip"])
    r = pm.readnek(p, **kw)
    ctx.step()
    ftype = np.float32 if "32" in (dtype or "") or dtype in ("f4", "f") else np.float64
    fdt = np.float32 if cfg["wdsz"] == 4 else np.float64
    skipped = {quantity(n) for n in (cfg["skip"] or [])}
    got = snap.snap(r)
    placed = range(len(elems)) if cfg.get("zeromap") else elems
    want = snap.copy_snap(s)
    want["elmap"] = [i + 1 for i in placed]
    for e in want["elem"]:
        for name in snap.FIELDS:
            e[name] = np.zeros(e[name].shape, ftype)
    for to, frm in zip(placed, elems):
        for name in snap.FIELDS:
            for c in range(s["elem"][frm][name].shape[0]):
                if (name, c) not in skipped:
                    want["elem"][to][name][c] = s["elem"][frm][name][c].astype(fdt).astype(ftype)
    d = snap.diff(got, want, curv=False, bcs=False, dtype=True)
    ctx.validated()
    ctx.state((raw[:132], fmap, sorted(cfg["skip"] or []), cfg.get("cont"), dtype))
    expect(d is None, lambda: f"with skip_vars={cfg['skip']}: {d}")


def subset_cases(ndim, files, ns, dtypes):
    names = ["x", "y", "z"][:ndim] + ["ux", "uy", "uz"][:ndim] + ["pressure", "temperature"]
    names += [f"s{i + 1:02d}" for i in range(ns)]
    lr1 = [2, 3, 1] if ndim == 2 else [2, 1, 2]
    for f in files:
        for r in range(len(names) + 1):
            for skip in itertools.combinations(names, r):
                for dt in dtypes:
                    yield dict(ndim=ndim, lr1=lr1, var=[1, 1, 1, 1, ns], skip=list(skip), dtype=dt, **f)


FILES = [
    dict(nel=2, elems=[1, 0], wdsz=8, endian="little"),
    dict(nel=3, elems=[2, 0], wdsz=4, endian="big"),
]


def alias_cases():
    """Every combination of the alternative names of every quantity (one group at a time, and all groups together)"""
    alt = [[], [0], [1], [0, 1]]
    two = [n for n in NAMES.values() if len(n) == 2]
    for f in FILES:
        for choice in itertools.product(alt, repeat=len(two)):
            skip = [two[i][k] for i, ch in enumerate(choice) for k in ch]
            yield dict(ndim=3, lr1=[1, 2, 2], var=[1, 1, 1, 1, 1], skip=skip, dtype="float64", **f)


def shape_cases(extra):
    """All presence patterns of variables x all sets of skipped groups x file shapes and types"""
    groups = [["x"], ["y", "z"], ["x", "y", "z"], ["ux"], ["uy", "uz"], ["ux", "uy", "uz"], ["vx", "vy", "vz"],
              ["ux", "vy", "uz"], ["p"], ["t"], ["s01"], ["s02"], ["s01", "s02", "s03"], []]
    files = [
        dict(nel=3, elems=[0, 1, 2], wdsz=8, endian="little"),
        dict(nel=4, elems=[3, 1], wdsz=4, endian="little"),
        dict(nel=3, elems=[0, 1, 2], wdsz=4, endian="big", zeromap=1),
        dict(nel=3, elems=[0, 1], wdsz=8, endian="big", zeromap=1),
    ]
    for nd in (2, 3):
        for c in product(x=[1, 0], u=[1, 0], p=[1, 0], t=[1, 0], ns=[0, 1, 2, 3]):
            var = [c["x"], c["u"], c["p"], c["t"], c["ns"]]
            if not any(var):
                continue
            for f in files:
                for g1, g2 in itertools.combinations(range(len(groups)), 2):
                    if not extra and (g1 + g2 + c["ns"]) % 3:
                        # quick: a fixed third of the pairs of groups (every group with several others)
                        continue
                    yield dict(ndim=nd, lr1=[2, 2, 1] if nd == 2 else [2, 1, 3], var=var,
                               skip=groups[g1] + groups[g2], dtype="float64", **f)


def type_cases():
    for f in FILES:
        for c in product(dtype=[None, "float64", "float32", "f4", "f8", "np.float32", "np.float64"],
                         cont=["tuple", "list", "set"], ndim=[2, 3], ns=[0, 2, 12],
                         skip=[None, [], ["x"], ["uy", "s02"], ["s10", "s01"], ["s11", "s12"], ["p", "temperature"],
                               ["nothing", "s99", "w"]]):
            yield dict(ndim=c["ndim"], lr1=[3, 2, 1] if c["ndim"] == 2 else [2, 2, 2], var=[1, 1, 1, 1, c["ns"]],
                       skip=c["skip"], dtype=c["dtype"], cont=c["cont"], **f)


def size_cases(t):
    skips = [["x", "y"], ["ux", "p"], ["uy", "t", "s01"], ["z", "uz", "s02"], ["y", "vx", "vz", "pressure", "s02"], ["s01", "s02"]]
    for n in sizes.counts(4097 if t else 1025):
        for k, skip in enumerate(skips):
            nd = 2 + (k + n) % 2
            for elems in sorted({n, (n + 1) // 2}):
                yield dict(ndim=nd, lr1=[2, 2, 1 if nd == 2 else 2], nel=n, elems=elems, wdsz=8 - 4 * (k % 2), endian=("little", "big")[k // 2 % 2],
                           var=[1, 1, 1, 1, 2], skip=skip, dtype=("float64", "float32")[k % 2], zeromap=int(elems != n and k == 5))
    for n in list(range(2, 34)) + [64, 99]:
        for k, skip in enumerate(skips):
            yield dict(ndim=2, lr1=[n, n, 1], nel=2, elems=2, wdsz=8 - 4 * (k % 2), endian="little", var=[1, 1, 1, 1, 2], skip=skip)
            if n < (34 if t else 20):
                yield dict(ndim=3, lr1=[n, n, n], nel=1, elems=1, wdsz=8 - 4 * (k % 2), endian="big", var=[1, 1, 1, 1, 2], skip=skip)


def constant():
    skips = [[], ["x", "y"], ["ux"], ["uy", "t"], ["p", "s01"], ["x", "ux", "s02"], ["ux", "uy", "uz"], ["t", "p", "s01", "s02"]]
    for k, c in enumerate(data.flat_fields()):
        for skip in skips:
            yield dict(c, elems=[2, 0, 1] if k % 3 else [2, 1], skip=skip, dtype=("float64", "float32")[k % 2])


def spaces(tier):
    t = tier == "thorough"
    dts = ["float64", "float32"] if t else ["float64"]
    return [
        Space("subsets-3d", lambda: subset_cases(3, FILES, 3 if not t else 5, dts), run, chunk=64,
              bounds="all 2^n sets of skipped quantities (3 coordinates, 3 velocities, p, T, scalars), complete and partial file"),
        Space("subsets-2d", lambda: subset_cases(2, FILES, 3 if not t else 5, ["float32"]), run, chunk=64, bounds="as above in 2D"),
        Space("aliases", alias_cases, run, chunk=64, bounds="all combinations of alternative names"),
        Space("shapes", lambda: shape_cases(t), run, chunk=64,
              bounds="all variable subsets x 4 file shapes (complete, partial, zero map) x pairs of skipped groups"),
        Space("sizes", lambda: size_cases(t), run, chunk=8,
              bounds="1 to 40 elements, both sides of all block sizes up to " + ("4097" if t else "1025") + ", all orders up to 33, six sets of skipped quantities"),
        Space("constant", constant, run, chunk=32, bounds="each and all variables zero or constant (everywhere, one component, one element), eight sets of skipped quantities"),
        Space("types", type_cases, run, chunk=32, bounds="all result types, containers, 0/2/12 scalars"),
    ]
