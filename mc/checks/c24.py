"""C24: recognition of field files and opening of several files."""

import io
import itertools
import os
import pathlib

import numpy as np

from .. import codecs
from ..engine import Space, expect, fail
from . import c23

LEVEL = "model_checking"
TECHNIQUE = (
    "exhaustive enumeration of all short file names over an alphabet and of all listing orders of several snapshots, against a model of "
    "the recognised names and the single-file datasets"
)
RULE = (
    "a state is one file name (all strings up to a bound appended to several stems and folders; all names up to two edits from a recognised "
    "one) or one list of snapshots (all orders, ways to open, serial and parallel)"
)
ASSUMPTIONS = ["names are made of ASCII characters", "snapshots of a list have the same grid and variables"]

DIGITS = "0123456789"
ALPHABET = "fld09.x"
EDITS = "fFlLdD019./ \n-+_x~"


def model(path):
    """Is it a field file?"""
    name = path.rsplit("/", 1)[-1]
    if name.endswith(".fld"):
        return True
    return len(name) >= 7 and name[-7:-5] == ".f" and all(ch in DIGITS for ch in name[-5:])


STEMS = ("a.", "a", "", "d.f00001/", "d.f00001/a.", "./a.f", "../x y/a.", "/no/such.fld/b.f0", "a.f0000", "a.f00001", "a.fld", "a.b.f", "\n.f", "a\n.")


def run_names(c, ctx):
    from pymech.dataset import PymechXarrayBackend, can_open_nek_dataset

    backend = PymechXarrayBackend()
    if "base" in c:
        todo = edits(c["base"], c["first"])
    else:
        todo = (c["stem"] + c["prefix"] + "".join(t) for n in range(c["rest"] + 1) for t in itertools.product(ALPHABET, repeat=n))
    n = k = 0
    for name in todo:
        want = model(name)
        k += want
        for obj in (name, pathlib.PurePosixPath(name)):
            if not isinstance(obj, str):
                want = model(str(obj))  # PurePath normalises ./ and trailing /
            for what, func in (("can_open_nek_dataset", can_open_nek_dataset), ("guess_can_open", backend.guess_can_open)):
                got = bool(func(obj))
                if got != want:
                    fail(f"{what}({obj!r}) is {got}")
        n += 1
        ctx.state(name)
    ctx.step(4 * n)
    ctx.validated(4 * n)
    ctx.count("names", n)
    ctx.count("recognised", k)


def edit1(name, first=None):
    """All names one edit away"""
    for i in range(len(name) + 1):
        if first is not None and i != first:
            continue
        for ch in EDITS:
            yield name[:i] + ch + name[i:]
            if i < len(name):
                yield name[:i] + ch + name[i + 1 :]
        if i < len(name):
            yield name[:i] + name[i + 1 :]


def edits(name, first):
    seen = {name}
    yield name
    for a in edit1(name, first):
        if a not in seen:
            seen.add(a)
            yield a
        for b in edit1(a):
            if b not in seen:
                seen.add(b)
                yield b


def run_open(c, ctx):
    """Opening: other names are refused and the recognised ones are read"""
    import pymech as pm
    import xarray as xr

    folder = ctx.path("d" + c["folder"])
    os.makedirs(folder)
    path = os.path.join(folder, c["name"])
    s = c23.build(dict(lr1=[2, 2, 1], dims=[2, 1], var=[1, 1, 1, 0, 1]))
    with open(path, "wb") as fh:
        fh.write(codecs.nek_field(s, 8, "little"))
    before = open(path, "rb").read()
    objs = [path, pathlib.Path(path)]
    cwd = os.getcwd()
    os.chdir(folder)
    try:
        objs.append(c["name"])
        for obj in objs:
            for how in ("pymech", "guess", "engine"):
                opener = {
                    "pymech": pm.open_dataset,
                    "guess": xr.open_dataset,
                    "engine": lambda p: xr.open_dataset(p, engine="pymech"),
                }[how]
                ctx.step()
                err = ds = None
                try:
                    ds = opener(obj)
                except Exception as e:
                    err = e
                if model(c["name"]):
                    expect(err is None, lambda: f"{how}: {obj!r} is refused: {err!r}")
                    msg = c23.judge(ds, s, 8)
                    expect(msg is None, lambda: f"{how}: {obj!r}: {msg}")
                    ds.close()
                elif how == "pymech":
                    expect(isinstance(err, NotImplementedError), lambda: f"{how}: {obj!r} gives {err!r} instead of NotImplementedError")
                elif how == "guess":
                    expect(err is not None, lambda: f"{how}: {obj!r} is opened")
                ctx.validated()
    finally:
        os.chdir(cwd)
    expect(open(path, "rb").read() == before, "the file is modified")
    ctx.state(c)


def names(deep):
    def gen():
        for stem in STEMS:
            n = 6 if deep or stem in ("a.", "a", "") else 5
            for prefix in itertools.product(ALPHABET, repeat=2):
                yield dict(stem=stem, prefix="".join(prefix), rest=n - 2)
            for prefix in ALPHABET:
                yield dict(stem=stem, prefix=prefix, rest=0)
        bases = ["a.f00001", ".fld", ".f00042", "d/a.fld", "a.f00001.fld"] + (["a.f12345", "d.fld/b.f99999", "a.b.f00010"] if deep else [])
        for base in bases:
            for first in range(len(base) + 1):
                yield dict(base=base, first=first)

    return gen


def opens(deep):
    def gen():
        some = [
            "a.f00001", "a.f99999", "a.fld", ".fld", ".f00001", "a.b.f00001", "a b.f00001", "a\n.f00001", "a.f00001.fld",
            "a.f0000", "a.f000001", "a.f00001x", "a.f00001\n", "a.fldx", "a.flda", "a.f00001.bak", "a.f0000a", "a.f", "f00001", "afld", "fld",
            "a.F00001", "a.FLD", "a.nek5000", "a.re2", "a.f90", "a", "a.f00001~", "a.f 0001", "a.f-0001", "a.fl", "a.f00001 ", "a.fld.",
        ]  # fmt: skip
        for name in some:
            for folder in ("", ".f00001", ".fld", "\n", " x", ".f90"):
                yield dict(name=name, folder=folder)

    return gen


# ------------------------------------------------------------------------------ several files
def same(a, b):
    return a.shape == b.shape and bool(((a == b) | ((a != a) & (b != b))).all())


def run_many(c, ctx):
    import pymech as pm
    import xarray as xr

    n = len(c["times"])
    snaps, paths = [], []
    for k, t in enumerate(c["times"]):
        dims = [2, 2] if c["lr1"][2] == 1 else [2, 1, 2]
        m = int(np.prod(dims))
        perm = list(range(m))
        perm = perm[k % m :] + perm[: k % m]
        s = c23.build(dict(lr1=c["lr1"], dims=dims, perm=perm, map=k, var=c["var"], wdsz=c["wdsz"], time=t, endian=("little", "big")[k % 2]))
        for e in s["elem"]:
            for name in ("vel", "pres", "temp", "scal"):
                e[name] *= 2.0**-k
                e[name] += 0.25 * k
        if not c["var"][1]:
            for e in s["elem"]:
                e["vel"][...] = 0
        if s["ndim"] == 2:
            for e in s["elem"]:
                e["vel"][2] = 0
        p = ctx.path(f"a0.f{k + 1:05d}" if not c.get("fld") else f"a{k}.fld")
        with open(p, "wb") as fh:
            fh.write(codecs.nek_field(s, c["wdsz"], s["endian"]))
        snaps.append(s)
        paths.append(p)
    before = [open(p, "rb").read() for p in paths]
    order = list(c["order"])
    listing = [paths[i] for i in order]
    if c.get("form") == "path":
        listing = [pathlib.Path(p) for p in listing]
    elif c.get("form") == "glob":
        listing = os.path.join(ctx.scratch, "a*.f?????")
        order = list(range(n))
    elif c.get("form") == "tuple":
        listing = tuple(listing)
    kw = {"parallel": bool(c.get("parallel"))}
    if c.get("chunks"):
        kw["chunks"] = c["chunks"]
    if c.get("drop"):
        kw["drop_variables"] = c["drop"]
    if c["how"] == "pymech":
        ds = pm.open_mfdataset(listing, **kw)
    elif c["how"] == "engine":
        ds = xr.open_mfdataset(listing, engine="pymech", combine="nested", concat_dim="time", **kw)
    else:
        ds = xr.open_mfdataset(listing, combine="nested", concat_dim="time", **kw)
    ctx.step()
    drop = c.get("drop") or []
    singles = []
    for s, p in zip(snaps, paths):
        one = pm.open_dataset(p, **({"drop_variables": drop} if drop else {}))
        ctx.step()
        msg = c23.judge(one, s, c["wdsz"], drop)
        expect(msg is None, lambda: f"single file: {msg}")
        singles.append(one)
    expect(ds.sizes.get("time") == len(order), lambda: f"{ds.sizes.get('time')} times instead of {len(order)}")
    want = [snaps[i]["time"] for i in order]
    got = np.asarray(ds["time"].values, float).tolist()
    expect(got == want, lambda: f"times {got} instead of {want}")
    expect(set(ds.data_vars) == set(singles[0].data_vars), lambda: f"variables {sorted(ds.data_vars)} instead of {sorted(singles[0].data_vars)}")
    for d in "xyz":
        a, b = np.asarray(ds[d].values), np.asarray(singles[0][d].values)
        expect(same(a, b), lambda: f"coordinate {d} is {a} instead of {b}")
    for name in ds.data_vars:
        arr = ds[name].load()
        for k, i in enumerate(order):
            part = arr.isel(time=k) if "time" in arr.dims else arr
            one = singles[i][name]
            a, b = np.asarray(part.transpose("z", "y", "x").values), np.asarray(one.transpose("z", "y", "x").values)
            expect(same(a, b), lambda: f"{name} of snapshot {i} at position {k} differs from the single file")
    ds.close()
    ds.close()
    for one in singles:
        one.close()
    left = []
    for f in os.listdir("/proc/self/fd"):
        try:
            target = os.readlink(f"/proc/self/fd/{f}")
        except OSError:
            continue
        if target in paths:
            left.append(target)
    expect(not left, lambda: f"left open: {left}")
    expect([open(p, "rb").read() for p in paths] == before, "a file is modified")
    ctx.state(c)
    ctx.validated(len(order))


def many(deep):
    def gen():
        every = [0.0, 0.5, 0.25, 2.0]
        base = dict(lr1=[2, 3, 1], var=[1, 1, 1, 1, 1], wdsz=8)
        for n in (1, 2, 3) + ((4,) if deep else ()):
            for order in itertools.permutations(range(n)):
                for how in ("pymech", "engine", "guess"):
                    for parallel in (0, 1):
                        yield dict(base, times=every[:n], order=order, how=how, parallel=parallel)
        # the same file several times, part of the files
        for order in itertools.product(range(3), repeat=2):
            for parallel in (0, 1):
                yield dict(base, times=every[:3], order=order, how="pymech", parallel=parallel)
        if deep:
            for order in itertools.product(range(3), repeat=3):
                yield dict(base, times=every[:3], order=order, how="engine", parallel=sum(order) % 2)
            for order in itertools.permutations(range(5)):
                yield dict(base, times=[*every, -1.0], order=order, how="pymech", parallel=order[0] % 2)
        # numbers of files, each of them also listed twice
        for n in [*range(4, 21), *((31, 32, 33, 40, 64, 65, 100, 101, 127, 128, 129) if deep else (32, 33, 40))]:
            t = [0.5 * ((7 * k) % n) if n % 3 else 1.0 for k in range(n)]
            orders = [list(range(n)), [*range(n), 0], [k // 2 for k in range(n)]] + ([[0] * n, list(range(n))[::-1]] if deep or n in (10, 12, 16) else [])
            for k, order in enumerate(orders):
                how = ("pymech", "engine", "guess")[(k + n) % 3] if k else "pymech"
                yield dict(base, lr1=[2, 2, 1], var=[1, 1, 1, 0, 0], times=t, order=order, how=how, parallel=(k + n) % 2, form=("", "path", "tuple")[(n + k) % 3])
            yield dict(base, lr1=[2, 2, 1], var=[1, 1, 1, 0, 0], times=t, order=orders[0], how="pymech", form="glob", parallel=n % 2)
        # kinds of files
        times = ([0.0, 0.0, 0.0], [3.0, 2.0, 1.0], [-1.0, 1e-9, 1e9], [0.0, 0.0, 1.0], [1e-10, 2.5e-13, 123456.7890123])
        forms = (dict(form="path"), dict(form="glob"), dict(form="tuple"), dict(fld=1), dict(chunks={"x": 2}), dict(drop=["ux", "s01"]), dict(drop=["xmesh", "ymesh", "zmesh"]))
        for lr in ([2, 3, 1], [2, 2, 2], [4, 2, 1]):
            for wdsz in (4, 8):
                for var in ([1, 1, 1, 1, 1], [1, 1, 0, 0, 0], [1, 0, 1, 0, 2]):
                    for t in times:
                        for order in ((0, 1, 2), (2, 0, 1)):
                            yield dict(lr1=lr, var=var, wdsz=wdsz, times=t, order=order, how="pymech", parallel=order[0] // 2)
        for f in forms:
            for how in ("pymech", "engine", "guess"):
                for parallel in (0, 1):
                    if f.get("drop") and (f["drop"][0] != "ux"):
                        continue
                    yield dict(base, times=every[:3], order=(1, 2, 0), how=how, parallel=parallel, **f)

    return gen


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("names", names(deep), run_names, 1, bounds=f"{len(STEMS)} stems followed by every string up to length {6 if deep else 5} (6 for the simple stems) over {ALPHABET!r}; every name within two edits of the recognised names"),
        Space("open", opens(deep), run_open, 4, bounds="33 names in six folders, as strings, paths and relative names"),
        Space("many", many(deep), run_many, 2, timeout=100, bounds=f"every order of up to {5 if deep else 3} snapshots, three ways to open, serial and parallel; repeated files; 4 to 20 and {'31 to 129' if deep else '32 to 40'} files; kinds of files, times and lists"),
    ]
