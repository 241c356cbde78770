"""C31: how a path is given does not matter, and calls leave nothing else behind."""

import contextlib
import decimal
import gc
import locale
import logging
import os
import pathlib
import random
import re
import signal
import sys
import threading
import unicodedata
import warnings

import numpy as np
import xarray as xr

from .. import codecs, data, faketvtk, ops, snap
from ..engine import Space, expect
from .c05 import re2_mesh

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of ways to name a file, of names and of operations (successful and rejected); result and state of the process and of the folder compared with a model"
RULE = (
    "a state is the content of a folder and the state of the process (descriptors, working folder, environment, random numbers, floating-point "
    "settings, threads) after one call of a reader or writer with one spelling of one name; the result must be the one for the plain absolute path "
    "and everything else must be as before"
)
ASSUMPTIONS = ["names are valid in the file system and can be encoded", "tvtk is replaced by a stand-in", "modules are already imported"]


class Like:
    """Something with a path"""

    def __init__(self, p):
        self.p = p

    def __fspath__(self):
        return self.p


class Str(str):
    pass


# spellings of a file in a folder: (argument, working folder)
FORMS = {
    "plain": lambda d, n: (os.path.join(d, n), None),
    "path": lambda d, n: (pathlib.Path(d) / n, None),
    "like": lambda d, n: (Like(os.path.join(d, n)), None),
    "str_subclass": lambda d, n: (Str(os.path.join(d, n)), None),
    "relative": lambda d, n: (n, d),
    "relative_path": lambda d, n: (pathlib.Path(n), d),
    "dot": lambda d, n: (os.path.join(".", n), d),
    "up": lambda d, n: (os.path.join("..", os.path.basename(d), n), d),
    "inside": lambda d, n: (os.path.join(os.path.basename(d), n), os.path.dirname(d)),
    "double": lambda d, n: (d + "//./" + n, None),
    "link": None,
}
FOLDERS = ["in", "d[1]x", "with space", "d.f00001", "d.fld", "täst", "a.b.c", "d.dat.x", "~", "%s{0}", "-r", "x" * 60]
STEMS = ["a", "with space", "a.b", "ünï", ".hidden", "a.f00002", "-a", "%s", "{0}", "a'b\"c", "0", "n" * 100, "a*?[b]", "~a", "a\\b", "A.RE2", "b[1]2", "$HOME", "a,b;c"]


def decoys(n):
    """Names that are close to a name, or to which it might be expanded or completed"""
    out = {re.sub(r"\[(.)[^]]*\]", r"\1", n).replace("*", "xx").replace("?", "y"), n.lower(), n.upper(), n.strip(), n.strip(".~-$"), n.split()[0], n.replace(" ", ""), n.replace("\\", "")}
    out |= {unicodedata.normalize(k, n) for k in ("NFC", "NFD", "NFKC", "NFKD")} | {n.replace("{0}", "0").replace("%s", "s"), n.split(",")[0], n.split(";")[0]}
    root, ext = os.path.splitext(n)
    out |= {n + e for e in (".gz", ".bz2", ".tmp", ".bak", "~", ".part", ".lock")} | {"." + n, root, root + ".tmp", root + ".bak"}
    return sorted(x for x in out if x and "/" not in x and x not in (n, ".", "..") and os.path.splitext(x)[1] != ".vtp")


def material(ctx):
    """Meshes and files by format"""
    f = data.field(2, [3, 2, 1], 3, [1, 1, 1, 0, 2], elmap=[2, 3, 1], time=0.5)
    box = ops.tensor_box([2, 1], [3, 2, 1], [1, 1, 1, 0, 1])
    m = re2_mesh(dict(ndim=2, n=3, nbc=2, ncurv=3))
    return f, box, m


def calls():
    """name: (extension, is it a writer, function of a path)"""
    import pymech as pm
    from pymech.neksuite.field import read_header

    f, box, m = material(None)
    hf, hb, hm = snap.to_hexa(f), snap.to_hexa(box), snap.to_hexa(m)
    bad = snap.to_hexa(dict(f, wdsz=5))
    header = lambda p: {k: repr(getattr(h, k)) for h in [read_header(p)] for k in ("wdsz", "orders", "nb_elems", "time", "istep", "variables", "nb_vars")}

    def mf(p):
        with pm.open_mfdataset([p]) as ds:
            return ds.load()

    def xopen(p):
        import xarray as xr

        with xr.open_dataset(p, engine="pymech") as ds:
            return ds.load()

    from .c26 import plane_file, velocity_file

    raw = {
        "nek": codecs.nek_field(f, 8, "little"),
        "box": codecs.nek_field(box, 4, "big"),
        "re2": codecs.re2(m, "little"),
        "rea": codecs.rea(m) if isinstance(codecs.rea(m), bytes) else codecs.rea(m).encode(),
        "ma2": codecs.ma2([0, 1], [[1, 2, 3, 4], [2, 3, 5, 6]], "little"),
        "dns": velocity_file(dict(endian="little", n=[4, 3, 2], nscal=1, fltype=3))[0],
        "plane": plane_file(dict(endian="little", n=[3, 2]))[0],
    }
    readers = {
        "readnek": ("nek", pm.readnek),
        "readnek_skip": ("nek", lambda p: pm.readnek(p, dtype="float32", skip_vars=("x", "p"))),
        "read_header": ("nek", header),
        "readre2": ("re2", pm.readre2),
        "readrea": ("rea", pm.readrea),
        "readma2": ("ma2", pm.readma2),
        "readdns": ("dns", pm.readdns),
        "readplane": ("plane", pm.readplane),
        "open_dataset": ("box", pm.open_dataset),
        "open_mfdataset": ("box", mf),
        "xr.open_dataset": ("box", xopen),
    }
    vtk = faketvtk.install()
    writers = {
        "writenek": lambda p: pm.writenek(p, hf),
        "writere2": lambda p: pm.writere2(p, hm),
        "writerea": lambda p: pm.writerea(p, hm),
        "writenek_bad": lambda p: pm.writenek(p, bad),
        "writere2_bad": lambda p: pm.writere2(p, hf),
        "writevtk": lambda p: vtk.writevtk(p, hf),
    }
    return raw, readers, writers


def ignore(*args):
    pass


@contextlib.contextmanager
def unusual():
    """Settings of the process that nobody else uses, so that every change shows"""
    um, call, state = os.umask(0o027), np.seterrcall(ignore), random.getstate()
    limit = sys.getrecursionlimit()
    sys.setrecursionlimit(limit + 7)
    try:
        with np.errstate(all="call"), np.printoptions(precision=9, linewidth=77):
            yield
    finally:
        os.umask(um)
        np.seterrcall(call)
        random.setstate(state)
        sys.setrecursionlimit(limit)


def process():
    """What a call has to leave as it is"""
    um = os.umask(0o22)
    os.umask(um)
    fds = {}
    for fd in os.listdir("/proc/self/fd"):
        try:
            fds[fd] = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            pass
    return {
        "descriptors": sorted(v for v in fds.values() if not v.startswith(("/proc", "pipe:", "socket:", "anon_inode"))),
        "number of descriptors": len(fds),
        "working folder": os.getcwd(),
        "environment": dict(os.environ),
        "umask": um,
        "threads": sum(1 for t in threading.enumerate() if "ThreadPool" not in t.name),
        "floating-point settings": np.geterr(),
        "print options": repr(np.get_printoptions()),
        "random numbers": repr(np.random.get_state()[1][:8].tolist()) + str(np.random.get_state()[2]),
        "random numbers of python": hash(random.getstate()),
        "warning filters": len(warnings.filters),
        "warnings": repr(warnings.showwarning),
        "signals": repr([signal.getsignal(n) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGHUP)]),
        "garbage collection": (gc.isenabled(), gc.get_threshold()),
        "recursion limit": sys.getrecursionlimit(),
        "module path": list(sys.path),
        "locale": locale.setlocale(locale.LC_ALL),
        "decimal settings": repr(decimal.getcontext()),
        "logging": (logging.root.level, len(logging.root.handlers), logging.root.manager.disable, len(logging.getLogger("pymech").handlers), logging.getLogger("pymech").propagate),
        "options of xarray": repr(xr.get_options()),
        "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "hooks": (id(sys.excepthook), id(sys.displayhook), id(threading.excepthook)),
    }


def tree(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for n in dirs:
            out[os.path.join(base, n)] = "folder"
        for n in files:
            p = os.path.join(base, n)
            st = os.lstat(p)
            if os.path.islink(p):
                out[p] = (os.readlink(p), st.st_ino)
                continue
            with open(p, "rb") as fh:
                out[p] = (fh.read(), st.st_mtime_ns, st.st_mode, st.st_ino)
    return out


_made = []


def setup():
    if not _made:
        _made.append(calls())
    return _made[0]


def run(c, ctx):
    raw, readers, writers = setup()
    with unusual():
        explore(c, ctx, raw, readers, writers)


def explore(c, ctx, raw, readers, writers):
    name, what = c["name"], c["call"]
    d = os.path.join(ctx.path("top"), c["folder"])
    os.makedirs(d)
    top = os.path.dirname(d)
    form = c["form"]
    writer = what in writers
    fn = writers[what] if writer else readers[what][1]
    plain = os.path.join(d, name)
    initial = process()
    # the result for the plain path in a simple place
    ref = os.path.join(ctx.path("ref"), "r" + ("" if what == "writevtk" else c["ext"]))
    os.makedirs(os.path.dirname(ref))
    if not writer:
        ops.write(ref, raw[readers[what][0]])
    want = attempt(lambda: fn(ref))
    if writer and what != "writevtk":
        want = (want, ops.content(ref) if os.path.exists(ref) else None)
    neighbour = ops.write(os.path.join(d, "neighbour" + c["ext"]), b"neighbour")
    # files of other names nearby must not be taken for this one, nor changed
    for n in decoys(name):
        if not os.path.exists(os.path.join(d, n)):
            ops.write(os.path.join(d, n), b"decoy " + n.encode())
    for n in decoys(c["folder"]):
        if not os.path.exists(os.path.join(top, n)):
            os.makedirs(os.path.join(top, n))
            ops.write(os.path.join(top, n, name), b"decoy in " + n.encode())
    old = c.get("old")
    if not writer and not c.get("missing"):
        ops.write(plain, raw[readers[what][0]][: c["cut"]] if "cut" in c else raw[readers[what][0]])
    elif old:
        ops.write(plain, b"old" * 1000)
    if form == "link":
        real = os.path.join(top, "real" + c["ext"])
        if os.path.exists(plain):
            os.rename(plain, real)
        os.symlink(real, plain)
        arg, cwd = plain, None
    else:
        arg, cwd = FORMS[form](d, name)
    here = os.getcwd()
    files = tree(top)
    try:
        if cwd is not None:
            os.chdir(cwd)
        # the reference call has to leave everything as it is, too
        before = dict(initial, **{"working folder": os.getcwd()})
        got = attempt(lambda: fn(arg))
        after = process()
        if before != after:
            # once more without garbage of earlier calls
            gc.collect()
            for k in ("descriptors", "number of descriptors", "threads"):
                before[k] = process()[k]
            attempt(lambda: fn(arg))
            gc.collect()
            after = process()
    finally:
        os.chdir(here)
    for k in before:
        expect(before[k] == after[k], lambda: f"{what}({arg!r}) changed the {k}: {before[k]!r} -> {after[k]!r}")
    now = tree(top)
    ctx.step(2)
    ctx.validated()
    ctx.state((what, c["folder"], name, form, c.get("cut"), old))
    if c.get("missing") or "cut" in c:
        expect(got == "failed", f"{what}({arg!r}) succeeds although the file is {'missing' if c.get('missing') else 'cut'}")
        expect(now == files, lambda: f"{what}({arg!r}) changed files")
        return
    if not writer:
        expect(want != "failed", f"{what} fails on a plain path")
        expect(got == want, f"{what}({arg!r}) gives another result than with a plain path")
        expect(now == files, lambda: f"{what}({arg!r}) changed files: {sorted(set(now) ^ set(files)) or 'content or times'}")
        return
    target = os.path.join(top, "real" + c["ext"]) if form == "link" else plain
    if what == "writevtk":
        target = os.path.splitext(plain)[0] + ".vtp" if os.path.splitext(name)[1] else plain + ".vtp"
        expect(faketvtk.written[-1][1] == target or os.path.normpath(os.path.join(cwd or "/", faketvtk.written[-1][1])) == target,
               lambda: f"writevtk({arg!r}) writes to {faketvtk.written[-1][1]!r}")
        expect(now == files, f"{what}({arg!r}) changed files")
        return
    content = now.pop(target, (None,))[0]
    files.pop(target, None)
    if "bad" in what:
        expect(got == want[0] == "failed", f"{what}({arg!r}) succeeds")
        expect(content == (b"old" * 1000 if old else None), f"{what}({arg!r}) leaves something in the file")
    else:
        expect(got == want[0] and got != "failed", f"{what}({arg!r}) gives {got!r}")
        expect(content == want[1], f"{what}({arg!r}) writes other bytes than with a plain path")
    expect(now == files, lambda: f"{what}({arg!r}) changed other files: {sorted(set(now) ^ set(files)) or 'content or times'}")


def attempt(fn):
    try:
        r = ops.silent(fn)
        if isinstance(r, int) and r < 0:
            return "failed"
        return ops.digest(r)
    except Exception:
        return "failed"


NATURAL = {"readnek": ".f00001", "readnek_skip": ".f00001", "read_header": ".f00001", "readre2": ".re2", "readrea": ".rea", "readma2": ".ma2", "readdns": ".u", "readplane": ".pl",
           "open_dataset": ".f00001", "open_mfdataset": ".f00001", "xr.open_dataset": ".f00001",
           "writenek": ".f00001", "writere2": ".re2", "writerea": ".rea", "writenek_bad": ".f00001", "writere2_bad": ".re2", "writevtk": ".vtp"}
DATASET = ("open_dataset", "open_mfdataset", "xr.open_dataset")


def forms_of(what):
    for f in FORMS:
        # datasets are documented for strings; xarray wants strings or path objects
        if what in DATASET and f == "like":
            continue
        if what == "writevtk" and f == "link":
            continue
        yield f


def ways(deep):
    def gen():
        for what, ext in NATURAL.items():
            for form in forms_of(what):
                for folder in FOLDERS:
                    if folder == "~" and what in ("open_mfdataset", "xr.open_dataset") and form in ("inside", "relative"):
                        continue  # expanded by xarray
                    yield dict(call=what, form=form, folder=folder, name="a" + ext, ext=ext, old=True)
                    if what == "writevtk":
                        for e in (".f00001", ".fld", ".dat", ".c", ".x"):
                            yield dict(call=what, form=form, folder=folder, name="a" + e, ext=ext)
                            yield dict(call=what, form=form, folder=folder, name="a" + e + ".d" + e, ext=ext)
                for stem in STEMS:
                    if stem.startswith("~") and what in ("open_mfdataset", "xr.open_dataset"):
                        continue
                    for e in [ext] if what in DATASET else [ext, "", ".dat"]:
                        if what == "writevtk" and (not e or stem in (".hidden",)):
                            continue
                        yield dict(call=what, form=form, folder="in", name=stem + e, ext=ext)
                if deep:
                    for folder in FOLDERS[1:]:
                        for stem in STEMS:
                            if (folder + stem).count("~") and what in ("open_mfdataset", "xr.open_dataset"):
                                continue
                            if what == "writevtk" and stem == ".hidden":
                                continue
                            yield dict(call=what, form=form, folder=folder, name=stem + ext, ext=ext, old=True)

    return gen


def failures(deep):
    def gen():
        for what, ext in NATURAL.items():
            if what.startswith("write"):
                continue
            for form in forms_of(what):
                yield dict(call=what, form=form, folder="in", name="a" + ext, ext=ext, missing=True)
                for cut in [0, 1, 4, 20] + ([] if what == "read_header" else [79, 81, 100, 133, 137, 141]):
                    yield dict(call=what, form=form, folder="in", name="a" + ext, ext=ext, cut=cut)

    return gen


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("ways", ways(deep), run, 16, bounds=f"{len(NATURAL)} readers and writers, {len(FORMS)} spellings of the path, {len(FOLDERS)} folders, {len(STEMS)} names" + (" and all combinations" if deep else "")),
        Space("failures", failures(deep), run, 16, bounds="missing files and files cut at ten places"),
    ]
