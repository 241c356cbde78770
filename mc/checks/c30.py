"""C30: files hold the last write and readings show the current content."""

import itertools
import os

import numpy as np

from .. import codecs, data, ops, snap
from ..engine import Space, expect
from .c05 import re2_mesh

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of histories of writes, reads, changes and replacements on two paths against a model of their contents"
RULE = (
    "a state is the content of the folder and of the meshes in memory after an operation of a history; every history of the bounded length over "
    "the alphabet is executed, after each operation every file is compared byte by byte with the model and every result with the content "
    "of the file at that moment"
)
ASSUMPTIONS = ["the files are changed by one process at a time", "tvtk is replaced by a stand-in"]


def contents(family):
    """Meshes that are written: 0 and 1 differ in size and content, 2 is 0 after a change of its values"""
    if family == "nek":
        a = data.field(2, [3, 2, 1], 3, [1, 1, 1, 0, 2], elmap=[2, 3, 1], time=0.5)
        b = data.field(3, [2, 2, 2], 1, [1, 0, 1, 1, 0], wdsz=4, endian="big", time=2.0, istep=7)
    elif family == "set":
        a, b = (ops.tensor_box([2, 1], [3, 2, 1], [1, 1, 1, 0, 1]), ops.tensor_box([1, 1], [2, 3, 1], [1, 1, 0, 1, 0], seed=3))
    else:
        a = re2_mesh(dict(ndim=2, n=3, nbc=2, ncurv=3))
        b = re2_mesh(dict(ndim=3, n=1, nbc=1, ncurv=1))
        b["endian"] = "big"
    c = snap.copy_snap(a)
    for e in c["elem"]:
        e["pos"] += 0.5
        e["vel"] *= 2.0
        if e["bcs"]:
            e["bcs"][0][0] = ("v", *e["bcs"][0][0][1:])
    c["time"] = 3.25
    return [a, b, c]


def tools(family):
    """The writer, the reader and the canonical form of what it returns"""
    import pymech as pm

    if family == "nek":
        return pm.writenek, pm.readnek
    if family == "re2":
        return pm.writere2, pm.readre2
    if family == "rea":
        return pm.writerea, pm.readrea
    if family == "set":
        return pm.writenek, lambda p: pm.open_dataset(p)
    if family == "mf":
        return pm.writenek, lambda p: pm.open_mfdataset([p]).load()
    if family == "header":
        from pymech.neksuite.field import read_header

        return pm.writenek, lambda p: vars_of(read_header(p))
    return None, {"ma2": pm.readma2, "dns": pm.readdns, "plane": pm.readplane}[family]


def vars_of(h):
    return {k: repr(getattr(h, k)) for k in ("wdsz", "orders", "nb_elems", "nb_elems_file", "time", "istep", "fid", "nb_files", "variables", "nb_vars")}


EXT = {"nek": ".f00001", "set": ".f00001", "mf": ".f00001", "header": ".f00001", "re2": ".re2", "rea": ".rea", "ma2": ".ma2", "dns": ".u", "plane": ".pl"}


class System:
    """What one history starts from"""

    cache = {}

    def __init__(self, family, ctx):
        self.family, self.folder = family, ctx.path("d")
        os.mkdir(self.folder)
        self.ctx = ctx
        self.writer, self.reader = tools(family)
        self.paths = [os.path.join(self.folder, n + EXT[family]) for n in "ab"]
        self.other = ctx.path("new" + EXT[family])
        if family not in System.cache:
            System.cache[family] = self.reference(ctx)
        self.snaps, self.raw, self.want = System.cache[family]
        self.disk = [None, None]
        if self.snaps:
            self.mesh = [snap.to_hexa(s) for s in self.snaps[:2]]
        self.changed = False

    def reference(self, ctx):
        """Bytes and results of all contents, each from a path of its own"""
        if self.writer is None:
            raw = foreign(self.family)
            snaps = None
        else:
            snaps = contents({"mf": "set", "header": "nek"}.get(self.family, self.family))
            raw = []
            for k, s in enumerate(snaps):
                p = ctx.path(f"ref{k}{EXT[self.family]}")
                self.writer(p, snap.to_hexa(s))
                raw.append(ops.content(p))
        want = []
        for k, r in enumerate(raw):
            p = ctx.path(f"ref{k}r{EXT[self.family]}")
            ops.write(p, r)
            want.append(ops.digest(ops.silent(lambda: self.reader(p))))
        expect(len(set(want)) == len(want), "contents that cannot be told apart")
        return snaps, raw, want

    def step(self, op):
        kind, *arg = op
        if kind == "write":
            k, p = arg
            m = self.mesh[k]
            r = self.writer(self.paths[p], m)
            expect(r == 0, lambda: f"{r!r} returned by the writer")
            self.disk[p] = 2 if k == 0 and self.changed else k
            # a clock that does not tell the writes apart
            os.utime(self.paths[p], (10**9, 10**9))
        elif kind == "change":
            # the values of the mesh are changed (or restored) in place
            self.changed = not self.changed
            s = self.snaps[2 if self.changed else 0]
            m = self.mesh[0]
            m.time = s["time"]
            for el, e in zip(m.elem, s["elem"]):
                el.pos[...] = e["pos"]
                el.vel[...] = e["vel"]
                for ibc, row in enumerate(e["bcs"]):
                    for j, v in enumerate(row[0]):
                        el.bcs[ibc, 0][j] = v
        elif kind == "replace":
            # by another program: same times if there was a file
            k, p = arg
            st = os.stat(self.paths[p]) if self.disk[p] is not None else None
            ops.write(self.other, self.raw[k])
            if st is not None:
                os.utime(self.other, ns=(st.st_atime_ns, st.st_mtime_ns))
            os.replace(self.other, self.paths[p])
            self.disk[p] = k
        elif kind == "patch":
            # in place, the file keeps its identity and its times
            k, p = arg
            if self.disk[p] is None:
                return
            st = os.stat(self.paths[p])
            with open(self.paths[p], "r+b") as fh:
                fh.write(self.raw[k])
                fh.truncate()
            os.utime(self.paths[p], ns=(st.st_atime_ns, st.st_mtime_ns))
            self.disk[p] = k
        elif kind == "delete":
            (p,) = arg
            if self.disk[p] is not None:
                os.unlink(self.paths[p])
            self.disk[p] = None
        elif kind == "cut":
            (p,) = arg
            if self.disk[p] is None or isinstance(self.disk[p], str):
                return
            raw = ops.content(self.paths[p])
            ops.write(self.paths[p], raw[: len(raw) // 2 if self.family != "header" else 20])
            self.disk[p] = "cut"
        elif kind == "read":
            (p,) = arg
            try:
                r = ops.silent(lambda: self.reader(self.paths[p]))
                failed = isinstance(r, int)
            except Exception:
                failed = True
            if self.disk[p] is None or self.disk[p] == "cut":
                expect(failed, f"reading a file that is {'missing' if self.disk[p] is None else 'truncated'} succeeds")
            else:
                expect(not failed, "reading fails")
                d = ops.digest(r)
                old = [k for k, w in enumerate(self.want) if w == d]
                expect(d == self.want[self.disk[p]], lambda: f"reading gives {'content %d' % old[0] if old else 'something else'} instead of content {self.disk[p]}")
                ops.scramble(r)

    def check(self):
        names = sorted(os.listdir(self.folder))
        want = [os.path.basename(p) for p, k in zip(self.paths, self.disk) if k is not None]
        expect(names == want, lambda: f"files {names} instead of {want}")
        for p, k in zip(self.paths, self.disk):
            if isinstance(k, int):
                got = ops.content(p)
                expect(got == self.raw[k], lambda: f"{os.path.basename(p)} does not hold content {k}")


def foreign(family):
    if family == "ma2":
        return [codecs.ma2([0, 1], [[1, 2, 3, 4], [2, 3, 5, 6]], "little"), codecs.ma2([0, 1], [[1, 2, 3, 4], [2, 3, 7, 6]], "little"), codecs.ma2([0, 1, 2], [[1, 2, 3, 4], [2, 3, 5, 6], [7, 8, 9, 1]], "big")]
    if family == "dns":
        from .c26 import velocity_file

        return [velocity_file(dict(endian=e, n=n, nscal=1, fltype=3))[0] for e, n in (("little", [4, 3, 2]), ("big", [4, 3, 2]), ("little", [2, 5, 2]))]
    from .c26 import plane_file

    return [plane_file(dict(endian=e, n=n))[0] for e, n in (("little", [3, 2]), ("big", [2, 3]), ("little", [4, 2]))]


def alphabet(family):
    if family in ("ma2", "dns", "plane"):
        return [("replace", k, 0) for k in range(3)] + [("patch", 1, 0), ("patch", 2, 0), ("replace", 0, 1), ("cut", 0), ("delete", 0), ("read", 0), ("read", 1)]
    return [("write", k, p) for k in (0, 1) for p in (0, 1)] + [("change",), ("replace", 2, 0), ("patch", 1, 0), ("patch", 2, 0), ("cut", 0), ("delete", 0), ("read", 0), ("read", 1)]


def run(c, ctx):
    alpha = alphabet(c["family"])
    head = [alpha[i] for i in c["first"]]
    if not useful(head):
        return
    for tail in itertools.product(alpha, repeat=c["depth"] - len(head)):
        hist = head + list(tail)
        if hist[-1][0] in ("change", "cut", "delete", "replace", "patch"):
            continue  # nothing of the code happens at the end: part of a longer history
        sys_ = System(c["family"], ctx)
        for n, op in enumerate(hist):
            try:
                sys_.step(op)
                sys_.check()
            except Exception as err:
                expect(False, lambda: f"{c['family']}: {' '.join(map(str, hist[: n + 1]))}: {err}")
            ctx.step()
            ctx.validated()
            ctx.state((c["family"], sys_.disk[0], sys_.disk[1], sys_.changed, op, hist[n - 1] if n else None))
        ctx.count("histories")
        for p in sys_.paths:
            if os.path.exists(p):
                os.unlink(p)
        os.rmdir(sys_.folder)


def useful(head):
    return True


FAMILIES = ("nek", "re2", "rea", "header", "set", "mf", "ma2", "dns", "plane")
SLOW = ("set", "mf")


def cases(deep):
    def gen():
        for fam in FAMILIES:
            n = len(alphabet(fam))
            depth = (4 if deep else 3) if fam in SLOW else (5 if deep else 4)
            for first in itertools.product(range(n), repeat=2):
                yield dict(family=fam, first=first, depth=depth)

    return gen


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("histories", cases(deep), run, 2, timeout=3000 if deep else 300,
              bounds=f"all histories of {5 if deep else 4} ({4 if deep else 3} for datasets) operations over 9 to 12 (write, change in memory, replace, patch, cut, delete, read; two paths, three contents) for {len(FAMILIES)} readers and writers"),
    ]
