"""C29: rejected calls."""

import copy
import itertools
import os
import pathlib

import numpy as np

from .. import data, meshes, ops, snap
from ..engine import Space, expect, fail

LEVEL = "model_checking"
TECHNIQUE = (
    "exhaustive enumeration of the rejecting conditions of every operation and of all sequences of rejected calls on shared meshes; after "
    "every rejection the meshes and the target files are compared with their state before"
)
RULE = (
    "a state is the content of the shared meshes and target files after a sequence of rejected calls; every rejecting condition on every mesh, "
    "every sequence of the bounded length, each followed by the valid form of the last call, which must give what it gives on fresh meshes"
)
ASSUMPTIONS = ["the meshes are valid apart from the condition that is the reason of the rejection", "the kind of exception is not compared"]

OLD = {"text": b"precious content\n", "empty": b"", "binary": bytes(range(256)) * 8}


def mesh_of(spec):
    s = meshes.of({k: v for k, v in spec.items() if k not in ("lr1", "zero", "var", "fields")})
    if spec.get("curved"):
        meshes.conforming_curves(s)
    return s


class World:
    """Meshes shared by the calls"""

    def __init__(self, folder, old="text"):
        self.folder = folder
        self.snaps = {
            "m": meshes.structured([2, 2], nbc=2, ext="walls", straight=True),
            "p": meshes.structured([2, 1], nbc=1, ext="px", curves="none"),
            "n": meshes.structured([2, 1], nbc=0, straight=True),
            "h": meshes.structured([2, 1, 1], nbc=1, ext="walls"),
            "f": data.field(2, [3, 3, 1], 3, [1, 1, 1, 1, 2], elmap=[2, 3, 1], time=0.5),
            "g": data.field(3, [3, 2, 2], 2, [1, 1, 1, 0, 1], elmap=[2, 1]),
            "e": data.field(2, [2, 3, 1], 2, [1, 1, 0, 0, 0]),
        }
        meshes.conforming_curves(self.snaps["m"])
        bad = snap.copy_snap(self.snaps["m"])
        bc = bad["elem"][1]["bcs"][1][0]
        bad["elem"][1]["bcs"][1][0] = ("E", bc[1], bc[2], 99.0, 3.0, 0.0, 0.0, 0.0)
        self.snaps["b"] = bad
        void = snap.copy_snap(self.snaps["m"])
        void["elem"][2]["bcs"][0][3] = snap.NOBC
        self.snaps["v"] = void
        flat = snap.copy_snap(self.snaps["m"])
        for e in flat["elem"][3:]:
            e["pos"][:, 0, 0, 0] = e["pos"][:, 0, 0, 1]
        for e in flat["elem"]:
            for row in e["bcs"]:
                for face in range(4):
                    if row[face][0] == "E":
                        row[face] = snap.NOBC
        self.snaps["z"] = flat
        for k, s in self.snaps.items():
            setattr(self, k, snap.to_hexa(s))
        self.n_out = 0
        self.old = OLD[old]
        self.targets = {}

    def digest(self):
        return {k: snap.digest(snap.snap(getattr(self, k))) for k in self.snaps}

    def target(self, name, keep=True):
        self.n_out += 1
        path = os.path.join(self.folder, f"{self.n_out}-{name}")
        with open(path, "wb") as fh:
            fh.write(self.old)
        if keep:
            self.targets[path] = self.old
        return path

    def files(self):
        out = {}
        for p in self.targets:
            try:
                with open(p, "rb") as fh:
                    out[p] = fh.read()
            except FileNotFoundError:
                out[p] = None
        return out


# -- rejected calls: name -> (call(world), the valid call(world) that follows it) -----------------------------------
REJECT = {}


def reject(name, valid=None, group=None):
    def deco(fn):
        REJECT[name] = (fn, valid, group or name.split(" ")[0])
        return fn

    return deco


def with_attr(m, **kw):
    """The same mesh with other metadata, set for the time of a call"""

    class Set:
        def __enter__(self):
            self.old = {k: getattr(m, k) for k in kw}
            for k, v in kw.items():
                setattr(m, k, v)

        def __exit__(self, *a):
            self.now = {k: getattr(m, k) for k in kw}
            for k, v in self.old.items():
                setattr(m, k, v)
            changed = [k for k, v in kw.items() if self.now[k] != v]
            expect(not changed, lambda: f"changed {changed} of the mesh")

    return Set()


def valid_write(fn, attr, ext):
    def call(w):
        import pymech as pm

        p = w.target("ok" + ext, keep=False)
        getattr(pm, fn)(p, getattr(w, attr))
        with open(p, "rb") as fh:
            return fh.read()

    return call


def re2_faults(lr1, nv):
    def call(w):
        import pymech as pm

        p = w.target("a.re2")
        with with_attr(w.m, lr1=lr1, var=[nv, 2, 1, 0, 0]):
            pm.writere2(p, w.m)

    return call


def add_writes():
    def wdsz(attr, v, as_path):
        def call(w):
            import pymech as pm

            p = w.target("a.f00001")
            with with_attr(getattr(w, attr), wdsz=v):
                pm.writenek(pathlib.Path(p) if as_path else p, getattr(w, attr))

        return call

    for attr in ("f", "g", "m", "h"):
        for k, v in enumerate((0, 1, 2, 3, 5, 6, 7, 9, 16, 32, 64, -4, -8, 44, 88)):
            REJECT[f"writenek {attr} wdsz={v}"] = (wdsz(attr, v, k % 2), valid_write("writenek", attr, ".f00001"), "writenek")

    def re2(attr, as_path, **kw):
        def call(w):
            import pymech as pm

            p = w.target("a.re2")
            with with_attr(getattr(w, attr), **kw):
                pm.writere2(pathlib.Path(p) if as_path else p, getattr(w, attr))

        return call

    ok = valid_write("writere2", "m", ".re2")
    for attr in ("f", "g", "e"):
        REJECT[f"writere2 {attr}"] = (re2(attr, False), ok, "writere2")
    for lr in itertools.product((1, 2, 3), (1, 2, 3), (1, 2)):
        for attr, good in (("m", (2, 2, 1)), ("h", (2, 2, 2))):
            if lr != good:
                REJECT[f"writere2 {attr} lr1={lr}"] = (re2(attr, lr[0] == 1, lr1=list(lr)), valid_write("writere2", attr, ".re2"), "writere2")
    for attr, nd in (("m", 2), ("h", 3), ("n", 2)):
        for v in (0, 1, 2, 3, 4):
            if v != nd:
                REJECT[f"writere2 {attr} var={v}"] = (re2(attr, v == 1, var=[v, 2, 1, 0, 0]), valid_write("writere2", attr, ".re2"), "writere2")


def add_merges():
    def merge(x, y, **kw):
        def call(w):
            getattr(w, x).merge(getattr(w, y), **kw)

        return call

    def good(w):
        a, b = copy.deepcopy(w.m), copy.deepcopy(w.m)
        for el in b.elem:
            el.pos[0] += 2
        return [a.merge(b), a]

    for x, y in itertools.permutations(("m", "h", "f", "g", "e", "n"), 2):
        if {x, y} == {"m", "n"}:
            continue
        for k, kw in enumerate((dict(), dict(ignore_all_bcs=True), dict(ignore_empty=False))):
            REJECT[f"merge {x} {y} {k}"] = (merge(x, y, **kw), good, "merge")


def add_extrusions():
    from pymech import meshtools as mt

    z = [0.0, 0.5, 1.0, 2.0, 2.5]
    line = lambda x, y, p: x - 1.5 - p

    def ex(fn, attr, b1, b2, meta=None, z=z, **kw):
        def call(w):
            m = getattr(w, attr)
            n1 = None if b1 is None else list(b1)
            n2 = None if b2 is None else list(b2)
            zz = list(z)
            try:
                with with_attr(m, **(meta or {})):
                    getattr(mt, fn)(m, zz, n1, n2, **kw)
            finally:
                expect((n1, n2, zz) == (None if b1 is None else list(b1), None if b2 is None else list(b2), list(z)), "an argument is modified")

        return call

    good = {
        "extrude": lambda w: mt.extrude(w.m, z, ["v", "t"], ["O", "I"]),
        "extrude_refine": lambda w: mt.extrude_refine(w.n, z, fun=[lambda x, y, p: x - 0.5]),
        "extrude_mid": lambda w: mt.extrude_mid(w.n, z, [], [], lambda x, y, p: y - 0.5),
    }
    for fn, kw in (("extrude", {}), ("extrude_refine", {}), ("extrude_refine", dict(fun=[line])), ("extrude_mid", dict(fun=line))):
        tag = fn + (" split" if "fun" in kw and fn != "extrude_mid" else "")
        for k in range(2):
            for typ in ("W", "v", ""):
                one = ["v", "t"]
                one[k] = "P"
                two = ["O", "I"]
                two[k] = typ
                REJECT[f"{tag} one-sided {k} {typ!r} bottom"] = (ex(fn, "m", one, two, **kw), good[fn], fn)
                REJECT[f"{tag} one-sided {k} {typ!r} top"] = (ex(fn, "m", two, one, **kw), good[fn], fn)
        for attr in ("h", "g"):
            REJECT[f"{tag} of {attr}"] = (ex(fn, attr, ["W"], ["W"], **kw), good[fn], fn)
        for attr in ("f", "e"):
            REJECT[f"{tag} of {attr}"] = (ex(fn, attr, [], [], **kw), good[fn], fn)
        for lr in ([3, 2, 1], [2, 3, 1], [2, 2, 2], [4, 4, 1]):
            REJECT[f"{tag} lr1={lr}"] = (ex(fn, "m", ["W", "t"], ["W", "t"], dict(lr1=lr), **kw), good[fn], fn)
        for v in (0, 1):
            REJECT[f"{tag} var={v}"] = (ex(fn, "m", ["W", "t"], ["W", "t"], dict(var=[v, 2, 1, 0, 0]), **kw), good[fn], fn)
        REJECT[f"{tag} ndim=3"] = (ex(fn, "m", ["W", "t"], ["W", "t"], dict(ndim=3), **kw), good[fn], fn)
    # several faults at once: of the mesh, of the conditions, of the levels
    metas = {"": None, "lr1": dict(lr1=[3, 3, 1]), "lz": dict(lr1=[2, 2, 2]), "var": dict(var=[1, 2, 1, 0, 0]), "ndim": dict(ndim=3)}
    conds = {"": (["W", "t"], ["O", "I"]), "first": (["P", "t"], ["O", "I"]), "second": (["W", "t"], ["O", "P"]), "both": (["P", "t"], ["O", "P"])}
    for fn, kw in (("extrude", {}), ("extrude_refine", dict(fun=[line])), ("extrude_refine", {}), ("extrude_mid", dict(fun=line))):
        levels = {"": z} if fn == "extrude" or not kw else {"": z, "layers": z[:4]}
        for (a, meta), (b, (b1, b2)), (d, zz) in itertools.product(metas.items(), conds.items(), levels.items()):
            if bool(a) + bool(b) + bool(d) > 1:
                REJECT[f"several {fn} {len(kw)}: {a} {b} {d}"] = (ex(fn, "m", b1, b2, meta, z=zz, **kw), good[fn], "several")
                REJECT[f"several {fn} {len(kw)}: {a} {b} {d} (other)"] = (ex(fn, "m", b1, b2, meta, z=zz, **kw), good["extrude" if fn != "extrude" else "extrude_refine"], "several")
    for a, b in itertools.product(([3, 3, 1], [2, 2, 2], [1, 2, 1]), (0, 1, 3)):
        REJECT[f"several writere2 {a} {b}"] = (re2_faults(a, b), valid_write("writere2", "m", ".re2"), "several")
    w2 = (["W", "t"], ["W", "t"])
    g = good["extrude_refine"]
    for n in (1, 2, 3, 5, 6, 7, 9, 10):
        zz = [0.25 * i for i in range(n + 1)]
        REJECT[f"extrude_refine {n} layers"] = (ex("extrude_refine", "m", *w2, z=zz, fun=[line]), g, "extrude_refine")
        REJECT[f"extrude_refine {n} layers high"] = (ex("extrude_refine", "m", *w2, z=zz, fun=[line], imesh_high=1), g, "extrude_refine")
    REJECT["extrude_refine parameters"] = (ex("extrude_refine", "m", *w2, fun=[line], funpar=[0.0, 1.0]), g, "extrude_refine")
    REJECT["extrude_refine no parameters"] = (ex("extrude_refine", "m", *w2, fun=[line], funpar=[]), g, "extrude_refine")
    REJECT["extrude_refine corner"] = (ex("extrude_refine", "m", *w2, fun=[lambda x, y, p: x + y - 0.5]), g, "extrude_refine")
    REJECT["extrude_mid outside"] = (ex("extrude_mid", "m", *w2, fun=lambda x, y, p: x + 9.0), good["extrude_mid"], "extrude_mid")
    REJECT["extrude_mid layers"] = (ex("extrude_mid", "m", *w2, z=[0.0, 1.0, 2.0], fun=line), good["extrude_mid"], "extrude_mid")


def add_others():
    from pymech import meshtools as mt

    def keep(attr, sel, kind):
        def call(w):
            x = {"list": list, "array": np.array, "tuple": tuple}[kind](sel)
            mt.keep_elements(getattr(w, attr), x, "W")

        return call

    def good_keep(w):
        m = copy.deepcopy(w.m)
        mt.keep_elements(m, [1, 3], "W")
        return m

    for attr, n in (("m", 4), ("h", 2), ("f", 3)):
        for k, sel in enumerate(([n], [-1], [0, n], [n, 0], [-1, 0], [0, 1, 99], [-n, 1], [1, 2 * n], [-1, n])):
            REJECT[f"keep {attr} {sel}"] = (keep(attr, sel, ("list", "array", "tuple")[k % 3]), good_keep, "keep")

    def good_generate(w):
        m = copy.deepcopy(w.m)
        mt.delete_internal_bcs(m)
        return [mt.generate_internal_bcs(m), m]

    REJECT["generate zero"] = (lambda w: mt.generate_internal_bcs(w.z), good_generate, "generate")
    REJECT["generate zero tol"] = (lambda w: mt.generate_internal_bcs(w.z, tol=0.1), good_generate, "generate")
    good_box = lambda w: mt.gen_box(2, 1, 0.0, 1.0, 0.0, 2.0)
    for k, b in enumerate(((0, 0, 0, 1), (1, 0, 0, 1), (0, 1, 0, 0), (0, 1, 1, 0), (0.5, 0.25, 3, 1), (-1, -2, 0, 1), (0, 1, 5, 5), (1e9, 1e9, 0, 1), (0, 1, -1, -1.5))):
        REJECT[f"gen_box {b}"] = (lambda w, b=b: mt.gen_box(2, 2, *map(float, b)), good_box, "gen_box")
    REJECT["check_connectivity"] = (lambda w: w.b.check_connectivity(), lambda w: w.m.check_connectivity(), "check")
    REJECT["check_bcs_present"] = (lambda w: w.v.check_bcs_present(), lambda w: w.m.check_bcs_present(), "check")


def registry():
    if not REJECT:
        add_writes()
        add_merges()
        add_extrusions()
        add_others()
    return REJECT


def attempt(w, name):
    """A rejected call: it raises and has no effect"""
    call = registry()[name][0]
    before = w.digest()
    raised = False
    try:
        call(w)
    except Exception as err:
        from ..engine import Violation

        if isinstance(err, Violation):
            raise
        raised = True
    for k, v in w.digest().items():
        expect(v == before[k], lambda: f"{name}: mesh {k!r} is modified")
    for p, raw in w.files().items():
        expect(raw == w.targets[p], lambda: f"{name}: the existing file {os.path.basename(p)} " + ("is gone" if raw is None else "is modified"))
    expect(raised, lambda: f"{name}: accepted")


_valid = {}


def run(c, ctx):
    reg = registry()
    w = World(ctx.scratch, c.get("old", "text"))
    for name in c["calls"]:
        attempt(w, name)
        ctx.step()
        ctx.count("rejections")
        ctx.state((c["calls"], name))
    names = c["calls"] if c.get("all") else c["calls"][-1:]
    for name in names:
        group = reg[name][2], id(reg[name][1])
        if group not in _valid:
            d = ctx.path() + "fresh"
            os.makedirs(d)
            _valid[group] = ops.digest(ops.outcome(lambda: reg[name][1](World(d))))
        got = ops.outcome(lambda: reg[name][1](w))
        expect(not (isinstance(got, tuple) and got and got[0] == "raised"), lambda: f"after {name}: a valid call raises {got}")
        expect(ops.digest(got) == _valid[group], lambda: f"after {name}: a valid call gives another result than on fresh meshes")
        ctx.step()
        ctx.validated()
    left = [f for f in os.listdir(ctx.scratch) if not f[0].isdigit() and not f.startswith("f")]
    expect(not left, lambda: f"left behind: {left}")


def single():
    for old in OLD:
        for name in registry():
            yield dict(calls=[name], old=old)


def picked(n):
    """At most n of every kind of rejection, spread evenly"""
    groups = {}
    for name, (_, _, g) in registry().items():
        groups.setdefault(g, []).append(name)
    out = []
    for g in groups.values():
        out += g if len(g) <= n else [g[round(k * (len(g) - 1) / (n - 1))] for k in range(n)]
    return out


def sequences(length, n):
    def gen():
        for seq in itertools.product(picked(n), repeat=length):
            yield dict(calls=list(seq))

    return gen


def all_groups():
    """One long sequence of all rejections, and valid calls after it"""
    names = list(registry())
    for k in range(8):
        yield dict(calls=names[k::8], all=True)
    yield dict(calls=names[::-1])


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("single", single, run, 8, bounds="every rejecting condition of every operation, three kinds of existing target files"),
        Space("pairs", sequences(2, 12 if deep else 5), run, 16, bounds=f"all pairs of rejected calls, at most {12 if deep else 5} of each operation"),
        Space("triples", sequences(3, 4 if deep else 2), run, 32, bounds=f"all triples of rejected calls, at most {4 if deep else 2} of each operation"),
        Space("long", all_groups, run, 1, timeout=300, bounds="all rejected calls one after the other on the same meshes"),
    ]
