"""C37: copies and pickles of meshes, elements, extrema, headers and datasets."""

import copy
import itertools
import os
import pickle
import subprocess
import sys

import numpy as np

from .. import data, engine, meshes, ops, snap
from ..engine import Space, expect

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of objects, of chains of ways to copy them up to a depth, and of operations on the copies; content, sharing and results compared with the original"
RULE = (
    "a state is one copy of a mesh, element, extrema, header or dataset made by a chain of deep copies and pickles; it must equal the original in every part "
    "and type, share no memory with it, be unaffected by changes of it, and every operation must give on the copies what it gives on the originals"
)
ASSUMPTIONS = ["tvtk is replaced by a stand-in"]


def unpickled_elsewhere(x):
    """Through another process, which unpickles and pickles again"""
    code = "import sys, pickle; x = pickle.load(sys.stdin.buffer); pickle.dump(x, sys.stdout.buffer, 2)"
    stub = "import sys, types; m = types.ModuleType('pymech._version'); m.version = m.__version__ = '0'; sys.modules['pymech._version'] = m\n"
    if os.path.exists(os.path.join(engine.REPO, "src", "pymech", "_version.py")):
        stub = ""
    env = dict(os.environ, PYTHONPATH=os.path.join(engine.REPO, "src"), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    p = subprocess.run([sys.executable, "-B", "-c", stub + code], input=pickle.dumps(x), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
    expect(p.returncode == 0, lambda: f"another process cannot handle the pickle: {p.stderr.decode()[-400:]}")
    return pickle.loads(p.stdout)


WAYS = {f"pickle{n}": (lambda n: lambda x: pickle.loads(pickle.dumps(x, n)))(n) for n in range(pickle.HIGHEST_PROTOCOL + 1)}
WAYS["deepcopy"] = copy.deepcopy
WAYS["process"] = unpickled_elsewhere


def make_mesh(c):
    if c["kind"] == "field":
        nd = 3 if c["lr1"][2] > 1 else 2
        s = data.field(nd, c["lr1"], 3, c["var"], dtype=c["dtype"], elmap=[2, 3, 1], time=0.1, istep=7)
        s["endian"], s["wdsz"] = ("big", 4) if c["nbc"] else ("little", 8)
        return snap.to_hexa(s, c["dtype"])
    return snap.to_hexa(meshes.structured(c["dims"], nbc=c["nbc"], ext=c["ext"], curves=c["curves"]))


def objects(c, ctx):
    """The object and a canonical description of it"""
    m = make_mesh(c)
    if c["what"] == "mesh":
        return m
    if c["what"] == "elem":
        return m.elem[1]
    if c["what"] == "lims":
        return m.lims
    if c["what"] == "list":
        return m.elem
    from pymech.neksuite.field import Header

    if c["what"] == "header":
        return Header(8 if c["nbc"] else 4, tuple(m.lr1), m.nel, m.nel, 0.1, 7, 0, 1, nb_vars=tuple(m.var))
    import pymech as pm

    path = ctx.path("box0.f00001")
    box = ops.tensor_box([2, 1], [3, 2, 1], [1, 1, 1, c["nbc"], 1])
    from .. import codecs

    ops.write(path, codecs.nek_field(box, 8, "little"))
    return pm.open_dataset(path)


def describe(x):
    if type(x).__name__ == "Header":
        return repr([(a, getattr(x, a)) for a in ("wdsz", "orders", "nb_elems", "nb_elems_file", "time", "istep", "fid", "nb_files", "variables", "realtype", "nb_pts_elem", "nb_dims", "nb_vars")]).encode() + x.as_bytestring()
    return ops.canon(x)


def run(c, ctx):
    x = objects(c, ctx)
    want = describe(x)
    y = x
    for way in c["ways"]:
        y = WAYS[way](y)
        ctx.step()
    expect(type(y) is type(x), lambda: f"the copy is a {type(y)}")
    expect(describe(x) == want, "copying modified the original")
    expect(describe(y) == want, "the copy differs from the original")
    ctx.state((c["what"], c["ways"], want))
    if c["what"] == "lims":
        for z in (x, y):
            try:
                z.pos = ()
            except Exception:
                pass
            else:
                engine.fail("extrema can be changed" + (" after copying" if z is y else ""))
    if c["what"] not in ("header", "dataset"):  # xarray shares the immutable index of a coordinate
        both = ops.shared(ops.nodes(x), ops.nodes(y))
        expect(both is None, lambda: f"{both[0]} of the original and {both[1]} of the copy share memory")
        inner = ops.inner_shared(ops.nodes(y))
        expect(inner is None or ops.inner_shared(ops.nodes(x)) is not None, lambda: f"{inner[0]} and {inner[1]} of the copy share memory")
    if c["what"] in ("mesh", "elem", "list"):
        ops.scramble(x)
        expect(describe(x) != want, "nothing was changed")
        expect(describe(y) == want, "changing the original changes the copy")
        again = WAYS[c["ways"][-1]](y)
        ops.scramble(again)
        expect(describe(y) == want, "changing a copy of the copy changes the copy")
    if c["what"] == "dataset":
        y.close()
        x.close()
        expect(describe(y) == want, "closing the datasets changed the copy")
    ctx.validated()


def chains(deep):
    one = list(WAYS)
    for w in one:
        yield [w]
    quick = ("pickle0", "pickle2", "pickle5", "deepcopy")
    for n in (2, 3) if deep else (2,):
        yield from (list(p) for p in itertools.product(quick, repeat=n))


def cases(deep):
    def things():
        for what in ("mesh", "elem", "lims", "list", "header"):
            for dims, curves, nbc in itertools.product(([2, 1], [2, 1, 1]), ("none", "some", "all"), (0, 1, 3)):
                yield dict(what=what, kind="mesh", dims=dims, curves=curves, nbc=nbc, ext="mixed" if nbc == 3 else "px")
            for lr, var, dt, nbc in itertools.product(([2, 3, 1], [3, 2, 2]), ([1, 1, 1, 1, 2], [1, 1, 0, 0, 0], [0, 1, 1, 0, 1]), ("float64", "float32"), (0, 1)):
                yield dict(what=what, kind="field", lr1=lr, var=[3 if v and i < 2 else v for i, v in enumerate(var)], dtype=dt, nbc=nbc)
        for what, n in itertools.product(("mesh", "list"), (17, 33, 65, 129, 257) + ((513, 1025) if deep else ())):
            yield dict(what=what, kind="mesh", dims=[n, 1, 1][: 2 + n // 16 % 2], curves="some", nbc=1, ext="px")
        for nbc in (0, 1):
            yield dict(what="dataset", kind="field", lr1=[2, 2, 1], var=[1, 1, 1, 1, 1], dtype="float64", nbc=nbc)

    def gen():
        for k, t in enumerate(things()):
            for j, ways in enumerate(chains(deep)):
                if ways == ["process"] and (k % 9 or deep) and (k % 3 or not deep):
                    continue
                if t["what"] == "dataset" and {"pickle0", "pickle1"} & set(ways):  # not offered by xarray
                    continue
                yield dict(t, ways=ways)

    return gen


def run_ops(c, ctx):
    """An operation on copies of all its objects"""
    files = ops.make_files(os.path.join(ctx.scratch, "in"))
    res = []
    for ways in ([], c["ways"]):
        folder = os.path.join(ctx.scratch, f"out{len(res)}")
        os.makedirs(folder)
        w = ops.World(c["spec"], folder)
        for k, v in w.objects().items():
            if type(v).__module__.startswith("pymech"):
                for way in ways:
                    v = WAYS[way](v)
                setattr(w, k, v)
        res.append(ops.digest(ops.outcome(lambda: ops.OPS[c["op"]](w, files))))
        ctx.step()
    expect(res[0] == res[1], f"{c['op']} gives another result on copies")
    ctx.state(c)
    ctx.validated()


def op_cases(deep):
    def gen():
        for op in ops.OPS:
            if op.startswith(("read", "gen_", "dataset", "mfdataset")):
                continue
            for spec in (dict(nbc=1), dict(nbc=2, ext="pp", dtype="float32"), dict(nbc=0)):
                for ways in (["deepcopy"], ["pickle5"], ["pickle0", "deepcopy"], ["deepcopy", "pickle2"]):
                    yield dict(op=op, spec=spec, ways=ways)

    return gen


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("copies", cases(deep), run, 32, bounds=f"meshes, elements, element lists, extrema, headers and datasets; up to {1025 if deep else 257} elements; chains of up to {3 if deep else 2} copies of {len(WAYS)} kinds"),
        Space("operations", op_cases(deep), run_ops, 8, bounds="every operation on meshes, three sets of objects, four chains of copies"),
    ]
