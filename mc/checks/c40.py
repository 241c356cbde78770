"""C40: results do not depend on how equal inputs are represented."""

import copy
import itertools
import os

import numpy as np

from .. import faketvtk, meshes, ops, snap
from ..engine import Space, expect
from ..layouts import LAYOUTS, locked, reverse, strided, swapped

LEVEL = "model_checking"
TECHNIQUE = (
    "exhaustive enumeration of operations times representations of their inputs (memory layouts of every array, types of every argument), each result compared with that of the plain inputs"
)
RULE = (
    "a state is one operation whose arrays lie in memory in one of the enumerated ways (all of them, those of one kind, or differently from element to element), or of "
    "which one or two arguments are given in another type of equal value; the result must be the one with contiguous native arrays and plain arguments"
)
ASSUMPTIONS = [
    "tvtk is replaced by a stand-in",
    "the element map, the condition arrays and the points given to edge_circle are numpy arrays; variable counts of headers and written meshes are lists or tuples",
    "centroids and printed centres are exempt (the last digit of a mean depends on the order of summation)",
]


ARRAYS = ("pos", "vel", "pres", "temp", "scal", "curv", "bcs", "elmap")
MAPS = {"int64": lambda a: a.astype("i8"), "big32": lambda a: a.astype(">i4"), "uint16": lambda a: a.astype("u2"), "big64": lambda a: a.astype(">i8")}


def layout(m, how, which):
    """The same mesh with its arrays laid out differently"""
    m = copy.deepcopy(m)
    names = list(LAYOUTS)
    count = 0
    for i, el in enumerate(m.elem):
        for name in ARRAYS[:-1]:
            if which is not None and name != which:
                continue
            a = getattr(el, name)
            key = how
            if how == "mixed":
                key = names[(3 * i + count) % (len(names) - 1)]
                count += 1
            b = LAYOUTS[key](a)
            if b.shape != a.shape or not (np.asarray(b == a)).all():
                raise AssertionError(f"harness: {key} changes {name}")
            setattr(el, name, b)
    if which in (None, "elmap"):
        fn = MAPS.get(how) or LAYOUTS.get(how)
        if fn:
            m.elmap = fn(np.asarray(m.elmap))
    return m


def plain(x):
    """Results as plain values: types and layouts of arrays are not compared, contents are"""
    if hasattr(x, "elem") and hasattr(x, "elmap"):
        return _mesh(x)
    if hasattr(x, "bcs") and hasattr(x, "pos"):
        return _elem(x)
    if isinstance(x, np.ndarray):
        if x.dtype.names or x.dtype.kind in "OUS":
            return ["array", x.shape, x.tolist()]
        return ["array", x.shape, np.ascontiguousarray(x, dtype="f8" if x.dtype.kind == "f" else "i8").tobytes()]
    if isinstance(x, np.generic):
        return plain(x.item())
    if isinstance(x, float):
        return float(x).hex()
    if isinstance(x, (bool, int)):
        return int(x)
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, dict):
        return sorted((str(k), repr(plain(v))) for k, v in x.items())
    if ops.is_object(x):
        return [ops.kind_of(x), plain({k: v for k, v in vars(x).items() if not callable(v)})]
    return repr(x)


def _elem(e):
    d = snap.snap_elem(e)
    return [[k, plain(d[k])] for k in sorted(d)]


def _mesh(m):
    s = snap.snap(m)
    return [[k, plain(s[k])] for k in snap.META] + [_elem(e) for e in m.elem]


def first_diff(a, b, path="result"):
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_diff(x, y, f"{path}[{a[0] if i == 1 and isinstance(a[0], str) else i}]")
    return f"{path}: {str(a)[:120]} instead of {str(b)[:120]}"


_used = {}


def used(op, spec, files, folder):
    key = (op, repr(spec))
    if key not in _used:
        w = ops.World(spec, folder)
        names = set()

        class Spy:
            def __getattr__(self, a):
                names.add(a)
                return getattr(w, a)

        ops.outcome(lambda: ops.OPS[op](Spy(), files))
        _used[key] = [n for n in sorted(names) if hasattr(getattr(w, n, None), "elem")]
    return _used[key]


_want = {}


def run_layout(c, ctx):
    op, spec = c["op"], c["spec"]
    files = ops.make_files(os.path.join(ctx.scratch, "in")) if op.startswith(("read", "dataset")) else ctx.scratch
    folder = ctx.path("out0")
    os.makedirs(folder)
    w = ops.World(spec, folder)
    names = used(op, spec, files, folder)
    expect(names, "the operation does not use any mesh")
    key = (op, repr(spec))
    if key not in _want:
        _want[key] = plain(ops.outcome(lambda: ops.OPS[op](w, files)))
    folder = ctx.path("out1")
    os.makedirs(folder)
    w = ops.World(spec, folder)
    for n in names:
        setattr(w, n, layout(getattr(w, n), c["how"], c["which"]))
    got = plain(ops.outcome(lambda: ops.OPS[op](w, files)))
    ctx.step()
    expect(got == _want[key], lambda: f"{op}: {first_diff(got, _want[key])}")
    ctx.state(c)
    ctx.validated()


# means depend on the order of summation in their last digits
APPROXIMATE = ("repr", "centroid")
MESH_OPS = [o for o in ops.OPS if not o.startswith(("gen_", "read", "dataset", "mfdataset")) and o not in APPROXIMATE]


def layouts(deep):
    def gen():
        specs = [dict(nbc=1), dict(nbc=2, ext="pp", dtype="float32", wdsz=4), dict(nbc=0, curves="all", wdsz=4, endian="big")]
        if deep:
            specs += [dict(nbc=3, ext="mixed", dtype="float32"), dict(nbc=1, endian="big", curves="none", ext="walls")]
        for op, spec in itertools.product(MESH_OPS, specs):
            for how in list(LAYOUTS) + ["mixed"]:
                yield dict(op=op, spec=spec, how=how, which=None)
                for which in ARRAYS:
                    if deep or spec is specs[0] or which in ("pos", "bcs"):
                        if not (how == "mixed" and which == "elmap"):
                            yield dict(op=op, spec=spec, how=how, which=which)
            for how in MAPS:
                yield dict(op=op, spec=spec, how=how, which="elmap")

    return gen


# -- arguments ----------------------------------------------------------------------------------------------------
def whole(v):
    return float(v) == int(v)


def forms(kind, v):
    """name -> the same value in other types"""
    if kind == "int":
        return {"int64": np.int64(v), "int32": np.int32(v), "intp": np.intp(v)}
    if kind == "num":
        out = {"float64": np.float64(v)}
        if whole(v):
            out.update(int=int(v), int64=np.int64(v), int32=np.int32(v))
        return out
    if kind == "nums":
        a = np.array(v, float)
        out = {
            "list": list(v), "tuple": tuple(v), "array": a, "strided": strided(a), "reversed": reverse(a), "swapped": swapped(a), "locked": locked(a),
            "float64s": [np.float64(x) for x in v], "mixed": [int(x) if whole(x) else x for x in v],
            "mixedtuple": tuple(int(x) if whole(x) else x for x in v), "float64tuple": tuple(np.float64(x) for x in v),
            "mixedobjects": np.array([int(x) if whole(x) else x for x in v], object),
        }
        if all(map(whole, v)):
            ints = [int(x) for x in v]
            out.update(ints=ints, intarray=np.array(ints), int32array=np.array(ints, "i4"), inttuple=tuple(ints))
            if ints == list(range(ints[0], ints[0] + len(ints))):
                out["range"] = range(ints[0], ints[0] + len(ints))
        return out
    if kind == "point":  # an array
        return {k: x for k, x in forms("nums", v).items() if isinstance(x, np.ndarray)}
    if kind == "counts":  # any sequence with a truth value
        return {k: x for k, x in forms("shape", v).items() if not isinstance(x, np.ndarray)}
    if kind == "dtypename":
        return {k: x for k, x in forms("dtype", v).items() if k != "type"}
    if kind == "ints":
        out = {"list": list(v), "tuple": tuple(v), "array": np.array(v), "int32": np.array(v, "i4"), "int64s": [np.int64(x) for x in v], "strided": strided(np.array(v)), "locked": locked(np.array(v)), "big": np.array(v, ">i8")}
        if v and list(v) == list(range(v[0], v[0] + len(v))):
            out["range"] = range(v[0], v[0] + len(v))
        return out
    if kind == "shape":  # stored as given
        return {"list": list(v), "tuple": tuple(v), "array": np.array(v), "int64s": [np.int64(x) for x in v]}
    if kind == "strs":
        return {"list": list(v), "tuple": tuple(v), "array": np.array(v), "objects": np.array(v, object), "strs": [np.str_(x) for x in v]}
    if kind == "funs":
        o = np.empty(len(v), object)
        o[:] = v
        return {"list": list(v), "tuple": tuple(v), "objects": o}
    if kind == "flag":
        return {"bool_": np.bool_(v), "int": int(v)}
    if kind == "str":
        return {"str_": np.str_(v)}
    if kind == "dtype":
        d = np.dtype(v)
        return {"name": d.name, "char": d.char, "type": d.type, "dtype": d, "code": d.str[1:], "native": d.str}
    raise AssertionError(kind)


def slope(x, y, p):
    return y - 0.9 - p


def bend(x, y):
    return (2 + x) * np.cos(0.2 * y), (2 + x) * np.sin(0.2 * y)


def calls():
    """name -> (function of (world, arguments), [(kind, value)])"""
    import pymech as pm
    from pymech import core
    from pymech import meshtools as mt
    from pymech.neksuite.field import Header

    def changed(fn):
        def f(w, *a):
            m = copy.deepcopy(w.a)
            return [fn(m, *a), m]

        return f

    yy = ("nums", [0.0, 1.0, 2.0, 3.0, 4.0])
    return {
        "gen_box": (lambda w, *a: mt.gen_box(*a), [("int", 2), ("int", 3), ("num", 0.0), ("num", 3.0), ("num", -1.0), ("num", 2.0), ("ints", [2, 2, 1, 1, 1]), ("strs", ["W", "t", "f"]), ("strs", ["O", "t", "I"]), ("strs", ["P", "P", "P"]), ("strs", ["P", "P", "P"]), ("flag", True)]),
        "gen_box_open": (lambda w, *a: mt.gen_box(*a[:6], internal_bcs=a[6]), [("int", 3), ("int", 1), ("num", 0.25), ("num", 1.0), ("num", 0.0), ("num", 7.0), ("flag", False)]),
        "gen_circle": (lambda w, *a: mt.gen_circle(*a[:4], var=a[4], bc=a[5], internal_bcs=a[6]), [("num", 2.0), ("num", 0.5), ("int", 2), ("int", 2), ("ints", [2, 2, 1, 1, 0]), ("strs", ["W", "t"]), ("flag", True)]),
        "gen_circle_one": (lambda w, *a: mt.gen_circle(*a[:4], internal_bcs=a[4]), [("num", 1.0), ("num", 0.25), ("int", 1), ("int", 3), ("flag", False)]),
        "extrude": (lambda w, *a: mt.extrude(w.a, *a), [("nums", [-1.0, 0.0, 1.0, 2.0]), ("strs", ["v"]), ("strs", ["O"]), ("flag", True)]),
        "extrude_third": (lambda w, *a: mt.extrude(w.t, *a), [("nums", [0.0, 1.0, 2.0]), ("strs", ["P"]), ("strs", ["P"]), ("flag", False)]),
        "extrude_thirds": (lambda w, *a: mt.extrude(w.t, *a), [("nums", [1 / 3, 2.0, 7 / 3])]),
        "extrude_single": (lambda w, *a: mt.extrude(w.s, *a), [("nums", [0.1, 0.7, 2.0]), ("strs", ["v"]), ("strs", ["O"]), ("flag", True)]),
        "refine": (lambda w, *a: mt.extrude_refine(w.t, a[0], bc1=a[1], bc2=a[2], fun=a[3], funpar=a[4], imesh_high=a[5], internal_bcs=a[6]), [yy, ("strs", ["v"]), ("strs", ["O"]), ("funs", [slope]), ("nums", [0.0]), ("int", 0), ("flag", True)]),
        "refine_high": (lambda w, *a: mt.extrude_refine(w.t, a[0], fun=a[1], funpar=a[2], imesh_high=a[3], internal_bcs=a[4]), [yy, ("funs", [slope]), ("nums", [0.05]), ("int", 1), ("flag", False)]),
        "refine_halves": (lambda w, *a: mt.extrude_refine(w.t, a[0], bc1=["W"], bc2=["t"], fun=a[1], funpar=a[2]), [("nums", [0.0, 0.5, 1.0, 1.5, 2.0]), ("funs", [slope]), ("nums", [0.05])]),
        "refine_tenths": (lambda w, *a: mt.extrude_refine(w.t, a[0], fun=[slope], funpar=[0.0], imesh_high=1), [("nums", [0.1, 1.0, 1.3, 2.0, 2.7])]),
        "mid_halves": (lambda w, *a: mt.extrude_mid(mt.gen_box(2, 1, 0.0, 2.0, 0.0, 1.6), a[0], ["v"], ["O"], slope, a[1]), [("nums", [0.0, 0.5, 1.0, 1.5, 2.0]), ("num", 0.0)]),
        "extrude_halves": (lambda w, *a: mt.extrude(w.t, *a), [("nums", [0.0, 0.5, 2.0, 2.5])]),
        "keep": (lambda w, *a: changed(lambda m, *b: mt.keep_elements(m, *b))(w, *a), [("ints", [3, 0]), ("str", "W")]),
        "keep_range": (lambda w, *a: changed(lambda m, *b: mt.keep_elements(m, *b))(w, *a), [("ints", [1, 2, 3])]),
        "rotate": (changed(mt.rotate_2d), [("num", 1.0), ("num", -2.0), ("num", 1.0)]),
        "rotate_part": (changed(mt.rotate_2d), [("num", 0.5), ("num", 0.25), ("num", 0.1)]),
        "map2D": (lambda w, *a: mt.map2D(w.a, bend, *a), [("flag", True), ("flag", False)]),
        "map2D_b": (lambda w, *a: mt.map2D(w.a, bend, curvature=a[0], boundary_curvature=a[1]), [("flag", False), ("flag", True)]),
        "exponential": (lambda w, *a: mt.exponential_refinement_parameter(*a), [("num", 1.0), ("num", 20.0), ("int", 7), ("num", 1e-13)]),
        "exponential_less": (lambda w, *a: mt.exponential_refinement_parameter(*a), [("num", 3.0), ("num", 8.0), ("int", 4)]),
        "generate": (lambda w, *a: (lambda m: [mt.delete_internal_bcs(m), mt.generate_internal_bcs(m, *a), m])(copy.deepcopy(w.a)), [("num", 0.001)]),
        "connectivity": (lambda w, *a: w.a.check_connectivity(*a), [("num", 1.0)]),
        "connectivity_bad": (lambda w, *a: w.bad.check_connectivity(*a), [("num", 0.001)]),
        "merge": (lambda w, *a: (lambda m: [m.merge(w.b, *a), m])(copy.deepcopy(w.a)), [("num", 0.01), ("flag", True), ("flag", False)]),
        "merge_all": (lambda w, *a: (lambda m: [m.merge(w.a, tol=a[0], ignore_empty=a[1], ignore_all_bcs=a[2]), m])(copy.deepcopy(w.b)), [("num", 0.0), ("flag", False), ("flag", True)]),
        "edge_mid": (lambda w, *a: mt.edge_mid(w.a.elem[0], *a), [("int", 1)]),
        "edge_circle": (lambda w, *a: mt.edge_circle(w.a.elem[0], *a), [("int", 0), ("point", [0.5, -0.125, 0.0])]),
        "face": (lambda w, *a: w.h.elem[0].face_center(*a), [("int", 5)]),
        "offset": (changed(lambda m, *a: m.offset_connectivity(*a)), [("int", 10), ("int", 1)]),
        "offset_back": (changed(lambda m, *a: m.offset_connectivity(*a)), [("int", -1)]),
        "mesh": (lambda w, *a: core.HexaData(*a), [("int", 3), ("int", 4), ("shape", [2, 3, 4]), ("shape", [3, 3, 1, 1, 2]), ("int", 2), ("dtype", "float32")]),
        "mesh_2d": (lambda w, *a: core.HexaData(*a), [("int", 2), ("int", 2), ("shape", [3, 2, 1]), ("shape", [2, 2, 0, 1, 0]), ("int", 0), ("dtype", "float64")]),
        "elem": (lambda w, *a: core.Elem(*a), [("shape", [3, 3, 1, 1, 2]), ("shape", [2, 3, 4]), ("int", 2), ("dtypename", "float64")]),
        "header": (lambda w, *a: Header(*a[:8], nb_vars=a[8]).as_bytestring(), [("int", 8), ("ints", [3, 4, 5]), ("int", 10), ("int", 7), ("num", 2.0), ("int", 12), ("int", 1), ("int", 3), ("counts", [3, 3, 1, 0, 2])]),
        "header_str": (lambda w, *a: Header(*a[:8], variables=a[8]).as_bytestring(), [("int", 4), ("ints", [6, 6, 1]), ("int", 10), ("int", 10), ("num", 0.1), ("int", 1), ("int", 0), ("int", 1), ("str", "XUPTS02")]),
        "vtk": (lambda w, *a: faketvtk.install().hexa2vtk(w.g, *a), [("flag", True)]),
        "vtk_all": (lambda w, *a: faketvtk.install().hexa2vtk(w.f, *a), [("flag", False)]),
        "readnek": (lambda w, *a: pm.readnek(os.path.join(w.files, "b.f00001"), *a), [("dtype", "float32"), ("strs", ["p", "uy", "s01"])]),
        "readnek_double": (lambda w, *a: pm.readnek(os.path.join(w.files, "a.f00001"), dtype=a[0], skip_vars=a[1]), [("dtype", "float64"), ("strs", ["temperature"])]),
    }


def world(folder):
    w = ops.World(dict(nbc=1), folder)
    # corners that are neither integers nor exact in single precision
    t = meshes.structured([2, 2], nbc=1, ext="walls", straight=True)
    for e in t["elem"]:
        e["pos"][:2] = e["pos"][:2] * 0.7 + 0.1
        e["pos"][1] += 0.15
    w.t = snap.to_hexa(t)
    w.s = snap.to_hexa(t, "float32")
    w.files = ops.make_files(os.path.join(folder, "in"))
    return w


def run_args(c, ctx):
    fn, args = calls()[c["call"]]
    base = [v for _, v in args]
    other = list(base)
    for k, name in c["change"]:
        other[k] = forms(*args[k])[name]
    for k, (kind, v) in enumerate(args):
        if kind == "point":
            base[k] = np.array(v)
            if other[k] is v:
                other[k] = np.array(v)
    res = []
    for a in (base, other):
        folder = ctx.path(f"out{len(res)}")
        os.makedirs(folder)
        w = world(folder)
        res.append(plain(ops.outcome(lambda: fn(w, *copy.deepcopy(a)))))
        ctx.step()
    expect(res[0] == res[1], lambda: f"{c['call']}: {first_diff(res[1], res[0])}")
    # the plain call works
    expect((isinstance(res[0], list) and res[0][:1] == ["'raised'"]) == (c["call"] == "connectivity_bad"), f"{c['call']}: {res[0]}")
    ctx.state(c)
    ctx.validated()


def arguments(deep):
    def gen():
        for call, (_, args) in calls().items():
            one = [[(k, n)] for k, (kind, v) in enumerate(args) for n in forms(kind, v)]
            yield from (dict(call=call, change=x) for x in one)
            # all arguments of a kind at once, and all of them
            common = {}
            for k, (kind, v) in enumerate(args):
                for n in forms(kind, v):
                    common.setdefault((kind, n), []).append((k, n))
            for x in common.values():
                if len(x) > 1:
                    yield dict(call=call, change=x)
            for r in range(12):
                x = [(k, list(forms(kind, v))[r % len(forms(kind, v))]) for k, (kind, v) in enumerate(args)]
                yield dict(call=call, change=x)
            if deep:
                for x, y in itertools.combinations(one, 2):
                    if x[0][0] != y[0][0]:
                        yield dict(call=call, change=x + y)

    return gen


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("layouts", layouts(deep), run_layout, 16, bounds=f"{len(MESH_OPS)} operations, {len(LAYOUTS) + 1} layouts of all arrays and of those of each of {len(ARRAYS)} kinds, {5 if deep else 3} sets of objects"),
        Space("arguments", arguments(deep), run_args, 16, bounds="every argument of every function in every other type of equal value, all arguments of a kind, all arguments" + (", every two arguments" if deep else "")),
    ]
