"""A registry of every public operation on shared objects, used to explore sequences and interleavings of calls."""

import contextlib
import copy
import hashlib
import io
import math
import os

import numpy as np

from . import codecs, data, faketvtk, meshes, snap


# -- canonical content, memory and scrambling of arbitrary results ------------------------------------------------
def kind_of(x):
    t = type(x)
    return f"{t.__module__}.{t.__name__}"


def is_dataset(x):
    return kind_of(x).startswith("xarray.core.data")


def is_object(x):
    return hasattr(x, "__dict__") and not callable(x) and kind_of(x).split(".")[0] in ("pymech", "mc")


def canon(x, out=None, seen=()):
    """Bytes describing the content of a result, independent of identity"""
    top = out is None
    if top:
        out = []
    if isinstance(x, np.ndarray):
        out.append(repr((x.shape, x.dtype.str if x.dtype.names is None else "struct")).encode())
        out.append(np.ascontiguousarray(x).tobytes() if x.dtype != object else repr(x.tolist()).encode())
    elif isinstance(x, (list, tuple)):
        out.append(f"{type(x).__name__}{len(x)}".encode())
        for v in x:
            canon(v, out)
    elif isinstance(x, dict):
        out.append(b"dict")
        for k in sorted(x, key=repr):
            out.append(repr(k).encode())
            canon(x[k], out)
    elif isinstance(x, np.generic):
        canon(np.asarray(x), out)
    elif isinstance(x, bytes):
        out.append(b"bytes" + x)
    elif is_dataset(x):
        out.append(repr((sorted(map(str, x.variables)), {str(k): v for k, v in sorted(x.sizes.items())})).encode())
        for name in sorted(x.variables, key=str):
            out.append(repr((str(name), x[name].dims, str(name) in x.coords)).encode())
            canon(np.asarray(x[name].values), out)
        canon({str(k): np.asarray(v) if not isinstance(v, str) else v for k, v in x.attrs.items()}, out)
    elif is_object(x):
        out.append(kind_of(x).encode())
        canon({k: v for k, v in vars(x).items()}, out)
    elif callable(x):
        out.append(b"callable")
    else:
        out.append(repr(x).encode())
    return b"\0".join(out) if top else None


def digest(x):
    return hashlib.blake2b(canon(x), digest_size=12).hexdigest()


def nodes(x, path="", out=None):
    """Every mutable object reachable from a result: (path, object)"""
    if out is None:
        out = []
    if isinstance(x, np.ndarray):
        if x.size:
            out.append((path, x))
    elif isinstance(x, list):
        out.append((path, x))
        for i, v in enumerate(x):
            nodes(v, f"{path}[{i}]", out)
    elif isinstance(x, tuple):
        for i, v in enumerate(x):
            nodes(v, f"{path}[{i}]", out)
    elif isinstance(x, dict):
        out.append((path, x))
        for k, v in x.items():
            nodes(v, f"{path}[{k!r}]", out)
    elif is_dataset(x):
        for name in x.variables:
            nodes(np.asarray(x[name].values), f"{path}.{name}", out)
    elif is_object(x):
        out.append((path, x))
        for k, v in vars(x).items():
            nodes(v, f"{path}.{k}", out)
    return out


def memory(a):
    import numpy.lib.array_utils as au

    return au.byte_bounds(a)


def shared(xs, ys):
    """A pair of paths under which two object graphs reach the same mutable object or memory"""
    ids = {id(o): p for p, o in xs if not isinstance(o, np.ndarray)}
    for p, o in ys:
        if not isinstance(o, np.ndarray) and id(o) in ids:
            return ids[id(o)], p
    ax = sorted((*memory(o), i) for i, (p, o) in enumerate(xs) if isinstance(o, np.ndarray))
    ay = sorted((*memory(o), i) for i, (p, o) in enumerate(ys) if isinstance(o, np.ndarray))
    j = 0
    for lo, hi, i in ax:
        while j < len(ay) and ay[j][1] <= lo:
            j += 1
        k = j
        while k < len(ay) and ay[k][0] < hi:
            if ay[k][1] > lo and np.shares_memory(xs[i][1], ys[ay[k][2]][1]):
                return xs[i][0], ys[ay[k][2]][0]
            k += 1
    return None


def inner_shared(xs):
    """The same within one object graph"""
    ids = {}
    for p, o in xs:
        if not isinstance(o, np.ndarray):
            if id(o) in ids:
                return ids[id(o)], p
            ids[id(o)] = p
    ar = sorted(((*memory(o), i) for i, (p, o) in enumerate(xs) if isinstance(o, np.ndarray)))
    for n, (lo, hi, i) in enumerate(ar):
        for lo2, hi2, i2 in ar[n + 1 :]:
            if lo2 >= hi:
                break
            if np.shares_memory(xs[i][1], xs[i2][1]):
                return xs[i][0], xs[i2][0]
    return None


def scramble(x):
    """Change every mutable part of a result; doing it twice changes it further"""
    for _, o in nodes(x):
        if isinstance(o, np.ndarray):
            try:
                if o.dtype.names:
                    for name in o.dtype.names:
                        f = o[name]
                        f[...] = "zz" if f.dtype.kind == "U" else f + 3
                elif o.dtype.kind in "fiu":
                    o += o.dtype.type(7)
                elif o.dtype.kind == "U":
                    o[...] = "zz"
            except ValueError:
                pass  # read-only
        elif isinstance(o, list):
            if o and isinstance(o[0], (int, float, str)):
                o[0] = o[0] * 2 + (1 if not isinstance(o[0], str) else "q")
            o.append(41)
        elif isinstance(o, dict):
            o["scrambled"] = o.get("scrambled", 0) + 1
        else:
            try:
                o.scrambled = getattr(o, "scrambled", 0) + 1
            except AttributeError:
                pass


# -- the shared objects -------------------------------------------------------------------------------------------
def write(path, raw):
    with open(path, "wb") as fh:
        fh.write(raw)
    return path


def tensor_box(dims, lr1, var, seed=0):
    """A field on a Cartesian grid of elements"""
    nd = 3 if lr1[2] > 1 else 2
    n = list(dims) + [1] * (3 - len(dims))
    s = data.field(nd, lr1, int(np.prod(n)), var)
    for i, e in enumerate(s["elem"]):
        idx = np.unravel_index(i, n[::-1])[::-1]
        lines = []
        for a in range(3):
            m = lr1[a]
            lines.append(idx[a] + (np.array([0.5 - 0.5 * math.cos(math.pi * k / (m - 1)) for k in range(m)]) if m > 1 else np.zeros(1)))
        z, y, x = np.meshgrid(lines[2], lines[1], lines[0], indexing="ij")
        e["pos"][0], e["pos"][1] = x, y
        e["pos"][2] = z if nd == 3 else 0
        e["vel"] += seed
    return s


class World:
    """Fresh shared objects for a sequence of calls"""

    def __init__(self, spec, folder):
        nbc = spec["nbc"]
        self.folder = folder
        self.n = 0
        curves = spec.get("curves", "some")
        a = meshes.structured([2, 2], nbc=nbc, ext=spec.get("ext", "px"), straight=True)
        if curves != "none":
            meshes.conforming_curves(a)
        b = meshes.structured([2, 2], nbc=nbc, ext="walls", straight=True, shift=(0, 2, 0))
        h = meshes.structured([2, 1, 1], nbc=nbc, ext="walls", curves=curves)
        bad = snap.copy_snap(a)
        if nbc:
            bc = bad["elem"][0]["bcs"][0][1]
            bad["elem"][0]["bcs"][0][1] = bc[:3] + (4.0,) + bc[4:]
        f = data.field(2, [3, 2, 1], 3, [1, 1, 1, 1, 2], dtype=spec.get("dtype", "float64"), elmap=[2, 3, 1], time=0.5)
        g = data.field(3, [2, 3, 2], 2, [1, 1, 1, 1, 1], dtype=spec.get("dtype", "float64"), elmap=[2, 1])
        self.snaps = dict(a=a, b=b, h=h, bad=bad, f=f, g=g)
        for k in self.snaps:
            setattr(self, k, snap.to_hexa(self.snaps[k], spec.get("dtype", "float64") if k in "fg" else "float64"))
        for m in (self.a, self.h, self.f, self.g):
            m.wdsz, m.endian = spec.get("wdsz", m.wdsz), spec.get("endian", m.endian)
        if "endian" not in spec:
            self.g.endian = self.h.endian = "big"
        self.z = [0.0, 0.5, 1.25, 1.5, 2.0]
        self.za = np.array(self.z)
        self.bc1, self.bc2 = ["v", "t", "f"][:nbc], ["O", "I", "f"][:nbc]
        self.var = [2, 2, 1, int(nbc > 1), max(0, nbc - 2)]
        self.bcw = ["W", "t", "f"][: max(nbc, 1)]
        self.bcp = [["W"] * max(nbc, 1), ["O"] * max(nbc, 1)]
        self.fun = [lambda x, y, p: y - 0.9 - 0 * p]
        self.par = [0.0]
        self.keep = [3, 0]
        self.keepa = np.array([3, 0, 3, 1])
        self.mid = np.array([0.5, -0.1, 0.0])
        self.skip = ["p", "t"]
        self.box = snap.to_hexa(tensor_box([2, 1], [3, 3, 1], [1, 1, 1, 1, 1]))

    def out(self, ext=""):
        self.n += 1
        return os.path.join(self.folder, f"out{self.n}{ext}")

    def objects(self):
        return {k: v for k, v in vars(self).items() if k not in ("n", "folder", "snaps")}


def make_files(folder, v=0):
    """Input files of the readers, made by the reference encoders; v selects another content"""
    from .checks.c05 import re2_mesh
    from .checks.c26 import plane_file, velocity_file

    os.makedirs(folder, exist_ok=True)
    p = lambda n: os.path.join(folder, n)
    f = data.field(3, [[2, 3, 2], [3, 2, 2]][v], 3, [1, 1, 1, 1, 2 - v], elmap=[[2, 3, 1], [3, 1, 2]][v], time=0.25 + v, istep=3 + v)
    if v:
        for e in f["elem"]:
            for name in snap.FIELDS:
                e[name] *= 1.5
    write(p("a.f00001"), codecs.nek_field(f, 8, "little"))
    write(p("b.f00001"), codecs.nek_field(f, 4, "big"))
    for i in range(2):
        box = tensor_box([2, 1], [3, 3, 1], [1, 1, 1, 0, 1], seed=i + 5 * v)
        write(p(f"box0.f0000{i + 1}"), codecs.nek_field(dict(box, time=float(i + 3 * v)), 8, "little"))
    m = re2_mesh(dict(ndim=3, n=2 + v, nbc=2 - v, ncurv=3 - v))
    write(p("a.re2"), codecs.re2(m, "little"))
    write(p("b.re2"), codecs.re2(m, "big"))
    with open(p("a.rea"), "w") as fh:
        r = codecs.rea(re2_mesh(dict(ndim=2, n=2 + v, nbc=1, ncurv=2 - v)))
        fh.write(r if isinstance(r, str) else r.decode())
    write(p("a.ma2"), codecs.ma2([0, 1, 1 + v], [[1, 2, 3, 4 + v], [2, 3, 5, 6], [7, 8, 9, 10]], "big"))
    write(p("a.u"), velocity_file(dict(endian="little", n=[4, 3 + 2 * v, 2], nscal=1, fltype=3))[0])
    write(p("a.plane"), plane_file(dict(endian="little", n=[3, 2 + v]))[0])
    return folder


def content(path):
    with open(path, "rb") as fh:
        return fh.read()


def silent(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


def outcome(fn):
    try:
        return fn()
    except Exception as err:
        return ("raised", type(err).__name__)


def _writer(name, attr, ext):
    def op(w, files):
        import pymech as pm

        path = w.out(ext)
        getattr(pm, name)(path, getattr(w, attr))
        return content(path)

    return op


def _merge(x, y, **kw):
    def op(w, files):
        m = copy.deepcopy(getattr(w, x))
        n = m.merge(getattr(w, y), **kw)
        return [m, n]

    return op


def _mt(name, *args, **kw):
    """A function of meshtools; strings of arguments that start with @ name shared objects"""

    def op(w, files):
        import pymech.meshtools as mt

        get = lambda v: getattr(w, v[1:]) if isinstance(v, str) and v.startswith("@") else v
        return getattr(mt, name)(*(get(v) for v in args), **{k: get(v) for k, v in kw.items()})

    return op


def _method(attr, name, *args):
    def op(w, files):
        return getattr(getattr(w, attr), name)(*args)

    return op


def _read(name, fname, **kw):
    def op(w, files):
        import pymech as pm

        kws = {k: getattr(w, v[1:]) if isinstance(v, str) and v.startswith("@") else v for k, v in kw.items()}
        return silent(lambda: getattr(pm, name)(os.path.join(files, fname), **kws))

    return op


def _keep(w, files):
    from pymech.meshtools import keep_elements

    m = copy.deepcopy(w.a)
    keep_elements(m, w.keep, "W")
    return m


def _keep_array(w, files):
    from pymech.meshtools import keep_elements

    m = copy.deepcopy(w.a)
    keep_elements(m, w.keepa)
    return m


def _lims(attr):
    return lambda w, files: {k: v for k, v in vars(getattr(w, attr).lims).items()}


def _vtk(attr, **kw):
    def op(w, files):
        return faketvtk.install().hexa2vtk(getattr(w, attr), **kw)

    return op


def _elem(attr, i, fn):
    return lambda w, files: fn(getattr(w, attr).elem[i])


def _mids(attr, i, n):
    def op(w, files):
        from pymech.meshtools import edge_mid

        return [edge_mid(getattr(w, attr).elem[i], k) for k in range(n)]

    return op


def _circle(w, files):
    from pymech.meshtools import edge_circle

    return [edge_circle(w.a.elem[0], k, w.mid) for k in range(4)]


def _mf(w, files):
    import pymech as pm

    with pm.open_mfdataset([os.path.join(files, f"box0.f0000{i}") for i in (1, 2)]) as ds:
        return ds.load()


def _map(w, files):
    from pymech.meshtools import map2D

    return map2D(w.a, lambda x, y: ((2 + x) * np.cos(0.2 * y), (2 + x) * np.sin(0.2 * y)))


def _map_edges(w, files):
    from pymech.meshtools import map2D

    return map2D(w.b, lambda x, y: (x + 0.1 * y, y), curvature=False, boundary_curvature=False)


OPS = {
    "gen_box": _mt("gen_box", 2, 2, 0.0, 1.0, 0.0, 1.0),
    "gen_box_args": _mt("gen_box", 2, 1, 0.0, 1.0, 0.0, 1.0, var="@var", bcs_xmin="@bcw", bcs_xmax="@bcw"),
    "gen_box_open": _mt("gen_box", 2, 1, 0.0, 1.0, 0.0, 1.0, internal_bcs=False),
    "gen_circle": _mt("gen_circle", 1.0, 0.5, 1, 1),
    "gen_circle_args": _mt("gen_circle", 1.0, 0.5, 2, 1, var="@var", bc="@bcw"),
    "extrude": _mt("extrude", "@a", "@z"),
    "extrude_args": _mt("extrude", "@a", "@za", bc1="@bc1", bc2="@bc2"),
    "extrude_open": _mt("extrude", "@a", "@z", "@bc1", "@bc2", internal_bcs=False),
    "refine": _mt("extrude_refine", "@b", "@za", bc1="@bc1", bc2="@bc2", fun=None),
    "refine_split": _mt("extrude_refine", "@a", "@za", bc1="@bc1", bc2="@bc2", fun="@fun", funpar="@par"),
    "refine_default": _mt("extrude_refine", "@a", "@z", fun="@fun", internal_bcs=False),
    "map": _map,
    "map_vertices": _map_edges,
    "merge": _merge("a", "b"),
    "merge_ignore": _merge("b", "a", ignore_all_bcs=True),
    "merge_empty": _merge("a", "a", ignore_empty=False, ignore_all_bcs=True),
    "merge_3d": _merge("h", "h", ignore_all_bcs=True),
    "keep": _keep,
    "keep_array": _keep_array,
    "generate": lambda w, files: (lambda m: [_mt("generate_internal_bcs", "@m")(m, files), m.m])(_Box(m=copy.deepcopy(w.b))),
    "delete": lambda w, files: (lambda m: [_mt("delete_internal_bcs", "@m")(m, files), m.m])(_Box(m=copy.deepcopy(w.a))),
    "rotate": lambda w, files: (lambda m: [_mt("rotate_2d", "@m", 0.5, 0.25, 1.0)(m, files), m.m])(_Box(m=copy.deepcopy(w.a))),
    "connectivity": _method("a", "check_connectivity"),
    "connectivity_bad": lambda w, files: outcome(w.bad.check_connectivity),
    "present": _method("b", "check_bcs_present"),
    "present_field": lambda w, files: outcome(w.f.check_bcs_present),
    "lims": _lims("f"),
    "lims_mesh": _lims("h"),
    "points": _method("f", "get_points"),
    "points_mesh": _method("a", "get_points"),
    "repr": lambda w, files: [repr(w.a), repr(w.f), repr(w.h.elem[0])],
    "faces": _elem("h", 0, lambda e: [e.face_center(i) for i in range(6)]),
    "centroid": _elem("f", 1, lambda e: [e.centroid, float(e.smallest_edge())]),
    "edge_mid": _mids("a", 0, 4),
    "edge_mid_3d": _mids("b", 1, 4),
    "edge_circle": _circle,
    "vtk": _vtk("f"),
    "vtk_3d": _vtk("g", downsample=True),
    "writenek": _writer("writenek", "f", ".f00001"),
    "writenek_3d": _writer("writenek", "g", ".f00001"),
    "writere2": _writer("writere2", "a", ".re2"),
    "writere2_3d": _writer("writere2", "h", ".re2"),
    "writerea": _writer("writerea", "a", ".rea"),
    "writerea_3d": _writer("writerea", "h", ".rea"),
    "readnek": _read("readnek", "a.f00001"),
    "readnek_skip": _read("readnek", "b.f00001", dtype="float32", skip_vars="@skip"),
    "readre2": _read("readre2", "a.re2"),
    "readre2_big": _read("readre2", "b.re2"),
    "readrea": _read("readrea", "a.rea"),
    "readma2": _read("readma2", "a.ma2"),
    "readdns": _read("readdns", "a.u"),
    "readplane": _read("readplane", "a.plane"),
    "dataset": _read("open_dataset", "box0.f00001"),
    "mfdataset": _mf,
}


class _Box:
    def __init__(self, **kw):
        self.__dict__.update(kw)


# -- further operations, on unusual values: used where every operation runs once (see battery.py) -----------------
def _straight(w, files):
    from pymech.meshtools import edge_circle

    out = []
    # corners for which the area of the degenerate triangle is exactly zero
    for q in ([(0, 0), (1, 0), (1, 1), (0, 1)], [(-3, 2), (5, 2), (5, 4), (-3, 4)], [(0, 0), (3, 4), (-1, 7), (-4, 3)]):
        d = snap.to_hexa(meshes.structured([1, 1], nbc=0, straight=True))
        el = d.elem[0]
        for (j, i), (x, y) in zip([(0, 0), (0, 1), (1, 1), (1, 0)], q):
            el.pos[0, :, j, i], el.pos[1, :, j, i] = x, y
        for k in range(4):
            (xa, ya), (xb, yb) = q[k], q[(k + 1) % 4]
            for t in (0.5, 0.25):
                mid = np.array([(1 - t) * xa + t * xb, (1 - t) * ya + t * yb, 0.0])
                out.append(outcome(lambda: edge_circle(el, k, mid)))
    return out


def _arcs(w, files):
    """Midpoints of every edge with every kind of curvature"""
    from pymech.meshtools import edge_mid

    out = []
    for kind in ("", "C", "m", "s", "e"):
        for value in (4.0, -6.0):  # more than half of the length of the edges
            m = copy.deepcopy(w.h)
            el = m.elem[0]
            for k in range(12):
                el.ccurv[k] = kind
                el.curv[k][:] = 0.0
                el.curv[k][4 if kind == "s" else 0] = value
                out.append(outcome(lambda: edge_mid(el, k)))
    return out


def _refine(kinds, fun, **kw):
    """Refined extrusion of meshes with curvature of some kinds on all edges"""

    def op(w, files):
        from pymech.meshtools import extrude_refine

        m = copy.deepcopy(w.a)
        n = 0
        for e in m.elem:
            for k in range(4):
                e.ccurv[k] = kinds[n % len(kinds)]
                e.curv[k][:] = 0.0
                if e.ccurv[k] == "m":
                    e.curv[k][:2] = e.pos[:2, 0].reshape(2, -1).mean(1)
                elif e.ccurv[k]:
                    e.curv[k][4 if e.ccurv[k] == "s" else 0] = 6.0
                n += 1
        z = [0.0, 0.25, 0.5, 0.75, 1.0]
        return outcome(lambda: extrude_refine(m, z, ["v", "t", "f"][: m.nbc], ["O", "I", "f"][: m.nbc], fun=[fun], **kw))

    return op


def _extrude(kinds):
    def op(w, files):
        from pymech.meshtools import extrude

        m = copy.deepcopy(w.a)
        for n, e in enumerate(m.elem):
            for k in range(4):
                e.ccurv[k] = kinds[(n + k) % len(kinds)]
                e.curv[k][:] = 0.0
                e.curv[k][0] = 3.0 if e.ccurv[k] else 0.0
        return outcome(lambda: extrude(m, [0.0, 0.5, 2.0]))

    return op


def _broken(w, files):
    """Readers on damaged files"""
    import pymech as pm

    out = []
    for name, fn in (("a.f00001", "readnek"), ("a.re2", "readre2"), ("a.rea", "readrea"), ("a.ma2", "readma2"), ("a.u", "readdns"), ("a.plane", "readplane")):
        raw = content(os.path.join(files, name))
        for k, part in enumerate((b"", raw[: len(raw) // 3], raw[:-1], raw[:40] + b"\xff" * 16 + raw[56:], b"\0" * len(raw))):
            path = w.out(f".{k}")
            write(path, part)
            out.append(outcome(lambda: silent(lambda: getattr(pm, fn)(path))))
        out.append(outcome(lambda: silent(lambda: getattr(pm, fn)(w.out(".missing")))))
    return out


def _nonfinite(w, files):
    """Fields with non-finite and extreme values through the writer, the reader and the dataset"""
    import pymech as pm

    f = copy.deepcopy(w.f)
    for n, e in enumerate(f.elem):
        e.vel.flat[n] = [np.nan, np.inf, -np.inf][n % 3]
        e.temp.flat[0] = 1e300 if f.wdsz == 8 else 1e30
        e.pres.flat[0] = 5e-324 if f.wdsz == 8 else 1e-45
    path = w.out(".f00001")
    pm.writenek(path, f)
    g = pm.readnek(path)
    return [content(path), g, _vtk_of(g), {k: v for k, v in vars(g.lims).items()}]


def _vtk_of(f):
    return faketvtk.install().hexa2vtk(f)


def _narrow(w, files):
    """Values which do not fit into the single precision of a file"""
    import pymech as pm

    out = []
    for value in (1e39, -1e300, 1e-50, 5e-324, np.nan, np.inf):
        f = copy.deepcopy(w.g)
        f.wdsz = 4
        f.elem[0].pres.flat[0] = f.elem[1].vel.flat[-1] = value
        path = w.out(".f00001")
        out.append(outcome(lambda: pm.writenek(path, f)))
        out.append(content(path) if os.path.exists(path) else None)
    return out


def _parameter(w, files):
    from pymech.meshtools import exponential_refinement_parameter as p

    return [outcome(lambda: p(*a)) for a in ((1.0, 10.0, 10), (0.5, 10.0, 10), (2.0, 10.0, 10), (0.1, 3.0, 2))]


def _circles(w, files):
    from pymech.meshtools import gen_circle

    kws = ({}, dict(curvature_fun=lambda t: 0.0), dict(curvature_fun=lambda t: 1.0, bl_fun=lambda t: t**2), dict(internal_bcs=False, bc=[]))
    return [outcome(lambda: gen_circle(*a, **kw)) for a in ((1.0, 0.5, 1, 1), (2.0, 0.25, 2, 3)) for kw in kws]


EXTRA = {
    "straight": _straight,
    "arcs": _arcs,
    "refine_none": _refine([""], lambda x, y, p: y - 0.9),
    "refine_e": _refine(["e", "", "C"], lambda x, y, p: y - 0.9),
    "refine_c": _refine(["C"], lambda x, y, p: x - 0.9),
    "refine_m": _refine(["m", "C", "s", ""], lambda x, y, p: y - 0.9),
    "refine_open": _refine(["m", "C"], lambda x, y, p: x - 0.9, internal_bcs=False),
    "extrude_kinds": _extrude(["", "C", "m", "s", "e"]),
    "broken": _broken,
    "nonfinite": _nonfinite,
    "narrow": _narrow,
    "parameter": _parameter,
    "circles": _circles,
}
