"""C34: new meshes and elements."""

import itertools

import numpy as np

from .. import ops, sizes, snap
from ..engine import Space, expect

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of bounded constructor arguments, content and sharing compared with a model; every part is then changed and the rest compared again"
RULE = (
    "a state is one new mesh or element (dimension, number of elements, orders, variables, condition fields, float type in all its spellings); its "
    "content must be that of the model, no two of its parts share memory, and a change of one part leaves all others as they are"
)
ASSUMPTIONS = []

DTYPES = {"float64": "float64", "f8": "float64", "float32": "float32", "f4": "float32", np.float64: "float64", np.float32: "float32", None: "float64"}
SPELL = {str(k): k for k in DTYPES}


def model(c):
    s = snap.blank(c["ndim"], c["nel"], c["lr1"], c["var"], c["nbc"], DTYPES[SPELL[c["dtype"]]])
    import sys

    s["endian"] = sys.byteorder
    return s


def make(c):
    from pymech.core import HexaData

    dt = SPELL[c["dtype"]]
    args = [c["ndim"], c["nel"], tuple(c["lr1"]) if c["seq"] else list(c["lr1"]), tuple(c["var"]) if c["seq"] else list(c["var"])]
    if c["nbc"] or dt is not None:
        args.append(c["nbc"])
    if dt is not None:
        args.append(dt)
    return HexaData(*args)


def check_content(m, c, what):
    want = model(c)
    got = snap.snap(m)
    d = snap.diff(got, want, dtype=True)
    expect(d is None, lambda: f"{what}: {d}")
    expect(type(m.elem) is list, f"{what}: the elements are a {type(m.elem).__name__}")
    expect(np.asarray(m.elmap).dtype == np.int32, f"{what}: element map of {np.asarray(m.elmap).dtype}")
    for el in m.elem:
        fields = el.bcs.dtype.names
        kinds = [el.bcs.dtype[n].str[1:] for n in fields]
        f = np.dtype(DTYPES[SPELL[c["dtype"]]]).str[1:]
        expect(kinds == ["U3", "i4", "i4"] + [f] * 5, f"{what}: conditions of type {kinds}")
        expect(el.curv.dtype.str[1:] == f, f"{what}: curvature of type {el.curv.dtype}")


def run(c, ctx):
    m = make(c)
    check_content(m, c, "new mesh")
    other = make(c)
    ctx.step(2)
    ctx.state(c)
    parts = [p for p in ops.nodes(m) if not p[0].endswith(("var", "lr1"))]
    own = [p for p in parts if not isinstance(p[1], str)]
    both = ops.inner_shared(own)
    expect(both is None, lambda: f"{both[0]} and {both[1]} of a new mesh share memory")
    two = ops.shared(own, [p for p in ops.nodes(other) if not p[0].endswith(("var", "lr1"))])
    expect(two is None, lambda: f"{two[0]} and {two[1]} of two new meshes share memory")
    # change every part of every element in turn
    for k, el in enumerate(m.elem):
        rest = [snap.digest(dict(snap.snap(m), elem=[snap.snap_elem(e)])) for i, e in enumerate(m.elem) if i != k]
        for name in snap.FIELDS + ("curv",):
            before = {n: np.array(getattr(el, n)) for n in snap.FIELDS + ("curv",) if n != name}
            getattr(el, name)[...] = 3.5
            for n, a in before.items():
                expect((getattr(el, n) == a).all(), f"changing {name} changes {n}")
        el.ccurv[k % 12] = "C"
        expect(sum(1 for x in el.ccurv if x) == 1, "changing one curve type changes another one")
        for b in range(c["nbc"]):
            el.bcs[b, 2 * k % 6][0] = "SYM"
            for j in range(3, 8):
                el.bcs[b, 2 * k % 6][j] = 0.5 + j
        expect(sum(1 for row in el.bcs for x in row if x[0]) == c["nbc"], "changing one condition changes another one")
        now = [snap.digest(dict(snap.snap(m), elem=[snap.snap_elem(e)])) for i, e in enumerate(m.elem) if i != k]
        expect(now == rest, f"changing element {k} changes another one")
    check_content(other, c, "second new mesh after changing the first one")
    check_content(make(c), c, "third new mesh after changing the first one")
    ctx.step()
    ctx.validated(3)


def run_elem(c, ctx):
    from pymech.core import Elem

    args = [tuple(c["var"]) if c["seq"] else list(c["var"]), tuple(c["lr1"]) if c["seq"] else list(c["lr1"]), c["nbc"]]
    dt = DTYPES[SPELL[c["dtype"]]]
    if SPELL[c["dtype"]] is not None:
        args.append(dt if isinstance(SPELL[c["dtype"]], type) else SPELL[c["dtype"]])
    a, b = Elem(*args), Elem(*args)
    ctx.step(2)
    ctx.state(c)
    want = model(dict(c, nel=1))["elem"][0]
    for el in (a, b, Elem(*args)):
        e = snap.snap_elem(el)
        for name in snap.FIELDS + ("curv",):
            d = snap.arr_diff(e[name], want[name])
            expect(d is None and e[name].dtype == want[name].dtype, lambda: f"{name} of a new element: {d or e[name].dtype}")
        expect(e["ccurv"] == want["ccurv"] and e["bcs"] == want["bcs"], "curve types or conditions of a new element")
        ops.scramble(a)
        ctx.validated()
    two = ops.shared(ops.nodes(b), ops.nodes(Elem(*args)))
    expect(two is None, lambda: f"{two} of two new elements share memory")


VARS = [[0, 0, 0, 0, 0], [2, 0, 0, 0, 0], [3, 3, 1, 1, 2], [1, 1, 1, 0, 0], [0, 0, 0, 1, 5], [3, 3, 0, 0, 99]]
ORDERS = [[2, 2], [3, 2], [2, 5], [8, 8], [1, 1]]


def args(deep):
    for nd, (lx, ly), var, nbc, dt, seq in itertools.product((2, 3), ORDERS, VARS, (0, 1, 2, 4), SPELL, (False, True)):
        for lz in (1,) if nd == 2 else (2, 4):
            if var[4] > 9 and lx * ly > 10 and not deep:
                continue
            yield dict(ndim=nd, lr1=[lx, ly, lz], var=var, nbc=nbc, dtype=dt, seq=seq)


def run_big(c, ctx):
    m = make(c)
    check_content(m, c, "new mesh")
    ctx.step()
    ctx.state(c)
    own = [p for p in ops.nodes(m) if not p[0].endswith(("var", "lr1")) and not isinstance(p[1], str)]
    both = ops.inner_shared(own)
    expect(both is None, lambda: f"{both[0]} and {both[1]} of a new mesh share memory")
    n = len(m.elem)
    for i in sorted({0, n // 2, n - 1}):
        before = [snap.snap_elem(e) for k, e in enumerate(m.elem) if k != i]
        ops.scramble(m.elem[i])
        after = [snap.snap_elem(e) for k, e in enumerate(m.elem) if k != i]
        d = snap.diff(dict(elem=after), dict(elem=before), meta=())
        expect(d is None, lambda: f"changing element {i} changes another one: {d}")
    ctx.validated(2)


def big(deep):
    for n in sizes.counts(4097 if deep else 1025):
        yield dict(ndim=2 + n % 2, lr1=[2, 2, 1 + n % 2], var=[2 + n % 2, 0, 1, 0, 2], nbc=n % 3, dtype="None" if n % 2 else "float32", seq=False, nel=n)
    for n in list(range(2, 34)) + [64, 99]:
        yield dict(ndim=2, lr1=[n, n, 1], var=[2, 2, 1, 1, n], nbc=n, dtype="None", seq=True, nel=2)


def meshes(deep):
    def gen():
        for c in args(deep):
            for nel in (0, 1, 2, 3) + ((7, 20) if deep else ()):
                if not deep and nel == 3 and c["seq"]:
                    continue
                yield dict(c, nel=nel)

    return gen




def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("sizes", lambda: big(deep), run_big, 8, timeout=600, bounds=f"1 to 40 elements and both sides of all block sizes up to {4097 if deep else 1025}, 2 to 33 orders, scalars and condition fields"),
        Space("meshes", meshes(deep), run, 64, bounds="0 to 3 elements, orders 1 to 8, variables, 0 to 4 condition fields, seven spellings of the type"),
        Space("elements", lambda: args(deep), run_elem, 64, bounds="single elements with the same arguments"),
    ]
