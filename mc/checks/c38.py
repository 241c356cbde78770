"""C38: printed descriptions state what the objects hold."""

import itertools
import re

import numpy as np

from .. import data, meshes, ops, sizes, snap
from ..engine import Space, expect

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of bounded meshes and of changes of them; the labelled numbers of the printed text are compared with those of a model"
RULE = (
    "a state is one mesh (dimension, precision, size, time, step, coordinates), printed, changed in one place and printed again; every labelled number must be "
    "that of the current content, and printing must not change anything"
)
ASSUMPTIONS = ["numbers of element centres are printed with at least six digits"]

NUM = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:e[-+]?\d+)?"


def numbers(text):
    return [float(t) for t in re.findall(NUM, text)]


def labelled(text, label):
    m = re.findall(rf"^[ *]*{re.escape(label)}:(.*)$", text, re.M)
    expect(len(m) == 1, f"{len(m)} lines {label}: in {text!r}")
    return numbers(m[0])


def close(a, b, tol):
    return len(a) == len(b) and all(abs(x - y) <= tol * max(1.0, abs(y)) for x, y in zip(a, b))


def check_lims(text, s):
    for k, axis in enumerate("xyz"):
        v = [e["pos"][k] for e in s["elem"]]
        want = [float(min(a.min() for a in v)), float(max(a.max() for a in v))]
        got = labelled(text, axis)
        expect(close(got, want, 1e-12), lambda: f"limits of {axis} are {got} instead of {want}")


def centre(e):
    return [float(x) for x in e["pos"].astype(float).mean(axis=(1, 2, 3))]


def check_centre(text, e, what):
    got = [numbers(t) for t in re.findall(r"\[([^\[\]]*)\]", text)][-1:]
    want = centre(e)
    scale = max(1.0, *(abs(x) for x in want), float(np.abs(e["pos"]).max()) * (10 if e["pos"].dtype == np.float32 else 1))
    expect(got and len(got[0]) == 3 and all(abs(a - b) <= 2e-6 * scale for a, b in zip(got[0], want)), lambda: f"{what} at {got} instead of {want}: {text!r}")


def check(m, s):
    text = repr(m)
    for label, key in (("Dimensions", "ndim"), ("Precision", "wdsz"), ("time", "time"), ("istep", "istep"), ("nel", "nel")):
        got = labelled(text, label)
        expect(close(got, [float(s[key])], 1e-12), lambda: f"{label} is {got} instead of {s[key]}")
    check_lims(text, s)
    shown = re.findall(r"<elem [^<>]*>", text)
    expect(len(shown) >= 1, f"no elements in {text!r}")
    check_centre(shown[0], s["elem"][0], "first element")
    check_centre(shown[-1], s["elem"][-1], "last element")
    check_lims(repr(m.lims), s)
    expect(str(m) == text, "another text as a string")
    for e, el in zip(s["elem"], m.elem):
        check_centre(repr(el), e, "element")


def change(m, what):
    if what == "move":
        m.elem[-1].pos[1] += 2.5
    elif what == "move_first":
        m.elem[0].pos[0] -= 7.25
    elif what == "time":
        m.time, m.istep = 12.375, 4321
    elif what == "wdsz":
        m.wdsz = 4
    elif what == "drop" and m.nel > 1:
        m.elem = m.elem[:-1]
        m.nel -= 1
    elif what == "reverse":
        m.elem = m.elem[::-1]


def run(c, ctx):
    if c["kind"] == "field":
        lr = c["lr1"]
        s = data.field(3 if lr[2] > 1 else 2, lr, c["nel"], [1, 1, 1, 0, 1], dtype=c["dtype"], time=c["time"], istep=c["istep"])
        s["wdsz"] = c["wdsz"]
        m = snap.to_hexa(s, c["dtype"])
    else:
        m = snap.to_hexa(meshes.structured(c["dims"], nbc=1, shift=c["shift"]))
        m.time, m.istep = c["time"], c["istep"]
    s = snap.snap(m)
    before = snap.digest(s)
    check(m, s)
    expect(snap.digest(snap.snap(m)) == before, "printing modified the mesh")
    ctx.step(2)
    change(m, c["change"])
    check(m, snap.snap(m))
    ctx.step(2)
    ctx.state(c)
    ctx.validated(2)


def cases(deep):
    changes = ("move", "move_first", "time", "wdsz", "drop", "reverse")

    def gen():
        times = (0.0, 1.5e-7, 123456.75, -2.0)
        steps = (0, 1, 99999)
        for lr, nel, dt in itertools.product(([2, 2, 1], [3, 2, 1], [2, 3, 4]), (1, 2, 3, 5), ("float64", "float32")):
            for k, (t, i, ch) in enumerate(itertools.product(times, steps, changes)):
                yield dict(kind="field", lr1=lr, nel=nel, dtype=dt, time=t, istep=i, wdsz=4 if k % 2 else 8, change=ch)
        for dims, shift, ch in itertools.product(([1, 1], [3, 2], [2, 1, 1], [1, 1, 3]), ((0, 0, 0), (100, -3, 0.5), (-1e-3, 1e4, 0)), changes):
            for t, i in itertools.product(times, steps):
                yield dict(kind="mesh", dims=dims, shift=shift, change=ch, time=t, istep=i)
        for n in sizes.counts(1025 if deep else 513):
            for ch in changes:
                yield dict(kind="mesh", dims=[n, 1, 1][: 2 + n % 2], shift=(0, 0, 0), change=ch, time=0.5, istep=n)
        for n in range(4, 34):
            yield dict(kind="field", lr1=[n, n, 1], nel=2, dtype="float64", time=0.5, istep=n, wdsz=8, change="move")

    return gen


def spaces(tier):
    return [Space("printed", cases(tier == "thorough"), run, 64, bounds="fields of 1 to 5 elements, meshes of 2 and 3 dimensions, four times, three steps, six changes; 1 to 40 elements and both sides of all block sizes up to 513 (thorough: 1025), orders up to 33")]
