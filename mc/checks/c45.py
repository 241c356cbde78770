"""C45: a file that is replaced while it is read."""

import os
import shutil
import sys

from .. import codecs, data, ops, snap
from ..engine import Space, expect
from . import c28, c31
from .c05 import re2_mesh
from .c26 import plane_file, velocity_file
from .c43 import on_lines
from .c44 import EXT

LEVEL = "model_checking"
TECHNIQUE = "exhaustive schedule enumeration of two processes on the real code: the replacement of a file (atomic, by every other version, or its removal) is put before every statement of every reader"
RULE = (
    "a state is one reader, two versions of its file and one or two points at which one replaces the other; the reader must give one of the versions it could meet, as a whole, or fail, "
    "and afterwards give the version that is there"
)
ASSUMPTIONS = ["other processes replace files atomically (rename)", "they do so between statements of pymech"]

_made = []


def versions():
    """kind of file -> contents"""
    if _made:
        return _made[0]
    raw, readers, _ = c31.calls()
    f = data.field(2, [3, 2, 1], 3, [1, 1, 1, 0, 2], elmap=[2, 3, 1], time=0.5)
    g = snap.copy_snap(f)
    for e in g["elem"]:
        for n in snap.FIELDS:
            e[n] = e[n] * 1.5 + 1
    box = ops.tensor_box([2, 1], [3, 2, 1], [1, 1, 1, 0, 1])
    other = ops.tensor_box([2, 1], [3, 2, 1], [1, 1, 1, 0, 1], seed=7)
    m = re2_mesh(dict(ndim=2, n=3, nbc=2, ncurv=3))
    k = snap.copy_snap(m)
    for e in k["elem"]:
        e["pos"] = e["pos"] * 3 - 1
        e["curv"] *= 2
        for row in e["bcs"]:
            for i, bc in enumerate(row):
                if bc[0] == "W":
                    row[i] = ("O",) + bc[1:]
    text = lambda s: codecs.rea(s) if isinstance(codecs.rea(s), bytes) else codecs.rea(s).encode()
    small, large = re2_mesh(dict(ndim=2, n=1, nbc=1, ncurv=0)), re2_mesh(dict(ndim=3, n=2, nbc=3, ncurv=2))
    v = {
        "nek": [
            codecs.nek_field(f, 8, "little"),
            codecs.nek_field(g, 8, "little"),
            codecs.nek_field(dict(g, time=9.0, elmap=[3, 1, 2]), 8, "little"),
            codecs.nek_field(f, 4, "big"),
            codecs.nek_field(data.field(3, [2, 3, 2], 5, [1, 1, 0, 1, 1], elmap=[5, 4, 3, 2, 1]), 8, "big"),
        ],
        "box": [codecs.nek_field(box, 4, "big"), codecs.nek_field(dict(other, time=4.0), 4, "big"), codecs.nek_field(ops.tensor_box([3, 2], [3, 2, 1], [1, 1, 1, 1, 0]), 8, "little")],
        "re2": [codecs.re2(m, "little"), codecs.re2(k, "little"), codecs.re2(m, "big"), codecs.re2(small, "little"), codecs.re2(large, "big")],
        "rea": [text(m), text(k), text(small), text(large)],
        "ma2": [codecs.ma2([0, 1], [[1, 2, 3, 4], [2, 3, 5, 6]], "little"), codecs.ma2([1, 0], [[7, 2, 8, 4], [2, 3, 5, 9]], "little"), codecs.ma2([0, 1, 1], [[1, 2, 3, 4, 5, 6, 7, 8]] * 3, "big")],
        "dns": [velocity_file(dict(endian=e, n=n, nscal=s, fltype=t, time=x))[0] for e, n, s, t, x in (("little", [4, 3, 2], 1, 3, 1.0), ("little", [4, 3, 2], 1, 3, 2.0), ("big", [4, 3, 2], 1, 3, 1.0), ("little", [2, 3, 4], 0, -1, 5.0))],
        "plane": [plane_file(dict(endian=e, n=n))[0] for e, n in (("little", [3, 2]), ("little", [2, 3]), ("big", [3, 2]), ("little", [6]))],
    }
    # the same plane with other values
    _made.append((v, readers))
    return _made[0]


def run(c, ctx):
    v, readers = versions()
    kind, fn = readers[c["reader"]]
    d = ctx.path("in")
    os.makedirs(d)
    p = os.path.join(d, "a" + EXT[kind])
    raw = v[kind]
    want = {}
    for i in {c["first"], *c["then"]} - {None}:
        ops.write(p, raw[i])
        want[i] = c31.attempt(lambda: fn(p))
        expect(want[i] != "failed", f"version {i} is not read")
    store = [ops.write(os.path.join(d, f"store{i}"), r) for i, r in enumerate(raw)]

    def put(i):
        if i is None:
            os.unlink(p)
        else:
            shutil.copy(store[i], p + ".new")
            os.replace(p + ".new", p)

    put(c["first"])
    events = []
    on_lines(lambda: c31.attempt(lambda: fn(p)), lambda n: events.append(where(sys._getframe(2))))
    # the first executions of every statement, and the last one
    count, last, points = {}, {}, set()
    for i, key in enumerate(events):
        n = count[key] = count.get(key, 0) + 1
        last[key] = i
        if n <= c["often"]:
            points.add(i)
    points = sorted(points | set(last.values()))
    plans = [(a,) for a in points] if len(c["then"]) == 1 else [(a, b) for k, a in enumerate(points) for b in points[k :: c["stride"]]]
    for plan in plans:
        put(c["first"])

        def hook(n):
            for k, at in enumerate(plan):
                if n == at:
                    put(c["then"][k])

        try:
            got = on_lines(lambda: c31.attempt(lambda: fn(p)), hook)
        finally:
            sys.settrace(None)
        ctx.step()
        ctx.validated()
        ctx.state((c, plan, got == "failed"))
        ctx.count("schedules")
        place = "; ".join(f"{events[a]} ({'removed' if i is None else f'version {i}'})" for a, i in zip(plan, c["then"]))
        expect(got == "failed" or got in want.values(), lambda: f"{c['reader']}: neither version is read when the file is replaced before {place}")
        if c["then"][-1] is not None:
            put(c["then"][-1])
            if plan[0] % 7 == 0:
                expect(c31.attempt(lambda: fn(p)) == want[c["then"][-1]], lambda: f"{c['reader']}: another version than the present one after replacing before {place}")


def where(frame):
    return f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}"


def cases(deep):
    v, readers = versions()
    for name, (kind, _) in readers.items():
        n = len(v[kind])
        for a in range(n):
            for b in [*range(n), None]:
                if a != b:
                    yield dict(reader=name, first=a, then=[b], often=20 if deep else 2)
        for a, b, c in ((0, 1, 0), (1, 2, 0), (0, 2, 1)) if deep else ((0, 1, 2),):
            yield dict(reader=name, first=a, then=[b, c], often=2 if deep else 1, stride=(7 if deep else 40) if name in c31.DATASET else 1 if deep else 3)


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("replaced", lambda: cases(deep), run, 1, timeout=900 if deep else 200,
              bounds=f"eleven readers, all ordered pairs of three to five versions and removal, before the first {20 if deep else 2} executions and the last of every statement; two replacements at all pairs of statements (quick: every third)"),
    ]
