"""C43: what a crash leaves of a file that is being written."""

import builtins
import gc
import io
import os
import sys
import weakref

from .. import data, ops, snap
from ..engine import Space, expect, product
from . import c28
from .c05 import compare, re2_mesh
from .c33 import absent

LEVEL = "fault_enumeration"
TECHNIQUE = (
    "crash-point enumeration on the real writers: the file is observed after every statement of the writer (everything written so far flushed), every torn state between two "
    "observations is generated, an exception is raised at every statement, and every file left behind is read back"
)
RULE = (
    "a state is the content a crash or an interruption at one statement of a writer leaves under the name, over nothing or over an older file; the reader must refuse it, "
    "or give the new content, or give the old content; only condition sections that are missing altogether may be absent, as in C05 and C33"
)
ASSUMPTIONS = [
    "data reach the file in the order of the calls of the writer, a torn write leaves a prefix of its bytes",
    "statements of pymech are the crash points, prefixes of what a statement writes the torn states",
]


class Files:
    """Remember the files that are opened, to flush them"""

    def __init__(self):
        self.open = []
        self.real = io.open

    def __enter__(self):
        real, seen = self.real, self.open

        def spy(*a, **kw):
            f = real(*a, **kw)
            seen.append(weakref.ref(f))
            return f

        builtins.open = io.open = spy
        return self

    def __exit__(self, *a):
        builtins.open = io.open = self.real

    def flush(self):
        for r in self.open:
            f = r()
            if f is not None and not f.closed and f.writable():
                f.flush()


def on_lines(fn, hook):
    """Call fn, and hook(number of the line event) before every statement of pymech"""
    n = [-1]
    busy = [False]

    def local(frame, event, arg):
        if event == "line" and not busy[0]:
            n[0] += 1
            busy[0] = True
            try:
                hook(n[0])
            finally:
                busy[0] = False
        return local

    def top(frame, event, arg):
        name = frame.f_code.co_filename
        if name not in c28._ours:
            c28._ours[name] = os.path.realpath(name).startswith(c28.SRC)
        return local if c28._ours[name] else None

    sys.settrace(top)
    try:
        return fn()
    finally:
        sys.settrace(None)


def mesh(c, version):
    if c["writer"] == "writenek":
        s = data.field(c["ndim"], [[3, 2, 1], [2, 3, 2]][c["ndim"] - 2], c.get("nel", 2), c["var"], dtype=c.get("dtype", "float64"), wdsz=c["wdsz"], endian=c["endian"],
                       elmap=list(range(c.get("nel", 2), 0, -1)), time=0.5 + version, istep=3 + version)
    else:
        s = re2_mesh(dict(ndim=c["ndim"], n=c.get("n", 1), nbc=c["nbc"], ncurv=c["ncurv"]))
        s["endian"] = c["endian"]
    if version:
        for e in s["elem"]:
            for name in snap.FIELDS:
                e[name] = e[name] * 1.25 + 0.5
            e["curv"] *= 1.5
            for row in e["bcs"]:
                for k, bc in enumerate(row):
                    if bc[0] == "W":
                        row[k] = ("SYM",) + bc[1:]
    return s


READER = {"writenek": "readnek", "writere2": "readre2", "writerea": "readrea"}


def reading(c, p):
    import pymech as pm

    try:
        r = ops.silent(lambda: getattr(pm, READER[c["writer"]])(p))
    except Exception:
        return None
    return None if isinstance(r, int) else snap.snap(r)


def differs(c, got, full):
    if c["writer"] == "writenek":
        return snap.diff(got, full, dtype=True)
    if c["writer"] == "writere2":
        return compare(dict(kind="re2"), got, full)
    if got["nbc"] > full["nbc"]:
        return f"{got['nbc']} condition fields"
    return snap.diff(got, absent(full, got["nbc"]))


def judge(c, ctx, p, what, versions):
    got = reading(c, p)
    ctx.count("files left behind")
    if got is None:
        ctx.count("refused")
        return
    ctx.validated()
    d = [differs(c, got, v) for v in versions]
    expect(None in d, lambda: f"{what}: the file is read as data that were never written ({d[0]})")


def torn(a, b):
    """States between the contents a and b"""
    a, b = a or b"", b or b""
    if b.startswith(a):
        lo, hi = len(a), len(b)
        make = lambda k: b[:k]
    else:
        n = min(len(a), len(b))
        diff = [i for i in range(n) if a[i] != b[i]]
        if not diff:
            return
        lo, hi = diff[0], max(diff[-1] + 1, len(b))
        make = lambda k: b[:k] + a[k:]
    if hi - lo <= 72:
        ks = range(lo + 1, hi)
    else:
        ks = sorted({*range(lo + 1, lo + 9), *range(hi - 8, hi), *(lo + (hi - lo) * j // 24 for j in range(1, 24))})
    for k in ks:
        if lo < k < hi:
            yield make(k)


def run(c, ctx):
    import pymech as pm

    writer = getattr(pm, c["writer"])
    new, old = mesh(c, 0), mesh(dict(c, **c.get("over", {})), 1)
    ext = {"writenek": ".f00001", "writere2": ".re2", "writerea": ".rea"}[c["writer"]]
    folder = ctx.path("w")
    os.makedirs(folder)
    p = os.path.join(folder, "a" + ext)
    writer(p, snap.to_hexa(new))
    versions = [reading(c, p)]
    expect(versions[0] is not None, "the complete file is not read")
    os.unlink(p)
    before = None
    if c["old"]:
        writer(p, snap.to_hexa(old))
        before = ops.content(p)
        versions.append(reading(c, p))

    def restore():
        if before is not None:
            ops.write(p, before)
        elif os.path.exists(p):
            os.unlink(p)

    def current():
        return ops.content(p) if os.path.exists(p) else None

    h = snap.to_hexa(new)
    if c["how"] == "crash":
        states = [before]
        with Files() as files:
            def look(n):
                files.flush()
                s = current()
                if s != states[-1]:
                    states.append(s)

            on_lines(lambda: writer(p, h), look)
        states.append(current())
        scratch = os.path.join(folder, "left" + ext)
        seen = set()
        for a, b in zip(states, states[1:]):
            for raw in (*torn(a, b), b):
                if raw is None or raw in seen:
                    continue
                seen.add(raw)
                ops.write(scratch, raw)
                ctx.step()
                ctx.state((c, len(raw), hash(raw)))
                judge(c, ctx, scratch, f"crash with {len(raw)} bytes in the file", versions)
        ctx.count("statements that write", len(states) - 1)
        return
    # interruptions
    total = [0]
    on_lines(lambda: writer(p, h), lambda n: total.__setitem__(0, n + 1))
    points = range(total[0])
    if len(points) > c["most"]:
        points = sorted({*points[:120], *points[-60:], *points[:: max(1, len(points) // (c["most"] - 180))]})
    for at in points:
        restore()
        kind = c["kind"]

        def stop(n):
            if n == at:
                sys.settrace(None)
                raise {"interrupt": KeyboardInterrupt, "disk": OSError, "value": ValueError}[kind]("injected")

        try:
            on_lines(lambda: writer(p, h), stop)
            how = "swallowed"
        except BaseException as err:
            how = "raised"
            del err
        ctx.step()
        ctx.state((c, at, how))
        raw = current()
        if raw is not None and how == "swallowed":
            # success is reported: the file is complete
            got = reading(c, p)
            expect(got is not None and differs(c, got, versions[0]) is None and got["nbc"] == versions[0]["nbc"], f"interrupted at event {at} by {kind}: success reported, but the file is not complete")
        if raw is not None:
            judge(c, ctx, p, f"interrupted at event {at} by {kind}", versions)
    # and it can be written again
    writer(p, h)
    expect(differs(c, reading(c, p), versions[0]) is None, "the file cannot be written again")
    gc.collect()


def bodies(deep):
    for f in product(writer=["writenek"], ndim=[2, 3], var=[[1, 1, 1, 1, 2], [1, 1, 0, 0, 0], [0, 0, 0, 1, 1]], wdsz=[8, 4], endian=["little", "big"], nel=[2, 1, 3] if deep else [2]):
        f["var"] = [f["ndim"] if v and k < 2 else v for k, v in enumerate(f["var"])]
        yield f
    for f in product(writer=["writere2", "writerea"], ndim=[2, 3], nbc=[0, 1, 2, 3], ncurv=[0, 1, 3], endian=["little", "big"], n=[1, 2] if deep else [1]):
        if f["writer"] == "writerea" and f["endian"] == "big":
            continue
        yield f


OVER = {"writenek": [{}, dict(nel=5), dict(wdsz=4)], "writere2": [{}, dict(n=3), dict(nbc=2, ncurv=2)], "writerea": [{}, dict(n=3), dict(nbc=2, ncurv=2)]}


def cases(how, deep):
    def gen():
        for i, f in enumerate(bodies(deep)):
            olds = [dict(old=False)] + [dict(old=True, over=o) for o in OVER[f["writer"]]]
            for k, o in enumerate(olds):
                if how == "crash":
                    yield dict(f, how=how, **o)
                elif deep or k < 2 or (i + k) % 4 == 0:
                    for j, kind in enumerate(("interrupt", "disk", "value")):
                        if deep or (i + j) % 3 == 0:
                            yield dict(f, how=how, kind=kind, most=2000 if deep else 400, **o)

    return gen


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("crash", cases("crash", deep), run, 1, timeout=600, bounds="every statement of the three writers, all torn states of up to 72 bytes (39 of longer ones), over nothing and over three kinds of older files"),
        Space("interrupt", cases("interrupt", deep), run, 1, timeout=900 if deep else 200, bounds=f"an exception at every statement (up to {2000 if deep else 400}), {'three kinds' if deep else 'one of three kinds per mesh'}"),
    ]
