"""C06: a writer that reports success has stored the whole file."""

import builtins
import errno
import io
import os
import resource

from .. import data, snap
from ..engine import Space, expect, product
from .c05 import re2_mesh

LEVEL = "fault_enumeration"
TECHNIQUE = "exhaustive enumeration of write failures: every byte offset (file size limit) and every low-level write"
RULE = (
    "a case is a block of fault positions of one file; for every position the writer runs on the real file system with "
    "the fault armed and must raise, or return with the complete file on disk; distinct by (file, fault, position)"
)
ASSUMPTIONS = ["the kernel reports a failed write to write(2) (no fsync-time failures)"]
BLOCK = 128


def mesh(c):
    big = c.get("big")
    if c["writer"] == "writenek":
        if big:
            s = data.field(3, [6, 5, 4], 4, [1, 1, 1, 1, 2], wdsz=c["wdsz"], endian=c["endian"])
        else:
            s = data.field(c["ndim"], [3, 2, c["ndim"] - 1], 2, [1, 1, 1, 0, 2], wdsz=c["wdsz"], endian=c["endian"])
    elif big:
        s = data.mesh3d(6, 5, 3, 2)
        s = data.connect(s, (6, 5, 3), ext=("W", "v", "ON", "SYM", "P", "P"))
        s["endian"] = c["endian"]
    else:
        s = re2_mesh(dict(ndim=c["ndim"], n=1, nbc=c["nbc"], ncurv=c["ncurv"]))
        s["endian"] = c["endian"]
    return snap.to_hexa(s)


def clean(c, ctx, writer):
    h = mesh(c)
    p = ctx.path("clean")
    writer(p, h)
    with open(p, "rb") as fh:
        return fh.read()


def outcome(writer, p, h):
    """'raised' or what the writer returned"""
    try:
        rc = writer(p, h)
    except Exception:
        return "raised"
    return rc


def verdict(ctx, what, rc, p, want):
    ctx.count("faults")
    ctx.validated()
    if rc == "raised":
        return
    expect(rc in (0, None), lambda: f"{what}: returned {rc!r}")
    with open(p, "rb") as fh:
        got = fh.read()
    expect(got == want, lambda: f"{what}: reported success, {len(got)} of {len(want)} bytes stored (or different bytes)")


def limit(c, ctx):
    import pymech as pm

    writer = getattr(pm, c["writer"])
    h = mesh(c)
    want = clean(c, ctx, writer)
    p = ctx.path("out")
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    for n in range(c["lo"], min(c["lo"] + BLOCK * c["step"], len(want) + 1), c["step"]):
        if os.path.exists(p):
            os.unlink(p)
        resource.setrlimit(resource.RLIMIT_FSIZE, (n, hard))
        try:
            rc = outcome(writer, p, h)
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        ctx.step()
        ctx.state((c["id"], n))
        if n >= len(want):
            expect(rc != "raised", "an error although the file fits")
        verdict(ctx, f"file limited to {n} of {len(want)} bytes", rc, p, want)


def devfull(c, ctx):
    import pymech as pm

    writer = getattr(pm, c["writer"])
    h = mesh(c)
    ctx.step()
    ctx.state(c)
    ctx.validated()
    want = clean(c, ctx, writer)
    # reached through a link, so that a writer which replaces its target cannot replace the device
    p = ctx.path()
    os.symlink("/dev/full", p)
    if outcome(writer, p, h) != "raised":
        expect(not os.path.islink(p), "success reported although the device is full")
        with open(p, "rb") as fh:
            expect(fh.read() == want, "success reported, but the file is not complete")


class Faulty(io.FileIO):
    """A raw file whose k-th write fails once (or stores only part of the data)"""

    plan = None

    def write(self, b):
        pl = Faulty.plan
        pl["n"] += 1
        if pl["n"] == pl["at"]:
            if pl["mode"] == "short":
                return super().write(memoryview(b).cast("B")[: max(1, len(memoryview(b).cast("B")) // 2)])
            if pl["mode"] == "part":
                super().write(memoryview(b).cast("B")[: len(memoryview(b).cast("B")) // 2])
            raise OSError({"ENOSPC": errno.ENOSPC, "EIO": errno.EIO, "part": errno.ENOSPC}[pl["mode"]], "injected")
        return super().write(b)


def faulty_open(real):
    def fopen(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if not any(m in mode for m in "wax+"):
            return real(file, mode, buffering, encoding, errors, newline, closefd, opener)
        raw = Faulty(file, mode.replace("b", "").replace("t", ""), closefd, opener)
        if buffering == 0:
            return raw
        buf = io.BufferedWriter(raw, buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE)
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, buffering == 1)

    return fopen


def transient(c, ctx):
    """The k-th low-level write fails once; later writes succeed again"""
    import pymech as pm

    writer = getattr(pm, c["writer"])
    h = mesh(c)
    want = clean(c, ctx, writer)
    real = builtins.open
    k = 0
    while True:
        k += 1
        p = ctx.path()
        Faulty.plan = {"n": 0, "at": k, "mode": c["mode"]}
        builtins.open = faulty_open(real)
        try:
            rc = outcome(writer, p, h)
        finally:
            builtins.open = real
        ctx.step()
        hit = Faulty.plan["n"] >= k
        ctx.state((c["id"], c["mode"], k))
        verdict(ctx, f"{c['mode']} at low-level write {k}", rc, p, want)
        if not hit:
            break
    expect(k < 10000, "endless")


def small():
    i = 0
    for nd in (2, 3):
        for wdsz, endian in ((4, "little"), (8, "little"), (4, "big"), (8, "big")):
            yield dict(id=i, writer="writenek", ndim=nd, wdsz=wdsz, endian=endian)
            i += 1
        for nbc, ncurv, endian in ((1, 2, "little"), (0, 0, "little"), (2, 0, "big"), (0, 2, "little"), (2, 3, "big")):
            yield dict(id=i, writer="writere2", ndim=nd, nbc=nbc, ncurv=ncurv, endian=endian)
            i += 1
        for nbc, ncurv in ((1, 2), (0, 0), (2, 0), (0, 2)):
            yield dict(id=i, writer="writerea", ndim=nd, nbc=nbc, ncurv=ncurv, endian="little")
            i += 1


def big():
    yield dict(id=100, writer="writenek", ndim=3, wdsz=8, endian="little", big=1)
    yield dict(id=101, writer="writenek", ndim=3, wdsz=4, endian="big", big=1)
    yield dict(id=102, writer="writere2", ndim=3, endian="little", big=1)
    yield dict(id=103, writer="writere2", ndim=3, endian="big", big=1)
    yield dict(id=104, writer="writerea", ndim=3, endian="little", big=1)


def length(c):
    import tempfile

    import pymech as pm

    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "x")
        getattr(pm, c["writer"])(p, mesh(c))
        return os.path.getsize(p)


def limits(thorough):
    for c in small():
        n = length(c)
        for lo in range(0, n + 1, BLOCK):
            yield dict(c, lo=lo, step=1)
    for c in big():
        n = length(c)
        if thorough:
            for lo in range(0, n + 1, BLOCK):
                yield dict(c, lo=lo, step=1)
        else:
            for lo in range(0, n - 127, BLOCK * 64):
                yield dict(c, lo=lo, step=64)
            yield dict(c, lo=n - 127, step=1)


def spaces(tier):
    th = tier == "thorough"
    return [
        Space("limit", lambda: limits(th), limit, chunk=1,
              bounds="every byte offset of small files; large files every 64 bytes and the last 128 (quick), every byte (thorough)"),
        Space("transient", lambda: (dict(c, mode=m) for c in list(big()) + (list(small()) if th else list(small())[::3])
                                    for m in ("ENOSPC", "EIO", "part", "short")), transient, chunk=1,
              bounds="every low-level write of every file fails once"),
        Space("devfull", lambda: list(small()) + list(big()), devfull, bounds="all files"),
    ]
