"""C25: ma2 map files."""

import itertools
import pathlib
import struct

import numpy as np

from .. import codecs, sizes
from ..engine import Space, expect, fail

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of bounded map files made by an independent encoder, decoded and compared integer by integer"
RULE = (
    "a state is one map file (dimension, element count, byte order, values, position of every special value, tag bytes); the decoded ranks "
    "and vertex ids are compared with the encoded ones"
)
ASSUMPTIONS = ["tags that differ from 6.54321 by less than 2e-5 may be accepted or not"]

SPECIAL = [0, 1, 255, 256, 65535, 65536, 16777215, 16777217, 33554435, 2147483647, -1, -2147483648]


def content(c):
    n, nv = c["nel"], c["nv"]
    vals = [((7919 * k + 13 * c.get("seed", 0)) ** 2 + k) % (2**31 - 1) for k in range(n * (nv + 1))]
    if c.get("small"):
        vals = [v % 50 + 1 for v in vals]
    if "at" in c:
        vals[c["at"]] = c["val"]
    rows = [vals[i * (nv + 1) : (i + 1) * (nv + 1)] for i in range(n)]
    return [r[0] for r in rows], [r[1:] for r in rows]


def run(c, ctx):
    from pymech.neksuite import readma2

    procs, cells = content(c)
    header = None
    if c.get("header") == "wide":
        n = c["nel"]
        header = "#v001   " + "".join(f" {v} " for v in (n, n, 3, 8, n * c["nv"], 17, 0)) + "   trailing text"
    raw = codecs.ma2(procs, cells, c["endian"], header=header)
    raw += bytes(c.get("extra", 0))
    path = ctx.path("m.ma2")
    with open(path, "wb") as fh:
        fh.write(raw)
    out = readma2(pathlib.Path(path) if c.get("pathlib") else path)
    ctx.step()
    cell, procmap = out
    for name, a, want in (("vertex ids", cell, cells), ("ranks", procmap, procs)):
        a = np.asarray(a)
        expect(a.dtype.kind in "iu", f"{name} are {a.dtype}, not integers")
        expect(a.shape == np.shape(want), f"{name} have shape {a.shape} instead of {np.shape(want)}")
        got = a.tolist()
        if got != want:
            i = next(i for i in range(len(want)) if got[i] != want[i])
            fail(f"{name} of element {i}: {got[i]} instead of {want[i]}")
    with open(path, "rb") as fh:
        expect(fh.read() == raw, "the file is modified")
    cell += 1
    again = readma2(path)
    ctx.step()
    expect(np.asarray(again[0]).tolist() == cells, "the second read differs")
    ctx.state(raw)
    ctx.validated(2)


def files(deep):
    def gen():
        for nv, endian in itertools.product((4, 8), ("little", "big")):
            for n in sizes.counts(65537 if deep else 10001):
                for seed in range(3):
                    yield dict(nv=nv, nel=n, endian=endian, seed=seed, small=seed == 2, extra=seed, pathlib=seed == 1, header="wide" if seed == 1 else None)
            for n in (1, 2, 3, 5) if deep else (1, 3):
                for at in range(n * (nv + 1)):
                    for v in SPECIAL:
                        yield dict(nv=nv, nel=n, endian=endian, at=at, val=v)
            if deep:
                for k in range(31):
                    for d in (-1, 0, 1):
                        for at in (0, 1, nv):
                            yield dict(nv=nv, nel=2, endian=endian, at=at, val=2**k + d)

    return gen


def run_tag(c, ctx):
    from pymech.neksuite import readma2

    procs, cells = content(dict(nel=2, nv=4))
    tag = bytes(c["tag"])
    raw = codecs.ma2(procs, cells, "little", tagbytes=tag)
    path = ctx.path("m.ma2")
    with open(path, "wb") as fh:
        fh.write(raw)
    vals = [struct.unpack(bo + "f", tag)[0] for bo in "<>"]
    ctx.step()
    ctx.state(c)
    if any(abs(v - 6.54321) < 2e-5 for v in vals):
        ctx.count("borderline")
        return
    try:
        readma2(path)
    except Exception:
        ctx.validated()
        return
    fail(f"tag {tag!r} is accepted")


def tags(deep):
    def gen():
        base = {bo: struct.pack(bo + "f", 6.54321) for bo in "<>"}
        for bo, t in base.items():
            for i in range(4):
                for v in range(256):
                    if v != t[i]:
                        u = list(t)
                        u[i] = v
                        yield dict(tag=u)
            for i, j in itertools.combinations(range(4), 2):
                for v, w in itertools.product((0, 127, 128, 255) if not deep else range(0, 256, 15), repeat=2):
                    u = list(t)
                    u[i], u[j] = v, w
                    yield dict(tag=u)
        for p in itertools.product((0, 32, 127, 128, 255), repeat=4):
            yield dict(tag=p)

    return gen


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("files", files(deep), run, 32, bounds="1 to 33 and up to " + ("20000" if deep else "1000") + " elements, both byte orders and dimensions, every special value at every position of small files"),
        Space("tags", tags(deep), run_tag, 128, bounds="every change of one byte of the tag, many of two, 625 unrelated tags"),
    ]
