"""C32: files that are not of the stated format are refused."""

import itertools
import os
import struct

from .. import codecs, data, ops, snap
from ..engine import Space, expect
from .c05 import re2_mesh
from .c26 import plane_file, velocity_file

LEVEL = "fault_enumeration"
TECHNIQUE = "exhaustive enumeration of damaged bytes of the fields that identify a file, and of every reader on every other kind of file"
RULE = (
    "a state is one file whose identifying field (byte-order tag, word size, first record length, number of dimensions) holds one value, or "
    "one reader with a file of another kind; the reader must refuse it, or return the data of the undamaged file where the value is within "
    "the tolerance of the tag"
)
ASSUMPTIONS = ["tags that differ from 6.54321 by less than 2e-5 may be accepted or not", "refusal is an exception or an error code"]
TAG = 6.54321


def raw_of(c):
    kind, endian = c["kind"], c["endian"]
    if kind == "nek":
        s = data.field(c["ndim"], [3, 2, c["ndim"] - 1], 3, [1, 1, 1, 0, 2], elmap=[2, 3, 1], time=0.5)
        return codecs.nek_field(s, c["wdsz"], endian)
    if kind == "box":
        return codecs.nek_field(ops.tensor_box([2, 1], [3, 2, 1], [1, 1, 1, 0, 1]), c.get("wdsz", 4), endian)
    if kind == "re2":
        return codecs.re2(re2_mesh(dict(ndim=c["ndim"], n=2, nbc=2, ncurv=2)), endian)
    if kind == "rea":
        t = codecs.rea(re2_mesh(dict(ndim=c["ndim"], n=2, nbc=2, ncurv=2)))
        return t if isinstance(t, bytes) else t.encode()
    if kind == "ma2":
        nv = 2 ** c["ndim"]
        return codecs.ma2([0, 1, 0], [[1 + i + 2 * j for j in range(nv)] for i in range(3)], endian)
    if kind == "dns":
        return velocity_file(dict(endian=endian, n=[4, 3, c["ndim"] - 1], nscal=c.get("nscal", 1), fltype=3))[0]
    return plane_file(dict(endian=endian, n=[3, 2, 2][: c["ndim"]]))[0]


def readers():
    import pymech as pm
    from pymech.neksuite import readma2
    from pymech.neksuite.field import read_header

    return {
        "readnek": ("nek", pm.readnek),
        "readnek_skip": ("nek", lambda p: pm.readnek(p, dtype="float32", skip_vars=("x", "p"))),
        "read_header": ("nek", lambda p: read_header(p).as_bytestring()),
        "open_dataset": ("nek", pm.open_dataset),
        "readre2": ("re2", pm.readre2),
        "readrea": ("rea", pm.readrea),
        "readma2": ("ma2", readma2),
        "readdns": ("dns", pm.readdns),
        "readplane": ("plane", pm.readplane),
    }


def attempt(fn, p):
    try:
        r = ops.silent(lambda: fn(p))
    except Exception:
        return None
    if isinstance(r, int) and r < 0:
        return None
    return ops.digest(r)


OFFSET = {"nek": 132, "box": 132, "re2": 80, "ma2": 132}
TAGGED = {"nek": ["readnek", "readnek_skip"], "box": ["open_dataset"], "re2": ["readre2"], "ma2": ["readma2"]}


def near(b, tol):
    return any(abs(struct.unpack(o + "f", b)[0] - TAG) < tol for o in "<>")


def tags(c, ctx):
    raw = bytearray(raw_of(c))
    o = OFFSET[c["kind"]]
    p = ctx.path("t.f00001")
    fns = [(n, readers()[n][1]) for n in TAGGED[c["kind"]]]
    ops.write(p, bytes(raw))
    want = [attempt(fn, p) for _, fn in fns]
    for (n, _), w in zip(fns, want):
        expect(w is not None, f"{n} refuses an undamaged file")
    good = bytes(raw[o : o + 4])
    fd = os.open(p, os.O_RDWR)
    try:
        for val in values(c, good):
            os.pwrite(fd, val, o)
            for (n, fn), w in zip(fns, want):
                got = attempt(fn, p)
                ctx.step()
                ctx.validated()
                ctx.count("refused", got is None)
                if val == good or val == good[::-1]:
                    continue
                if near(val, 2e-5):
                    continue
                expect(got is None, lambda: f"{n} accepts the byte-order tag {val.hex()}")
            ctx.state((c["kind"], c["endian"], c.get("wdsz"), c["ndim"], val))
    finally:
        os.close(fd)


def values(c, good):
    if c["how"] == "special":
        for v in (0.0, -0.0, 1.0, -TAG, TAG * 2, TAG / 2, 6.5432, 6.5433, 6.54, 7.0, 65.4321, 0.654321, float("inf"), float("-inf"), float("nan"), 1e38, 1e-40, 6.5, 6.55):
            for o in "<>":
                yield struct.pack(o + "f", v)
        for a in itertools.permutations(good):
            yield bytes(a)
        for b in (b"\0" * 4, b"\xff" * 4, b"    ", b"#std", b"\n\n\n\n", b"6.54"):
            yield b
        return
    first, second = c["at"]
    for a in range(c["lo"], c["lo"] + 32):
        if first == second:
            v = bytearray(good)
            v[first] = a
            yield bytes(v)
        else:
            for b in range(256):
                v = bytearray(good)
                v[first], v[second] = a, b
                yield bytes(v)


def tag_cases(deep):
    def gen():
        for kind, endian, nd in itertools.product(("nek", "box", "re2", "ma2"), ("little", "big"), (2, 3)):
            if kind == "box" and nd == 3:
                continue
            for w in (8, 4) if kind in ("nek", "box") else (8,):
                base = dict(kind=kind, endian=endian, ndim=nd, wdsz=w)
                yield dict(base, how="special")
                for i in range(4):
                    for lo in range(0, 256, 32):
                        yield dict(base, how="bytes", at=[i, i], lo=lo)
                if kind == "box" or (w == 4 and not deep) or (nd == 3 and not deep):
                    continue
                for i, j in itertools.combinations(range(4), 2) if deep else [(0, 1), (2, 3)]:
                    for lo in range(0, 256, 32):
                        yield dict(base, how="bytes", at=[i, j], lo=lo)

    return gen


def run_word(c, ctx):
    """The word size of a field file"""
    raw = bytearray(raw_of(c))
    p = ctx.path("t.f00001")
    fns = [(n, readers()[n][1]) for n in (("open_dataset", "read_header") if c["kind"] == "box" else ("readnek", "readnek_skip", "read_header"))]
    ops.write(p, bytes(raw))
    for n, fn in fns:
        expect(attempt(fn, p) is not None, f"{n} refuses an undamaged file")
    for v in range(256):
        if bytes([v]) in b"48":
            continue
        raw[5] = v
        ops.write(p, bytes(raw))
        for n, fn in fns:
            expect(attempt(fn, p) is None, lambda: f"{n} accepts the word size {bytes([v])!r}")
            ctx.step()
            ctx.validated()
        ctx.state((c["kind"], c["endian"], c["wdsz"], c["ndim"], v))


def word_cases():
    for kind, endian, nd, w in itertools.product(("nek", "box"), ("little", "big"), (2, 3), (4, 8)):
        if kind == "nek" or nd == 2:
            yield dict(kind=kind, endian=endian, ndim=nd, wdsz=w)


def run_first(c, ctx):
    """The first record length of SIMSON files"""
    raw = bytearray(raw_of(c))
    p = ctx.path("t.u")
    name = "readdns" if c["kind"] == "dns" else "readplane"
    fn = readers()[name][1]
    ops.write(p, bytes(raw))
    expect(attempt(fn, p) is not None, f"{name} refuses an undamaged file")
    fd = os.open(p, os.O_RDWR)
    try:
        for v in range(c["lo"], c["lo"] + c["n"]):
            b = struct.pack("<i" if c["order"] == "little" else ">i", v)
            lo, hi = (struct.unpack(o + "i", b)[0] for o in "<>")
            if c["kind"] == "dns":
                valid = 44 <= lo <= 1644 or 44 <= hi <= 1644
            else:
                valid = lo // 4 in (1, 2, 3) or hi // 4 in (1, 2, 3)
            os.pwrite(fd, b, 0)
            ctx.state((c["kind"], c["endian"], b))
            if valid:
                continue
            expect(attempt(fn, p) is None, lambda: f"{name} accepts a file whose first record has {v} bytes ({c['order']}-endian)")
            ctx.step()
            ctx.validated()
    finally:
        os.close(fd)


def first_cases(deep):
    def gen():
        for kind, endian, order, nd in itertools.product(("dns", "plane"), ("little", "big"), ("little", "big"), (2, 3)):
            ranges = [(-300, 300), (0, 300), (300, 1300), (1600, 300), (-(2**31), 50), (2**31 - 50, 50), (2**30 - 25, 50), (65536 - 25, 50), (2**24 - 25, 50)]
            if deep:
                ranges += [(k, 1000) for k in range(2000, 70000, 1000)]
            for lo, n in ranges:
                yield dict(kind=kind, endian=endian, order=order, ndim=nd, lo=lo, n=n)

    return gen


def run_size(c, ctx):
    """Files that are consistent with a first record that is too long"""
    p = ctx.path("t.u")
    if c["kind"] == "dns":
        raw, ok = velocity_file(dict(endian=c["endian"], n=c["n"], nscal=c["size"], fltype=c["fltype"]))[0], c["size"] <= 100
    else:
        raw, ok = plane_file(dict(endian=c["endian"], n=[2] * c["size"]))[0], c["size"] <= 3
    ops.write(p, raw)
    got = attempt(readers()["readdns" if c["kind"] == "dns" else "readplane"][1], p)
    ctx.step()
    ctx.validated()
    ctx.state(c)
    expect((got is not None) == ok, lambda: f"{'refused' if ok else 'accepted'}: {c}")


def sizes(deep):
    def gen():
        for endian in ("little", "big"):
            for ns in (0, 1, 2, 99, 100, 101, 102, 103, 150, 255, 256, 500, 1000, 4093) if deep else (0, 99, 100, 101, 102, 200, 500, 1000):
                for n, fl in (([2, 2, 2], 3), ([4, 3, 1], -1)):
                    yield dict(kind="dns", endian=endian, size=ns, n=n, fltype=fl)
            for nd in range(1, 9 if deep else 7):
                yield dict(kind="plane", endian=endian, size=nd)

    return gen


def run_foreign(c, ctx):
    raw = raw_of(c["file"]) if c["file"].get("kind") else OTHER[c["file"]["text"]]
    p = ctx.path("t.f00001")
    ops.write(p, raw)
    got = attempt(readers()[c["reader"]][1], p)
    ctx.step()
    ctx.validated()
    ctx.state(c)
    own = readers()[c["reader"]][0]
    if own in OFFSET and c["reader"] != "read_header" and near(raw[OFFSET[own] : OFFSET[own] + 4].ljust(4, b"?"), 2e-5):
        ctx.count("with a valid tag")
        return  # the tag is at the same place
    expect(got is None, lambda: f"{c['reader']} returns something for a file that is {c['file']}")


OTHER = {
    "empty": b"",
    "spaces": b" " * 500,
    "zeros": bytes(2000),
    "ones": b"\xff" * 2000,
    "newlines": b"\n" * 500,
    "text": b"The quick brown fox jumps over the lazy dog.\n" * 40,
    "numbers": b"1 2 3 4 5 6 7 8 9 10 11 12 13\n" * 40,
    "png": b"\x89PNG\r\n\x1a\n" + bytes(range(256)) * 8,
    "hdf5": b"\x89HDF\r\n\x1a\n" + bytes(range(256)) * 8,
    "netcdf": b"CDF\x01" + bytes(range(256)) * 8,
    "gzip": b"\x1f\x8b\x08\x00" + bytes(range(256)) * 8,
    "utf-16": "\ufeff  ***** PARAMETERS *****\n".encode("utf-16") * 20,
}


def foreign():
    kinds = ("nek", "box", "re2", "rea", "ma2", "dns", "plane")
    for reader, (own, _) in readers().items():
        for kind, endian, nd in itertools.product(kinds, ("little", "big"), (2, 3)):
            if kind == own or (own == "nek" and kind == "box"):
                continue
            for w in (4, 8) if kind in ("nek", "box") else (8,):
                for ns in (0, 1, 3) if kind == "dns" else (0,):
                    yield dict(reader=reader, file=dict(kind=kind, endian=endian, ndim=nd, wdsz=w, nscal=ns))
        for t in OTHER:
            yield dict(reader=reader, file=dict(text=t))


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("tags", tag_cases(deep), tags, 4, bounds="every value of every byte of the tag, every value of " + ("all" if deep else "two") + " pairs of bytes, special values; both byte orders, both word sizes, 2D and 3D"),
        Space("word", word_cases, run_word, 1, bounds="every other character as word size"),
        Space("first", first_cases(deep), run_first, 2, bounds="first record lengths around all limits"),
        Space("sizes", sizes(deep), run_size, 2, bounds="up to 1000 scalars and 6 dimensions in complete files"),
        Space("foreign", foreign, run_foreign, 16, bounds="nine readers with files of all other kinds"),
    ]
