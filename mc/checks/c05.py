"""C05: truncated binary files."""

import contextlib
import io
import os

import numpy as np

from .. import codecs, data, snap
from ..engine import Space, deviations, expect, product
from .c26 import velocity_file, plane_file

LEVEL = "fault_enumeration"
TECHNIQUE = "exhaustive crash-point enumeration: every byte prefix of bounded binary files is read back"
RULE = (
    "a case is a block of prefix lengths of one file; every prefix of every file is read by the real reader and must "
    "raise (or return an error code) or give exactly the data of the whole file; distinct by (file, outcome, length)"
)
ASSUMPTIONS = ["a crash leaves a prefix of the file (sequential writes)"]
BLOCK = 256


def nek_bytes(c):
    s = data.field(c["ndim"], c["lr1"], c["nel"], c["var"], wdsz=c["wdsz"], endian=c["endian"],
                   elmap=data.some_maps(c["nel"])[min(c.get("map", 1), len(data.some_maps(c["nel"])) - 1)], time=0.5, istep=3)
    elems = None
    if c.get("part"):
        elems = [i - 1 for i in s["elmap"]][: c["nel"] // 2]
    m = None
    if c.get("zeromap"):
        m = [0] * (len(elems) if elems is not None else c["nel"])
    return codecs.nek_field(s, c["wdsz"], c["endian"], elems=elems, elmap=m)


def re2_mesh(c):
    if c["ndim"] == 2:
        s = data.mesh2d(2, c["n"], c["nbc"])
        s = data.connect(s, (2, c["n"]), ext=("W", "v", "O", "P", "W", "W"))
    else:
        s = data.mesh3d(2, 1, c["n"], c["nbc"])
        s = data.connect(s, (2, 1, c["n"]), ext=("W", "v", "ON", "SYM", "P", "P"))
    spec = [(0, 1, "C"), (1, 0, "m"), (1, 3, "s")][: c["ncurv"]]
    return data.curve(s, spec)


def ma2_bytes(c):
    n, nv = c["nel"], c["nv"]
    cells = [[1 + i + 2 * j for j in range(nv)] for i in range(n)]
    return codecs.ma2([i % 3 for i in range(n)], cells, c["endian"])


def content(c):
    k = c["kind"]
    if k == "nek":
        return nek_bytes(c)
    if k == "re2":
        return codecs.re2(re2_mesh(c), c["endian"])
    if k == "ma2":
        return ma2_bytes(c)
    if k == "dns":
        return velocity_file(c)[0]
    return plane_file(c)[0]


def read(c, path):
    import pymech as pm

    k = c["kind"]
    with contextlib.redirect_stdout(io.StringIO()):
        if k == "nek":
            return snap.snap(pm.readnek(path, skip_vars=tuple(c.get("skip", ()))))
        if k == "re2":
            return snap.snap(pm.readre2(path))
        if k == "ma2":
            return pm.readma2(path)
        if k == "dns":
            r = pm.readdns(path)
            return r if isinstance(r, int) else snap.snap(r)
        return pm.readplane(path)


def compare(c, got, full):
    """None if equal"""
    k = c["kind"]
    if k in ("nek", "dns"):
        return snap.diff(got, full, dtype=True)
    if k == "re2":
        nb = got["nbc"]
        if nb > full["nbc"]:
            return f"{nb} condition fields instead of {full['nbc']}"
        want = snap.copy_snap(full)
        want["nbc"] = nb
        for e, g in zip(want["elem"], got["elem"]):
            e["bcs"] = e["bcs"][:nb]
            # readre2 always allocates one field: its conditions may be wholly absent
            if nb == 1 and all(bc == snap.NOBC for x in got["elem"] for bc in x["bcs"][0]):
                e["bcs"] = [[snap.NOBC] * 6]
        return snap.diff(got, want)
    for a, b in zip(got, full):
        d = snap.arr_diff(a, b)
        if d:
            return d
    return None


def whole(got, full):
    d = snap.diff(got, full)
    return d and f"accepted although it ends within a record, without all the data ({d})"


def other(raw):
    """A file of the same kind and size with all other values behind the header"""
    k = 136 if raw[:1] == b"#" else 84
    return raw[:k] + bytes(b ^ 1 for b in raw[k:])


def cut_points(c, size):
    """Lengths around every multiple of the step and near both ends"""
    step = c["step"]
    out = set(range(min(150, size))) | set(range(max(0, size - 150), size))
    for k in range(0, size + 1, step):
        out |= {k - 1, k, k + 1, k + step // 2}
    return sorted(n for n in out if 0 <= n < size)


def run(c, ctx):
    raw = content(c)
    p = ctx.path("t0.f00001")
    with open(p, "wb") as fh:
        fh.write(raw)
    full = read(c, p)
    expect(not isinstance(full, int), "the complete file is not read")
    if c["kind"] == "re2":
        starts = section_starts(raw, c)
    if "step" in c:
        lengths = cut_points(c, len(raw))[c["lo"] : c["lo"] + BLOCK][::-1]
    else:
        lengths = range(min(c["lo"] + BLOCK, len(raw)) - 1, c["lo"] - 1, -1)
    twin = ctx.path("twin.f00001")
    with open(twin, "wb") as fh:
        fh.write(other(raw))
    for i, n in enumerate(lengths):
        if i % 8 == 0:
            # what was read before must not fill the gaps
            with contextlib.suppress(Exception):
                read(c, twin)
        os.truncate(p, n)
        ctx.step()
        try:
            got = read(c, p)
        except Exception:
            got = None
        if isinstance(got, int):
            got = None
        ctx.count("prefixes")
        ctx.state((c["id"], n, got is None))
        if got is None:
            ctx.count("refused")
            continue
        d = compare(c, got, full)
        if d is None and c["kind"] == "re2":
            if n not in starts:
                d = whole(got, full)
            else:
                k = starts.index(n)
                if got["nbc"] != max(k, 1):
                    d = f"{got['nbc']} condition fields from {k} complete sections"
                elif k and snap.diff(dict(got, nbc=0), dict(full, nbc=0, elem=[dict(e, bcs=e["bcs"][:k]) for e in full["elem"]])):
                    d = "a complete condition section is not returned"
        ctx.validated()
        expect(d is None, lambda: f"prefix of {n} of {len(raw)} bytes: {d}")


def section_starts(raw, c):
    """Offsets at which whole condition sections end"""
    import struct

    bo = codecs.BO[c["endian"]]
    nel, nd = int(raw[5:14]), int(raw[14:17])
    pos = 84 + 8 * nel * (1 + nd * 2**nd)
    pos += 8 + 64 * int(struct.unpack(bo + "d", raw[pos : pos + 8])[0])  # curved edges
    out = [pos]
    while pos < len(raw):
        n = int(struct.unpack(bo + "d", raw[pos : pos + 8])[0])
        pos += 8 + 64 * n
        out.append(pos)
    return out


def files(thorough):
    for nd in (2, 3):
        lr1 = [3, 2, 1] if nd == 2 else [2, 3, 2]
        dims = dict(
            lr1=[lr1, [2, 2, nd - 1]] + ([[5, 4, 1] if nd == 2 else [4, 3, 5]] if thorough else []),
            nel=[2, 1, 3] + ([6] if thorough else []),
            var=[[1, 1, 1, 1, 2], [1, 0, 0, 0, 0], [0, 1, 1, 0, 0], [0, 0, 0, 0, 3], [0, 0, 0, 1, 0]],
            wdsz=[8, 4], endian=["little", "big"], zeromap=[0, 1], part=[0, 1],
            skip=[[], ["x", "ux"], ["x", "y", "z"], ["ux", "uy", "uz", "p"], ["t", "s01"], ["s02"], ["vx", "s01", "s02"]],
        )
        for f in deviations(dims, 3 if thorough else 2):
            if f["part"] and f["nel"] < 2:
                continue
            yield dict(f, kind="nek", ndim=nd)
        for f in product(n=[1, 2] if not thorough else [1, 2, 4], nbc=[0, 1, 2, 3], ncurv=[0, 1, 3], endian=["little", "big"]):
            yield dict(f, kind="re2", ndim=nd)
    for f in product(nel=[1, 2, 7] if not thorough else [1, 2, 3, 7, 40], nv=[4, 8], endian=["little", "big"]):
        yield dict(f, kind="ma2")
    for f in product(endian=["little", "big"], n=[[4, 3, 2], [2, 2, 4]] if not thorough else [[4, 3, 2], [2, 2, 4], [6, 5, 4], [4, 3, 1]],
                     nscal=[0, 1, 2], fltype=[3, -1, -2, 6, 20]):
        yield dict(f, kind="dns")
    for f in product(endian=["little", "big"], n=[[1], [5], [2, 3], [4, 1], [2, 3, 2], [1, 1, 1]] + ([[17], [5, 7], [4, 3, 5]] if thorough else [])):
        yield dict(f, kind="plane")


def cases(thorough):
    for i, f in enumerate(files(thorough)):
        n = len(content(f))
        for lo in range(0, n, BLOCK):
            yield dict(f, id=i, lo=lo)


def large_files(thorough):
    """Files of many blocks"""
    for nd, wdsz, part in product_tuples((2, 3), (4, 8), (0, 1)):
        yield dict(kind="nek", ndim=nd, lr1=[2, 2, nd - 1], nel=300, var=[1, 0, 1, 0, 1], wdsz=wdsz, endian="little", zeromap=part, part=part, skip=[], step=512)
        yield dict(kind="nek", ndim=nd, lr1=[16, 16, 1] if nd == 2 else [8, 8, 8], nel=9, var=[1, 1, 1, 1, 2], wdsz=wdsz, endian="big", zeromap=0, part=part, skip=["ux", "t"], step=1024)
    for nd, endian in product_tuples((2, 3), ("little", "big")):
        yield dict(kind="re2", ndim=nd, n=70, nbc=2, ncurv=3, endian=endian, step=512)
    for nv, endian in product_tuples((4, 8), ("little", "big")):
        yield dict(kind="ma2", nel=1500, nv=nv, endian=endian, step=512)
    for endian, ns in product_tuples(("little", "big"), (0, 2)):
        yield dict(kind="dns", endian=endian, n=[8, 33, 8], nscal=ns, fltype=3, step=512)
    for endian, n in product_tuples(("little", "big"), ([3000], [60, 50], [12, 13, 14])):
        yield dict(kind="plane", endian=endian, n=n, step=512)


def product_tuples(*a):
    import itertools

    return itertools.product(*a)


def large_cases(thorough):
    for i, f in enumerate(large_files(thorough)):
        if thorough:
            f["step"] //= 4
        for lo in range(0, len(cut_points(f, len(content(f)))), BLOCK):
            yield dict(f, id=f"large{i}", lo=lo)


def spaces(tier):
    th = tier == "thorough"
    return [
        Space("large", lambda: large_cases(th), run, chunk=1, timeout=600,
              bounds="files of 12 kB to 350 kB cut at, one byte before, one byte after and halfway between all multiples of " + ("128 or 256" if th else "512 or 1024") + " bytes, and in the first and last 150 bytes"),
        Space("prefixes", lambda: cases(th), run, chunk=4,
                  bounds="every proper prefix of every file of the enumerated nek, re2, ma2, SIMSON files")]
