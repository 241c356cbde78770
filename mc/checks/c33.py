"""C33: truncated rea files."""

import os

from .. import codecs, data, ops, snap
from ..engine import Space, expect, product
from .c07 import build

LEVEL = "fault_enumeration"
TECHNIQUE = "exhaustive crash-point enumeration: every byte prefix of bounded rea files (of the writer and of a reference encoder) is read back"
RULE = (
    "a case is a block of prefix lengths of one file; every prefix is read by the real reader and must raise or give exactly the mesh of the "
    "whole file, except that condition sections that are missing altogether may be absent from the result; distinct by (file, length, outcome)"
)
ASSUMPTIONS = ["a crash leaves a prefix of the file (sequential writes)", "curve types have one character"]
BLOCK = 128
NUMBERS = [1.0, 1e-2, -3.25e-7, 1.5e10, 12.0, -0.125, 2.5e-2]


def mesh(c):
    s = build(dict(ndim=c["ndim"], n=c["n"], nbc=c["nbc"], ext=c["ext"], internal=c["internal"], spec=c["spec"]))
    # distinct numbers with every kind of exponent, also in the last column
    k = c.get("seed", 0)
    for e in s["elem"]:
        for row in e["bcs"]:
            for f, bc in enumerate(row[: 2 * c["ndim"]]):
                if bc[0] not in ("", "E", "P"):
                    row[f] = bc[:3] + tuple(NUMBERS[(k + j) % 7] for j in range(5))
                    k += 1
                elif bc[0] and c["pars"]:
                    row[f] = bc[:5] + tuple(NUMBERS[(k + j) % 7] for j in range(3))
                    k += 1
    return s


def text(c, ctx):
    import pymech as pm

    s = mesh(c)
    if c["by"] == "codec":
        t = codecs.rea(s, npar=2, npsc=1, nsw=1, fluid=c["fluid"])
        return t if isinstance(t, bytes) else t.encode()
    p = ctx.path("w.rea")
    pm.writerea(p, snap.to_hexa(s))
    raw = ops.content(p)
    if c.get("short"):
        # without the parameters
        head = raw.index(b"  ***** MESH DATA")
        raw = codecs.rea_header(c["ndim"], 2, 1, 1).encode() + raw[head:]
    return raw


def absent(full, nbc):
    w = snap.copy_snap(full)
    w["nbc"] = nbc
    for e in w["elem"]:
        e["bcs"] = e["bcs"][:nbc]
    return w


def run(c, ctx):
    import pymech as pm

    raw = text(c, ctx)
    p = ctx.path("t.rea")
    ops.write(p, raw)
    full = snap.snap(pm.readrea(p))
    expect(full["nbc"] == c["nbc"], f"{full['nbc']} condition fields instead of {c['nbc']}")
    titles = section_ends(raw)
    lo, size = c["lo"], BLOCK
    if c.get("tail"):
        # relative to the end of the last condition
        lo, size = last_condition(raw) + lo, c["tail"]
    for n in range(min(lo + size, len(raw)) - 1, lo - 1, -1):
        os.truncate(p, n)
        ctx.step()
        try:
            got = snap.snap(pm.readrea(p))
        except Exception:
            got = None
        ctx.count("prefixes")
        ctx.state((c["id"], n, got is None))
        if got is None:
            ctx.count("refused")
            continue
        ctx.validated()
        k = got["nbc"]
        # a section is missing altogether when the title is
        missing = sum(1 for t in titles if n < t)
        expect(k == full["nbc"] or (k < full["nbc"] and k >= full["nbc"] - missing),
               lambda: f"prefix of {n} of {len(raw)} bytes: {k} condition fields although {full['nbc'] - missing} are begun")
        d = snap.diff(got, absent(full, k))
        expect(d is None, lambda: f"prefix of {n} of {len(raw)} bytes: {d}")


def section_ends(raw):
    """Ends of the titles of the condition sections"""
    out = []
    pos = 0
    for line in raw.splitlines(keepends=True):
        pos += len(line)
        words = line.split()
        if b"BOUNDARY" in words[2:] and b"NO" not in words:
            out.append(pos)
    return out


def last_condition(raw):
    """End of the last line of the conditions"""
    for mark in (b"  ***** NO THERMAL", b"    0 PRESOLVE", b"  ***** PRESOLVE", b"            0 PRESOLVE"):
        if mark in raw:
            return raw.index(mark)
    return len(raw)


def files(deep):
    ext = [["W", "v", "O", "SYM", "f", "t"], ["v", "f", "P", "P", "W", "W"], ["t", "int", "ON", "v", "mv", "o"]]
    for nd in (2, 3):
        sizes = [[1, 1], [2, 1], [2, 2]] if nd == 2 else [[1, 1, 1], [1, 1, 2]]
        for f in product(n=sizes + ([[5, 2], [3, 4]] if nd == 2 else [[2, 2, 1], [3, 2, 2]]) * deep, nbc=[0, 1, 2, 3], ext=ext,
                         spec=[[], [[0, 0, "C"]], [[0, 3, "m"], [0, 1, "s"]]], internal=[True, False], pars=[False, True], by=["codec", "writer"], seed=[0, 3, 5]):
            nel = 1
            for k in f["n"]:
                nel *= k
            for fluid in (True, False) if f["by"] == "codec" and f["nbc"] else (True,):
                # all combinations of the content with one format, both formats with one content
                dev = (f["spec"] != []) + (f["internal"] is False) + f["pars"] + (f["seed"] != 0) + (fluid is False) + (f["ext"] != ext[0]) + (f["by"] == "writer")
                if dev > (2 if deep else 1):
                    continue
                yield dict(f, ndim=nd, fluid=fluid, short=True)


def sized(deep):
    """Both column formats: prefixes that end in the last lines"""
    for nd, n in ((2, [27, 37]), (2, [25, 40])) + (((3, [10, 10, 10]), (3, [9, 3, 37]), (2, [100, 101])) if deep else ()):
        for nbc in (0, 1, 2) if deep else (1, 2):
            for seed in (0, 1, 2, 3, 5) if deep else (1, 3):
                for by in ("codec", "writer") if deep else ("writer",):
                    yield dict(ndim=nd, n=n, nbc=nbc, ext=["f", "v", "f", "v", "f", "v"], spec=[[0, 0, "C"], [998, 1, "m"]], internal=True, pars=False, by=by, seed=seed, fluid=True)


class _Ctx:
    """A folder for the sizes of the files"""

    def __init__(self):
        import tempfile

        self.d = tempfile.mkdtemp(prefix="rea-")

    def path(self, n):
        return os.path.join(self.d, n)


def cases(deep):
    def gen():
        import shutil

        ctx = _Ctx()
        try:
            for i, f in enumerate(files(deep)):
                n = len(text(f, ctx))
                for lo in range(0, n, BLOCK):
                    yield dict(f, id=i, lo=lo)
        finally:
            shutil.rmtree(ctx.d, True)

    return gen


def tails(deep):
    def gen():
        for i, f in enumerate(sized(deep)):
            for lo in range(-112, 32, 16):
                yield dict(f, id=-1 - i, lo=lo, tail=16)

    return gen


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("prefixes", cases(deep), run, 8, bounds="every proper prefix of every enumerated rea file"),
        Space("tails", tails(deep), run, 1, bounds="the prefixes that end around the last condition of files of 999 and 1000 elements (all column formats but the million)"),
    ]
