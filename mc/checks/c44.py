"""C44: faults while a file is read."""

import builtins
import errno
import io
import os

from .. import codecs, data, ops
from ..engine import Space, expect
from . import c31
from .c05 import re2_mesh

LEVEL = "fault_enumeration"
TECHNIQUE = "exhaustive fault injection at the lowest level of reading: every single open, read and seek of every reader fails or is interrupted, for several sizes of buffers, and all reads return short"
RULE = (
    "a case is one reader, one file and one kind of fault at every low-level call in turn; the reader must fail or give what it gives without the fault, "
    "and give it again when the file is read once more"
)
ASSUMPTIONS = ["files are opened with open() or pathlib; other ways of access are not disturbed"]

ERRORS = {"eio": errno.EIO, "eintr": errno.EINTR, "estale": errno.ESTALE, "enomem": errno.ENOMEM, "eisdir": errno.EISDIR, "enoent": errno.ENOENT, "eacces": errno.EACCES, "emfile": errno.EMFILE}


class Faulty:
    """Replaces open for the files of one folder"""

    def __init__(self, folder, buffer, short=None, call=None, at=None, error=None, once=True):
        self.folder, self.buffer, self.short, self.call, self.at, self.error, self.once = folder, buffer, short, call, at, error, once
        self.counts = dict(open=0, read=0, seek=0)
        self.real = io.open

    def event(self, call):
        n = self.counts[call]
        self.counts[call] = n + 1
        if call == self.call and (n == self.at or (n > self.at and not self.once)):
            e = ERRORS[self.error]
            raise OSError(e, os.strerror(e))

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        try:
            mine = os.path.realpath(os.fspath(file)).startswith(self.folder)
        except TypeError:
            mine = False
        if not mine or set(mode) & set("wax+") or opener:
            return self.real(file, mode, buffering, encoding, errors, newline, closefd, opener)
        self.event("open")
        me = self

        class Raw(io.FileIO):
            def readinto(self, b):
                me.event("read")
                if me.short:
                    b = memoryview(b)[: me.short]
                return super().readinto(b)

            def readall(self):
                me.event("read")
                return super().readall()

            def read(self, n=-1):
                me.event("read")
                return super().read(min(n, me.short) if me.short and n >= 0 else n)

            def seek(self, *a):
                me.event("seek")
                return super().seek(*a)

        raw = Raw(file, "r")
        if buffering == 0:
            return raw
        buf = io.BufferedReader(raw, self.buffer)
        if "b" in mode:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline)
        text._CHUNK_SIZE = self.buffer
        return text

    def __enter__(self):
        builtins.open = io.open = self.open
        return self

    def __exit__(self, *a):
        builtins.open = io.open = self.real


_made = []


def files():
    """kind of file -> contents"""
    if not _made:
        raw, readers, _ = c31.calls()
        more = {k: [v] for k, v in raw.items()}
        more["nek"].append(codecs.nek_field(data.field(3, [2, 3, 2], 3, [1, 1, 1, 0, 0], elmap=[2, 3, 1]), 4, "big"))
        more["re2"].append(codecs.re2(re2_mesh(dict(ndim=3, n=1, nbc=1, ncurv=0)), "big"))
        more["nek"].append(codecs.nek_field(data.field(3, [6, 6, 6], 8, [1, 1, 1, 1, 1], elmap=[8, 7, 6, 5, 1, 2, 3, 4]), 8, "little"))
        more["ma2"].append(codecs.ma2([k % 3 for k in range(1500)], [[k + 1, k + 2, k + 3, k + 4] for k in range(1500)], "little"))
        more["ma2"].append(codecs.ma2([0, 1, 0], [[1, 2, 3, 4, 5, 6, 7, 8]] * 3, "big"))
        r = codecs.rea(re2_mesh(dict(ndim=3, n=1, nbc=2, ncurv=1)))
        more["rea"].append(r if isinstance(r, bytes) else r.encode())
        _made.append((more, readers))
    return _made[0]


EXT = {"nek": ".f00001", "box": ".f00001", "re2": ".re2", "rea": ".rea", "ma2": ".ma2", "dns": ".u", "plane": ".pl"}


def attempt(fn, p):
    return c31.attempt(lambda: fn(p))


def run(c, ctx):
    more, readers = files()
    kind, fn = readers[c["reader"]]
    folder = os.path.join(os.path.realpath(ctx.scratch), "in", "")
    os.makedirs(folder)
    p = ops.write(os.path.join(folder, "a" + EXT[kind]), more[kind][c["file"]])
    want = attempt(fn, p)
    expect(want != "failed", "the file is not read")
    what = f"{c['reader']}, buffer of {c['buffer']}"
    if "short" in c:
        with Faulty(folder, c["buffer"], short=c["short"]) as f:
            got = attempt(fn, p)
        ctx.step()
        ctx.validated()
        ctx.state(c)
        ctx.count("low-level reads", f.counts["read"])
        expect(got in (want, "failed"), f"{what}: other data when the system returns at most {c['short']} bytes at once")
        return
    with Faulty(folder, c["buffer"]) as f:
        got = attempt(fn, p)
    expect(got == want, f"{what}: other data")
    n = f.counts[c["call"]]
    if not n:
        ctx.count("no such call")
    points = range(n)
    if n > c["most"]:
        points = sorted({*points[: c["most"] // 2], *points[-(c["most"] // 4) :], *points[:: max(1, 4 * n // c["most"])]})
    for at in points:
        with Faulty(folder, c["buffer"], call=c["call"], at=at, error=c["error"], once=c["once"]):
            got = attempt(fn, p)
        ctx.step()
        ctx.count("faults")
        ctx.state((c, at, got == "failed"))
        ctx.validated()
        expect(got in (want, "failed"), f"{what}: other data after {c['error']} in {c['call']} {at}")
        if at % 5 == 0:
            expect(attempt(fn, p) == want, f"{what}: other data when the file is read again after {c['error']} in {c['call']} {at}")
    with Faulty(folder, c["buffer"]):
        expect(attempt(fn, p) == want, f"{what}: other data when the file is read again")


def cases(deep):
    more, readers = files()
    for name, (kind, _) in readers.items():
        for i in range(len(more[kind])):
            for b in (8192, 512, 64, 8, 3, 1) if deep else (8192, 64, 8, 1):
                for s in (1, 3, 8, 100, 133):
                    yield dict(reader=name, file=i, buffer=b, short=s)
                for e in ERRORS:
                    if e in ("enoent", "eacces", "emfile", "eisdir"):
                        if b == 8192:
                            for once in (True, False):
                                yield dict(reader=name, file=i, buffer=b, call="open", error=e, once=once, most=50)
                        if e != "eisdir":
                            continue
                    for call in ("read", "seek"):
                        for once in (True, False):
                            if once or deep or e == "eio":
                                yield dict(reader=name, file=i, buffer=b, call=call, error=e, once=once, most=3000 if deep else 300)


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("faults", lambda: cases(deep), run, 4, timeout=600 if deep else 200,
              bounds=f"eleven readers, up to three files each, buffers of {'8192 to 1 bytes' if deep else '8192, 64, 8 and 1 bytes'}; short reads of 5 sizes; 8 errors at every open, read and seek, once or from then on"),
    ]
