"""C04: field headers."""

import itertools
from pathlib import Path

from ..engine import Space, expect, product, Violation

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of bounded headers against a reference model of the 132-byte layout"
RULE = (
    "a state is one header (all twelve fields); each is built from counts and from the variable string, rendered, "
    "and read back from a path, a path object, an open file and a longer file; invalid headers must be refused"
)
ASSUMPTIONS = []


def string_of(nv):
    return ("X" * (nv[0] > 0) + "U" * (nv[1] > 0) + "P" * (nv[2] > 0) + "T" * (nv[3] > 0)
            + (f"S{nv[4]:02d}" if nv[4] else ""))


FIELDS = "wdsz orders nb_elems nb_elems_file istep fid nb_files variables realtype nb_pts_elem nb_dims nb_vars".split()


def model(c):
    lr = c["orders"]
    nd = 3 if lr[2] > 1 else 2
    nv = (nd * c["x"], nd * c["u"], c["p"], c["t"], c["ns"])
    return dict(
        wdsz=c["wdsz"], orders=tuple(lr), nb_elems=c["nel"], nb_elems_file=c["nelf"], istep=c["istep"], fid=c["fid"],
        nb_files=c["nfiles"], variables=string_of(nv), realtype="f" if c["wdsz"] == 4 else "d",
        nb_pts_elem=lr[0] * lr[1] * lr[2], nb_dims=nd, nb_vars=nv,
    )


def check(h, m, time, what):
    for k in FIELDS:
        v = getattr(h, k)
        if k in ("orders", "nb_vars"):
            v = tuple(int(i) for i in v)
        elif k in ("variables", "realtype"):
            expect(isinstance(v, str), lambda: f"{what}: {k} is {v!r}")
        else:
            expect(int(v) == v, lambda: f"{what}: {k} is {v!r}")
        expect(v == m[k], lambda: f"{what}: {k} is {v!r} instead of {m[k]!r}")
    expect(float(h.time) == time, lambda: f"{what}: time is {h.time!r} instead of {time!r}")


def valid(c, ctx):
    from pymech.neksuite.field import Header, read_header

    m = model(c)
    base = (c["wdsz"], c["orders"], c["nel"], c["nelf"], c["time"], c["istep"], c["fid"], c["nfiles"])
    outs = []
    for what, h in (
        ("from counts", Header(*base, nb_vars=m["nb_vars"])),
        ("from the variable string", Header(*base, variables=m["variables"])),
        ("from bytes", Header(*base, variables=m["variables"].encode())),
        ("from numpy-like values", Header(c["wdsz"], list(c["orders"]), *base[2:], nb_vars=list(m["nb_vars"]))),
    ):
        ctx.step()
        check(h, m, c["time"], what)
        outs.append((what, h.as_bytestring()))
    want = ("#std %d %d %d %d %d %d %.13E %d %d %d %s" % (
        c["wdsz"], *c["orders"], c["nel"], c["nelf"], c["time"], c["istep"], c["fid"], c["nfiles"], m["variables"],
    )).split()
    for what, b in outs:
        expect(len(b) == 132, lambda: f"{what}: {len(b)} bytes")
        toks = b.decode("ascii").split()
        expect(len(toks) == len(want), lambda: f"{what}: {b!r}")
        for i, (t, w) in enumerate(zip(toks, want)):
            ok = t == w or (0 < i < 11 and float(t) == float(w))
            expect(ok, lambda: f"{what}: field {i} is {t!r} instead of {w!r}")
    ctx.state(outs[0][1])
    t13 = float("%.13E" % c["time"])
    p = ctx.path("h0.f00001")
    for extra in (b"", b"trailing data " * 20):
        with open(p, "wb") as fh:
            fh.write(outs[0][1] + extra)
        check(read_header(p), m, t13, "read from a path")
        check(read_header(Path(p)), m, t13, "read from a path object")
        with open(p, "rb") as fh:
            check(read_header(fh), m, t13, "read from an open file")
            expect(fh.tell() == 132, f"{fh.tell()} bytes consumed")
        ctx.step(3)
        ctx.validated(3)
    # the layout of other writers: narrow fields and entries after the variables
    line = " ".join(want) + "   0.1013000E+00 F"
    with open(p, "wb") as fh:
        fh.write(line.ljust(132).encode())
    if len(line) <= 132:
        check(read_header(p), m, t13, "read with entries after the variables")
        ctx.step()
        ctx.validated()
    # what is read renders to the same bytes
    h = read_header(p)
    expect(h.as_bytestring() == outs[0][1] or c["time"] != t13, lambda: "rendering what was read gives other bytes")


def invalid(c, ctx):
    from pymech.neksuite.field import Header, read_header

    p = ctx.path()
    kind = c["kind"]
    ctx.state(c)
    ctx.step()
    ctx.validated()
    try:
        if kind == "neither":
            h = Header(c["wdsz"], c["orders"], 3, 3, 0.0, 0, 0, 1)
        elif kind == "empty":
            h = Header(c["wdsz"], c["orders"], 3, 3, 0.0, 0, 0, 1, variables="", nb_vars=())
        elif kind == "wdsz":
            h = Header(c["wdsz"], c["orders"], 3, 3, 0.0, 0, 0, 1, variables="XUP")
        elif kind == "wdsz_file":
            raw = "#std %d %d %d %d 3 3 0.0 0 0 1 XUP" % (c["wdsz"], *c["orders"])
            open(p, "wb").write(raw.ljust(132).encode())
            h = read_header(p)
        elif kind == "short":
            toks = "#std 8 2 2 1 3 3 0.0 0 0 1 XU".split()[: c["n"]]
            open(p, "wb").write(" ".join(toks).ljust(132 if c["pad"] else 1).encode())
            h = read_header(p)
    except Exception:
        return
    raise Violation(f"accepted: {h}")


def cases(thorough):
    orders = [[4, 4, 1], [3, 5, 1], [2, 3, 4], [8, 8, 8]]
    if thorough:
        orders += [[2, 2, 1], [12, 10, 1], [2, 2, 2], [5, 4, 3], [16, 12, 10], [99, 1, 1], [1, 7, 1]]
    for c in product(orders=orders, wdsz=[4, 8], x=[0, 1], u=[0, 1], p=[0, 1], t=[0, 1],
                     ns=[0, 1, 2, 9, 10, 11, 50, 99] if not thorough else list(range(100))):
        if c["x"] + c["u"] + c["p"] + c["t"] + c["ns"]:
            yield dict(c, nel=5, nelf=3, time=0.125, istep=12, fid=0, nfiles=1)
    nums = dict(
        nel=[1, 9, 300000, 123456789, 2**31 - 1], nelf=[1, 10, 99999, 123456789],
        time=[0.0, -1.5, 1 / 3, 1e-300, -1e300, 123456.78901234567, 99999.999999999999, float("inf")],
        istep=[0, 1, 999999999] + ([10, 12345] if thorough else []),
        fid=[0, 1, 123456], nfiles=[1, 16, 123456] if thorough else [1, 123456],
    )
    for c in product(**nums):
        yield dict(c, orders=[4, 3, 2], wdsz=8, x=1, u=1, p=0, t=1, ns=12)


def bad_cases(thorough):
    for o in ([4, 4, 1], [2, 3, 4]):
        for w in (4, 8):
            yield dict(kind="neither", wdsz=w, orders=o)
            yield dict(kind="empty", wdsz=w, orders=o)
        for w in list(range(0, 100 if thorough else 40)):
            if w not in (4, 8):
                yield dict(kind="wdsz", wdsz=w, orders=o)
                yield dict(kind="wdsz_file", wdsz=w, orders=o)
    for n in range(12):
        for pad in (0, 1):
            yield dict(kind="short", n=n, pad=pad)


def spaces(tier):
    th = tier == "thorough"
    return [
        Space("valid", lambda: cases(th), valid, chunk=64,
              bounds="all variable combinations x orders x word size; all combinations of extreme numeric fields"),
        Space("invalid", lambda: bad_cases(th), invalid, chunk=64, bounds="all word sizes 0..39/99, all short headers"),
    ]
