"""C26: SIMSON files."""

import contextlib
import io
import math
import struct

import numpy as np

from .. import codecs, snap
from ..engine import Space, deviations, expect, product

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of bounded SIMSON files and of their single Fourier modes against a direct-sum model"
RULE = (
    "a state is one SIMSON file (bytes); files holding each single mode (unit and imaginary amplitude, every component "
    "and scalar) and files holding all modes at once are decoded and compared with a direct evaluation of the series"
)
ASSUMPTIONS = [
    "files without z symmetry, an even number of points along x, an even number (or one) along z, and flow types "
    "other than 4 and 5, whose header layout the project does not document"
]


def direct(sp, nx, nz):
    """Evaluate the series at the grid points, sp[nz, ny, nx//2]"""
    kz = [k if k < (nz + 1) // 2 else k - nz for k in range(nz)]
    out = np.zeros((nz, sp.shape[1], nx))
    for iz in range(nz):
        for ix in range(nx):
            acc = np.zeros(sp.shape[1])
            for a in range(nz):
                for b in range(nx // 2):
                    ph = 2 * math.pi * (b * ix / nx + kz[a] * iz / nz)
                    c, s = math.cos(ph), math.sin(ph)
                    val = sp[a, :, b].real * c - sp[a, :, b].imag * s
                    acc = acc + (val if b == 0 else 2 * val)
            out[iz, :, ix] = acc
    return out


def velocity_file(c):
    nx, ny, nz = c["n"]
    ns = c["nscal"]
    n = (3 + ns) * nz * ny * (nx // 2)
    mode = c.get("mode", -1)
    if mode < 0:
        k = np.arange(n)
        vals = np.sin(1.3 * k + 0.1) + 1j * np.cos(0.7 * k * k + 0.4)
    else:
        vals = np.zeros(n, complex)
        vals[mode] = 1j if c.get("imag") else 1.0
    phys = list(vals.reshape(3 + ns, nz, ny, nx // 2))
    stored = [(-a if i == 1 else a) for i, a in enumerate(phys)]
    lx, lz, dstar, time = 4.5, 2.25, 0.8, c.get("time", 12.5)
    raw = codecs.simson_velocity(c["endian"], nx, ny, nz, lx, lz, dstar, time, c["fltype"], stored, ns)
    nd = 3 if nz > 1 else 2
    s = snap.blank(nd, 1, [nx, ny, nz], [nd, nd, 0, 0, ns])
    s["time"], s["endian"] = time, c["endian"]
    e = s["elem"][0]
    for ix in range(nx):
        e["pos"][0, :, :, ix] = ix * lx / nx
    for iy in range(ny):
        e["pos"][1, :, iy, :] = (1 - math.cos(math.pi * iy / (ny - 1))) / dstar
    for iz in range(nz):
        e["pos"][2, iz] = (iz - nz / 2) * lz / nz
    for i in range(3 + ns):
        f = direct(phys[i], nx, nz)
        if i < 3:
            e["vel"][i] = f
        else:
            e["scal"][i - 3] = f
    return raw, s


def plane_file(c):
    n = c["n"]
    tot = int(np.prod(n))
    nd = len(n)
    vals = (np.arange(tot) + 1.5).reshape(n) * np.pi
    coords = (np.arange(nd * tot) - 3.25).reshape([nd] + n)
    if nd == 1:
        coords = coords[0]
    return codecs.simson_plane(c["endian"], coords, vals), (coords, vals)


def dns(c, ctx):
    import pymech as pm

    raw, want = velocity_file(c)
    p = ctx.path()
    with open(p, "wb") as fh:
        fh.write(raw)
    r = pm.readdns(p)
    ctx.step()
    ctx.state(raw)
    expect(not isinstance(r, int), lambda: f"error code {r}")
    got = snap.snap(r)
    d = snap.diff(got, want, curv=False, bcs=False, rtol=1e-11, atol=1e-11)
    ctx.validated()
    expect(d is None, d)


def plane(c, ctx):
    import pymech as pm

    raw, (coords, vals) = plane_file(c)
    p = ctx.path()
    with open(p, "wb") as fh:
        fh.write(raw)
    with contextlib.redirect_stdout(io.StringIO()):
        r = pm.readplane(p)
    ctx.step()
    ctx.state(raw)
    expect(not isinstance(r, int), lambda: f"error code {r}")
    x, d, nn, nd = r
    ctx.validated()
    expect(nd == len(c["n"]), f"{nd} dimensions")
    expect([int(i) for i in nn] == c["n"], f"sizes {nn}")
    for name, a, b in (("coordinates", x, coords), ("values", d, vals)):
        msg = snap.arr_diff(np.asarray(a, dtype=float), b)
        expect(msg is None, lambda: f"{name}: {msg}")


def missing(c, ctx):
    import pymech as pm

    with contextlib.redirect_stdout(io.StringIO()):
        r = getattr(pm, c["fn"])(ctx.path("nothing") + c["name"])
    ctx.step()
    ctx.validated()
    ctx.state(c)
    expect(isinstance(r, int) and r < 0, lambda: f"{r!r} for a missing file")


def modes(thorough):
    sizes = [[4, 3, 4], [2, 2, 2], [4, 2, 1]] + ([[6, 3, 6], [8, 2, 8], [2, 5, 10]] if thorough else [[6, 2, 6]])
    for n in sizes:
        for ns in (0, 1, 2):
            tot = (3 + ns) * n[2] * n[1] * (n[0] // 2)
            for m in range(tot):
                for im in (0, 1):
                    yield dict(n=n, nscal=ns, mode=m, imag=im, endian=["little", "big"][(m + im) % 2], fltype=3)


def fulls(thorough):
    dims = dict(
        n=[[4, 3, 2], [2, 2, 2], [6, 5, 4], [8, 2, 6], [4, 3, 1], [2, 9, 8], [12, 3, 10]],
        endian=["little", "big"], nscal=[0, 1, 2, 3] + ([10, 100] if thorough else [10]),
        fltype=[3, 1, 2, -1, -2, -3, 6, 7, 8, 9, 20, -20, 0, 10], time=[12.5, 0.0, -3.75e-7],
    )
    yield from deviations(dims, 5 if thorough else 3)


def sized(thorough):
    """Longer lines in one direction at a time"""
    for ny in list(range(2, 41)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 513] + ([1023, 1024, 1025, 2049, 4097] if thorough else []):
        yield dict(n=[4, ny, 2], nscal=ny % 3, endian=["little", "big"][ny % 2], fltype=3)
    for n in list(range(2, 41, 2)) + [64, 128] + ([100, 250, 256] if thorough else []):
        yield dict(n=[n, 3, 2], nscal=n % 3, endian=["little", "big"][n // 2 % 2], fltype=3)
        yield dict(n=[2, 2, n], nscal=n % 3, endian=["big", "little"][n // 2 % 2], fltype=-2)
    for ns in range(33):
        yield dict(n=[4, 2, 2], nscal=ns, endian=["little", "big"][ns % 2], fltype=3)


def planes(thorough):
    lim = 6 if thorough else 4
    for endian in ("little", "big"):
        for n in range(1, 40):
            yield dict(endian=endian, n=[n])
        for a in range(1, 2 * lim):
            for b in range(1, 2 * lim):
                yield dict(endian=endian, n=[a, b])
        for n in product(a=range(1, lim), b=range(1, lim), c=range(1, lim)):
            yield dict(endian=endian, n=[n["a"], n["b"], n["c"]])
        # sizes around the thresholds used to recognise the byte order
        for n in ([124], [125], [126], [130], [250], [251], [1000], [1001], [4095], [4096], [4097], [65537], [512, 513], [33, 17, 9], [1, 300], [300, 1], [16, 16, 2]):
            yield dict(endian=endian, n=n)


def spaces(tier):
    th = tier == "thorough"
    return [
        Space("modes", lambda: modes(th), dns, chunk=32, bounds="every mode of every component for small boxes"),
        Space("velocity", lambda: fulls(th), dns, chunk=8, bounds="all header variants within k deviations"),
        Space("sizes", lambda: sized(th), dns, chunk=2, timeout=600, bounds="one direction up to 40 points (513 along y, 128 along x and z), up to 32 scalars"),
        Space("planes", lambda: planes(th), plane, chunk=64, bounds="all sizes up to the stated limits"),
        Space("missing", lambda: product(fn=["readdns", "readplane"], name=["", "/x", ".u"]), missing),
    ]
