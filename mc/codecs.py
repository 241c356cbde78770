"""Reference encoders for the file formats, written from the format descriptions and not from
the code under test.  They work on plain snapshots (see snap.py)."""

import struct

import numpy as np

BO = {"little": "<", "big": ">"}


def tag(endian):
    return struct.pack(BO[endian] + "f", 6.54321)


def nek_variables(var):
    s = ""
    if var[0]:
        s += "X"
    if var[1]:
        s += "U"
    if var[2]:
        s += "P"
    if var[3]:
        s += "T"
    if var[4]:
        s += f"S{var[4]:02d}"
    return s


def nek_header(wdsz, lr1, nelg, nelf, time, istep, fid, nfiles, variables):
    return (
        "#std %1d %2d %2d %2d %10d %10d %20.13E %9d %6d %6d %s"
        % (wdsz, *lr1, nelg, nelf, time, istep, fid, nfiles, variables)
    ).ljust(132).encode()


def nek_field(
    s,
    wdsz,
    endian,
    elems=None,
    elmap=None,
    fid=0,
    nfiles=1,
    header=None,
    trailer="element",
):
    """Field file of the snapshot ``s``.

    elems  zero-based element numbers in the order in which they are stored
    elmap  the map written in the file (by default the true one)
    trailer  order of the per-element extrema of the scalars: by element or by scalar,
             or None to leave the extrema out
    """
    bo = BO[endian]
    if elems is None:
        elems = [i - 1 for i in s["elmap"]]
    if elmap is None:
        elmap = [i + 1 for i in elems]
    var = s["var"]
    dt = bo + ("f4" if wdsz == 4 else "f8")
    out = [
        header
        or nek_header(
            wdsz,
            s["lr1"],
            s["nel"],
            len(elems),
            s["time"],
            s["istep"],
            fid,
            nfiles,
            nek_variables(var),
        ),
        tag(endian),
        struct.pack(f"{bo}{len(elmap)}i", *elmap),
    ]

    def put(a):
        out.append(np.asarray(a).astype(dt).tobytes())

    kinds = (("pos", var[0]), ("vel", var[1]), ("pres", var[2]), ("temp", var[3]))
    for name, n in kinds:
        for i in elems:
            for c in range(n):
                put(s["elem"][i][name][c])
    for c in range(var[4]):
        for i in elems:
            put(s["elem"][i]["scal"][c])
    if s["lr1"][2] > 1 and trailer is not None:

        def ext(a):
            out.append(np.array([a.min(), a.max()]).astype(bo + "f4").tobytes())

        for name, n in kinds:
            for i in elems:
                for c in range(n):
                    ext(s["elem"][i][name][c])
        if trailer == "element":
            for i in elems:
                for c in range(var[4]):
                    ext(s["elem"][i]["scal"][c])
        else:
            for c in range(var[4]):
                for i in elems:
                    ext(s["elem"][i]["scal"][c])
    return b"".join(out)


# vertices of an element in the order of Nek5000 preprocessing, as (ix, iy, iz) of the storage
NEK_CORNERS = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0)]
NEK_CORNERS += [(x, y, 1) for x, y, _ in NEK_CORNERS]


def re2(s, endian, curve_pad=b"\0\0\0\0\0\0\0", bc_pad=b" ", nbc=None, order=None, zero=0.0, head="#v002", note=" this is the hdr"):
    bo = BO[endian]
    ndim, nel = s["ndim"], s["nel"]
    hdr = f"{head}{nel:9d}{ndim:3d}{nel:9d}{note}".ljust(80).encode()
    out = [hdr, tag(endian)]
    for e in s["elem"]:
        vals = [zero]
        for d in range(ndim):
            for x, y, z in NEK_CORNERS[: 2**ndim]:
                vals.append(float(e["pos"][d, z, y, x]))
        out.append(struct.pack(f"{bo}{len(vals)}d", *vals))
    curves = []
    for i, e in enumerate(s["elem"]):
        for k in range(12):
            if e["ccurv"][k] != "":
                curves.append((i, k))
    if order == "reverse":
        curves.reverse()
    out.append(struct.pack(bo + "d", len(curves)))
    for i, k in curves:
        e = s["elem"][i]
        out.append(
            struct.pack(bo + "7d", i + 1, k + 1, *[float(v) for v in e["curv"][k]])
        )
        out.append((e["ccurv"][k].encode() + curve_pad)[:8])
    for f in range(s["nbc"] if nbc is None else nbc):
        faces = []
        for i, e in enumerate(s["elem"]):
            for k in range(2 * ndim):
                if e["bcs"][f][k][0] not in ("", "E"):
                    faces.append((i, k))
        if order == "reverse":
            faces.reverse()
        elif order == "faces":
            faces.sort(key=lambda t: (t[1], t[0]))
        out.append(struct.pack(bo + "d", len(faces)))
        for i, k in faces:
            bc = s["elem"][i]["bcs"][f][k]
            out.append(struct.pack(bo + "7d", i + 1, k + 1, *bc[3:8]))
            out.append(bc[0].encode().ljust(8, bc_pad))
    return b"".join(out)


REA_HEAD = """****** PARAMETERS ******
   2.6000     NEKTON VERSION
   {ndim:1d} DIMENSIONAL RUN
         {npar:3d} PARAMETERS FOLLOW
{params}      {npsc}  Lines of passive scalar data follows2 CONDUCT, 2RHOCP
{psc}         {nsw:2d}   LOGICAL SWITCHES FOLLOW
{switches}   2.00000       2.00000      -1.00000      -1.00000     XFAC,YFAC,XZERO,YZERO
"""


def rea_header(ndim, npar=3, npsc=2, nsw=2):
    return REA_HEAD.format(
        ndim=ndim,
        npar=npar,
        params="".join(f"   {i + 1:.5f}     P{i + 1:03d}:\n" for i in range(npar)),
        npsc=npsc,
        psc="   1.00000        1.00000\n" * npsc,
        nsw=nsw,
        switches=" T      IFFLOW\n" * nsw,
    )


def rea_mesh(s, empty="E", fluid=True, i5i1=False, sep=" "):
    """Mesh, curve and boundary sections of a rea file in the fixed-column layout"""
    ndim, nel = s["ndim"], s["nel"]
    out = ["  ***** MESH DATA *****  6 lines are X,Y,Z;X,Y,Z. Columns corners 1-4;5-8\n"]
    out.append(f"  {nel:10d} {ndim:1d} {nel:10d} NEL,NDIM,NELV\n")
    for i, e in enumerate(s["elem"]):
        out.append(f"           ELEMENT {i + 1:10d} [  1a]    GROUP 1\n")
        for layer in range(ndim - 1):
            for d in range(ndim):
                out.append(
                    "".join(
                        "%14.6e" % e["pos"][d, z, y, x]
                        for x, y, z in NEK_CORNERS[4 * layer : 4 * layer + 4]
                    )
                    + "\n"
                )
    out.append("  ***** CURVED SIDE DATA *****\n")
    n = sum(1 for e in s["elem"] for c in e["ccurv"] if c != "")
    out.append(f"  {n:10d} Curved sides follow IEDGE,IEL,CURVE(I),I=1,5, CCURVE\n")
    for i, e in enumerate(s["elem"]):
        for k in range(12):
            if e["ccurv"][k] != "":
                if nel < 1000:
                    num = "%3d%3d" % (k + 1, i + 1)
                elif nel < 1000000:
                    num = "%2d%6d" % (k + 1, i + 1)
                else:
                    num = "%2d%10d" % (k + 1, i + 1)
                out.append(
                    num
                    + "".join("%14.6e" % v for v in e["curv"][k])
                    + " "
                    + e["ccurv"][k]
                    + "\n"
                )
    out.append("  ***** BOUNDARY CONDITIONS *****\n")
    if s["nbc"] == 0 or not fluid:
        out.append("  ***** NO FLUID BOUNDARY CONDITIONS *****\n")
    shift = 0 if fluid else 1
    for f in range(s["nbc"]):
        if f + shift == 0:
            out.append(f"  ***** FLUID{sep}BOUNDARY CONDITIONS *****\n")
        elif f + shift == 1:
            out.append("  ***** THERMAL BOUNDARY CONDITIONS *****\n")
        else:
            out.append(f"  ***** PASSIVE SCALAR {f + shift - 1:4d} BOUNDARY CONDITIONS *****\n")
        for i, e in enumerate(s["elem"]):
            for k in range(2 * ndim):
                bc = e["bcs"][f][k]
                name = bc[0] or empty
                if nel < 1000:
                    num = "%3d%3d" % (i + 1, k + 1)
                elif nel < 100000 and i5i1:
                    num = "%5d%1d" % (i + 1, k + 1)
                elif nel < 1000000:
                    num = "%6d" % (i + 1)
                else:
                    num = "%11d%1d" % (i + 1, k + 1)
                fmt = "%14.6e" if nel < 1000000 else "%18.11e"
                out.append(
                    " " + name.ljust(3) + num + "".join(fmt % v for v in bc[3:8]) + "\n"
                )
    if s["nbc"] + shift < 2:
        out.append("  ***** NO THERMAL BOUNDARY CONDITIONS *****\n")
    return "".join(out)


REA_TAIL = """    0 PRESOLVE/RESTART OPTIONS  *****
    7         INITIAL CONDITIONS *****
 C Default
"""


def rea(s, npar=3, npsc=2, nsw=2, **kw):
    return rea_header(s["ndim"], npar, npsc, nsw) + rea_mesh(s, **kw) + REA_TAIL


def ma2(procs, cells, endian, tagbytes=None, header=None):
    """procs: list of n ranks, cells: n lists of vertex ids"""
    n = len(procs)
    nv = len(cells[0])
    if header is None:
        depth = max(1, (n - 1).bit_length())
        uniq = len({v for c in cells for v in c})
        vals = (n, n, depth, 2**depth, n * nv, uniq, 0)
        header = "#v001" + "".join("%12d" % v for v in vals)
    out = [header.ljust(132).encode(), tag(endian) if tagbytes is None else tagbytes]
    bo = BO[endian]
    for p, c in zip(procs, cells):
        out.append(struct.pack(f"{bo}{nv + 1}i", p, *c))
    return b"".join(out)


def record(bo, payload):
    m = struct.pack(bo + "i", len(payload))
    return m + payload + m


def simson_velocity(endian, nx, ny, nz, lx, lz, dstar, time, fltype, spectra, nscal=0, re=5000.0):
    """SIMSON velocity file.

    spectra  list of 3 + nscal complex arrays [nz, ny, nx//2] indexed by z wavenumber in FFT order
             (0, 1, .., nz/2-1, -nz/2, .., -1), already with the sign convention of the file
    """
    bo = BO[endian]
    head = struct.pack(bo + "d", re) + struct.pack(bo + "i", 0)
    head += struct.pack(bo + "4d", lx, lz, time, 0.0)
    for i in range(nscal):
        head += struct.pack(bo + "2d", 0.71 + i, 0.5 + i)
    out = [record(bo, head)]
    out.append(record(bo, struct.pack(bo + "4i", nx, ny, nz, 0)))
    out.append(record(bo, struct.pack(bo + "i", fltype) + struct.pack(bo + "d", dstar)))
    if fltype == -1:
        out.append(record(bo, struct.pack(bo + "d", 0.3)))
    elif fltype == -2:
        out.append(record(bo, struct.pack(bo + "2d", 0.3, 0.2)))
    elif 6 <= fltype <= 9:
        out.append(record(bo, struct.pack(bo + "4d", 1.0, 2.0, 0.3, 0.2)))
    elif abs(fltype) == 20:
        out.append(record(bo, struct.pack(f"{bo}{nscal}d", *[0.1 * i for i in range(nscal)])))
    order = list(range((nz + 1) // 2)) + [k % nz for k in range(-1, -(nz // 2) - 1, -1)]
    for sp in spectra:
        for kz in order:
            for iy in range(ny):
                row = sp[kz, iy]
                vals = []
                for c in row:
                    vals += [c.real, c.imag]
                out.append(record(bo, struct.pack(f"{bo}{len(vals)}d", *vals)))
    return b"".join(out)


def simson_plane(endian, coords, values):
    """coords: array [ndim, n1, .., nd] (or [n] in 1D), values [n1, .., nd]"""
    bo = BO[endian]
    nn = values.shape
    out = [record(bo, struct.pack(f"{bo}{len(nn)}i", *nn))]
    cs = [coords] if values.ndim == 1 else list(coords)
    for c in cs:
        out.append(record(bo, np.asarray(c).ravel("F").astype(bo + "f8").tobytes()))
    out.append(record(bo, values.ravel("F").astype(bo + "f8").tobytes()))
    return b"".join(out)
