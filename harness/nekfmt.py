"""Reference encoders for the file formats, written from their description and independent of pymech."""

import struct

import numpy as np

TAG = 6.54321


def order(endian):
    return "<" if endian == "little" else ">"


def tag_bytes(endian):
    return struct.pack(order(endian) + "f", TAG)


def var_string(var):
    s = ""
    if var[0]:
        s += "X"
    if var[1]:
        s += "U"
    if var[2]:
        s += "P"
    if var[3]:
        s += "T"
    if var[4]:
        s += "S%02d" % var[4]
    return s


def nek_header(wdsz, lr1, nel, nelf, time, istep, fid, nfiles, varstr, extra=""):
    h = "#std %1d %2d %2d %2d %10d %10d %20.13E %9d %6d %6d %s" % (
        wdsz, lr1[0], lr1[1], lr1[2], nel, nelf, time, istep, fid, nfiles, varstr,
    )
    h += extra
    return h.encode("ascii").ljust(132)


def cast(a, wdsz, endian):
    with np.errstate(all="ignore"):
        return np.ascontiguousarray(a).astype(order(endian) + ("f4" if wdsz == 4 else "f8"))


BLOCKS = ("pos", "vel", "pres", "temp", "scal")


def nek_blocks(spec, fields, elmap):
    """Sequence of (block, component, iel) in file order, iel 0-based."""
    var = spec["var"]
    for b in range(4):
        for g in elmap:
            for c in range(var[b]):
                yield b, c, g - 1
    for c in range(var[4]):
        for g in elmap:
            yield 4, c, g - 1


def nek_body(spec, fields, elmap):
    out = []
    for b, c, iel in nek_blocks(spec, fields, elmap):
        out.append(cast(fields[BLOCKS[b]][iel, c], spec["wdsz"], spec["endian"]).tobytes())
    return b"".join(out)


def nek_trailer(spec, fields, elmap):
    """float32 min and max of every component of every element, as an array (variable by variable, elements inside)."""
    var = spec["var"]
    vals = []
    for b in range(5):
        for g in elmap:
            for c in range(var[b]):
                a = fields[BLOCKS[b]][g - 1, c]
                vals.append(a.min())
                vals.append(a.max())
    with np.errstate(all="ignore"):
        return np.array(vals, dtype=np.float64).astype(np.float32)


def nek_file(spec, fields, elmap=None, nel_total=None, fid=0, nfiles=1, extra="", trailer=True):
    elmap = list(spec["elmap"]) if elmap is None else elmap
    o = order(spec["endian"])
    nel = spec["nel"] if nel_total is None else nel_total
    out = nek_header(
        spec["wdsz"], spec["lr1"], nel, len(elmap), spec["time"], spec["istep"], fid, nfiles, var_string(spec["var"]), extra
    )
    out += tag_bytes(spec["endian"])
    out += struct.pack(o + f"{len(elmap)}i", *elmap)
    real = elmap if 0 not in elmap else list(range(1, len(elmap) + 1))
    out += nek_body(spec, fields, real)
    if trailer and spec["lr1"][2] > 1:
        out += nek_trailer(spec, fields, real).astype(o + "f4").tobytes()
    return out


# ------------------------------------------------------------------------------- re2
def corners2(dim):
    """Corner order of Nek: around the bottom, then around the top, as (z, y, x)."""
    ring = [(0, 0), (0, 1), (1, 1), (1, 0)]
    return [(z, y, x) for z in range(dim - 1) for (y, x) in ring]


def re2_header(nel, ndim, nelv=None, rest=" this is the hdr"):
    nelv = nel if nelv is None else nelv
    return f"#v002{nel:9d}{ndim:3d}{nelv:9d}{rest}".encode("ascii").ljust(80)


def re2_file(m, endian="little", curv_pad=b"\0" * 7, curv_order=None, bc_order=None, header=None, group=None):
    """m: plain description {dim, pos (nel,3,lz,2,2), curves [(iel, iedge, 5 params, letter)],
    bcs: [per field [(iel, iface, 5 params, type)]]}, 0-based indices."""
    o = order(endian)
    dim = m["dim"]
    out = [header if header is not None else re2_header(len(m["pos"]), dim), tag_bytes(endian)]
    for iel, p in enumerate(m["pos"]):
        out.append(struct.pack(o + "d", 0.0 if group is None else group[iel]))
        for d in range(dim):
            for z, y, x in corners2(dim):
                out.append(struct.pack(o + "d", float(p[d, z, y, x])))
    curves = list(m["curves"])
    if curv_order is not None:
        curves = [curves[i] for i in curv_order]
    out.append(struct.pack(o + "d", float(len(curves))))
    for iel, iedge, par, letter in curves:
        out.append(struct.pack(o + "7d", iel + 1, iedge + 1, *par))
        out.append(letter.encode("ascii") + curv_pad[: 8 - len(letter)])
    for f, conds in enumerate(m["bcs"]):
        conds = list(conds)
        if bc_order is not None:
            conds = [conds[i] for i in bc_order[f]]
        out.append(struct.pack(o + "d", float(len(conds))))
        for iel, iface, par, typ in conds:
            out.append(struct.pack(o + "7d", iel + 1, iface + 1, *par))
            out.append(typ.encode("ascii").ljust(8))
    return b"".join(out)


# ------------------------------------------------------------------------------- ma2
def ma2_file(cells, procs, endian, outflow=0):
    """outflow: number of elements without active vertices (part of the header only)"""
    o = order(endian)
    nel = len(cells)
    nvert = len(cells[0])
    npts = nvert * nel
    depth = max(nel - 1, 0).bit_length()
    unique = len({v for c in cells for v in c})
    head = "#v001%12d%12d%12d%12d%12d%12d%12d" % (nel, max(nel - outflow, 0), depth, 2**depth, npts, unique, 3 * outflow)
    out = [head.encode("ascii").ljust(132), tag_bytes(endian)]
    for c, p in zip(cells, procs):
        out.append(struct.pack(o + f"{nvert + 1}i", p, *c))
    return b"".join(out)
