"""Reference encoders of the SIMSON velocity and plane files, independent of pymech."""

import struct

import numpy as np


def sim_file(h, coef, endian):
    """h: header values; coef: complex (3 + nscal, nz, ny, nx // 2), planes in file order."""
    o = "<" if endian == "little" else ">"
    nscal = h["nscal"]
    nx, ny, nz = h["n"]
    eol = b"\xa5" * 8
    out = [struct.pack(o + "i", 44 + 16 * nscal), struct.pack(o + "d", h["re"]), struct.pack(o + "i", h["poucou"])]
    out.append(struct.pack(o + "4d", h["xl"], h["zl"], h["t"], h["dummy"]))
    for i in range(nscal):
        out.append(struct.pack(o + "2d", 0.71 + i, 1.0 * i))
    out.append(eol)
    out.append(struct.pack(o + "4i", nx, ny, nz, h["nfzsym"]))
    out.append(eol)
    out.append(struct.pack(o + "id", h["fltype"], h["dstar"]))
    out.append(eol)
    extra = {-1: 1, -2: 2, 6: 4, 7: 4, 8: 4, 9: 4, 20: nscal, -20: nscal}
    if h["fltype"] in extra:
        out.append(struct.pack(o + f"{extra[h['fltype']]}d", *[0.5 + 3 * i for i in range(extra[h["fltype"]])]) + eol)
    head = sum(map(len, out))
    for c in coef:
        for iz in range(nz):
            for iy in range(ny):
                rec = np.zeros(nx)
                rec[0::2] = c[iz, iy].real
                rec[1::2] = c[iz, iy].imag
                out.append(rec.astype(o + "f8").tobytes() + eol)
    return b"".join(out), head


def plane_file(x, d, nn, endian):
    """x: list of coordinate arrays (shape nn), d: data array (shape nn)."""
    o = "<" if endian == "little" else ">"
    nt = int(np.prod(nn))
    mark = struct.pack(o + "i", nt * 8)
    out = [struct.pack(o + "i", 4 * len(nn)), struct.pack(o + f"{len(nn)}i", *nn), struct.pack(o + "i", 4 * len(nn))]
    for a in list(x) + [d]:
        out.append(mark + np.asarray(a).ravel(order="F").astype(o + "f8").tobytes() + mark)
    return b"".join(out)
