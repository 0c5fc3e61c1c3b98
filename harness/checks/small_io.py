"""C11-C13: map files, SIMSON velocity files, SIMSON plane files."""

import pathlib

import numpy as np
from hypothesis import strategies as st

import core
import nekfmt
import simfmt
from checks import Prop
from pymech.neksuite import readma2
from pymech.simsonsuite import readdns, readplane

PROPS = {}


# --------------------------------------------------------------------------- C11
@st.composite
def specs11(draw, tier):
    nvert = draw(st.sampled_from([4, 8]))
    hi = draw(st.sampled_from([20, 10**4, 2**24 + 100, 2**31 - 1]))
    return {
        "nvert": nvert, "nel": draw(st.one_of(st.integers(1, 12), st.integers(1, 300)) if tier != "large" else st.sampled_from([1025, 5000, 33000, 70000])), "hi": hi, "salt": draw(st.integers(0, 10**6)),
        "endian": draw(st.sampled_from(["little", "big"])), "tail": draw(st.integers(0, 9)), "pathlib": draw(st.booleans()),
        "out": draw(st.sampled_from([0, 0, 1, 3, 7])),
    }


def ma2(spec):
    nel, nv = spec["nel"], spec["nvert"]
    cells = (core.mix(spec["salt"], nel * nv, 1) % np.uint64(spec["hi"])).astype(np.int64).reshape(nel, nv) + 1
    procs = (core.mix(spec["salt"], nel, 2) % np.uint64(spec["hi"])).astype(np.int64)
    # the largest numbers the format holds
    cells[0, 0] = spec["hi"]
    procs[-1] = spec["hi"] - 1
    return cells.tolist(), procs.tolist()


def check11(spec, ctx):
    cells, procs = ma2(spec)
    ctx.label("3D", spec["nvert"] == 8)
    ctx.label("big-endian", spec["endian"] == "big")
    ctx.label("numbers above 2^24", spec["hi"] > 2**24)
    ctx.nontrivial(spec["nel"] > 1)
    raw = nekfmt.ma2_file(cells, procs, spec["endian"], outflow=spec["out"]) + b"\x01" * spec["tail"]
    f = ctx.path("a.ma2")
    with open(f, "wb") as fp:
        fp.write(raw)
    with ctx.sut("reading the map file"):
        cell, procmap = readma2(pathlib.Path(f) if spec["pathlib"] else f)
        cell, procmap = np.asarray(cell), np.asarray(procmap)
    ctx.check(cell.shape == (spec["nel"], spec["nvert"]), f"vertices have shape {cell.shape}")
    ctx.check(procmap.shape == (spec["nel"],), f"ranks have shape {procmap.shape}")
    ctx.check(np.issubdtype(cell.dtype, np.integer) and np.issubdtype(procmap.dtype, np.integer), f"types {cell.dtype} and {procmap.dtype} are not integers")
    bad = np.argwhere(cell != np.array(cells))
    ctx.check(len(bad) == 0, lambda: f"vertex {list(bad[0])} is {cell[tuple(bad[0])]}, expected {np.array(cells)[tuple(bad[0])]}")
    bad = np.argwhere(procmap != np.array(procs))
    ctx.check(len(bad) == 0, lambda: f"rank of element {bad[0][0]} is {procmap[bad[0][0]]}, expected {procs[bad[0][0]]}")


PROPS["C11"] = Prop(
    "C11", check11, lambda tier: specs11(tier),
    "Map files of an independent encoder: 1-300 elements of 4 or 8 vertices, ids and ranks up to 2^31-1, both byte orders; oracle: the encoded tables. Non-trivial: more than one element.",
    {"quick": 5000, "thorough": 60000},
    large={"quick": 6, "thorough": 24},
)


# --------------------------------------------------------------------------- C12
@st.composite
def specs12(draw, tier):
    big = tier == "thorough"
    large = tier == "large"
    return {
        "n": draw(st.sampled_from([[32, 17, 16], [64, 33, 2], [16, 65, 8], [2, 129, 1]])) if large else [2 * draw(st.integers(1, 8 if big else 5)), draw(st.integers(2, 9 if big else 6)), draw(st.sampled_from([1, 2, 4, 6, 8] + ([10, 12, 16] if big else [])))],
        "nscal": draw(st.sampled_from([0, 0, 1, 2, 3, 5, 1, 2, 0, 3, 9, 16] if not large else [0, 1])),
        "re": draw(st.sampled_from([100.0, 1e4])), "poucou": draw(st.integers(0, 1)), "nfzsym": 0,
        "xl": draw(st.floats(0.1, 100)), "zl": draw(st.floats(0.1, 100)), "t": draw(st.floats(0, 1e6)), "dummy": draw(st.sampled_from([0.0, 1.0])),
        "fltype": draw(st.sampled_from([1, 2, 3, -1, -2, 6, 7, 8, 9, -3, 0, 20, -20, 10])), "dstar": draw(st.sampled_from([1.0, 2.0, 0.5, 0.333, 4.5])),
        "endian": draw(st.sampled_from(["little", "big"])), "salt": draw(st.integers(0, 10**6)), "dense": draw(st.booleans()),
        "pathlib": draw(st.booleans()),
    }


def modes(spec):
    """Stored coefficients (3 + nscal, nz, ny, nx/2) of the modes whose meaning is beyond doubt."""
    nx, ny, nz = spec["n"]
    nc = 3 + spec["nscal"]
    c = np.zeros((nc, nz, ny, nx // 2), dtype=complex)
    kzs = [k for k in range(nz) if k < nz / 2]
    for kz in kzs:
        for kx in range(nx // 2):
            if kx > 0 and kz == 0:
                continue
            a = core.values(spec["salt"] + 31 * kx, nc * ny * 2, "real", 100 + kz).reshape(2, nc, ny)
            if not spec["dense"]:
                a = a * (core.mix(spec["salt"] + kx, nc * ny, 300 + kz).reshape(nc, ny) % np.uint64(4) == 0)
            c[:, kz, :, kx] = a[0] + 1j * a[1]
            if kz == 0:
                c[:, kz, :, kx] = a[0]  # the mean is real
    return c


def trig(spec, c):
    """Sum over the modes at the grid points: real field of the stored half spectrum."""
    nx, ny, nz = spec["n"]
    x = np.arange(nx) * 2 * np.pi / nx
    z = np.arange(nz) * 2 * np.pi / nz
    out = np.zeros((len(c), nz, ny, nx))
    for kz in range(nz):
        for kx in range(nx // 2):
            if not c[:, kz, :, kx].any():
                continue
            # each mode other than the mean comes with its complex conjugate
            w = 1.0 if kx == 0 and kz == 0 else 2.0
            ph = np.exp(1j * (kx * x[None, :] + kz * z[:, None]))
            out += w * (c[:, None, kz, :, None, kx] * ph[None, :, None, :]).real
    return out


def check12(spec, ctx):
    nx, ny, nz = spec["n"]
    ndim = 2 + (nz > 1)
    c = modes(spec)
    want = trig(spec, c)
    ctx.label("2D", nz == 1)
    ctx.label("big-endian", spec["endian"] == "big")
    ctx.label("scalars", spec["nscal"] > 0)
    ctx.label("flow type with extra record", spec["fltype"] in (-1, -2, 6, 7, 8, 9, 20, -20))
    ctx.label("oblique modes", nz > 2 and nx > 2)
    ctx.nontrivial(nz > 2 and nx > 2 and ny > 2)
    raw, _ = simfmt.sim_file(spec, c, spec["endian"])
    f = ctx.path("a.u")
    with open(f, "wb") as fp:
        fp.write(raw)
    with ctx.sut("reading the SIMSON file"):
        m = readdns(pathlib.Path(f) if spec["pathlib"] else f)
        ctx.check(hasattr(m, "elem"), f"the file was refused ({m!r})")
        ctx.check(int(m.ndim) == ndim and int(m.nel) == 1 and len(m.elem) == 1, f"ndim {m.ndim}, {m.nel} elements")
        ctx.check(list(m.lr1) == spec["n"], f"size {m.lr1}, expected {spec['n']}")
        ctx.check(list(m.var) == [ndim, ndim, 0, 0, spec["nscal"]], f"variables {m.var}")
        ctx.check(float(m.time) == spec["t"], f"time {m.time}, expected {spec['t']}")
        ctx.check(m.endian == spec["endian"] and int(m.wdsz) == 8, f"endian {m.endian}, wdsz {m.wdsz}")
        el = m.elem[0]
        pos, vel, scal = (np.array(a) for a in (el.pos, el.vel, el.scal))
    gx = np.arange(nx) * spec["xl"] / nx
    gy = (1 - np.cos(np.pi * np.arange(ny) / (ny - 1))) / spec["dstar"]
    gz = spec["zl"] * (np.arange(nz) / nz - 0.5)
    exp = np.stack(np.broadcast_arrays(gx[None, None, :], gy[None, :, None], gz[:, None, None]))
    ctx.check(pos.shape == exp.shape, f"points have shape {pos.shape}")
    tol = 1e-12 * np.array([spec["xl"], 2 / spec["dstar"], spec["zl"]]).reshape(3, 1, 1, 1)
    bad = np.argwhere(~(np.abs(pos - exp) <= tol))
    ctx.check(len(bad) == 0, lambda: f"grid point (component, z, y, x) {bad[0]} is {pos[tuple(bad[0])]}, expected {exp[tuple(bad[0])]}")
    sign = np.array([1.0, -1.0, 1.0]).reshape(3, 1, 1, 1)
    for name, got, w in (("velocity", vel, want[:3] * sign), ("scalar", scal, want[3:])):
        ctx.check(got.shape == w.shape, f"{name} has shape {got.shape}, expected {w.shape}")
        scale = np.abs(c[:3] if name == "velocity" else c[3:]).sum(axis=(1, 3)).reshape(-1, 1, ny, 1) * 2
        bad = np.argwhere(~(np.abs(got - w) <= 1e-11 * scale))
        ctx.check(len(bad) == 0, lambda: f"{name} (component, z, y, x) {bad[0]} is {got[tuple(bad[0])]}, expected {w[tuple(bad[0])]}")


def probe12(ctx):
    """A purely streamwise wave keeps its amplitude."""
    spec = {"n": [8, 3, 4], "nscal": 0, "re": 1.0, "poucou": 0, "nfzsym": 0, "xl": 1.0, "zl": 1.0, "t": 0.0, "dummy": 0.0, "fltype": 3, "dstar": 1.0}
    c = np.zeros((3, 4, 3, 4), dtype=complex)
    c[0, 0, :, 1] = 1.0
    raw, _ = simfmt.sim_file(spec, c, "little")
    f = ctx.path("a.u")
    with open(f, "wb") as fp:
        fp.write(raw)
    with ctx.sut("reading"):
        u = readdns(f).elem[0].vel[0]
    amp = float(np.abs(u).max())
    return None if abs(amp - 2.0) < 1e-9 else f"the streamwise mode kx=1, kz=0 with coefficient 1 has amplitude {amp} instead of 2"


def probe12b(ctx):
    """A spanwise wave of the mean, stored with its conjugate at the last plane."""
    spec = {"n": [8, 3, 4], "nscal": 0, "re": 1.0, "poucou": 0, "nfzsym": 0, "xl": 1.0, "zl": 1.0, "t": 0.0, "dummy": 0.0, "fltype": 3, "dstar": 1.0}
    c = np.zeros((3, 4, 3, 4), dtype=complex)
    c[0, 1, :, 0] = 1.0
    c[0, 3, :, 0] = 1.0
    raw, _ = simfmt.sim_file(spec, c, "little")
    f = ctx.path("a.u")
    with open(f, "wb") as fp:
        fp.write(raw)
    with ctx.sut("reading"):
        u = readdns(f).elem[0].vel[0]
    want = 2 * np.cos(np.arange(4) * np.pi / 2)
    err = float(np.abs(u[:, 0, 0] - want).max())
    return None if err < 1e-9 else f"the mode kx=0, kz=1 with its conjugate in the last plane is off by {err}"


PROPS["C12"] = Prop(
    "C12", check12, lambda tier: specs12(tier),
    "SIMSON velocity files of an independent encoder: grids 2-10 x 2-6 x 1-8 (16x9x16 thorough), 14 flow types, 0-5 scalars, both byte orders, random coefficients of the modes "
    "(0, kz) and (kx > 0, kz > 0); oracle: trigonometric sum evaluated point by point, grid formulas. Non-trivial: more than two points in every direction.",
    {"quick": 5000, "thorough": 16000},
    assumptions=[
        "modes (kx > 0, kz = 0) and kz < 0 are left out: see known_findings.txt", "the layout of the header was taken from the reader, no other description of the format is at hand",
        "flow types 4 and 5 are left out: the reader expects two different extra records for them",
    ],
    probes={"streamwise-mode": probe12, "last-plane": probe12b},
    large={"quick": 6, "thorough": 24},
)


# --------------------------------------------------------------------------- C13
@st.composite
def specs13(draw, tier):
    ndim = draw(st.integers(1, 3))
    return {
        "nn": [draw(st.integers(1, {"quick": 9, "large": [0, 70000, 300, 40][ndim]}.get(tier, 20))) for _ in range(ndim)], "salt": draw(st.integers(0, 10**6)),
        "mode": draw(st.sampled_from(["tag", "real", "wild"])), "endian": draw(st.sampled_from(["little", "big"])), "pathlib": draw(st.booleans()),
    }


def plane(spec):
    nn = spec["nn"]
    nt = int(np.prod(nn))
    x = [core.values(spec["salt"], nt, spec["mode"], 1 + i).reshape(nn) for i in range(len(nn))]
    d = core.values(spec["salt"], nt, spec["mode"], 9).reshape(nn)
    return x, d


def check13(spec, ctx):
    nn = spec["nn"]
    ndim = len(nn)
    x, d = plane(spec)
    ctx.label(f"{ndim}D")
    ctx.label("big-endian", spec["endian"] == "big")
    ctx.nontrivial(sum(n > 1 for n in nn) == ndim)
    f = ctx.path("a.pln")
    with open(f, "wb") as fp:
        fp.write(simfmt.plane_file(x, d, nn, spec["endian"]))
    with ctx.sut("reading the plane file"):
        r = readplane(pathlib.Path(f) if spec["pathlib"] else f)
        ctx.check(isinstance(r, tuple) and len(r) == 4, f"the file was refused ({r!r})")
        gx, gd, gn, gdim = r
        gx, gd = np.array(gx, dtype=float), np.array(gd, dtype=float)
    ctx.check([int(n) for n in gn] == nn and int(gdim) == ndim, f"sizes {gn}, dimension {gdim}, expected {nn}")
    want = np.array(x[0]) if ndim == 1 else np.array(x)
    ctx.check(core.same_bits(gx, want), lambda: f"coordinates: {core.first_diff(gx, want)} (got, expected)")
    ctx.check(core.same_bits(gd, d), lambda: f"data: {core.first_diff(gd, d)} (got, expected)")


PROPS["C13"] = Prop(
    "C13", check13, lambda tier: specs13(tier),
    "Plane files of an independent encoder: 1, 2 or 3 dimensions of 1-9 points (20 thorough), both byte orders, values tagged/real/any bit pattern; oracle: the encoded arrays under "
    "column-major order. Non-trivial: more than one point in every direction.",
    {"quick": 5000, "thorough": 60000},
    assumptions=["the layout of the file was taken from the reader, no other description of the format is at hand"],
    large={"quick": 6, "thorough": 24},
)
