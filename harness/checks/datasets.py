"""C14-C16: xarray datasets of Cartesian boxes."""

import os
import pathlib

import numpy as np
import xarray as xr
from hypothesis import strategies as st

import core
import fieldlib as fl
import nekfmt
from checks import Prop
from pymech import dataset as pmd

PROPS = {}


# --------------------------------------------------------------------------- boxes
@st.composite
def box_specs(draw, tier, max_nel=12):
    big = tier == "thorough"
    dim = draw(st.sampled_from([2, 3]))
    ne = [draw(st.integers(1, 4)) for _ in range(dim)]
    if tier == "large":
        ne = draw(st.sampled_from([[14, 1], [2, 12], [11, 11]] if dim == 2 else [[12, 1, 1], [2, 2, 11], [1, 13, 1]]))
    while np.prod(ne) > (max_nel * 2 if big else max_nel) and tier != "large":
        ne[int(np.argmax(ne))] -= 1
    lr = [draw(st.integers(2, 5 if big else 4)) for _ in range(dim)]
    if draw(st.booleans()):
        lr = [lr[0]] * dim
    if draw(st.integers(0, 4)) == 0 and tier != "large":
        # the orders of real runs
        lr = draw(st.sampled_from([[8, 8, 8], [6, 7, 5], [10, 3, 12], [2, 9, 6]]))[:dim]
    nel = int(np.prod(ne))
    return {
        "dim": dim, "ne": ne, "lr": lr,
        "vel": draw(st.sampled_from([1, 1, 1, 0])), "pres": draw(st.integers(0, 1)), "temp": draw(st.integers(0, 1)), "nscal": draw(st.sampled_from([0, 0, 1, 3, 11])),
        "wdsz": draw(st.sampled_from([4, 8])), "endian": draw(st.sampled_from(["little", "big"])),
        "time": draw(st.floats(0, 1e4)), "istep": draw(st.integers(0, 10**6)),
        "salt": draw(st.integers(0, 10**6)), "cells": draw(fl.permutation(nel, 0)), "elmap": draw(fl.permutation(nel)),
        "origin": [draw(st.sampled_from([0.0, -1.0, 2.5, -30.0, 100.0])) for _ in range(dim)],
        "size": [draw(st.sampled_from([1.0, 0.125, 7.0, 6.283185307179586])) for _ in range(dim)],
        "uniform": draw(st.booleans()),
        "fine": draw(st.sampled_from([False, False, True, "tiny"])),
        "ext": draw(st.sampled_from([".f00001", ".f12345", ".fld", ".f00000", ".f99999"])), "pathlib": draw(st.booleans()),
        "smooth": draw(st.booleans()),
        # quantities that vanish, or are the same number everywhere, in some elements
        "blank": draw(st.sampled_from([0, 0, 0, 1, 2, 3])),
    }


class Box:
    def __init__(self, spec):
        self.spec = spec
        dim = spec["dim"]
        self.ne = list(spec["ne"]) + [1] * (3 - dim)
        self.lr = list(spec["lr"]) + [1] * (3 - dim)
        self.nel = int(np.prod(self.ne))
        f32 = spec["wdsz"] == 4
        self.lines = []  # per direction (elements, points): element interfaces bit-identical
        for d in range(dim):
            n, lr = self.ne[d], self.lr[d]
            w = np.ones(n) if spec["uniform"] else 0.5 + core.unit(spec["salt"] + d, n, 61)
            origin, size = spec["origin"][d], spec["size"][d]
            if spec.get("fine") and (not f32 or origin == 0.0):
                # grid lines close to each other compared to their distance from the origin
                origin, size = 20 * origin, 1e-4 * size
                if spec["fine"] == "tiny":
                    # elements of a millionth and less, points still further apart than the resolution
                    size = {2: 2e-7, 3: 5e-7, 4: 2e-6, 5: 2e-6}.get(max(spec["lr"]), 2e-5) * (1 + size / 1e-3)
            edges = origin + size * np.concatenate(([0.0], np.cumsum(w)))
            out = np.zeros((n, lr))
            for e in range(n):
                t = np.arange(lr) / (lr - 1) if spec["uniform"] else np.concatenate(([0.0], np.cumsum(0.3 + core.unit(spec["salt"] + 17 * d + e, lr - 1, 62))))
                t = t / t[-1]
                out[e] = edges[e] + (edges[e + 1] - edges[e]) * t
                out[e, 0], out[e, -1] = edges[e], edges[e + 1]
            if f32:
                out = out.astype(np.float32).astype(np.float64)
            self.lines.append(out)
        while len(self.lines) < 3:
            self.lines.append(np.zeros((1, 1)))
        cells = [(i, j, k) for k in range(self.ne[2]) for j in range(self.ne[1]) for i in range(self.ne[0])]
        self.cells = [cells[c] for c in spec["cells"]]
        self.var = [dim, dim * spec["vel"], spec["pres"], spec["temp"], spec["nscal"]]
        # each stored value is its own: discontinuous between elements unless smooth
        self.fields = {}
        lx, ly, lz = self.lr
        pos = np.zeros((self.nel, dim, lz, ly, lx))
        for e, (i, j, k) in enumerate(self.cells):
            x, y, z = self.lines[0][i], self.lines[1][j], self.lines[2][k]
            g = np.broadcast_arrays(x[None, None, :], y[None, :, None], z[:, None, None])
            for d in range(dim):
                pos[e, d] = g[d]
        self.fields["pos"] = pos
        for b, name in enumerate(nekfmt.BLOCKS):
            if b == 0:
                continue
            n = self.var[b]
            a = core.values(spec["salt"] + 7 * spec.get("snap", 0), self.nel * n * lx * ly * lz, "real", b + 1).reshape(self.nel, n, lz, ly, lx)
            if spec["smooth"] and n:
                for c in range(n):
                    a[:, c] = np.sin(sum((d + 1.3 + c) * pos[:, d] for d in range(dim)) + spec.get("snap", 0))
            if f32:
                a = a.astype(np.float32).astype(np.float64)
            if spec.get("blank"):
                h = core.mix(spec["salt"] + spec.get("snap", 0), self.nel * max(n, 1), 90 + b).reshape(self.nel, max(n, 1))
                for e, c in np.ndindex(self.nel, n):
                    if h[e, c] % np.uint64(4) < np.uint64(spec["blank"]):
                        a[e, c] = 0.0 if h[e, c] >> np.uint64(8) & np.uint64(1) else 1.0
            self.fields[name] = a

    def header(self):
        s = self.spec
        return {"wdsz": s["wdsz"], "endian": s["endian"], "lr1": self.lr, "nel": self.nel, "var": self.var, "time": s["time"], "istep": s["istep"], "elmap": s["elmap"]}

    def write(self, f):
        with open(f, "wb") as fp:
            fp.write(nekfmt.nek_file(self.header(), self.fields))

    def expected(self):
        """(coordinates {x, y, z}, variables name -> (z, y, x) array): every element owns its slots."""
        dim = self.spec["dim"]
        coords = {n: self.lines[d].reshape(-1) for d, n in enumerate("xyz")}
        shape = tuple(self.ne[d] * self.lr[d] for d in (2, 1, 0))
        names = {"xmesh": ("pos", 0), "ymesh": ("pos", 1), "zmesh": ("pos", 2), "ux": ("vel", 0), "uy": ("vel", 1), "uz": ("vel", 2)}
        if self.var[2]:
            names["pressure"] = ("pres", 0)
        if self.var[3]:
            names["temperature"] = ("temp", 0)
        for i in range(self.var[4]):
            names["s%02d" % (i + 1)] = ("scal", i)
        out = {}
        for nm, (b, c) in names.items():
            a = np.zeros(shape)
            src = self.fields[b]
            if c < src.shape[1]:
                for e, (i, j, k) in enumerate(self.cells):
                    lx, ly, lz = self.lr
                    a[k * lz: (k + 1) * lz, j * ly: (j + 1) * ly, i * lx: (i + 1) * lx] = src[e, c]
            out[nm] = a
        optional = set() if self.var[1] else {"ux", "uy", "uz"}
        if dim == 2:
            optional |= {"uz", "zmesh"}
        return coords, out, optional


def expect_ds(ctx, ds, box, what, time=None, dropped=(), dropped_coords=False):
    coords, data, optional = box.expected()
    for n in "xyz":
        if n in dropped:
            ctx.check(n not in ds.coords, f"{what}: the dropped coordinate {n} is there")
            continue
        ctx.check(n in ds.coords, f"{what}: no coordinate {n}")
        c = np.asarray(ds[n].values)
        ctx.check(ds[n].dims == (n,), f"{what}: coordinate {n} has dimensions {ds[n].dims}")
        ctx.check(core.same_bits(c + 0.0, coords[n] + 0.0), lambda: f"{what}: coordinate {n}: {core.first_diff(c + 0.0, coords[n] + 0.0)} (got, expected)")
    t = box.spec["time"] if time is None else time
    t = float("%.13E" % t)
    if "time" in dropped:
        ctx.check("time" not in ds.variables, f"{what}: the dropped time is there")
    else:
        ctx.check("time" in ds.coords and np.asarray(ds["time"].values).shape == () and float(ds["time"]) == t, lambda: f"{what}: time {ds.coords.get('time')}, expected {t}")
    have, want = set(map(str, ds.data_vars)), set(data) - set(dropped)
    ctx.check(want - optional <= have <= want, f"{what}: variables {sorted(have)}, expected {sorted(want)}")
    for n in sorted(have):
        ctx.check(set(ds[n].dims) == {"x", "y", "z"}, f"{what}: {n} has dimensions {ds[n].dims}")
        got = np.asarray(ds[n].transpose("z", "y", "x").values)
        ctx.check(core.same_bits(got, data[n]), lambda: f"{what}: {n} (z, y, x): {core.first_diff(got, data[n])} (got, expected)")


def labels(ctx, box):
    s = box.spec
    ctx.label("3D", s["dim"] == 3)
    ctx.label("elements in shuffled order", s["cells"] != sorted(s["cells"]))
    ctx.label("several elements in every direction", all(n > 1 for n in s["ne"]))
    ctx.label("one element", box.nel == 1)
    ctx.label("orders differ", len(set(s["lr"])) > 1)
    ctx.label("scalars", s["nscal"] > 0)


def rich(box):
    s = box.spec
    return box.nel > 1 and s["cells"] != sorted(s["cells"])


# --------------------------------------------------------------------------- C14
@st.composite
def specs14(draw, tier):
    s = draw(box_specs(tier))
    s["bad"] = draw(st.sampled_from(["rotate", "shear", "bend", "one", "turned", "reversed"]))
    s["angle"] = draw(st.floats(0.05, 1.5))
    s["which"] = draw(st.integers(0, 10**6))
    return s


def spoil(box, spec):
    """The same file with a geometry that is not a set of boxes along the axes. Returns a copy of the fields or None."""
    pos = box.fields["pos"].copy()
    dim = spec["dim"]
    kind = spec["bad"]
    e = spec["which"] % box.nel
    ext = [pos[:, d].max() - pos[:, d].min() for d in range(dim)]
    c, s = np.cos(spec["angle"]), np.sin(spec["angle"])
    if kind == "rotate":
        x, y = pos[:, 0].copy(), pos[:, 1].copy()
        pos[:, 0], pos[:, 1] = c * x - s * y, s * x + c * y
    elif kind == "shear":
        pos[:, 0] += spec["angle"] * pos[:, 1]
    elif kind == "bend":
        a, b = (0, 1) if spec["which"] % 2 else (dim - 1, 0)
        u = (pos[:, b] - pos[:, b].min()) / ext[b]
        pos[:, a] += 0.3 * spec["angle"] * ext[a] * u * (1 + u)
    elif kind == "one":
        # a single grid point
        i = tuple(spec["which"] // 7 % n for n in pos.shape[2:])
        d = spec["which"] % dim
        h = ext[d] / box.ne[d] / 16 * spec["angle"]
        pos[(e, d) + i] += h
    elif kind == "turned":
        # the local axes of every element are those of its neighbour by a quarter turn: x along the second index
        if len(set(box.lr[:2])) > 1:
            return None
        pos = np.swapaxes(pos, 3, 4).copy()
    else:
        # local x and y run backwards
        pos = pos[..., ::-1, ::-1].copy()
    if spec["wdsz"] == 4:
        pos = pos.astype(np.float32).astype(np.float64)
    return {**box.fields, "pos": pos}


def check14(spec, ctx):
    box = Box(spec)
    labels(ctx, box)
    ctx.nontrivial(rich(box))
    f = ctx.path("box0" + spec["ext"])
    box.write(f)
    with ctx.sut("opening the dataset"):
        ds = pmd.open_dataset(pathlib.Path(f) if spec["pathlib"] else f)
        expect_ds(ctx, ds, box, "the dataset")
    # what is moved in tiny boxes may stay below the resolution
    bad = spoil(box, spec) if spec.get("fine") != "tiny" else None
    if bad is not None:
        ctx.label("not a box: " + spec["bad"])
        g = ctx.path("bad0" + spec["ext"])
        with open(g, "wb") as fp:
            fp.write(nekfmt.nek_file(box.header(), bad))
        ctx.raises(lambda: pmd.open_dataset(g), f"a mesh that is not made of boxes along the axes ({spec['bad']})", NotImplementedError)


PROPS["C14"] = Prop(
    "C14", check14, lambda tier: specs14(tier),
    "Field files (independent encoder) of random Cartesian boxes: 2D/3D, 1-12 elements (24 thorough) in random order, 2-4 points per direction and element, orders differing per direction, "
    "non-uniform lines, discontinuous values, all variable sets; oracle: each element's values in its own slots of the sorted grid lines. All but tiny boxes also open a mesh that is not a "
    "set of boxes along the axes (rotated, sheared, bent, one point moved, local axes turned or reversed), which must be refused. Non-trivial: several elements in shuffled order.",
    {"quick": 1000, "thorough": 3200},
    assumptions=["grid lines shared by elements are bit-identical and points at least 1e-8 apart (the resolution of the coordinates in the code)", "velocity absent from the file may appear as zeros or not at all"],
    large={"quick": 6, "thorough": 24},
)


# --------------------------------------------------------------------------- C15
CHARS = "abf019._-ld "


@st.composite
def names15(draw):
    """(name, is a Nek field file name)"""
    stem = draw(st.text(CHARS, max_size=6)).strip() + draw(st.sampled_from(["", "case0", "a.b", "x.f00001", "box.fld"]))
    kind = draw(st.integers(0, 3))
    if kind == 0:
        return stem + ".f%05d" % draw(st.integers(0, 99999)), True
    if kind == 1:
        return stem + ".fld", True
    ext = draw(st.sampled_from([
        "nc", "h5", "f", "f90", "f0001", "f0000", "f1", "f000001", "f1234x", "fl", "flds", "fldx", "fort", "re2", "F00001", "FLD", "f00001.nc", "fld.bak", "g00001", "f0000a", "xf00001",
        "f 0001", "f00001~", "ma2", "rea", "fll", "f00001/grid.nc", "f-0001", "f123456", "zarr",
    ]))
    return stem + "." + ext, False


@st.composite
def specs15(draw, tier):
    s = draw(box_specs(tier, max_nel=4))
    s["names"] = [list(draw(names15())) for _ in range(12)]
    pool = ["ux", "uy", "uz", "xmesh", "ymesh", "zmesh", "time", draw(st.sampled_from(["time", "x", "y", "z"]))]
    pool += ["pressure"] * s["pres"] + ["temperature"] * s["temp"] + ["s%02d" % (i + 1) for i in range(s["nscal"])]
    s["drop"] = draw(st.lists(st.sampled_from(pool), max_size=5, unique=True))
    s["one"] = draw(st.booleans())
    return s


def check15(spec, ctx):
    box = Box(spec)
    ctx.label("variables dropped", bool(spec["drop"]))
    ctx.label("velocity in the file", spec["vel"] == 1)
    ctx.nontrivial(box.nel > 1 and bool(spec["drop"]))
    f = ctx.path("box0" + spec["ext"])
    box.write(f)
    p = pathlib.Path(f) if spec["pathlib"] else f
    with ctx.sut("opening the dataset"):
        ref = pmd.open_dataset(p)
        expect_ds(ctx, ref, box, "pymech.dataset.open_dataset")
        for what, fn in (
            ("xarray.open_dataset(engine='pymech')", lambda **k: xr.open_dataset(p, engine="pymech", **k)),
            ("xarray.open_dataset", lambda **k: xr.open_dataset(p, **k)),
            ("pymech.dataset.open_dataset", lambda **k: pmd.open_dataset(p, **k)),
        ):
            ds = fn().load()
            expect_ds(ctx, ds, box, what)
            ctx.check(set(map(str, ds.variables)) == set(map(str, ref.variables)), f"{what}: variables {sorted(map(str, ds.variables))}, the package's own function {sorted(map(str, ref.variables))}")
            for n in ref.variables:
                ctx.check(ds[n].dims == ref[n].dims and ds[n].dtype == ref[n].dtype, f"{what}: {n} has {ds[n].dims} {ds[n].dtype}, the package's own function gives {ref[n].dims} {ref[n].dtype}")
            drop = [d for d in spec["drop"] if d in ref.variables]
            if drop:
                arg = drop[0] if spec["one"] and len(drop) == 1 else drop
                ds = fn(drop_variables=arg).load()
                expect_ds(ctx, ds, box, f"{what} without {drop}", dropped=drop)
        ds.close()

    backend = pmd.PymechXarrayBackend()
    for name, ok in spec["names"]:
        full = os.path.join("/no/such/dir", name)
        for path in (full, pathlib.Path(full)) if not name.endswith("/") else (full,):
            if str(path) != full:
                continue
            with ctx.sut(f"asking whether {name!r} can be opened"):
                got = bool(backend.guess_can_open(path)), bool(pmd.can_open_nek_dataset(path))
            ctx.check(got == (ok, ok), f"file name {name!r}: recognised {got} (engine, package), expected {ok}")
            how, r = ctx.outcome(lambda: pmd.open_dataset(path))
            ctx.check(how == "error", f"opening the missing file {name!r} gave {r!r}")
            ctx.check(isinstance(r, NotImplementedError) != ok, f"opening {name!r} raised {type(r).__name__}: {r}")
            if ok:
                ctx.check(isinstance(r, OSError), f"opening the missing file {name!r} raised {type(r).__name__}: {r}")
        ctx.label("name recognised" if ok else "name refused")


PROPS["C15"] = Prop(
    "C15", check15, lambda tier: specs15(tier),
    "Random box files opened through the package's function, xarray with engine='pymech' and xarray guessing, with and without a random list of dropped variables: all equal to the encoder's "
    "arrays and to each other; plus 12 random file names per case from a grammar of matching and almost matching extensions. Non-trivial: several elements and something dropped.",
    {"quick": 600, "thorough": 2400},
)


# --------------------------------------------------------------------------- C16
@st.composite
def specs16(draw, tier):
    s = draw(box_specs("quick" if tier == "large" else tier, max_nel=4))
    n = draw(st.integers(1, 4)) if tier != "large" else draw(st.integers(10, 13))
    s["times"] = draw(st.lists(st.floats(0, 1e4).map(lambda t: float("%.13E" % t)), min_size=n, max_size=n, unique=True))
    s["names"] = draw(st.permutations(range(n)))
    s["via"] = draw(st.sampled_from(["pymech", "pymech", "xarray", "glob"]))
    s["reorder"] = draw(st.booleans())
    return s


def check16(spec, ctx):
    times = spec["times"]
    n = len(times)
    ctx.label("several files", n > 1)
    ctx.label("times not increasing", times != sorted(times))
    ctx.label("file names not in the given order", n > 1 and spec["names"] != sorted(spec["names"]))
    ctx.nontrivial(n > 1)
    d = os.path.dirname(ctx.path("x"))
    files, boxes = [], []
    order = list(range(n))
    if spec["via"] == "glob":
        spec = {**spec, "names": sorted(spec["names"])}  # a pattern is expanded in sorted order
    for i in order:
        s = {**spec, "time": times[i], "snap": i}
        if spec["reorder"] and i % 2:
            s["cells"] = s["cells"][::-1]
        b = Box(s)
        f = os.path.join(d, "box0.f%05d" % (spec["names"][i] + 1))
        b.write(f)
        files.append(f)
        boxes.append(b)
    arg = [pathlib.Path(f) for f in files] if spec["pathlib"] else list(files)
    with ctx.sut("opening the series"):
        if spec["via"] == "glob":
            ds = pmd.open_mfdataset(os.path.join(d, "box0.f*"))
        elif spec["via"] == "xarray":
            ds = xr.open_mfdataset(arg, engine="pymech", combine="nested", concat_dim="time")
        else:
            ds = pmd.open_mfdataset(arg)
        ds = ds.load()
        ctx.check("time" in ds.dims and ds.sizes["time"] == n, f"dimensions {dict(ds.sizes)} for {n} files")
        got = [float(t) for t in np.asarray(ds["time"].values)]
        ctx.check(got == times, f"times {got}, expected {times}")
        for i, b in enumerate(boxes):
            one = ds.isel(time=i)
            expect_ds(ctx, one, b, f"entry {i} of the series")
            single = pmd.open_dataset(files[i])
            ctx.check(set(single.variables) == set(one.variables), f"entry {i} has {sorted(map(str, one.variables))}, the file alone {sorted(map(str, single.variables))}")
            for v in single.variables:
                ctx.check(core.same_bits(one[v].values, single[v].values), f"entry {i}: {v} differs from the file alone")


PROPS["C16"] = Prop(
    "C16", check16, lambda tier: specs16(tier),
    "Series of 1-4 random box files with random distinct times (not sorted), file names in random order, different values and element orders per file, opened with open_mfdataset, "
    "xarray and a glob pattern; oracle: times in the given order, each slice equal to the encoder's arrays and to the single dataset. Non-trivial: several files.",
    {"quick": 500, "thorough": 2000},
    large={"quick": 6, "thorough": 24},
)
