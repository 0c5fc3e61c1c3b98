"""C33 conversion to VTK, with a stand-in for the VTK library."""

import os
import sys
import types

import numpy as np
from hypothesis import strategies as st

import fieldlib as fl
from checks import Prop

PROPS = {}

HEX, QUAD = 12, 9


# --------------------------------------------------------------------------- stand-in for tvtk
class Array:
    """A data array as VTK would hold it: it keeps a reference to the numpy data and has a name."""

    def __init__(self, data):
        self.data = data
        self.name = None


class Cell:
    def __init__(self, t):
        self.cell_type = t


class CellArray:
    def __init__(self):
        self.n, self.ids = 0, None

    def set_cells(self, n, ids):
        self.n, self.ids = n, ids


class PointData:
    def __init__(self):
        self._arrays = []
        self._vectors = None
        self._scalars = None

    def _put(self, old, value):
        a = value if isinstance(value, Array) else Array(value)
        if old is not None:
            self._arrays.remove(old)
        self._arrays.append(a)
        return a

    @property
    def vectors(self):
        return self._vectors

    @vectors.setter
    def vectors(self, value):
        self._vectors = self._put(self._vectors, value)

    @property
    def scalars(self):
        return self._scalars

    @scalars.setter
    def scalars(self, value):
        self._scalars = self._put(self._scalars, value)

    def add_array(self, value):
        self._put(None, value)
        return len(self._arrays) - 1

    def get_array(self, i):
        if isinstance(i, str):
            return next((a for a in self._arrays if a.name == i), None)
        return self._arrays[i]

    @property
    def number_of_arrays(self):
        return len(self._arrays)

    def update(self):
        pass


class UnstructuredGrid:
    def __init__(self, points=None, **kw):
        self.points = points
        self.point_data = PointData()
        self.types = self.offsets = self.cells = None

    def set_cells(self, types_, offsets, cells):
        self.types, self.offsets, self.cells = types_, offsets, cells


WRITTEN = []


def install():
    api = types.ModuleType("tvtk.api")
    api.tvtk = types.SimpleNamespace(Hexahedron=lambda: Cell(HEX), Quad=lambda: Cell(QUAD), CellArray=CellArray, UnstructuredGrid=UnstructuredGrid)
    api.write_data = lambda data, name, *a, **k: WRITTEN.append((data, name))
    pkg = types.ModuleType("tvtk")
    pkg.api = api
    sys.modules["tvtk"] = pkg
    sys.modules["tvtk.api"] = api


def module():
    """pymech.vtksuite on top of the stand-in."""
    install()
    import importlib

    m = sys.modules.get("pymech.vtksuite")
    if m is None:
        m = importlib.import_module("pymech.vtksuite")
    elif not hasattr(m, "tvtk"):
        m = importlib.reload(m)
    return m


# --------------------------------------------------------------------------- C33
@st.composite
def specs33(draw, tier="quick"):
    big = tier != "quick"
    n = 6 if big else 4
    lr1 = [draw(st.integers(2, n)) for _ in range(3)]
    if draw(st.booleans()):
        lr1 = [lr1[0]] * 3
    wide = draw(st.integers(0, 4)) == 0
    if wide:
        # the orders of real runs
        lr1 = draw(st.sampled_from([[8, 8, 8], [6, 7, 5], [10, 3, 2], [2, 11, 3], [3, 2, 12], [6, 6, 6]]))
    var = [3, draw(st.sampled_from([3, 0])), draw(st.integers(0, 1)), draw(st.integers(0, 1)), draw(st.sampled_from([0, 1, 2, 3, 0, 11]))]
    nel = draw(st.integers(1, 6 if big else 3)) if not wide else draw(st.integers(1, 2))
    if tier == "large":
        nel = draw(st.sampled_from([257, 1100]))
        lr1 = draw(st.sampled_from([[2, 2, 2], [2, 3, 2], [5, 4, 4]]))
    return {
        "ndim": 3, "lr1": lr1, "nel": nel, "var": var, "wdsz": draw(st.sampled_from([4, 8])), "endian": "little",
        "mem": draw(st.sampled_from(["float64", "float64", "float32"])), "elmap": draw(fl.permutation(nel)),
        "time": 1.5, "istep": 3, "salt": draw(st.integers(0, 10**6)), "mode": "real", "down": draw(st.booleans()),
        "name": draw(st.sampled_from(["a.vtp", "a", "case0.f00001", "dir.x/b.vtk", "a.vtp", "my.case.v2.vtk", "run1.5.vtp"])), "pathlike": draw(st.booleans()),
    }


def cell_rows(ctx, ds, what):
    """One entry per cell: the eight corners in order, each with its coordinates and all named data."""
    pts = np.asarray(ds.points, dtype=np.float64)
    ctx.check(pts.ndim == 2 and pts.shape[1] == 3, f"{what}: points of shape {pts.shape}")
    ids = np.asarray(ds.cells.ids)
    n = int(ds.cells.n)
    ctx.check(ids.shape == (9 * n,), f"{what}: {n} cells in a list of {ids.shape}")
    ctx.check(bool((ids == np.floor(ids)).all()), f"{what}: point numbers that are not integers")
    ids = ids.astype(np.int64).reshape(n, 9)
    ctx.check(bool((ids[:, 0] == 8).all()), f"{what}: cells of {set(ids[:, 0].tolist())} points")
    ids = ids[:, 1:]
    ctx.check(bool((ids >= 0).all() and (ids < len(pts)).all()), f"{what}: point numbers from {ids.min()} to {ids.max()} for {len(pts)} points")
    ty = np.asarray(ds.types)
    ctx.check(ty.shape == (n,) and bool((ty == HEX).all()), f"{what}: {n} cells with types {ty[:20]}")
    off = np.asarray(ds.offsets)
    ctx.check(off.shape == (n,) and bool((off == 9 * np.arange(n)).all()), f"{what}: the cells start at {off[:10]} of the list")
    data = {}
    for a in ds.point_data._arrays:
        v = np.asarray(a.data, dtype=np.float64)
        ctx.check(a.name is not None and a.name not in data, f"{what}: data arrays named {[b.name for b in ds.point_data._arrays]}")
        ctx.check(len(v) == len(pts), f"{what}: {len(v)} values of {a.name} for {len(pts)} points")
        data[a.name] = v
    return pts, ids, data


def check33(s, ctx):
    f = fl.arrays(s)
    m = fl.make_mesh(s, f)
    down = s["down"]
    with ctx.sut("importing the VTK module on the stand-in"):
        V = module()
    with ctx.sut("converting to VTK"):
        ds = V.hexa2vtk(m, downsample=True) if down else V.hexa2vtk(m)
        pts, ids, data = cell_rows(ctx, ds, "grid")
    names = []
    if s["var"][1]:
        names.append(("vel", lambda e: m.elem[e].vel))
    if s["var"][2]:
        names.append(("pres", lambda e: m.elem[e].pres[0]))
    if s["var"][3]:
        names.append(("temp", lambda e: m.elem[e].temp[0]))
    for k in range(s["var"][4]):
        names.append((f"scal_{k + 1}", lambda e, k=k: m.elem[e].scal[k]))
    ctx.check(set(data) == {n for n, _ in names}, lambda: f"data arrays {sorted(data)}, the field has {sorted(n for n, _ in names)}")
    ctx.check(s["var"][1] == 0 or (ds.point_data.vectors is not None and ds.point_data.vectors.name == "vel"), "the velocity is not the vector data")
    ctx.check(s["var"][2] == 0 or (ds.point_data.scalars is not None and ds.point_data.scalars.name == "pres"), "the pressure is not the scalar data")
    ctx.check(s["var"][2] == 1 or ds.point_data.scalars is None, "scalar data without pressure")
    steps = [[0, n - 1] if down else list(range(n)) for n in s["lr1"]]
    X, Y, Z = steps
    order = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]
    expected = []
    for e in range(s["nel"]):
        for c in range(len(Z) - 1):
            for b in range(len(Y) - 1):
                for a in range(len(X) - 1):
                    expected.append((e, a, b, c))
    ctx.check(len(ids) == len(expected), lambda: f"{len(ids)} cells, expected {len(expected)} (orders {s['lr1']}, {s['nel']} elements, downsampling {down})")

    def corner_row(arrs, e, x, y, z):
        row = []
        for name, get in arrs:
            v = np.asarray(get(e), dtype=np.float64)[..., z, y, x]
            row += list(np.atleast_1d(v))
        return row

    arrs = [("pos", lambda e: m.elem[e].pos), *names]
    want = np.array([[corner_row(arrs, e, X[a + i], Y[b + j], Z[c + k]) for i, j, k in order] for e, a, b, c in expected])
    cols = [pts] + [data[n].reshape(len(pts), -1) for n, _ in names]
    table = np.concatenate(cols, axis=1)
    got = table[ids]
    if got.shape == want.shape and not np.array_equal(got, want):
        # the order of the cells is free
        key = lambda A: A.reshape(len(A), -1)[np.lexsort(A.reshape(len(A), -1).T[::-1])]  # noqa: E731
        got, want = key(got), key(want)
    ctx.check(got.shape == want.shape, lambda: f"{got.shape[2]} components at the points, expected {want.shape[2]}")
    bad = np.argwhere(got != want)
    ctx.check(len(bad) == 0, lambda: f"cell {bad[0][0]} (sorted): {got[tuple(bad[0])]!r}, expected {want[tuple(bad[0])]!r}; columns of a corner: coordinates, {[n for n, _ in names]}")

    # writing
    name = ctx.path(s["name"])
    os.makedirs(os.path.dirname(name), exist_ok=True)
    WRITTEN.clear()
    import pathlib

    with ctx.sut("writing VTK"):
        V.writevtk(pathlib.Path(name) if s["pathlike"] else name, m)
    exp = name if name.endswith(".vtp") else os.path.splitext(name)[0] + ".vtp"
    ctx.check(len(WRITTEN) == 1 and os.fspath(WRITTEN[0][1]) == exp, lambda: f"writing to {name} wrote {[w[1] for w in WRITTEN]}, expected {exp}")
    w = WRITTEN[0][0]
    full = V.hexa2vtk(m)
    ctx.check(
        np.array_equal(w.points, full.points) and np.array_equal(w.cells.ids, full.cells.ids) and len(w.point_data._arrays) == len(full.point_data._arrays)
        and all(a.name == b.name and np.array_equal(a.data, b.data) for a, b in zip(w.point_data._arrays, full.point_data._arrays)),
        "the dataset written is not the full conversion of the field",
    )
    WRITTEN.clear()
    ctx.label("downsampled", down)
    ctx.label("different orders per direction", len(set(s["lr1"])) > 1)
    ctx.label("#cells compared", len(expected))
    ctx.nontrivial(len(expected) > 1 and bool(names))


PROPS["C33"] = Prop(
    "C33", check33, specs33, "more than one cell and at least one field variable", examples={"quick": 2400, "thorough": 8000},
    assumptions=["the VTK library is not installed: a stand-in with the same calls records what it is given", "3D fields with coordinates, at least two points per direction",
                 "rows of the point array that no cell uses are free"],
    large={"quick": 6, "thorough": 24},
)
