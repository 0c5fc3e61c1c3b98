"""Mesh models independent of pymech: Nek numbering of corners, faces and edges, generated conforming meshes
whose connectivity is known from vertex identities, snapshots, and structural validity."""

import numpy as np
from hypothesis import strategies as st

import core
import fieldlib as fl

# --------------------------------------------------------------------------- numbering (Nek5000)
# corners are (z, y, x) index triples of a 2x2x2 (or 1x2x2) block
FACES3 = [
    [(z, 0, x) for z in (0, 1) for x in (0, 1)],  # 1: y-
    [(z, y, 1) for z in (0, 1) for y in (0, 1)],  # 2: x+
    [(z, 1, x) for z in (0, 1) for x in (0, 1)],  # 3: y+
    [(z, y, 0) for z in (0, 1) for y in (0, 1)],  # 4: x-
    [(0, y, x) for y in (0, 1) for x in (0, 1)],  # 5: z-
    [(1, y, x) for y in (0, 1) for x in (0, 1)],  # 6: z+
]
FACES2 = [
    [(0, 0, 0), (0, 0, 1)],
    [(0, 0, 1), (0, 1, 1)],
    [(0, 1, 0), (0, 1, 1)],
    [(0, 0, 0), (0, 1, 0)],
]
# directed edges
EDGES = (
    [((z, 0, 0), (z, 0, 1)) for z in (0,)] + [((0, 0, 1), (0, 1, 1)), ((0, 1, 1), (0, 1, 0)), ((0, 1, 0), (0, 0, 0))]
    + [((1, 0, 0), (1, 0, 1)), ((1, 0, 1), (1, 1, 1)), ((1, 1, 1), (1, 1, 0)), ((1, 1, 0), (1, 0, 0))]
    + [((0, 0, 0), (1, 0, 0)), ((0, 0, 1), (1, 0, 1)), ((0, 1, 1), (1, 1, 1)), ((0, 1, 0), (1, 1, 0))]
)


def faces(dim):
    return FACES2 if dim == 2 else FACES3


def nedges(dim):
    return 4 if dim == 2 else 12


def corner(pos, c):
    """Coordinates of corner c of an element of any order."""
    z, y, x = (-1 if k else 0 for k in c)
    return np.array(pos[:, z, y, x], dtype=np.float64)


def face_points(pos, dim, iface):
    return np.array([corner(pos, c) for c in faces(dim)[iface]])


def face_centre(pos, dim, iface):
    return face_points(pos, dim, iface).mean(axis=0)


def edge_lengths(pos, dim):
    return np.array([np.linalg.norm(corner(pos, b) - corner(pos, a)) for a, b in EDGES[: nedges(dim)]])


# --------------------------------------------------------------------------- orientations
def rotations(dim):
    """Index maps taking an array of corners (z, y, x) to one of the same element with other local axes (right-handed)."""
    if dim == 2:
        out = []
        a = np.arange(4).reshape(1, 2, 2)
        for k in range(4):
            out.append(np.rot90(a, k, axes=(1, 2)))
        return out
    out = []
    a = np.arange(8).reshape(2, 2, 2)
    import itertools

    for perm in itertools.permutations(range(3)):
        sign = np.linalg.det(np.eye(3)[list(perm)])
        for flips in itertools.product((1, -1), repeat=3):
            if sign * np.prod(flips) > 0:
                b = np.transpose(a, perm)
                b = b[:: flips[0], :: flips[1], :: flips[2]]
                out.append(b)
    return out


# --------------------------------------------------------------------------- generated grid meshes
CODES = ["W", "v", "O", "SYM", "on", "T", "f", "ON", "mv", "A", "EL", "PS", "e", "p"]


def spacings(n, lo=0.25, hi=4.0):
    return st.lists(st.floats(lo, hi).map(lambda v: round(v, 3)), min_size=n, max_size=n)


@st.composite
def grid_specs(draw, dims=(2, 3), max_n=(4, 4, 3), max_nel=24, min_nbc=0, max_nbc=3, periodic=True, internal=None, curves=False,
               warp=True, high_order=False, scales=True, fields=False, shuffle=True, max_aspect=4.0, orient=True, stretch=False, flat=True, large=False, single=False, mixed=False):
    dim = draw(st.sampled_from(list(dims)))
    n = [draw(st.sampled_from(sorted(range(1, max_n[i] + 1), key=lambda v: (v == 1, v)))) for i in range(dim)]
    if large:
        # more than 256 elements, and more than ten in each direction
        n = draw(st.sampled_from([[19, 15], [12, 23], [33, 11]] if dim == 2 else [[7, 6, 7], [3, 13, 8], [11, 6, 5]]))
        high_order = False
    while np.prod(n) > max_nel and not large:
        i = int(np.argmax(n))
        n[i] -= 1
    nbc = draw(st.sampled_from(sorted(range(min_nbc, max_nbc + 1), key=lambda v: (v == 0, v))))
    # a side pair is periodic in all fields or in none (periodicity is a property of the mesh), unless mixed
    sides = []
    for d in range(dim):
        if periodic and draw(st.integers(0, 3)) == 0:
            sides += [["P"] * nbc, ["P"] * nbc]
            if mixed and nbc > 1 and draw(st.booleans()):
                # some fields only
                for ibc in range(nbc):
                    if draw(st.booleans()):
                        for b in sides[-2:]:
                            b[ibc] = draw(st.sampled_from(CODES))
        else:
            for _ in range(2):
                sides.append([draw(st.sampled_from(CODES)) for _ in range(nbc)])
    spec = {
        "dim": dim, "n": n, "nbc": nbc, "sides": sides,
        "lines": [draw(spacings(k, 1.0 / max_aspect * 2, 2.0)) for k in n],
        "origin": [draw(st.sampled_from([0.0, -1.0, 0.5, 3.0, -7.25])) for _ in range(dim)],
        "warp": draw(st.sampled_from([0.0, 0.0, 0.1, 0.2])) if warp else 0.0,
        "shear": draw(st.sampled_from([0.0, 0.0, 0.5, -1.0])) if warp else 0.0,
        "salt": draw(st.integers(0, 9999)),
        "perm": draw(st.booleans()) if shuffle else False,
        "orient": draw(st.booleans()) if orient else False,
        "internal": draw(st.booleans()) if internal is None else internal,
        "scale": draw(st.sampled_from([1.0, 1.0, 1e-3, 250.0] + ([1e-9, 1e7] if scales == "wide" else []))) if scales else 1.0,
        "curves": draw(st.sampled_from(["none", "some", "all"])) if curves else "none",
        "lr": draw(st.integers(2, 5)) if high_order else 2,
        "params": draw(st.booleans()),
    }
    even = True
    if flat and draw(st.integers(0, 7)) == 0:
        even = False
        # all elements much longer, or shorter, in one direction than in the others
        d = draw(st.integers(0, dim - 1))
        f = draw(st.sampled_from([30.0, 1000.0, 0.03, 0.002]))
        spec["lines"][d] = [round(v * f, 6) for v in spec["lines"][d]]
        spec["curves"] = "none"
    if stretch and draw(st.integers(0, 2)) == 0:
        even = False
        # neighbours of very different size
        for d in range(dim):
            f = draw(st.lists(st.sampled_from([1.0, 1.0, 0.1, 12.0, 0.002]), min_size=n[d], max_size=n[d]))
            spec["lines"][d] = [round(a * b, 6) for a, b in zip(spec["lines"][d], f)]
    if fields:
        spec["var"] = draw(var_lists(dim))
    spec["layout"] = draw(st.sampled_from(fl.LAYOUTS))
    spec["tuples"] = draw(st.sampled_from([False, False, True]))
    if single and even:
        spec["single"] = draw(st.sampled_from([False, False, False, True]))
    return spec


@st.composite
def var_lists(draw, dim):
    return [dim, draw(st.sampled_from([0, dim])), draw(st.integers(0, 1)), draw(st.integers(0, 1)), draw(st.integers(0, 3))]


class Grid:
    """A structured mesh seen as unstructured elements. Everything about it is known:
    ids[iel]: vertex id of each corner; conn: (iel, iface) -> (jel, jface); bc[(iel, iface)]: side number or None."""

    def __init__(self, spec):
        self.spec = spec
        dim = self.dim = spec["dim"]
        n = self.n = list(spec["n"]) + [1] * (3 - dim)
        salt = spec["salt"]
        lines = [np.concatenate(([0.0], np.cumsum(spec["lines"][d]))) for d in range(dim)]
        self.lines = lines
        self.place()
        # cells
        cells = [(i, j, k) for k in range(n[2]) for j in range(n[1]) for i in range(n[0])]
        nel = self.nel = len(cells)
        orderk = np.argsort(core.mix(salt, nel, 5), kind="stable") if spec["perm"] else np.arange(nel)
        self.cells = [cells[int(t)] for t in orderk]
        rots = rotations(dim)
        pick = core.mix(salt, nel, 6)
        self.ids = []
        for e, (i, j, k) in enumerate(self.cells):
            zs = (0, 1) if dim == 3 else (0,)
            c = np.array([[[self.vid(i + a, j + b, k + g) for a in (0, 1)] for b in (0, 1)] for g in zs])
            if spec["orient"]:
                r = rots[int(pick[e] % np.uint64(len(rots)))]
                c = c.reshape(-1)[r]
            self.ids.append(c)
        self.nface = 2 * dim
        self.connect()
        self.sides_of()

    def place(self):
        spec = self.spec
        dim = self.dim
        salt = spec["salt"]
        lines = self.lines
        nv = self.nv = [k + 1 for k in spec["n"]] + ([1] if dim == 2 else [])
        nvert = int(np.prod(nv))
        hmin = min(min(s) for s in spec["lines"])
        xyz = np.zeros((nvert, 3))
        self.vid = lambda i, j, k: i + nv[0] * (j + nv[1] * k)  # noqa: E731
        disp = (core.unit(salt, 3 * nvert, 77) * 2 - 1).reshape(nvert, 3) * spec["warp"] * hmin
        for k in range(nv[2]):
            for j in range(nv[1]):
                for i in range(nv[0]):
                    p = [lines[0][i], lines[1][j], lines[2][k] if dim == 3 else 0.0]
                    p = np.array(p) + disp[self.vid(i, j, k)] * np.array([1, 1, 1 if dim == 3 else 0])
                    p[0] += spec["shear"] * p[1]
                    xyz[self.vid(i, j, k)] = p
        org = np.array(list(spec["origin"]) + [0.0] * (3 - dim))
        self.xyz = (xyz + org) * spec["scale"]
        if dim == 2:
            self.xyz[:, 2] = 0.0
        if spec.get("single"):
            self.xyz = self.xyz.astype(np.float32).astype(np.float64)

    def face_ids(self, iel, iface):
        return frozenset(int(self.ids[iel][c]) for c in faces(self.dim)[iface])

    def connect(self):
        where = {}
        self.conn = {}
        for e in range(self.nel):
            for f in range(self.nface):
                key = self.face_ids(e, f)
                if key in where:
                    o = where[key]
                    self.conn[(e, f)] = o
                    self.conn[o] = (e, f)
                else:
                    where[key] = (e, f)

    def sides_of(self):
        """(iel, iface) -> side number 0..2*dim-1 (x-, x+, y-, y+, z-, z+) for boundary faces, and periodic partners."""
        nv = [k + 1 for k in self.spec["n"]] + ([1] if self.dim == 2 else [])

        def ijk(v):
            return v % nv[0], (v // nv[0]) % nv[1], v // (nv[0] * nv[1])

        self.side = {}
        self.partner = {}
        keyed = {}
        for e in range(self.nel):
            for f in range(self.nface):
                if (e, f) in self.conn:
                    continue
                pts = [ijk(v) for v in self.face_ids(e, f)]
                for d in range(self.dim):
                    for s, at in ((0, 0), (1, nv[d] - 1)):
                        if all(p[d] == at for p in pts):
                            # the other end of the same column
                            rest = frozenset(tuple(p[q] for q in range(self.dim) if q != d) for p in pts)
                            self.side[(e, f)] = 2 * d + s
                            keyed[(2 * d + s, rest)] = (e, f)
        for (s, rest), ef in keyed.items():
            self.partner[ef] = keyed[(s ^ 1, rest)]

    # ---- as a pymech mesh
    def mesh(self, var=None, ncomp=None):
        from pymech.core import HexaData

        spec = self.spec
        dim = self.dim
        lr = spec.get("lr", 2)
        lr1 = [lr, lr, lr if dim == 3 else 1]
        var = list(var if var is not None else spec.get("var") or [dim, 0, 0, 0, 0])
        m = HexaData(dim, self.nel, lr1, var, spec["nbc"], *(["float32"] if spec.get("single") else []))
        for e, el in enumerate(m.elem):
            p = self.xyz[self.ids[e]]  # (z, y, x, 3)
            p = np.moveaxis(p, 3, 0)
            el.pos[...] = refine(p, lr)
        if spec.get("tuples"):  # as `readnek` returns them
            m.lr1, m.var = tuple(m.lr1), tuple(m.var)
        self.apply_fields(m)
        self.apply_bcs(m)
        self.apply_curves(m)
        for el in m.elem:
            for name in ("pos", "vel", "pres", "temp", "scal"):
                setattr(el, name, fl.relayout(getattr(el, name), spec.get("layout", "c")))
        return m

    def apply_fields(self, m):
        for e, el in enumerate(m.elem):
            for k, name in enumerate(("vel", "pres", "temp", "scal")):
                a = getattr(el, name)
                if m.var[k + 1]:
                    a[...] = core.values(self.spec["salt"] + e, a.size, "real", 40 + k).reshape(a.shape)

    def expected_bc(self, ibc, e, f):
        """(type, iel, iface, p1..p5), 1-based, as the mesh is built."""
        spec = self.spec
        if (e, f) in self.conn:
            if not spec["internal"]:
                return None
            o = self.conn[(e, f)]
            return ("E", e + 1, f + 1, o[0] + 1, o[1] + 1, 0.0, 0.0, 0.0)
        code = spec["sides"][self.side[(e, f)]][ibc]
        if code == "P":
            o = self.partner[(e, f)]
            return ("P", e + 1, f + 1, o[0] + 1, o[1] + 1, 0.0, 0.0, 0.0)
        par = [0.0] * 5
        if spec["params"]:
            u = core.unit(spec["salt"] + 31 * ibc, 5 * self.nel * 6, 9).reshape(self.nel, 6, 5)[e, f]
            par = [round(float(v) * 4 - 2, 4) for v in u]
        return (code, e + 1, f + 1, *par)

    def apply_bcs(self, m):
        for ibc in range(self.spec["nbc"]):
            for e in range(self.nel):
                for f in range(self.nface):
                    b = self.expected_bc(ibc, e, f)
                    if b is not None:
                        for i, v in enumerate(b):
                            m.elem[e].bcs[ibc, f][i] = v

    def apply_curves(self, m):
        """Geometrically consistent curvature ('m' midpoints and 'C' radii), the same seen from both sides."""
        kind = self.spec.get("curves", "none")
        if kind == "none":
            return
        for e, el in enumerate(m.elem):
            for g in range(nedges(self.dim)):
                a, b = EDGES[g]
                va, vb = int(self.ids[e][a]), int(self.ids[e][b])
                key = min(va, vb) * 100003 + max(va, vb)
                h = int(core.mix(self.spec["salt"] + key, 1, 13)[0])
                if kind == "some" and h % 3 == 0:
                    continue
                pa, pb = self.xyz[va], self.xyz[vb]
                L = np.linalg.norm(pb - pa)
                u = core.unit(self.spec["salt"] + key, 4, 14)
                if h % 2 and self.dim == 2:
                    el.ccurv[g] = "C"
                    r = L * (self.spec.get("cmin", 0.8) + 3 * u[0]) * (1 if va < vb else -1) * (1 if u[1] > 0.5 else -1)
                    el.curv[g, 0] = r
                else:
                    el.ccurv[g] = "m"
                    d = (u[:3] * 2 - 1) * 0.1 * L
                    if self.dim == 2:
                        d[2] = 0
                    el.curv[g, :3] = 0.5 * (pa + pb) + d
        m.update_ncurv()


def refine(p, lr):
    """Corner array (3, lz, 2, 2) -> linear element with lr points per direction."""
    if lr == 2:
        return p
    t = np.linspace(0, 1, lr)

    def along(a, ax):
        a0 = np.take(a, [0], axis=ax)
        a1 = np.take(a, [1], axis=ax)
        shape = [1] * a.ndim
        shape[ax] = lr
        tt = t.reshape(shape)
        return a0 * (1 - tt) + a1 * tt

    p = along(p, 3)
    p = along(p, 2)
    if p.shape[1] == 2:
        p = along(p, 1)
    return p


# --------------------------------------------------------------------------- snapshots
def bc_tuple(b):
    return (str(b[0]), int(b[1]), int(b[2])) + tuple(float(b[i]) for i in range(3, 8))


def snapshot(m):
    """Everything observable about a mesh, as plain immutable values."""
    return {
        "ndim": int(m.ndim), "nel": int(m.nel), "ncurv": int(m.ncurv), "nbc": int(m.nbc), "var": tuple(map(int, m.var)),
        "lr1": tuple(map(int, m.lr1)), "time": float(m.time), "istep": int(m.istep), "wdsz": int(m.wdsz), "endian": m.endian,
        "elmap": tuple(map(int, m.elmap)), "types": (type(m.var).__name__, type(m.lr1).__name__),
        "elem": [snap_elem(el) for el in m.elem],
    }


def keep_apart(spec, tol, ends=True):
    """Makes every cell thicker than the distance at which faces of its neighbours touch (in place)."""
    # touching is measured by the smallest edge, so no more than the smallest of the largest sizes along each axis
    top = min(max(h) for h in spec["lines"])
    for h in spec["lines"]:
        for i, v in enumerate(h):
            if not ends or 0 < i < len(h) - 1:
                h[i] = max(v, round(3 * tol * top, 6))


def check_independent(ctx, m, what):
    """Elements hold their own data: a change of one is not seen in another. Overwrites the mesh."""
    names = ("pos", "vel", "pres", "temp", "scal", "curv")
    for i, el in enumerate(m.elem):
        for k in names:
            getattr(el, k)[...] = i + 1
        for c in range(len(el.ccurv)):
            el.ccurv[c] = str(i + 1)
        for ibc, f in np.ndindex(*el.bcs.shape):
            el.bcs[ibc, f][1] = i + 1
    for i, el in enumerate(m.elem):
        for k in names:
            ctx.check(bool((getattr(el, k) == i + 1).all()), lambda: f"{what}: {k} of element {i + 1} changes with that of another element")
        ctx.check(all(c == str(i + 1) for c in el.ccurv), lambda: f"{what}: the curvature types of element {i + 1} change with those of another element")
        ctx.check(all(el.bcs[q][1] == i + 1 for q in np.ndindex(*el.bcs.shape)), lambda: f"{what}: the conditions of element {i + 1} change with those of another element")


def snap_elem(el):
    return {
        "arrays": {k: (getattr(el, k).shape, str(getattr(el, k).dtype), getattr(el, k).tobytes()) for k in ("pos", "vel", "pres", "temp", "scal", "curv")},
        "ccurv": tuple(str(c) for c in el.ccurv),
        "bcs": (el.bcs.shape, tuple(bc_tuple(b) for b in el.bcs.reshape(-1))),
    }


def snap_diff(a, b):
    """Description of the first difference of two snapshots, or None."""
    if a == b:
        return None
    for k in a:
        if k != "elem" and a[k] != b[k]:
            return f"{k}: {str(a[k])[:200]} became {str(b[k])[:200]}"
    if len(a["elem"]) != len(b["elem"]):
        return f"{len(a['elem'])} elements became {len(b['elem'])}"
    for i, (x, y) in enumerate(zip(a["elem"], b["elem"])):
        d = elem_diff(x, y)
        if d:
            return f"element {i}: {d}"
    return "unknown difference"


def elem_diff(x, y, skip=()):
    for k in x["arrays"]:
        if k not in skip and x["arrays"][k] != y["arrays"][k]:
            return f"{k} changed"
    if "ccurv" not in skip and x["ccurv"] != y["ccurv"]:
        return f"curvature types {x['ccurv']} became {y['ccurv']}"
    if "bcs" not in skip and x["bcs"] != y["bcs"]:
        if x["bcs"][0] != y["bcs"][0]:
            return f"shape of the conditions {x['bcs'][0]} became {y['bcs'][0]}"
        for j, (p, q) in enumerate(zip(x["bcs"][1], y["bcs"][1])):
            if p != q:
                return f"condition {j}: {p} became {q}"
    return None


# --------------------------------------------------------------------------- geometry of finished meshes
def cluster(pts, tol):
    """Integer label per point; points within tol get the same label."""
    inv = 1.0 / tol
    reps = {}
    out = np.empty(len(pts), dtype=int)
    coords = []
    for i, p in enumerate(pts):
        c = tuple(int(v) for v in np.floor(p * inv))
        hit = None
        for dx in (0, -1, 1):
            for dy in (0, -1, 1):
                for dz in (0, -1, 1):
                    for r in reps.get((c[0] + dx, c[1] + dy, c[2] + dz), ()):
                        if np.abs(coords[r] - p).max() <= tol:
                            hit = r
                            break
                    if hit is not None:
                        break
                if hit is not None:
                    break
            if hit is not None:
                break
        if hit is None:
            hit = len(coords)
            coords.append(p)
            reps.setdefault(c, []).append(hit)
        out[i] = hit
    return out


def vertex_ids(m, rel=1e-6):
    """Vertex identities of a mesh from its geometry: list of corner id arrays, and the tolerance used."""
    dim = int(m.ndim)
    corners = [(z, y, x) for z in range(dim - 1) for y in (0, 1) for x in (0, 1)]
    pts = np.array([corner(el.pos, c) for el in m.elem for c in corners])
    lmin = min(edge_lengths(el.pos, dim).min() for el in m.elem)
    lab = cluster(pts, rel * lmin)
    n = len(corners)
    return [lab[i * n: (i + 1) * n].reshape(dim - 1, 2, 2) for i in range(len(m.elem))], lmin


def face_table(m, ids=None):
    """face key -> list of (iel, iface)."""
    dim = int(m.ndim)
    if ids is None:
        ids, _ = vertex_ids(m)
    table = {}
    for e in range(len(m.elem)):
        for f in range(2 * dim):
            key = frozenset(int(ids[e][c]) for c in faces(dim)[f])
            table.setdefault(key, []).append((e, f))
    return table


def corner_block(pos, dim):
    """Corner coordinates as a (z, y, x, 3) array."""
    p = pos[:, [0, -1] if dim == 3 else [0]][:, :, [0, -1]][:, :, :, [0, -1]]
    return np.moveaxis(np.asarray(p, dtype=np.float64), 0, 3)


def det3(a, b, c):
    return (
        a[..., 0] * (b[..., 1] * c[..., 2] - b[..., 2] * c[..., 1])
        - a[..., 1] * (b[..., 0] * c[..., 2] - b[..., 2] * c[..., 0])
        + a[..., 2] * (b[..., 0] * c[..., 1] - b[..., 1] * c[..., 0])
    )


def jacobians(pos, dim):
    """Corner Jacobian determinants of the (multi)linear element."""
    p = corner_block(pos, dim)
    ex = np.broadcast_to(p[:, :, 1:] - p[:, :, :1], p.shape)
    ey = np.broadcast_to(p[:, 1:] - p[:, :1], p.shape)
    if dim == 2:
        return (ex[..., 0] * ey[..., 1] - ex[..., 1] * ey[..., 0]).reshape(-1)
    ez = np.broadcast_to(p[1:] - p[:1], p.shape)
    return det3(ex, ey, ez).reshape(-1)


_G = np.array([-np.sqrt(0.6), 0.0, np.sqrt(0.6)]) / 2 + 0.5
_W = np.array([5, 8, 5]) / 18.0
_N = np.array([1 - _G, _G])  # (corner, gauss point)
_WWW = _W[:, None, None] * _W[None, :, None] * _W[None, None, :]


def volume(pos, dim):
    """Area or volume of the (multi)linear element, exact Gauss quadrature."""
    p = corner_block(pos, dim)
    if dim == 2:
        ac, bd = p[0, 1, 1] - p[0, 0, 0], p[0, 1, 0] - p[0, 0, 1]
        return 0.5 * (ac[0] * bd[1] - ac[1] * bd[0])
    dx, dy, dz = p[:, :, 1] - p[:, :, 0], p[:, 1] - p[:, 0], p[1] - p[0]
    g = len(_G)
    ex = np.einsum("za,yb,zyd->abd", _N, _N, dx)[:, :, None, :]
    ey = np.einsum("za,xc,zxd->acd", _N, _N, dy)[:, None, :, :]
    ez = np.einsum("yb,xc,yxd->bcd", _N, _N, dz)[None, :, :, :]
    full = (g, g, g, 3)
    return float((_WWW * det3(np.broadcast_to(ex, full), np.broadcast_to(ey, full), np.broadcast_to(ez, full))).sum())


def check_counts(ctx, m, what, curved=True):
    """Counts and metadata match contents."""
    ctx.check(int(m.nel) == len(m.elem), f"{what}: nel is {m.nel} for {len(m.elem)} elements")
    em = [int(v) for v in m.elmap]
    ctx.check(sorted(em) == list(range(1, len(m.elem) + 1)), f"{what}: the element map is not a permutation of the elements: {em[:20]}")
    if curved:
        n = sum(c != "" for el in m.elem for c in el.ccurv)
        ctx.check(int(m.ncurv) == n, f"{what}: ncurv is {m.ncurv} but {n} edges are curved")
    lx, ly, lz = (int(v) for v in m.lr1)
    for i, el in enumerate(m.elem):
        ctx.check(el.pos.shape == (3, lz, ly, lx), f"{what}: element {i} has points {el.pos.shape}, orders are {list(m.lr1)}")
        ctx.check(el.bcs.shape == (int(m.nbc), 6), f"{what}: element {i} has conditions {el.bcs.shape} for {m.nbc} fields")
        ctx.check(len(el.ccurv) == 12 and el.curv.shape == (12, 5), f"{what}: element {i} has curvature of the wrong shape")
        ctx.check(bool(np.isfinite(el.pos).all()), f"{what}: element {i} has coordinates that are not finite")


def check_conforming(ctx, m, what, internal=True, boundary=None, rel=1e-6, nbc=None):
    """Faces coincide pairwise or are on the boundary. With internal=True every interior face of every field is a mutual 'E'
    connection to the face it coincides with, and nothing else is; periodic conditions are mutual.
    boundary(iel, iface, ibc) -> expected type or None for 'do not care'. Returns boundary faces."""
    dim = int(m.ndim)
    ids, lmin = vertex_ids(m, rel)
    table = face_table(m, ids)
    bfaces = []
    for key, who in table.items():
        ctx.check(len(key) == len(faces(dim)[0]), lambda: f"{what}: a face of element {who[0][0]} is degenerate")
        ctx.check(len(who) <= 2, lambda: f"{what}: faces {[(e + 1, f + 1) for e, f in who]} (element, face) coincide")
        if len(who) == 1:
            bfaces.append(who[0])
            continue
        (e1, f1), (e2, f2) = who
        for (e, f), (o, g) in (((e1, f1), (e2, f2)), ((e2, f2), (e1, f1))):
            for ibc in range(int(m.nbc)):
                b = bc_tuple(m.elem[e].bcs[ibc, f])
                if internal is True:
                    ctx.check(
                        b[0] == "E" and b[3] == o + 1 and b[4] == g + 1,
                        lambda: f"{what}: face {f + 1} of element {e + 1} coincides with face {g + 1} of element {o + 1} but its condition in field {ibc} is {b}",
                    )
                    ctx.check(
                        b[1] in (0, e + 1) and b[2] in (0, f + 1),
                        lambda: f"{what}: the condition of face {f + 1} of element {e + 1} in field {ibc} says it belongs to {b[1:3]}",
                    )
                elif internal is False:
                    ctx.check(b[0] == "", lambda: f"{what}: interior face {f + 1} of element {e + 1} has the condition {b} in field {ibc}")
    for e, f in bfaces:
        for ibc in range(int(m.nbc)):
            b = bc_tuple(m.elem[e].bcs[ibc, f])
            ctx.check(b[0] != "E", lambda: f"{what}: boundary face {f + 1} of element {e + 1} has the internal condition {b} in field {ibc}")
            if b[0] == "P":
                o, g = int(b[3]) - 1, int(b[4]) - 1
                ok = 0 <= o < len(m.elem) and 0 <= g < 2 * dim
                back = bc_tuple(m.elem[o].bcs[ibc, g]) if ok else None
                ctx.check(
                    ok and back[0] == "P" and back[3] == e + 1 and back[4] == f + 1,
                    lambda: f"{what}: face {f + 1} of element {e + 1} is periodic in field {ibc} with {b[3:5]}, which answers {back}",
                )
            if boundary is not None:
                exp = boundary(e, f, ibc)
                ctx.check(
                    exp is None or b[0] == exp,
                    lambda: f"{what}: face {f + 1} of element {e + 1} has condition {b[0]!r} in field {ibc}, expected {exp!r}",
                )
            if b[0] not in ("", "E"):
                ctx.check(
                    b[1] in (0, e + 1) and b[2] in (0, f + 1),
                    lambda: f"{what}: the condition {b[0]!r} of face {f + 1} of element {e + 1} in field {ibc} says it belongs to {b[1:3]}",
                )
    return bfaces


def check_positive(ctx, m, what):
    for i, el in enumerate(m.elem):
        j = jacobians(el.pos, int(m.ndim))
        ctx.check(bool((j > 0).all()), lambda: f"{what}: element {i + 1} is not right-handed (corner Jacobians {j})")


def total_volume(m):
    return sum(volume(el.pos, int(m.ndim)) for el in m.elem)
