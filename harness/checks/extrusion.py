"""C23 extrusion, C24 refined extrusion."""

import copy
import math

import numpy as np
from hypothesis import strategies as st

import core
import huge
import meshlib as ml
from checks import Prop
from checks.connect import get_bc, get_bc_of, pick, unchanged
from pymech.meshtools import extrude, extrude_refine

PROPS = {}


@st.composite
def z_lists(draw, n):
    return {"z0": draw(st.sampled_from([0.0, -1.0, 2.5, -0.3, 100.0])), "dz": draw(st.sampled_from(["even", "uneven", "integer", "mixed"])),
            "nz": n, "h": draw(st.sampled_from([1.0, 0.1, 3.0])), "form": draw(st.sampled_from(["array", "list", "tuple"]))}


def make_z(zs, salt):
    n = zs["nz"]
    if zs["dz"] == "integer":
        z = [int(zs["z0"]) + k for k in range(n + 1)]
    else:
        z0 = int(zs["z0"]) if zs["dz"] == "mixed" else zs["z0"]
        d = np.ones(n) if zs["dz"] == "even" else 0.5 + core.unit(salt, n, 21)
        z = [z0] + [float(v) for v in z0 + zs["h"] * np.cumsum(d)]
    if zs["form"] == "array":
        return np.array(z)
    return z if zs["form"] == "list" else tuple(z)


@st.composite
def end_conditions(draw, nbc):
    """Conditions at the two ends per field, or None for the default."""
    if draw(st.integers(0, 4)) == 0:
        return None
    out = []
    for _ in range(nbc):
        if draw(st.integers(0, 2)) == 0:
            out.append(["P", "P"])
        else:
            out.append([draw(st.sampled_from(ml.CODES)), draw(st.sampled_from(ml.CODES))])
    return out


def end_args(s):
    e = s["ends"]
    if e is None:
        return None, None, [("P", "P")] * s["nbc"]
    return [a for a, b in e], [b for a, b in e], [tuple(x) for x in e]


# --------------------------------------------------------------------------- C23
@st.composite
def specs23(draw, tier="quick"):
    big = tier != "quick"
    s = draw(ml.grid_specs(dims=(2,), max_n=(6, 5) if big else (4, 4), max_nel=24 if big else 12, max_nbc=3, curves=True, fields=True, mixed=True, scales="wide", large=tier == "large" and draw(st.booleans())))
    s["z"] = draw(z_lists(draw(st.sampled_from([2, 3, 1, 4] + ([9] if big else []) + ([130] if tier == "large" and s["n"][0] < 10 else [])))))
    s["ends"] = draw(end_conditions(s["nbc"]))
    s["ibcs"] = draw(st.sampled_from([True, True, None, False]))
    s["sphere"] = draw(st.booleans())
    s["refuse"] = draw(st.sampled_from([None, None, None, None, "3D", "order", "one-sided", "geometry"]))
    s["rsalt"] = draw(st.integers(0, 10**6))
    return s


def check23(s, ctx):
    if s.get("huge"):
        return huge.c23(s, ctx)
    g = ml.Grid(s)
    m = g.mesh()
    nbc, n2 = s["nbc"], m.nel
    if s["sphere"] and s["curves"] != "none":
        for e, el in enumerate(m.elem):
            k = pick(s["rsalt"] + e, 1, 8)
            if k < 4:
                el.ccurv[k] = "s"
                el.curv[k] = [0.1, -0.2, 0.0, 0.0, 3.0 + e]
        m.update_ncurv()
    z = make_z(s["z"], s["salt"])
    bc1, bc2, ends = end_args(s)
    snap = ml.snapshot(m)
    zs = list(z)
    b1, b2 = copy.copy(bc1), copy.copy(bc2)
    if s["refuse"]:
        bad, a1, a2 = m, bc1, bc2
        if s["refuse"] == "3D":
            t = dict(s, dim=3, n=list(s["n"]) + [1], lines=s["lines"] + [[1.0]], origin=s["origin"] + [0.0], sides=s["sides"] + [["W"] * nbc] * 2, curves="none",
                     var=[3, 0, 0, 0, 0])
            bad = ml.Grid(t).mesh()
        elif s["refuse"] == "order":
            bad = ml.Grid(dict(s, lr=3, curves="none")).mesh()
        elif s["refuse"] == "geometry":
            bad = g.mesh()
            bad.var = [0] + list(bad.var[1:])
        elif nbc:
            k = pick(s["rsalt"], 3, nbc)
            a1 = [e[0] for e in ends]
            a2 = [e[1] for e in ends]
            side = pick(s["rsalt"], 4, 2)
            (a1, a2)[side][k] = "P"
            (a2, a1)[side][k] = "W"
        if s["refuse"] != "one-sided" or nbc:
            before = ml.snapshot(bad)
            ctx.raises(lambda: extrude(bad, z, a1, a2), f"extruding invalid input ({s['refuse']})", ValueError)
            unchanged(ctx, before, bad, "a refused extrusion")
            ctx.label(f"refused: {s['refuse']}")
    kw = {} if s["ibcs"] is None else {"internal_bcs": s["ibcs"]}
    internal = s["ibcs"] is not False
    if bc1 is not None:
        kw.update(bc1=bc1, bc2=bc2)
    with ctx.sut("extrusion"):
        r = extrude(m, z, **kw)
        nz = len(zs) - 1
        ctx.check(int(r.ndim) == 3 and list(r.lr1) == [2, 2, 2] and int(r.nbc) == nbc and [int(v) for v in r.var] == [3, 0, 0, 0, 0],
                  lambda: f"the result has ndim {r.ndim}, lr1 {r.lr1}, {r.nbc} condition fields, var {r.var}")
        ctx.check(len(r.elem) == n2 * nz, lambda: f"{n2} elements over {nz} intervals give {len(r.elem)} elements")
        ml.check_counts(ctx, r, "result")
    unchanged(ctx, snap, m, "extruding it (the 2D mesh)")
    ctx.check(list(z) == zs, "extrusion changed the z values given")
    ctx.check(bc1 == b1 and bc2 == b2, "extrusion changed the conditions given")
    for k in range(nz):
        for i in range(n2):
            e = i + n2 * k
            el = r.elem[e]
            src = m.elem[i]
            for a in (0, 1):
                same = np.array_equal(el.pos[:2, a], src.pos[:2, 0]) and bool((el.pos[2, a] == zs[k + a]).all())
                ctx.check(same, lambda: f"element {e + 1} (element {i + 1} in interval {k}) has points {el.pos[:, a].tolist()}, expected {src.pos[:2, 0].tolist()} at z = {zs[k + a]}")
            for c in range(12):
                if c < 8:
                    exp = (src.ccurv[c % 4], src.curv[c % 4].copy())
                    if exp[0] == "m":
                        exp[1][2] = zs[k + c // 4]
                else:
                    exp = ("", np.zeros(5))
                ctx.check(el.ccurv[c] == exp[0] and np.array_equal(el.curv[c], exp[1]),
                          lambda: f"edge {c + 1} of element {e + 1} has curvature {el.ccurv[c]!r} {el.curv[c]}, expected {exp}")
            for ibc in range(nbc):
                for f in range(4):
                    b = get_bc(r, ibc, e, f)
                    q = list(get_bc_of(snap, ibc, i, f))
                    if q[0] == "E" and not internal:
                        q = ["", 0, 0, 0.0, 0.0, 0.0, 0.0, 0.0]
                    else:
                        q[1] = e + 1
                        if q[0] in ("E", "P"):
                            q[3] += k * n2
                    ok = b == tuple(q) or (q[0] == "" and b[0] == "" and b[3:] == tuple(q[3:]))
                    ctx.check(ok, lambda: f"side face {f + 1} of element {e + 1} has condition {b} in field {ibc}, expected {tuple(q)}")
                for f in (4, 5):
                    b = get_bc(r, ibc, e, f)
                    end = k == (0 if f == 4 else nz - 1)
                    if end:
                        t = ends[ibc][f - 4]
                        o = i + (n2 * (nz - 1) if f == 4 else 0)
                        exp = (t, e + 1, f + 1, o + 1.0, float(10 - f + 1) - 0.0) if t == "P" else (t, e + 1, f + 1, 0.0, 0.0)
                        if t == "P":
                            exp = (t, e + 1, f + 1, o + 1.0, 6.0 if f == 4 else 5.0)
                        ctx.check(b[:5] == exp, lambda: f"end face {f + 1} of element {e + 1} has condition {b} in field {ibc}, expected {exp}")
                    elif internal:
                        o = e + (n2 if f == 5 else -n2)
                        exp = ("E", e + 1, f + 1, o + 1.0, 5.0 if f == 5 else 6.0)
                        ctx.check(b[:5] == exp, lambda: f"face {f + 1} of element {e + 1} between two layers has condition {b} in field {ibc}, expected {exp}")
                    else:
                        ctx.check(b[0] == "", lambda: f"face {f + 1} of element {e + 1} between two layers has condition {b} in field {ibc}, internal conditions were not requested")
    with ctx.sut("connectivity check of the result"):
        r.check_connectivity()
    ml.check_independent(ctx, r, "extruded mesh")
    # modifying the result leaves the 2D mesh alone
    for el in r.elem:
        el.pos[...] = 7.0
        el.curv[...] = 7.0
        for arr in (el.vel, el.pres, el.temp, el.scal):
            arr[...] = 7.0
        for c in range(12):
            el.ccurv[c] = "z"
        for ibc in range(nbc):
            for f in range(6):
                el.bcs[ibc, f][0] = "zz"
    r.elmap[...] = 0
    unchanged(ctx, snap, m, "modifying the extruded mesh (the 2D mesh)")
    ctx.label("curved", snap["ncurv"] > 0)
    ctx.label("default ends", s["ends"] is None)
    ctx.label("one layer", nz == 1)
    ctx.label("no internal conditions", not internal)
    ctx.nontrivial(nz > 1 and n2 > 1)


PROPS["C23"] = Prop(
    "C23", check23, specs23, "more than one layer and more than one 2D element",
    examples={"quick": 3000, "thorough": 12000}, assumptions=["z values increase", "at least one interval"],
    fixed=lambda t: huge.fixed(t) + huge.fixed(t, periodic=True), large={"quick": 6, "thorough": 24},
)


# --------------------------------------------------------------------------- C24
class Ring(ml.Grid):
    """A closed annulus: the first index is radial, the second goes once around."""

    def place(self):
        spec = self.spec
        nr, nt = spec["n"]
        self.vid = lambda i, j, k: i + (nr + 1) * (j % nt)
        r = 1.0 + self.lines[0] / self.lines[0][-1]
        d = 2.0 + np.diff(self.lines[1])
        th = np.concatenate(([0.0], np.cumsum(d))) * 2 * math.pi / d.sum()
        xyz = np.zeros(((nr + 1) * nt, 3))
        for i in range(nr + 1):
            for j in range(nt):
                xyz[self.vid(i, j, 0)] = [r[i] * math.cos(th[j]), r[i] * math.sin(th[j]), 0.0]
        org = np.array(list(spec["origin"]) + [0.0])
        self.xyz = (xyz + org) * spec["scale"]

    def logical(self, v):
        nr = self.spec["n"][0]
        return v % (nr + 1), v // (nr + 1)

    def sides_of(self):
        self.side = {}
        self.partner = {}
        nr = self.spec["n"][0]
        for e in range(self.nel):
            for f in range(4):
                if (e, f) not in self.conn:
                    i = {self.logical(v)[0] for v in self.face_ids(e, f)}
                    self.side[(e, f)] = 0 if i == {0} else 1
                    assert i in ({0}, {nr})


@st.composite
def specs24(draw, tier="quick"):
    big = tier != "quick"
    ring = draw(st.sampled_from([False, False, True]))
    nsplit = draw(st.sampled_from([1, 2, 1, 2, 0, 1, 2, 3]))
    n_split_dir = draw(st.integers(max(nsplit, 1), 6 if big else 4))
    other = draw(st.integers(4, 7 if big else 5)) if ring else draw(st.sampled_from([2, 1, 2, 3] if big else [2, 1, 2]))
    axis = 0 if ring else draw(st.integers(0, 1))
    n = [n_split_dir, other] if axis == 0 else [other, n_split_dir]
    nbc = draw(st.sampled_from([1, 2, 0, 3]))
    sides = [[draw(st.sampled_from(ml.CODES)) for _ in range(nbc)] for _ in range(4)]
    if not ring and draw(st.integers(0, 2)) == 0:
        d = 1 - axis
        sides[2 * d] = ["P"] * nbc
        sides[2 * d + 1] = ["P"] * nbc
    high = draw(st.integers(0, nsplit))
    mids = sorted(draw(st.permutations(range(n_split_dir)))[:nsplit])
    need = max(2 ** (high + 1), 2 ** (nsplit - high + 1), 4)
    # every strip of divided elements needs a multiple of four layers on its finer side
    for k in range(nsplit):
        lev = abs(k - high)
        need = max(need, 4 * 2**lev if k >= high else 4 * 2 ** max(lev - 1, 0))
    mult = draw(st.sampled_from([1, 1, 2] if big or need == 4 else [1]))
    s = {
        "dim": 2, "ring": ring, "axis": axis, "n": n, "nbc": nbc, "sides": sides,
        "lines": [draw(ml.spacings(k, 0.5, 2.0)) for k in n], "origin": [draw(st.sampled_from([0.0, -1.0, 3.0])) for _ in range(2)],
        "warp": 0.0 if ring else draw(st.sampled_from([0.0, 0.15])), "shear": 0.0 if ring else draw(st.sampled_from([0.0, 0.5])),
        "salt": draw(st.integers(0, 9999)), "perm": draw(st.booleans()), "orient": draw(st.booleans()), "internal": draw(st.sampled_from([True, True, True, False])),
        "scale": draw(st.sampled_from([1.0, 0.01, 50.0, 1e-7, 1e5])), "curves": draw(st.sampled_from(["none", "some", "all", "none"])), "lr": 2, "cmin": 2.0,
        "params": draw(st.booleans()), "var": draw(ml.var_lists(2)),
        "mids": mids, "high": high, "ends": draw(end_conditions(nbc)), "ibcs": draw(st.sampled_from([True, True, True, False, None])),
        "zero": draw(st.sampled_from([False, False, True])), "refuse": draw(st.sampled_from([None, None, None, "layers", "parameters", "one-sided", "3D", "order", "geometry"])),
        "sphere": draw(st.sampled_from([False, False, True])),
    }
    s["z"] = draw(z_lists(need * mult))
    s["need"] = need
    if nsplit == 1 and draw(st.booleans()):
        # one function that changes its sign between any lines of the mesh: several strips, also next to each other
        signs = [draw(st.sampled_from([-1, 1])) for _ in range(n_split_dir + 1)]
        if len(set(signs)) == 1:
            signs[draw(st.integers(0, n_split_dir))] *= -1
        s["signs"] = signs
        s["mids"] = [-0.5]
        kind = [a if a == b else 0 for a, b in zip(signs, signs[1:])]
        if not ring and kind[0] == kind[-1] and signs[0] == signs[-1] and draw(st.booleans()):
            s["sides"][2 * axis] = ["P"] * nbc
            s["sides"][2 * axis + 1] = ["P"] * nbc
    return s


def grid24(s):
    return Ring(s) if s["ring"] else ml.Grid(s)


class Splitter:
    """fun(x, y, par): logical coordinate along the split direction minus par; par only counts half when 'zero' so that
    a missing parameter can stand for zero."""

    def __init__(self, g, s, mid):
        self.xy = g.xyz[:, :2]
        nv0 = s["n"][0] + 1
        self.index = np.array([g.logical(v)[s["axis"]] if s["ring"] else ((v % nv0) if s["axis"] == 0 else (v // nv0)) for v in range(len(self.xy))], dtype=float)
        self.at = mid + 0.5 if s["zero"] else 0.0
        if s.get("signs"):
            self.index = 0.5 * np.array(s["signs"], dtype=float)[self.index.astype(int)]

    def __call__(self, x, y, par):
        x, y = float(np.asarray(x).reshape(-1)[0]), float(np.asarray(y).reshape(-1)[0])
        v = int(((self.xy - [x, y]) ** 2).sum(1).argmin())
        return self.index[v] - self.at - par


def edge_key(a, b):
    return (a, b) if a < b else (b, a)


def mid_of(el, dim, c):
    """Midpoint of edge c by the definition of the curvature types (independent of the code under test)."""
    (a, b) = ml.EDGES[c]
    pa, pb = ml.corner(el.pos, a), ml.corner(el.pos, b)
    k = el.ccurv[c]
    mid = 0.5 * (pa + pb)
    if k == "":
        return mid
    if k == "m":
        return np.array(el.curv[c, :3], dtype=float)
    if k == "C":
        R = float(el.curv[c, 0])
        d = pb - pa
        L = math.hypot(d[0], d[1])
        n = np.array([d[1], -d[0], 0.0]) / L
        return mid + math.copysign(abs(R) - math.sqrt(max(0.0, R * R - L * L / 4)), R) * n
    if k == "s":
        cen = np.array(el.curv[c, :3], dtype=float)
        if dim == 3:
            # plain extrusion copies spherical edges as they are; read them as arcs in their plane
            cen[2] = mid[2]
        d = mid - cen
        return cen + d * float(el.curv[c, 4]) / np.linalg.norm(d)
    return None


def arc_middle(a, p, b):
    """Middle of the circular arc from a through p to b, in the plane."""
    mid, L = 0.5 * (a + b), np.linalg.norm(b - a)
    t = (b - a) / L
    n = np.array([-t[1], t[0]])
    x, y = np.dot(p - mid, t), np.dot(p - mid, n)
    if abs(y) < 1e-7 * L:
        return mid
    # centre at height h over the chord: x^2 + (y - h)^2 = L^2 / 4 + h^2
    h = (x * x + y * y - L * L / 4) / (2 * y)
    return mid + n * (h + math.copysign(math.hypot(L / 2, h), y))


def curved_consistently(ctx, m, what, ids=None, skip=()):
    """Every edge has the same midpoint in all elements that share it."""
    dim = int(m.ndim)
    if ids is None:
        ids, _ = ml.vertex_ids(m)
    seen = {}
    for e, el in enumerate(m.elem):
        for c in range(ml.nedges(dim)):
            (a, b) = ml.EDGES[c]
            key = edge_key(int(ids[e][a]), int(ids[e][b]))
            mid = mid_of(el, dim, c)
            ctx.check(mid is not None, lambda: f"{what}: edge {c + 1} of element {e + 1} has curvature type {el.ccurv[c]!r}")
            L = np.linalg.norm(ml.corner(el.pos, b) - ml.corner(el.pos, a))
            if key in seen:
                o, oc, om = seen[key]
                ctx.check(np.abs(mid - om).max() <= 1e-6 * L + 1e-12 * np.abs(mid).max(),
                          lambda: f"{what}: edge {c + 1} of element {e + 1} ({el.ccurv[c]!r} {el.curv[c]}) has its midpoint at {mid}, "
                                  f"as edge {oc + 1} of element {o + 1} ({m.elem[o].ccurv[oc]!r} {m.elem[o].curv[oc]}) at {om}")
            else:
                seen[key] = (e, c, mid)


def check24(s, ctx, return_mesh=False):
    g = grid24(s)
    m = g.mesh()
    nbc, n2 = s["nbc"], m.nel
    if s["sphere"] and s["curves"] != "none":
        # circular edges given as arcs of a sphere with its centre in the plane
        for e, el in enumerate(m.elem):
            for c in range(4):
                if el.ccurv[c] == "C":
                    (a, b) = ml.EDGES[c]
                    pa, pb = ml.corner(el.pos, a), ml.corner(el.pos, b)
                    R = float(el.curv[c, 0])
                    d = pb - pa
                    L = math.hypot(d[0], d[1])
                    nrm = np.array([d[1], -d[0], 0.0]) / L
                    cen = 0.5 * (pa + pb) - math.copysign(math.sqrt(R * R - L * L / 4), R) * nrm
                    el.ccurv[c] = "s"
                    el.curv[c] = [cen[0], cen[1], 0.0, 0.0, abs(R)]
    z = make_z(s["z"], s["salt"])
    if s["z"]["form"] == "tuple":
        z = list(z)
    zs = [float(v) for v in z]
    bc1, bc2, ends = end_args(s)
    nsplit = len(s["mids"])
    internal = s["ibcs"] is not False
    fun = [Splitter(g, s, c) for c in s["mids"]]
    par = None if s["zero"] else [c + 0.5 for c in s["mids"]]
    kw = {} if s["ibcs"] is None else {"internal_bcs": s["ibcs"]}
    if bc1 is not None:
        kw.update(bc1=bc1, bc2=bc2)
    snap = ml.snapshot(m)
    hold = (copy.copy(bc1), copy.copy(bc2), copy.copy(par))
    args = dict(kw)
    if nsplit:
        args.update(fun=fun, funpar=par, imesh_high=s["high"])

    if s["refuse"]:
        bad, bz, bargs = m, z, dict(args)
        ok = True
        if s["refuse"] == "layers":
            ok = nsplit > 0
            more = zs + [zs[-1] + 0.5 * (k + 1) for k in range(1 + pick(s["salt"], 31, s["need"] - 1))]
            bz = np.array(more)
        elif s["refuse"] == "parameters":
            ok = nsplit > 0
            bargs["funpar"] = [c + 0.5 for c in s["mids"]] + [1.0] if pick(s["salt"], 32, 2) else [c + 0.5 for c in s["mids"]][:-1]
        elif s["refuse"] == "one-sided":
            ok = nbc > 0
            a1, a2 = [e[0] for e in ends], [e[1] for e in ends]
            if ok:
                k, side = pick(s["salt"], 33, nbc), pick(s["salt"], 34, 2)
                (a1, a2)[side][k] = "P"
                (a2, a1)[side][k] = "W"
            bargs.update(bc1=a1, bc2=a2)
        elif s["refuse"] == "3D":
            bad = ml.Grid(dict(s, dim=3, n=[2, 1, 1], lines=[[1.0, 1.0], [1.0], [1.0]], origin=[0.0] * 3, sides=[["W"] * nbc] * 6, curves="none", var=[3, 0, 0, 0, 0])).mesh()
        elif s["refuse"] == "geometry":
            bad = g.mesh()
            bad.var = [0] + list(bad.var[1:])
        else:
            t = dict(s, lr=3, curves="none")
            bad = grid24(t).mesh()
        if ok:
            before = ml.snapshot(bad)
            ctx.raises(lambda: extrude_refine(bad, bz, **bargs), f"refined extrusion of invalid input ({s['refuse']})", ValueError)
            unchanged(ctx, before, bad, "a refused refined extrusion")
            ctx.label(f"refused: {s['refuse']}")

    with ctx.sut("refined extrusion"):
        r = extrude_refine(m, z, **args)
        n3 = len(r.elem)
        ctx.check(int(r.ndim) == 3 and list(r.lr1) == [2, 2, 2] and int(r.nbc) == nbc and [int(v) for v in r.var] == [3, 0, 0, 0, 0],
                  lambda: f"the result has ndim {r.ndim}, lr1 {r.lr1}, {r.nbc} condition fields, var {r.var}")
    if return_mesh:
        return m, r
    unchanged(ctx, snap, m, "refined extrusion (the 2D mesh)")
    ctx.check([float(v) for v in z] == zs, "refined extrusion changed the z values given")
    ctx.check((bc1, bc2, par) == hold, "refined extrusion changed the conditions or parameters given")
    if nsplit == 0:
        pz = extrude(m, z, **kw)
        d = ml.snap_diff(ml.snapshot(pz), ml.snapshot(r))
        ctx.check(d is None, lambda: f"refined extrusion without functions differs from plain extrusion: {d}")
        ctx.label("plain")
        return
    ml.check_counts(ctx, r, "result")

    # number of elements
    nz = len(zs) - 1
    col = np.array([g.cells[e][s["axis"]] for e in range(n2)])
    expected = 0
    lo = 0
    if s.get("signs"):
        sg = s["signs"]
        for c in range(len(sg) - 1):
            n = int((col == c).sum())
            low, high = nz // 2 ** s["high"], nz // 2 ** (1 - s["high"])
            expected += n * (6 * (nz // 4) if sg[c] != sg[c + 1] else (low if sg[c] < 0 else high))
    else:
        for k, c in enumerate(s["mids"]):
            layers = nz // 2 ** abs(k - s["high"])
            expected += layers * int(((col >= lo) & (col < c)).sum())
            fine = 2 * layers if k < s["high"] else layers
            expected += 6 * (fine // 4) * int((col == c).sum())
            lo = c + 1
        expected += nz // 2 ** abs(nsplit - s["high"]) * int((col >= lo).sum())
    ctx.check(n3 == expected, f"the result has {n3} elements, expected {expected}")

    ml.check_positive(ctx, r, "result")
    # volume (straight sides only)
    straight = snap["ncurv"] == 0
    if straight:
        area = sum(ml.volume(el.pos, 2) for el in m.elem)
        vol = ml.total_volume(r)
        exp = area * (zs[-1] - zs[0])
        ctx.check(abs(vol / exp - 1) < 1e-9, lambda: f"the elements have a total volume of {vol}, the extruded region {exp}")
    # the 2D mesh, vertices and midpoints, as places in the plane
    places = {}
    ref2 = 1e-6 * min(ml.edge_lengths(el.pos, 2).min() for el in m.elem)
    verts = []
    for e, el in enumerate(m.elem):
        for c in range(4):
            (a, b) = ml.EDGES[c]
            verts.append((int(g.ids[e][a]), int(g.ids[e][b]), mid_of(el, 2, c)[:2], e, c))
    plane = []
    name = []
    for v in range(len(g.xyz)):
        plane.append(g.xyz[v, :2])
        name.append({("v", v)})
    for va, vb, p, e, c in verts:
        plane.append(p)
        name.append({("m", edge_key(va, vb))})
    lab2 = ml.cluster(np.array([[p[0], p[1], 0.0] for p in plane]), ref2)
    for i, lb in enumerate(lab2):
        places.setdefault(int(lb), set()).update(name[i])
    tree = np.array(plane)

    def place(xy):
        d = np.abs(tree - xy).max(axis=1)
        k = int(d.argmin())
        return places[int(lab2[k])] if d[k] <= 4 * ref2 else None

    bedges = {}  # edge key -> (e, c) for boundary edges of the 2D mesh
    edges2 = {}
    for va, vb, p, e, c in verts:
        key = edge_key(va, vb)
        edges2[key] = (e, c, p)
        if (e, c) in g.side:
            bedges[key] = (e, c)
    zlevels = np.array(zs)
    corners3 = [(zz, y, x) for zz in (0, 1) for y in (0, 1) for x in (0, 1)]
    where = []
    for e, el in enumerate(r.elem):
        w = {}
        for c in corners3:
            p = ml.corner(el.pos, c)
            q = place(p[:2])
            ctx.check(q is not None, lambda: f"corner {p} of element {e + 1} is neither above a vertex nor above an edge midpoint of the 2D mesh")
            ctx.check(np.abs(zlevels - p[2]).min() <= 1e-9 * (1 + np.abs(zlevels).max()), lambda: f"corner {p} of element {e + 1} is at none of the z values")
            w[c] = q
        where.append(w)

    def on_edge(qs):
        """Boundary edges of the 2D mesh that contain all the given places."""
        out = []
        for key, ec in bedges.items():
            ok = all(any(t == ("m", key) or (t[0] == "v" and t[1] in key) for t in q) for q in qs)
            if ok:
                out.append(ec)
        return out

    def expected_type(e, f, ibc):
        pts = ml.face_points(r.elem[e].pos, 3, f)
        if np.ptp(pts[:, 2]) <= 1e-9 * (1 + np.abs(zlevels).max()):
            if abs(pts[0, 2] - zs[0]) < abs(pts[0, 2] - zs[-1]):
                return ends[ibc][0]
            return ends[ibc][1]
        cand = on_edge([where[e][c] for c in ml.FACES3[f]])
        ctx.check(len(cand) >= 1, lambda: f"face {f + 1} of element {e + 1} has no neighbour and is not on the boundary of the region (corners {pts.tolist()})")
        if len(cand) > 1:
            return None
        o, h = cand[0]
        return get_bc_of(snap, ibc, o, h)[0]

    want = True if internal and s["internal"] else (False if not internal else None)
    bf = ml.check_conforming(ctx, r, "result", internal=want, boundary=expected_type)
    # the boundary has the area it should have: no part of it is missing
    if straight:
        top = sum(1 for _ in ())
        side_area = end_area = 0.0
        for e, f in bf:
            p = ml.face_points(r.elem[e].pos, 3, f)
            a = 0.5 * np.linalg.norm(np.cross(p[3] - p[0], p[2] - p[1]))
            if np.ptp(p[:, 2]) <= 1e-9 * (1 + np.abs(zlevels).max()):
                end_area += a
            else:
                side_area += a
        per = sum(np.linalg.norm(ml.corner(m.elem[e].pos, ml.EDGES[c][1]) - ml.corner(m.elem[e].pos, ml.EDGES[c][0])) for e, c in bedges.values())
        ctx.check(abs(end_area / (2 * area) - 1) < 1e-9, lambda: f"the ends have the area {end_area}, expected {2 * area}")
        ctx.check(abs(side_area / (per * (zs[-1] - zs[0])) - 1) < 1e-9, lambda: f"the sides have the area {side_area}, expected {per * (zs[-1] - zs[0])}")
        del top
    # end conditions belong to their face and, unless periodic, point nowhere
    for e, f in bf:
        p = ml.face_points(r.elem[e].pos, 3, f)
        if np.ptp(p[:, 2]) <= 1e-9 * (1 + np.abs(zlevels).max()):
            for ibc in range(nbc):
                b = get_bc(r, ibc, e, f)
                if b[0] != "P":
                    ctx.check(b[1:5] == (e + 1, f + 1, 0.0, 0.0), lambda: f"end face {f + 1} of element {e + 1} has condition {b} in field {ibc}, expected it to belong to this face and to point nowhere")
    # periodic faces are at corresponding places
    for e, f in bf:
        for ibc in range(nbc):
            b = get_bc(r, ibc, e, f)
            if b[0] == "P":
                p = ml.face_centre(r.elem[e].pos, 3, f)
                q = ml.face_centre(r.elem[int(b[3]) - 1].pos, 3, int(b[4]) - 1)
                pts = ml.face_points(r.elem[e].pos, 3, f)
                if np.ptp(pts[:, 2]) <= 1e-9 * (1 + np.abs(zlevels).max()):
                    ctx.check(np.abs(p[:2] - q[:2]).max() <= 1e-6 * s["scale"], lambda: f"end face at {p} is periodic with the face at {q}")
                    ctx.check(abs(abs(p[2] - q[2]) - (zs[-1] - zs[0])) <= 1e-9 * (1 + np.abs(zlevels).max()), lambda: f"end face at {p} is periodic with the face at {q}")
                else:
                    ctx.check(abs(p[2] - q[2]) <= 1e-9 * (1 + np.abs(zlevels).max()), lambda: f"side face at {p} is periodic with the face at {q}")
                ctx.label("#periodic faces")
    with ctx.sut("connectivity check of the result"):
        r.check_connectivity()
    for e, el in enumerate(r.elem):
        for ibc in range(nbc):
            for f in range(6):
                ctx.check(str(el.bcs[ibc, f][0]) != "con", lambda: f"a placeholder condition is left at face {f + 1} of element {e + 1}")
    # curvature
    if not straight:
        curved_consistently(ctx, r, "result")
        quarters = {}
        divided = {}  # (edge, opposite edge) -> mean deviation of the two other edges, whether any of these is of type 'm'
        for e2, el2 in enumerate(m.elem):
            for c2 in range(2):
                lat = [edge_key(int(g.ids[e2][ml.EDGES[q][0]]), int(g.ids[e2][ml.EDGES[q][1]])) for q in (c2, c2 + 2)]
                dev = np.zeros(2)
                for q in (c2 + 1, (c2 + 3) % 4):
                    (a, b) = ml.EDGES[q]
                    dev += 0.5 * (mid_of(el2, 2, q) - 0.5 * (ml.corner(el2.pos, a) + ml.corner(el2.pos, b)))[:2]
                val = (dev, any(el2.ccurv[q] == "m" for q in (c2 + 1, (c2 + 3) % 4)) or not dev.any())
                divided[tuple(lat)] = divided[tuple(lat[::-1])] = val
        for e, el in enumerate(r.elem):
            for c in range(12):
                (a, b) = ml.EDGES[c]
                pa, pb = ml.corner(el.pos, a), ml.corner(el.pos, b)
                qa, qb = where[e][a], where[e][b]
                flat = abs(pa[2] - pb[2]) <= 1e-9 * (1 + np.abs(zlevels).max())
                mid = mid_of(el, 3, c)
                va = [t[1] for t in qa if t[0] == "v"]
                vb = [t[1] for t in qb if t[0] == "v"]
                if va and vb and va != vb:
                    key = edge_key(va[0], vb[0])
                    if key in edges2 and (flat or np.hypot(*(pa[:2] - pb[:2])) > 0):
                        exp = edges2[key][2]
                        L = np.linalg.norm(pa[:2] - pb[:2])
                        ctx.check(np.abs(mid[:2] - exp).max() <= 1e-6 * L + 1e-11 * np.abs(exp).max(),
                                  lambda: f"edge {c + 1} of element {e + 1} ({el.ccurv[c]!r}) follows an edge of the 2D mesh with midpoint {exp} but has its midpoint at {mid}")
                        ctx.check(abs(mid[2] - 0.5 * (pa[2] + pb[2])) <= 1e-9 * (1 + np.abs(zlevels).max()), lambda: f"edge {c + 1} of element {e + 1} has its midpoint at the wrong z: {mid}")
                        ctx.label("#edges following a 2D edge")
                elif bool(va) != bool(vb):
                    # half of an edge that was divided: the midpoint is at a quarter of it
                    v = (va or vb)[0]
                    keys = [t[1] for t in (qb if va else qa) if t[0] == "m" and v in t[1]]
                    if len(keys) == 1 and keys[0] in edges2:
                        key = keys[0]
                        quarters.setdefault(key, []).append((e, c))
                        e2, c2, mm = edges2[key]
                        w = key[0] if key[1] == v else key[1]
                        near, far = g.xyz[v, :2], g.xyz[w, :2]
                        kind2 = m.elem[e2].ccurv[c2]
                        L = np.linalg.norm(far - near)
                        if kind2 in ("C", "s"):
                            # on the arc, halfway between the end and the middle
                            chord = 0.5 * (near + mm)
                            t = (far - near) / L
                            off = mm - 0.5 * (near + far)
                            sag = np.linalg.norm(off)
                            R = (sag**2 + L**2 / 4) / (2 * sag)
                            cen = 0.5 * (near + far) + off * (1 - R / sag)
                            u = chord - cen
                            exp = cen + u * R / np.linalg.norm(u)
                            tol = 1e-6 * L
                        else:
                            off = mm - 0.5 * (near + far)
                            t = (far - near) / L
                            exp = 0.375 * near + 0.75 * mm - 0.125 * far
                            tol = 1e-6 * L + 0.3 * abs(np.dot(off, t))
                        ctx.check(np.abs(mid[:2] - exp).max() <= tol + 1e-11 * np.abs(exp).max(),
                                  lambda: f"edge {c + 1} of element {e + 1} ({el.ccurv[c]!r} {el.curv[c]}) is half of an edge of type {kind2!r} and has its midpoint at {mid}, expected {exp}")
                        ctx.check(abs(mid[2] - 0.5 * (pa[2] + pb[2])) <= 1e-9 * (1 + np.abs(zlevels).max()), lambda: f"edge {c + 1} of element {e + 1} has its midpoint at the wrong z: {mid}")
                        ctx.label("#halves of curved edges")
                elif not va and not vb:
                    na, nb = [t[1] for t in qa], [t[1] for t in qb]
                    if len(na) == 1 and na == nb:
                        ctx.check(np.abs(mid - 0.5 * (pa + pb)).max() <= 1e-9 * (1 + np.abs(zlevels).max()) + 1e-11 * np.abs(mid).max(), lambda: f"vertical edge {c + 1} of element {e + 1} is curved")
                    elif len(na) == 1 and len(nb) == 1 and (na[0], nb[0]) in divided:
                        # the edge that divides an element: bent halfway between the two edges on either side of it
                        dev, exact = divided[(na[0], nb[0])]
                        L = np.linalg.norm(pb[:2] - pa[:2])
                        exp = 0.5 * (pa + pb)[:2] + dev
                        if not exact:
                            exp = arc_middle(pa[:2], exp, pb[:2])
                        # the circle through three points that are all but on a line is left out: an edge that is
                        # this close to straight may come out straight
                        tol = 1e-5 * L
                        if el.ccurv[c] == "" and np.abs(exp - 0.5 * (pa + pb)[:2]).max() <= 1e-4 * L:
                            tol = 1e-4 * L
                        ctx.check(np.abs(mid[:2] - exp).max() <= tol + 1e-11 * np.abs(exp).max(),
                                  lambda: f"edge {c + 1} of element {e + 1} ({el.ccurv[c]!r} {el.curv[c]}) divides an element of the 2D mesh and has its midpoint at {mid}, expected {exp}")
                        ctx.check(abs(mid[2] - 0.5 * (pa[2] + pb[2])) <= 1e-9 * (1 + np.abs(zlevels).max()), lambda: f"edge {c + 1} of element {e + 1} has its midpoint at the wrong z: {mid}")
                        ctx.label("#edges dividing an element")
                elif va and va == vb:
                    ctx.check(el.ccurv[c] == "" or np.abs(mid - 0.5 * (pa + pb)).max() <= 1e-9 * (1 + np.abs(zlevels).max()), lambda: f"vertical edge {c + 1} of element {e + 1} is curved")
    ml.check_independent(ctx, r, "refined mesh")
    ctx.label("ring", s["ring"])
    ctx.label("curved", not straight)
    ctx.label(f"{nsplit} splits")
    ctx.label("finest not innermost", s["high"] > 0)
    ctx.label("several strips", bool(s.get("signs")) and sum(a != b for a, b in zip(s["signs"], s["signs"][1:])) > 1)
    ctx.label("periodic across the cut", bool(s.get("signs")) and not s["ring"] and nbc > 0 and s["sides"][2 * s["axis"]][0] == "P")
    ctx.label("no internal conditions", not internal)
    ctx.nontrivial(nsplit > 0)


def probe_periodic(ctx):
    """Two zones of equal refinement at the two ends of a periodic direction."""
    s = {
        "dim": 2, "ring": False, "axis": 0, "n": [5, 1], "nbc": 1, "sides": [["P"], ["P"], ["W"], ["W"]], "lines": [[1.0] * 5, [1.0]], "origin": [0.0, 0.0],
        "warp": 0.0, "shear": 0.0, "salt": 1, "perm": False, "orient": False, "internal": True, "scale": 1.0, "curves": "none", "lr": 2, "params": False,
        "var": [2, 0, 0, 0, 0],
    }
    g = ml.Grid(s)
    m = g.mesh()
    s["zero"] = False
    fun = [Splitter(g, s, c) for c in (1, 3)]
    try:
        with ctx.sut("refined extrusion of a mesh periodic across zones"):
            r = extrude_refine(m, np.linspace(0, 1, 9), bc1=["W"], bc2=["W"], fun=fun, funpar=[1.5, 3.5], imesh_high=1)
        kinds = sorted({str(el.bcs[0, f][0]) for el in r.elem for f in range(6)})
        bad = [(e + 1, f + 1) for e, el in enumerate(r.elem) for f in range(6) if str(el.bcs[0, f][0]) == "con"]
        ctx.check(not bad, f"faces {bad[:4]}... periodic in x with an equally refined zone end with the placeholder condition 'con' (types {kinds})")
    except core.Violation as e:
        return str(e)
    return None


PROPS["C24"] = Prop(
    "C24", check24, specs24, "at least one splitting function",
    examples={"quick": 1000, "thorough": 5000},
    assumptions=["splitting lines cut opposite sides of every divided element", "no periodicity between different zones (see the known finding)"],
    probes={"periodic-zones": probe_periodic},
)
