"""Meshes of more elements than 16 bits can number, examined with array operations only."""

import numpy as np

import meshlib as ml
from core import unit

N = 66300  # beyond 65535


def stack(m):
    """types (nel, nbc, 6) and numbers (nel, nbc, 6, 7): element, face and five parameters"""
    b = np.stack([np.asarray(el.bcs) for el in m.elem])
    names = b.dtype.names
    return b[names[0]].astype("U3"), np.stack([b[n].astype(float) for n in names[1:]], axis=-1)


def positions(m):
    return np.stack([np.asarray(el.pos) for el in m.elem])


def centres(m, dim):
    pos = positions(m)[:, :dim]
    out = [np.mean([pos[:, :, -z, -y, -x] for z, y, x in f], axis=0) for f in ml.faces(dim)]
    return np.stack(out, axis=1)  # nel, nface, dim


def conform(ctx, m, dim, what, nbc, inner, outer, tol):
    """inner: number of internal faces (counted from both sides); outer: {type: number of faces}, the same in every field"""
    nf = 2 * dim
    nel = len(m.elem)
    ctx.check(int(m.nel) == nel and int(m.nbc) == nbc, lambda: f"{what}: {m.nel} elements and {m.nbc} fields announced, there are {nel}, expected {nbc} fields")
    elmap = np.asarray(m.elmap).astype(np.int64)
    ctx.check(elmap.shape == (nel,) and (np.sort(elmap) == np.arange(1, nel + 1)).all(), lambda: f"{what}: the element map is not a permutation of 1 to {nel}")
    with ctx.sut(f"conditions of {what}"):
        t, v = stack(m)
    t, v = t[:, :, :nf], v[:, :, :nf]
    ctx.check(t.shape == (nel, nbc, nf), f"{what}: conditions of shape {t.shape}")
    cen = centres(m, dim)
    for k in range(nbc):
        want = dict(outer)
        if inner is not None:
            want["E"] = inner
        else:
            want[""] = want.get("", 0) + nf * nel - sum(outer.values())
        got = dict(zip(*[x.tolist() for x in np.unique(t[:, k], return_counts=True)]))
        ctx.check({a: b for a, b in want.items() if b} == got, lambda: f"{what}: conditions of field {k} are {got}, expected {want}")
        e, f = np.nonzero(t[:, k] != "")
        bad = np.nonzero((v[e, k, f, 0] != e + 1) | (v[e, k, f, 1] != f + 1))[0]
        ctx.check(bad.size == 0, lambda: f"{what}: condition {t[e[bad[0]], k, f[bad[0]]]} {v[e[bad[0]], k, f[bad[0]]].tolist()} at face {f[bad[0]] + 1} of element {e[bad[0]] + 1} does not name it")
        for kind in ("E", "P"):
            e, f = np.nonzero(t[:, k] == kind)
            te, tf = v[e, k, f, 2].astype(np.int64) - 1, v[e, k, f, 3].astype(np.int64) - 1
            ok = (te >= 0) & (te < nel) & (tf >= 0) & (tf < nf)
            ctx.check(ok.all(), lambda: f"{what}: face {f[~ok][0] + 1} of element {e[~ok][0] + 1} is connected to face {tf[~ok][0] + 1} of element {te[~ok][0] + 1}")
            back = (t[te, k, tf] == kind) & (v[te, k, tf, 2] == e + 1) & (v[te, k, tf, 3] == f + 1)
            ctx.check(back.all(), lambda: f"{what}: face {f[~back][0] + 1} of element {e[~back][0] + 1} is connected to face {tf[~back][0] + 1} of element {te[~back][0] + 1}, which is not connected to it")
            if kind == "E":
                d = np.abs(cen[e, f] - cen[te, tf]).max(axis=-1)
                ctx.check(e.size == 0 or d.max() <= tol, lambda: f"{what}: face {f[d.argmax()] + 1} of element {e[d.argmax()] + 1} is connected to a face {d.max()} away")
    ctx.label("#huge elements", nel)
    ctx.nontrivial(True)


def box(nx, ny, nbc=1, sides=("W", "O", "P", "P"), x0=0.0, x1=1.0, y0=0.0, y1=1.0, internal=True):
    """a box of nx by ny elements, made here: sides are left, right, bottom, top"""
    from pymech.core import HexaData

    m = HexaData(2, nx * ny, [2, 2, 1], [2, 0, 0, 0, 0], nbc)
    xs, ys = np.linspace(x0, x1, nx + 1), np.linspace(y0, y1, ny + 1)
    for j in range(ny):
        for i in range(nx):
            e = i + nx * j
            el = m.elem[e]
            el.pos[0, 0, :, 0], el.pos[0, 0, :, 1] = xs[i], xs[i + 1]
            el.pos[1, 0, 0, :], el.pos[1, 0, 1, :] = ys[j], ys[j + 1]
            for f, (p, q, side) in enumerate(((i, j - 1, sides[2]), (i + 1, j, sides[1]), (i, j + 1, sides[3]), (i - 1, j, sides[0]))):
                inside = 0 <= p < nx and 0 <= q < ny
                if inside:
                    b = ("E", e + 1, f + 1, p + nx * q + 1, (f + 2) % 4 + 1, 0, 0, 0) if internal else ("", 0, 0, 0, 0, 0, 0, 0)
                elif side == "P":
                    b = ("P", e + 1, f + 1, p % nx + nx * (q % ny) + 1, (f + 2) % 4 + 1, 0, 0, 0)
                else:
                    b = (side, e + 1, f + 1, 0, 0, 0, 0, 0)
                for k in range(nbc):
                    el.bcs[k, f] = b
    return m


SIZE = {"nx": 255, "ny": 260}


def fixed(tier, **kw):
    return [{"huge": True, **SIZE, **kw}]


def inner2(nx, ny):
    return 4 * nx * ny - 2 * (nx + ny)


def c19(s, ctx):
    nx, ny = s["nx"], s["ny"]
    m = box(nx, ny)
    with ctx.sut("checking a consistent mesh"):
        m.check_connectivity()
        m.check_bcs_present()
    conform(ctx, m, 2, "the mesh after the checks", 1, inner2(nx, ny), {"W": ny, "O": ny, "P": 2 * nx}, 1e-12)
    e = nx * ny - 2
    b = m.elem[e].bcs[0, 1]
    keep = b[3]
    b[3] = keep - 65536
    ctx.raises(m.check_connectivity, f"a mesh whose element {e + 1} is connected to element {int(b[3])} instead of {int(keep)}", ValueError)
    b[3] = keep
    m.elem[-1].bcs[0, 2][0] = ""
    ctx.raises(m.check_bcs_present, "a mesh whose last element lacks a condition", ValueError)


def c20(s, ctx):
    nx, ny = s["nx"], s["ny"]
    if s.get("swap"):
        # a small mesh grows by a huge one
        a, b = box(2, 3, sides=("A", "B", "C", "D"), x0=1.0, x1=1.5, y1=3.0 / ny), box(nx, ny)
    else:
        a, b = box(nx, ny), box(2, 3, sides=("A", "B", "C", "D"), x0=1.0, x1=1.5, y1=3.0 / ny)
    pa, pb = positions(a), positions(b)
    tb, vb = stack(b)
    with ctx.sut("merging"):
        n = a.merge(b)
    ctx.check(int(n) == 3, f"{n} pairs of faces glued, there are 3")
    outer = {"W": ny, "O": ny - 3, "P": 2 * nx, "B": 3, "C": 2, "D": 2}
    conform(ctx, a, 2, "the merged mesh", 1, inner2(nx, ny) + inner2(2, 3) + 6, outer, 1e-9)
    ctx.check((positions(a) == np.concatenate([pa, pb])).all(), "the elements moved")
    ctx.check(all((x == y).all() for x, y in zip(stack(b), (tb, vb))), "the mesh merged in changed")


def c21(s, ctx):
    from pymech.meshtools import keep_elements

    nx, ny = s["nx"], s["ny"]
    extra = s.get("gone", 700)
    m = box(nx, ny)
    t, v = stack(m)
    pos = positions(m)
    drop = np.unique((unit(7, extra) * nx * ny).astype(int))
    kept = np.setdiff1d(np.arange(nx * ny), drop)
    if s.get("front"):
        kept = kept[kept >= 65700]
    with ctx.sut("keeping elements"):
        keep_elements(m, [int(i) for i in kept], external_bc="new")
    new = np.full(nx * ny + 1, -1)
    new[kept] = np.arange(kept.size)
    nt, nv = t[kept].copy(), v[kept].copy()
    con = (nt == "E") | (nt == "P")
    target = new[np.where(con, nv[..., 2] - 1, -1).astype(int)]
    lost = con & (target < 0)
    nt[lost] = "new"
    nv[..., 2] = np.where(con & ~lost, target + 1, 0)
    nv[..., 3] = np.where(con & ~lost, nv[..., 3], 0)
    nv[..., 0] = np.where(nt != "", np.arange(1, kept.size + 1)[:, None, None], 0)
    with ctx.sut("looking at the result"):
        gt, gv = stack(m)
    ctx.check(gt.shape == nt.shape, f"{gt.shape[0]} elements left, expected {kept.size}")
    bad = np.argwhere((gt != nt) | (gv != nv).any(axis=-1))
    ctx.check(bad.size == 0, lambda: f"face {bad[0][2] + 1} of element {bad[0][0] + 1} has the condition {gt[tuple(bad[0])]} {gv[tuple(bad[0])].tolist()}, expected {nt[tuple(bad[0])]} {nv[tuple(bad[0])].tolist()}")
    ctx.check((positions(m) == pos[kept]).all(), "other elements were kept")
    outer = dict(zip(*[x.tolist() for x in np.unique(nt[:, 0, :4], return_counts=True)]))
    inner = outer.pop("E")
    conform(ctx, m, 2, "what was kept", 1, inner, outer, 1e-12)


def c22(s, ctx):
    from pymech.meshtools import delete_internal_bcs

    nx, ny = s["nx"], s["ny"]
    m = box(nx, ny)
    with ctx.sut("deleting"):
        n = delete_internal_bcs(m)
    ctx.check(int(n) == inner2(nx, ny), f"{n} deleted, there are {inner2(nx, ny)}")
    conform(ctx, m, 2, "the mesh without internal conditions", 1, None, {"W": ny, "O": ny, "P": 2 * nx}, 1e-12)


def c23(s, ctx):
    from pymech.meshtools import extrude

    n = 8
    nz = s["nx"] * s["ny"] // (n * n) + 1
    m = box(n, n)
    z = np.linspace(0, 10, nz + 1)
    per = s.get("periodic", False)
    with ctx.sut("extruding"):
        r = extrude(m, z, bc1=["P" if per else "v"], bc2=["P" if per else "o"])
    ends = {"P": 2 * n * nz + 2 * n * n} if per else {"P": 2 * n * nz, "v": n * n, "o": n * n}
    conform(ctx, r, 3, "the extruded mesh", 1, nz * inner2(n, n) + 2 * n * n * (nz - 1), {"W": n * nz, "O": n * nz, **ends}, 1e-12)
    p = positions(r)
    q = positions(m)
    ctx.check((np.diff(p[:, 2].mean(axis=(2, 3)), axis=-1) > 0).all(), "elements upside down")
    zc = p[:, 2].mean(axis=(1, 2, 3)).reshape(nz, n * n)
    ctx.check(np.abs(zc - 0.5 * (z[1:] + z[:-1])[:, None]).max() < 1e-9, "the layers are not between consecutive heights")
    ctx.check((p.reshape(nz, n * n, 3, 2, 2, 2)[:, :, :2] == q[None, :, :2, 0][:, :, :, None]).all(), "the elements of a layer are not those of the 2D mesh")


def c25(s, ctx):
    from pymech.meshtools import gen_box

    nx, ny = s["nx"], s["ny"]
    with ctx.sut("generating"):
        m = gen_box(nx, ny, -1, 2, 0, 1, var=[2, 2, 1, 1, 0], bcs_xmin=["W", "t"], bcs_xmax=["O", "t"])
    ref = box(nx, ny, x0=-1, x1=2)
    ctx.check(np.abs(positions(m) - positions(ref)).max() < 1e-12, "vertices at the wrong places")
    gt, gv = stack(m)
    rt, rv = stack(ref)
    for k in (0, 1):
        want = np.where(np.isin(rt[:, 0], ["W", "O"]), "t", rt[:, 0]) if k else rt[:, 0]
        bad = np.argwhere((gt[:, k] != want) | (gv[:, k] != rv[:, 0]).any(axis=-1))
        ctx.check(bad.size == 0, lambda: f"face {bad[0][1] + 1} of element {bad[0][0] + 1} has the condition {gt[bad[0][0], k, bad[0][1]]} {gv[bad[0][0], k, bad[0][1]].tolist()} in field {k}")
    elmap = np.asarray(m.elmap).astype(np.int64)
    ctx.check(elmap.shape == (nx * ny,) and (elmap == np.arange(1, nx * ny + 1)).all() and int(m.nel) == nx * ny, "wrong element map")
    ctx.label("#huge elements", nx * ny)
    ctx.nontrivial(True)


def c27(s, ctx):
    from pymech.meshtools import map2D

    nx, ny = s["nx"], s["ny"]
    m = box(nx, ny)
    m.elem[-1].ccurv[1] = "m"
    m.elem[-1].curv[1, :3] = [1.0, m.elem[-1].pos[1].mean(), 0]
    m.ncurv = 1
    with ctx.sut("mapping"):
        r = map2D(m, lambda x, y: (2 * x + y, y - 1), curvature=False, boundary_curvature=True)
    p, q = positions(m), positions(r)
    ctx.check(np.abs(q[:, 0] - (2 * p[:, 0] + p[:, 1])).max() < 1e-12 and np.abs(q[:, 1] - p[:, 1] + 1).max() < 1e-12, "vertices at the wrong places")
    ctx.check(all((x == y).all() for x, y in zip(stack(m), stack(r))), "conditions changed")
    want = 2 * (nx + ny)
    have = sum(1 for el in r.elem for c in el.ccurv if c != "")
    ctx.check(have == want and int(r.ncurv) == want, lambda: f"{have} curved edges, {r.ncurv} announced, expected {want}")
    ctx.label("#huge elements", nx * ny)
    ctx.nontrivial(True)


def c28(s, ctx):
    from pymech.meshtools import rotate_2d

    nx, ny = s["nx"], s["ny"]
    m = box(nx, ny)
    p = positions(m)
    before = stack(m)
    with ctx.sut("rotating"):
        rotate_2d(m, 0.5, 0.25, 0.7)
    q = positions(m)
    c, sn = np.cos(0.7), np.sin(0.7)
    x, y = p[:, 0] - 0.5, p[:, 1] - 0.25
    ctx.check(np.abs(q[:, 0] - (0.5 + c * x - sn * y)).max() < 1e-12 and np.abs(q[:, 1] - (0.25 + sn * x + c * y)).max() < 1e-12, "points at the wrong places")
    ctx.check(all((x == y).all() for x, y in zip(before, stack(m))), "conditions changed")
    ctx.label("#huge elements", nx * ny)
    ctx.nontrivial(True)

