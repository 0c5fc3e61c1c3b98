"""C35: mesh operations commute: a mesh built in parts or in another order is the same mesh."""

import copy
import math

import numpy as np
from hypothesis import strategies as st

import core
import meshlib as ml
from checks import Prop
from checks.connect import pick
from checks.extrusion import Splitter, end_args, end_conditions, make_z, z_lists
from checks.generate import transformation, transformations
from pymech.core import HexaData
from pymech.meshtools import (
    delete_internal_bcs, extrude, extrude_refine, gen_box, gen_circle, generate_internal_bcs, keep_elements, map2D, rotate_2d,
)
from pymech.neksuite import readre2, readrea, writere2, writerea

PROPS = {}

FLAT = ["extrude merge", "extrude stack", "extrude keep", "extrude rotate", "extrude delete", "extrude generate", "extrude re2", "extrude rea", "map merge", "map map",
        "map rotate", "map keep", "refine rotate", "refine shift", "refine renumber", "refine scale", "circle", "extrude scale", "map scale"]
ANY = ["merge order", "merge three", "keep keep", "keep merge", "rotate merge", "rotate keep", "renumber merge", "generate merge", "file merge", "merge scale", "generate scale"]


@st.composite
def specs35(draw, tier="quick"):
    big = tier != "quick"
    rel = draw(st.sampled_from(FLAT + ANY + ["box", "extrude merge", "extrude keep", "refine rotate", "refine scale", "refine scale"]))
    dim = 2 if rel in FLAT else draw(st.sampled_from([2, 3]))
    refine = rel.startswith("refine")
    n = (4, 3, 2) if big else (3, 3, 2)
    s = draw(ml.grid_specs(dims=(dim,), max_n=n, max_nel=12 if big else 8, min_nbc=1, max_nbc=3, periodic=not refine, internal=True, curves=True, fields=True))
    s["rel"] = rel
    if rel == "refine scale" and s["curves"] == "none":
        # lengths compared with numbers show in the curvature first
        s["curves"] = draw(st.sampled_from(["some", "all", "none"]))
    s["rsalt"] = draw(st.integers(0, 10**6))
    s["share"] = draw(st.sampled_from([2, 3, 4, 5]))
    s["z"] = draw(z_lists(draw(st.sampled_from([8] if refine else [2, 1, 3]))))
    s["ends"] = draw(end_conditions(s["nbc"]))
    s["ext"] = draw(st.sampled_from(["", "W", "con", "SYM"]))
    s["theta"] = draw(st.sampled_from([0.5 * math.pi, 0.7, -2.1, math.pi, 4.4, 1e-3]))
    s["centre"] = [draw(st.sampled_from([0.0, 1.0, -3.5])) for _ in range(2)]
    s["unit"] = draw(st.sampled_from([2.0**-20, 2.0**17, 2.0**-11, 2.0**27]))
    s["t"] = draw(transformations(s["scale"]))
    s["t2"] = draw(transformations(s["scale"]))
    return s


def parts(g, salt, share, k=2):
    """A label below k for every element; no part is empty if that can be helped."""
    out = [int(v % np.uint64(5)) for v in core.mix(salt, g.nel, 51)]
    out = [(0 if v < share - 1 else 1) if k == 2 else v % k for v in out]
    for p in range(min(k, g.nel)):
        if p not in out:
            out[(p + salt) % g.nel] = p
    if len(set(out)) < min(k, g.nel):
        out = [e % k for e in range(g.nel)]
    return out


def sub(g, whole, members, joint):
    """The elements of a part: connections inside it renumbered, the others replaced by the condition joint."""
    local = {e: i for i, e in enumerate(members)}
    m = HexaData(g.dim, len(members), list(whole.lr1), list(whole.var), whole.nbc)
    for i, e in enumerate(members):
        el = m.elem[i] = copy.deepcopy(whole.elem[e])
        for ibc, f in np.ndindex(whole.nbc, 2 * g.dim):
            b = el.bcs[ibc, f]
            b[1], b[2] = i + 1, f + 1
            if b[0] in ("E", "P"):
                t = int(b[3]) - 1
                if t in local:
                    b[3] = local[t] + 1
                else:
                    # what was periodic with another part is a plain boundary
                    b[0] = joint if b[0] == "E" else "W"
                    b[3] = b[4] = 0
    m.update_ncurv()
    m.wdsz, m.endian = whole.wdsz, whole.endian
    return m


def split(s, k=2, joint="con"):
    g = ml.Grid(s)
    whole = g.mesh()
    lab = parts(g, s["rsalt"], s["share"], k)
    return [sub(g, whole, [e for e in range(g.nel) if lab[e] == p], joint) for p in range(k) if p in lab]


def merged(*ms):
    r = copy.deepcopy(ms[0])
    for m in ms[1:]:
        r.merge(m)
    return r


def same_mesh(ctx, X, Y, what, rel=1e-9, fields=True, ncurv=True, own=True):
    """X and Y are the same mesh up to the numbering of the elements."""
    for k in ("ndim", "nel", "nbc") + (("ncurv",) if ncurv else ()):
        ctx.check(int(getattr(X, k)) == int(getattr(Y, k)), lambda: f"{what}: {k} is {getattr(X, k)} one way and {getattr(Y, k)} the other")
    ctx.check(list(X.lr1) == list(Y.lr1), lambda: f"{what}: orders {X.lr1} and {Y.lr1}")
    ctx.check(len(X.elem) == X.nel and len(Y.elem) == Y.nel, f"{what}: {len(X.elem)} and {len(Y.elem)} elements, nel is {X.nel}")
    n, dim, nbc = int(X.nel), int(X.ndim), int(X.nbc)
    cx = np.array([el.pos.mean(axis=(1, 2, 3)) for el in X.elem])
    cy = np.array([el.pos.mean(axis=(1, 2, 3)) for el in Y.elem])
    size = max(float(np.abs(el.pos).max()) for el in X.elem)
    tol = rel * size
    d = np.sqrt(((cx[:, None] - cy[None]) ** 2).sum(-1))
    to = d.argmin(axis=1)
    ctx.check(len(set(to.tolist())) == n and float(d[np.arange(n), to].max()) <= tol,
              lambda: f"{what}: element {int(d.min(axis=1).argmax()) + 1}, centred at {cx[int(d.min(axis=1).argmax())]}, has no counterpart the other way round")
    for e in range(n):
        a, b = X.elem[e], Y.elem[int(to[e])]
        name = f"{what}: element {e + 1} (one way) and {int(to[e]) + 1} (the other)"
        ctx.check(a.pos.shape == b.pos.shape and np.abs(a.pos - b.pos).max() <= tol, lambda: f"{name} have other corners: {a.pos.tolist()} and {b.pos.tolist()}")
        ctx.check(list(a.ccurv) == list(b.ccurv), lambda: f"{name} have curvature {list(a.ccurv)} and {list(b.ccurv)}")
        for c in range(12):
            if a.ccurv[c]:
                # a circular edge is told by its radius, the other numbers mean nothing
                k = {"C": [0], "m": [0, 1, 2], "s": [0, 1, 2, 4]}.get(a.ccurv[c], [0, 1, 2, 3, 4])
                p, q = a.curv[c][k], b.curv[c][k]
                if a.ccurv[c] == "C" and p[0] and q[0]:
                    # nearly straight arcs: what counts is how far the edge is from its chord
                    chord2 = max(float(((end1 - end2) ** 2).sum()) for end1, end2 in [[ml.corner(a.pos, k) for k in ml.EDGES[c]]])
                    same = p[0] * q[0] > 0 and chord2 / 8 * abs(1 / p[0] - 1 / q[0]) <= tol
                else:
                    same = np.abs(p - q).max() <= tol + rel * np.abs(p).max()
                ctx.check(same, lambda: f"{name}, edge {c + 1} ({a.ccurv[c]}): {p} and {q}")
        if fields:
            for k in ("vel", "pres", "temp", "scal"):
                u, v = getattr(a, k), getattr(b, k)
                ctx.check(u.shape == v.shape and np.array_equal(u, v), lambda: f"{name} differ in {k}")
        for ibc in range(nbc):
            for f in range(6):
                p, q = ml.bc_tuple(a.bcs[ibc, f]), ml.bc_tuple(b.bcs[ibc, f])
                ctx.check(p[0] == q[0], lambda: f"{name}, face {f + 1}, field {ibc}: conditions {p} and {q}")
                if p[0] in ("E", "P"):
                    t = int(p[3]) - 1
                    ctx.check(0 <= t < n and 0 <= int(q[3]) - 1 < n, lambda: f"{name}, face {f + 1}, field {ibc}: connections {p} and {q}, there are {n} elements")
                    ctx.check(int(to[t]) == int(q[3]) - 1 and p[4] == q[4], lambda: f"{name}, face {f + 1}, field {ibc}: {p} should correspond to element {int(to[t]) + 1}, but is {q}")
                    pp, qq = p[5:], q[5:]
                else:
                    pp, qq = p[3:], q[3:]
                ctx.check(np.allclose(pp, qq, rtol=max(rel, 1e-12), atol=0), lambda: f"{name}, face {f + 1}, field {ibc}: parameters {p} and {q}")
                if own and f < 2 * dim:
                    ctx.check(p[1] in (0, e + 1) and q[1] in (0, int(to[e]) + 1) and p[2] in (0, f + 1) and q[2] in (0, f + 1),
                              lambda: f"{name}, face {f + 1}, field {ibc}: {p} and {q} name another element or face")


def open_ends(s):
    """Conditions at the ends that are not periodic."""
    nbc = s["nbc"]
    return [s["ext"] or "v"] * nbc, ["O"] + ["T"] * (nbc - 1)


def subset(s, nel, salt=0):
    keep = [e for e in range(nel) if core.mix(s["rsalt"] + salt + 3 * e, 1, 53)[0] % np.uint64(5) < np.uint64(s["share"])]
    return keep or [s["rsalt"] % nel]


def check35(s, ctx):
    rel = s["rel"]
    bc1, bc2, _ = end_args(s)
    nbc = s["nbc"]
    z = make_z(s["z"], s["salt"])
    z = list(z) if isinstance(z, tuple) else z
    kw = {"fields": not rel.startswith(("extrude", "refine"))}
    x0, y0 = [c * s["scale"] for c in s["centre"]]
    th = s["theta"]
    cost, sint = math.cos(th), math.sin(th)
    cl = lambda v: copy.deepcopy(v)  # noqa: E731
    nontrivial = True
    g = ml.Grid(s)

    def rotated(m):
        m = cl(m)
        rotate_2d(m, x0, y0, th)
        return m

    unit = s.get("unit", 2.0**-11)

    def scaled(m):
        """The mesh in another unit of length (a power of two, so that nothing is rounded)."""
        m = cl(m)
        for el in m.elem:
            el.pos[...] *= unit
            for c in range(12):
                k = {"": [], "C": [0], "m": [0, 1, 2]}.get(el.ccurv[c], [0, 1, 2, 4])
                el.curv[c, k] *= unit
        return m

    with ctx.sut(rel):
        if rel == "extrude merge":
            A = split(s)
            X = extrude(merged(*A), z, bc1=cl(bc1), bc2=cl(bc2))
            Y = merged(*[extrude(a, z, bc1=cl(bc1), bc2=cl(bc2)) for a in A])
            nontrivial = len(A) > 1
        elif rel == "extrude stack":
            b1, b2 = open_ends(s)
            m = g.mesh()
            X = extrude(m, z, bc1=cl(b1), bc2=cl(b2))
            k = len(z) // 2
            k = min(max(k, 1), len(z) - 2) if len(z) > 2 else len(z) - 1
            if k < len(z) - 1:
                Y = merged(extrude(m, z[: k + 1], bc1=cl(b1), bc2=["con"] * nbc), extrude(m, z[k:], bc1=["con"] * nbc, bc2=cl(b2)))
            else:
                Y, nontrivial = extrude(m, z, bc1=cl(b1), bc2=cl(b2)), False
        elif rel == "extrude keep":
            m = g.mesh()
            S = subset(s, m.nel)
            a = cl(m)
            keep_elements(a, S, external_bc=s["ext"])
            X = extrude(a, z, bc1=cl(bc1), bc2=cl(bc2))
            Y = extrude(m, z, bc1=cl(bc1), bc2=cl(bc2))
            keep_elements(Y, [e + k * m.nel for k in range(len(z) - 1) for e in S], external_bc=s["ext"])
            nontrivial = len(S) < m.nel
        elif rel == "extrude rotate":
            m = g.mesh()
            X = extrude(rotated(m), z, bc1=cl(bc1), bc2=cl(bc2))
            Y = rotated(extrude(m, z, bc1=cl(bc1), bc2=cl(bc2)))
        elif rel == "extrude delete":
            m = g.mesh()
            X = extrude(m, z, bc1=cl(bc1), bc2=cl(bc2), internal_bcs=False)
            Y = extrude(m, z, bc1=cl(bc1), bc2=cl(bc2))
            delete_internal_bcs(Y)
            kw["own"] = False
        elif rel == "extrude generate":
            m = g.mesh()
            X = extrude(m, z, bc1=cl(bc1), bc2=cl(bc2))
            Y = extrude(m, z, bc1=cl(bc1), bc2=cl(bc2), internal_bcs=False)
            k = generate_internal_bcs(Y)
            ctx.check(int(k) > 0 or m.nel * (len(z) - 1) == 1, "no connections were generated")
        elif rel == "extrude re2":
            m = g.mesh()
            p = ctx.path("a.re2")
            m.wdsz = 8
            writere2(p, m)
            X = extrude(m, z, bc1=cl(bc1), bc2=cl(bc2), internal_bcs=False)
            Y = extrude(readre2(p), z, bc1=cl(bc1), bc2=cl(bc2), internal_bcs=False)
            kw["own"] = False
        elif rel == "extrude rea":
            m = g.mesh()
            p = ctx.path("a.rea")
            writerea(p, m)
            X = extrude(m, z, bc1=cl(bc1), bc2=cl(bc2))
            Y = extrude(readrea(p), z, bc1=cl(bc1), bc2=cl(bc2))
            kw["rel"] = 3e-6
        elif rel == "map merge":
            A = split(s)
            T = transformation(s["t"])
            cur = bool(pick(s["rsalt"], 1, 2))
            f = lambda m: map2D(m, T, curvature=cur, boundary_curvature=False)  # noqa: E731
            X = f(merged(*A))
            Y = merged(*map(f, A))
            nontrivial = len(A) > 1
        elif rel == "map map":
            m = g.mesh()
            T1, T2 = transformation(s["t"]), transformation(s["t2"])
            X = map2D(map2D(m, T1), T2)
            Y = map2D(m, lambda x, y: T2(*T1(x, y)))
        elif rel == "map rotate":
            m = g.mesh()
            for el in m.elem:
                for c in range(12):
                    if el.ccurv[c] == "C":
                        el.ccurv[c] = ""
                        el.curv[c] = 0
            m.update_ncurv()
            X = rotated(m)
            Y = map2D(m, lambda x, y: (x0 + cost * (x - x0) - sint * (y - y0), y0 + sint * (x - x0) + cost * (y - y0)), curvature=False, boundary_curvature=False)
        elif rel == "map keep":
            m = g.mesh()
            S = subset(s, m.nel)
            T = transformation(s["t"])
            a = cl(m)
            keep_elements(a, S, external_bc=s["ext"])
            X = map2D(a, T, curvature=True)
            Y = map2D(m, T, curvature=True)
            keep_elements(Y, S, external_bc=s["ext"])
        elif rel == "extrude scale":
            m = g.mesh()
            X = scaled(extrude(m, z, bc1=cl(bc1), bc2=cl(bc2)))
            Y = extrude(scaled(m), [v * unit for v in z], bc1=cl(bc1), bc2=cl(bc2))
        elif rel == "map scale":
            m = g.mesh()
            T = transformation(s["t"])
            X = scaled(map2D(m, T))
            Y = map2D(scaled(m), lambda x, y: tuple(v * unit for v in T(x / unit, y / unit)))
        elif rel == "merge scale":
            A = split(s)
            X, Y = scaled(merged(*A)), merged(*map(scaled, A))
            nontrivial = len(A) > 1
        elif rel == "generate scale":
            X = g.mesh()
            delete_internal_bcs(X)
            Y = scaled(X)
            generate_internal_bcs(X)
            generate_internal_bcs(Y)
            X = scaled(X)
        elif rel.startswith("refine"):
            mid = pick(s["rsalt"], 4, s["n"][0])
            par = mid + 0.5
            fun = Splitter(g, {"ring": False, "axis": 0, "n": s["n"], "zero": False}, mid)
            high = pick(s["rsalt"], 5, 2)
            b1, b2 = cl(bc1), cl(bc2)
            m = g.mesh()
            zz = np.asarray(z, dtype=float)
            Y = extrude_refine(m, zz, bc1=cl(b1), bc2=cl(b2), fun=[fun], funpar=[par], imesh_high=high)
            if rel == "refine rotate":
                Y = rotated(Y)
                back = lambda x, y, q: fun(x0 + cost * (x - x0) + sint * (y - y0), y0 - sint * (x - x0) + cost * (y - y0), q)  # noqa: E731
                X = extrude_refine(rotated(m), zz, bc1=cl(b1), bc2=cl(b2), fun=[back], funpar=[par], imesh_high=high)
                kw["ncurv"] = True
            elif rel == "refine shift":
                up = 0.75
                X = extrude_refine(m, zz + up, bc1=cl(b1), bc2=cl(b2), fun=[fun], funpar=[par], imesh_high=high)
                for el in Y.elem:
                    el.pos[2] += up
                    for c in range(12):
                        if el.ccurv[c] == "m":
                            el.curv[c, 2] += up
            elif rel == "refine scale":
                X = scaled(Y)
                back = lambda x, y, q: fun(x / unit, y / unit, q)  # noqa: E731
                Y = extrude_refine(scaled(m), zz * unit, bc1=cl(b1), bc2=cl(b2), fun=[back], funpar=[par], imesh_high=high)
            else:
                order = [int(v) for v in core.mix(s["rsalt"], g.nel, 57).argsort(kind="stable")]
                X = extrude_refine(sub(g, m, order, "con"), zz, bc1=cl(b1), bc2=cl(b2), fun=[fun], funpar=[par], imesh_high=high)
        elif rel == "circle":
            ns, no = 1 + pick(s["rsalt"], 1, 3), 1 + pick(s["rsalt"], 2, 3)
            bc = [["W", "v", "O"][pick(s["rsalt"], 3 + i, 3)] for i in range(nbc)]
            r, q = [1.0, 0.3, 40.0][pick(s["rsalt"], 7, 3)], [0.3, 0.45, 0.6][pick(s["rsalt"], 8, 3)]
            bl = None if no == 1 or 0.5 * r * (1 - q) * math.sqrt(2) > 1.6 * q * r * math.sqrt(2) / ns else (lambda x: x)
            args = dict(var=[2, 2, 1, 0, nbc - 1])
            # the size only scales it, and internal connections can be added afterwards
            X = gen_circle(r, q, ns, no, bc=cl(bc), bl_fun=bl, **args)
            Y = gen_circle(1.0, q, ns, no, bc=cl(bc), bl_fun=bl, internal_bcs=False, **args)
            for el in Y.elem:
                el.pos[...] *= r
                el.curv[...] *= r
            generate_internal_bcs(Y)
            kw["rel"] = 1e-8
            kw["own"] = False
        elif rel == "box":
            sg = s["rsalt"]
            n1, n2, ny = 1 + pick(sg, 1, 3), 1 + pick(sg, 2, 3), 1 + pick(sg, 3, 3)
            h, xm, ya = [0.25, 1.0, 3e-3][pick(sg, 4, 3)], [0.0, -2.5, 7.0][pick(sg, 5, 3)], [0.0, -1.0][pick(sg, 6, 2)]
            yb = ya + [1.0, 0.05][pick(sg, 7, 2)]
            var = [2, 2, 0, pick(sg, 8, 2), nbc - 1]
            nb = 1 + var[3] + var[4]
            code = lambda k: [["W", "v", "O", "SYM"][pick(sg, 10 + k + i, 4)] for i in range(nb)]  # noqa: E731
            along = pick(sg, 9, 2)
            lo, hi, join = code(0), code(5), ["con"] * nb
            side = dict(bcs_ymin=code(20), bcs_ymax=code(30)) if pick(sg, 40, 2) else {}
            if along == 0:
                X = gen_box(n1 + n2, ny, xm, xm + h * (n1 + n2), ya, yb, var=var, bcs_xmin=cl(lo), bcs_xmax=cl(hi), **cl(side))
                Y = merged(gen_box(n1, ny, xm, xm + h * n1, ya, yb, var=var, bcs_xmin=cl(lo), bcs_xmax=cl(join), **cl(side)),
                           gen_box(n2, ny, xm + h * n1, xm + h * (n1 + n2), ya, yb, var=var, bcs_xmin=cl(join), bcs_xmax=cl(hi), **cl(side)))
            else:
                side = {k.replace("y", "x"): v for k, v in side.items()}
                X = gen_box(ny, n1 + n2, ya, yb, xm, xm + h * (n1 + n2), var=var, bcs_ymin=cl(lo), bcs_ymax=cl(hi), **cl(side))
                Y = merged(gen_box(ny, n1, ya, yb, xm, xm + h * n1, var=var, bcs_ymin=cl(lo), bcs_ymax=cl(join), **cl(side)),
                           gen_box(ny, n2, ya, yb, xm + h * n1, xm + h * (n1 + n2), var=var, bcs_ymin=cl(join), bcs_ymax=cl(hi), **cl(side)))
        elif rel == "merge order":
            A = split(s)
            X, Y = merged(*A), merged(*A[::-1])
            nontrivial = len(A) > 1
        elif rel == "merge three":
            A = split(s, 3)
            if len(A) == 3:
                X, Y = merged(merged(A[0], A[1]), A[2]), merged(A[0], merged(A[1], A[2]))
            else:
                X, Y, nontrivial = merged(*A), merged(*A[::-1]), False
        elif rel == "keep keep":
            m = g.mesh()
            S = subset(s, m.nel)
            T = subset(s, len(S), 7)
            X, Y = cl(m), cl(m)
            keep_elements(X, S, external_bc=s["ext"])
            keep_elements(X, T, external_bc=s["ext"])
            keep_elements(Y, [S[t] for t in T], external_bc=s["ext"])
            nontrivial = len(S) < m.nel
        elif rel == "keep merge":
            # what keep_elements takes apart, merge puts together (periodic sides across the cut stay open)
            s2 = {**s, "sides": [["W"] * nbc if v[0] == "P" else v for v in s["sides"]]}
            m = ml.Grid(s2).mesh()
            S = subset(s, m.nel)
            R = [e for e in range(m.nel) if e not in S]
            X = m
            A = []
            for part in (S, R) if R else (S,):
                a = cl(m)
                keep_elements(a, part, external_bc="con")
                A.append(a)
            Y = merged(*A)
            nontrivial = bool(R)
        elif rel == "rotate merge":
            A = split(s)
            X, Y = rotated(merged(*A)), merged(*map(rotated, A))
            nontrivial = len(A) > 1
        elif rel == "rotate keep":
            m = g.mesh()
            S = subset(s, m.nel)
            X, Y = rotated(m), cl(m)
            keep_elements(X, S, external_bc=s["ext"])
            keep_elements(Y, S, external_bc=s["ext"])
            Y = rotated(Y)
        elif rel == "renumber merge":
            m = g.mesh()
            lab = parts(g, s["rsalt"], s["share"])
            A = [[e for e in range(g.nel) if lab[e] == p] for p in (0, 1)]
            A = [a for a in A if a]
            X = merged(*[sub(g, m, a, "con") for a in A])
            Y = merged(*[sub(g, m, a[::-1], "con") for a in A])
            nontrivial = len(A) > 1
        elif rel == "generate merge":
            # connecting by merging or by searching the whole mesh
            A = split(s)
            X = merged(*A)
            Y = merged(A[0])
            for a in A[1:]:
                Y.merge(a, ignore_all_bcs=True)
            for el in Y.elem:
                for b in el.bcs.reshape(-1):
                    if b[0] == "con":
                        b[0] = ""
                        for i in range(1, 8):
                            b[i] = 0
            generate_internal_bcs(Y)
            nontrivial = len(A) > 1
        elif rel == "file merge":
            A = split(s)
            ext, w, r = [("rea", writerea, readrea), ("re2", writere2, readre2)][pick(s["rsalt"], 1, 2)]
            B = []
            for i, a in enumerate(A):
                p = ctx.path(f"p{i}.{ext}")
                a.wdsz = 8
                w(p, a)
                B.append(r(p))
            X, Y = merged(*A), merged(*B)
            if ext == "re2":
                delete_internal_bcs(X)
                delete_internal_bcs(Y)
            kw = {"fields": False, "rel": 3e-6 if ext == "rea" else 1e-9, "own": ext == "rea"}
            nontrivial = len(A) > 1
        else:
            raise core.HarnessError(rel)
        same_mesh(ctx, X, Y, rel, **kw)
    ctx.label(rel)
    ctx.label("curved", any(c for el in X.elem for c in el.ccurv))
    ctx.label("periodic", any(b[0] == "P" for el in X.elem for b in el.bcs.reshape(-1)))
    ctx.nontrivial(nontrivial and X.nel > 1)


PROPS["C35"] = Prop(
    "C35", check35, specs35, "both ways really differ and the mesh has more than one element", examples={"quick": 2400, "thorough": 40000},
    assumptions=["meshes of linear elements", "numbers of elements and fields that extrusion does not fill are free"],
)
