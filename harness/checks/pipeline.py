"""C32: random histories of mesh operations, with a model of what the mesh must be after every step."""

import copy
import math
from collections import Counter

import numpy as np
from hypothesis import strategies as st

import core
import meshlib as ml
from checks import Prop
from checks.connect import get_bc, pick, unchanged
from checks.extrusion import mid_of
from checks.generate import transformation
from pymech.meshtools import (
    delete_internal_bcs, extrude, extrude_refine, gen_box, gen_circle, generate_internal_bcs, keep_elements, map2D, rotate_2d,
)
from pymech.neksuite import readre2, readrea, writere2, writerea

PROPS = {}
REL = 1e-3  # vertices closer than this fraction of the smallest edge are one vertex (rea files keep seven digits)

OPS = ["merge", "restack", "keep", "rotate", "map", "extrude", "delete", "regenerate", "re2", "rea", "restack"]


@st.composite
def specs32(draw, tier="quick"):
    big = tier != "quick"
    kind = draw(st.sampled_from(["grid2", "grid3", "box", "circle", "grid2", "circle"]))
    if kind.startswith("grid"):
        dim = int(kind[-1])
        s = draw(ml.grid_specs(dims=(dim,), max_n=(4, 3, 2), max_nel=12 if dim == 2 else 8, min_nbc=draw(st.sampled_from([1, 1, 0])), max_nbc=2, curves=dim == 2, fields=True))
        s["internal"] = True
        init = {"kind": kind, "grid": s}
    elif kind == "box":
        sides = [draw(st.sampled_from(["P", "W"])) for _ in range(2)]
        init = {"kind": kind, "n": [draw(st.integers(1, 4)), draw(st.integers(1, 3))], "sides": sides, "fields": draw(st.integers(1, 2)), "internal": draw(st.sampled_from([True, True, False]))}
    else:
        init = {"kind": kind, "ns": draw(st.sampled_from([2, 1])), "no": draw(st.sampled_from([2, 3, 1])), "s": draw(st.sampled_from([0.4, 0.3])), "r": draw(st.sampled_from([1.0, 5.0])),
                "bc": draw(st.sampled_from([["W"], ["v", "t"]])), "internal": draw(st.sampled_from([True, True, False]))}
    ops = draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 10**6)).map(list), min_size=2, max_size=14 if big else 8))
    return {"init": init, "ops": ops, "limit": 160 if big else 72}


class Model:
    """What is known about the mesh: number of elements, size, boundary condition types, completeness of internal conditions."""

    def __init__(self, ctx, m, complete, what):
        self.ctx = ctx
        self.m = m
        self.complete = complete
        self.nel = len(m.elem)
        self.size = ml.total_volume(m)
        self.empty_pairs = not complete
        self.types = None
        self.verify(what)

    # ---- observation
    def faces(self):
        """(pairs of coinciding faces, boundary faces)"""
        ids, lmin = ml.vertex_ids(self.m, REL)
        table = ml.face_table(self.m, ids)
        for who in table.values():
            self.ctx.check(len(who) <= 2, lambda: f"{len(who)} faces coincide: {who}")
        return [w for w in table.values() if len(w) == 2], [w[0] for w in table.values() if len(w) == 1]

    def boundary_types(self, bf):
        return [Counter(get_bc(self.m, ibc, e, f)[0] for e, f in bf) for ibc in range(int(self.m.nbc))]

    def verify(self, what):
        """All invariants, and the model."""
        ctx, m = self.ctx, self.m
        with ctx.sut(f"inspecting the mesh after {what}"):
            ml.check_counts(ctx, m, what)
            ctx.check(len(m.elem) == self.nel, lambda: f"{what}: {len(m.elem)} elements, expected {self.nel}")
            ml.check_positive(ctx, m, what)
            size = ml.total_volume(m)
            ctx.check(abs(size / self.size - 1) <= 2e-5, lambda: f"{what}: the elements fill {size}, expected {self.size}")
            bf = ml.check_conforming(ctx, m, what, internal=True if self.complete else None, rel=REL)
            pairs, _ = self.faces()
        nbc = int(m.nbc)
        pos = {}
        for (e, f), (o, h) in pairs:
            pos[(e, f)] = (o, h)
            pos[(o, h)] = (e, f)
        for (e, f), (o, h) in pos.items():
            for ibc in range(nbc):
                b = get_bc(m, ibc, e, f)
                ok = b[0] == "" or (b[0] == "E" and b[3:5] == (o + 1, h + 1))
                ctx.check(ok, lambda: f"{what}: face {f + 1} of element {e + 1} coincides with face {h + 1} of element {o + 1}, its condition in field {ibc} is {b}")
                b0 = get_bc(m, 0, e, f)
                ctx.check((b[0] == "E") == (b0[0] == "E"), lambda: f"{what}: face {f + 1} of element {e + 1} is connected in one field only: {b0}, {b}")
                back = get_bc(m, ibc, o, h)
                ctx.check(back[0] == b[0], lambda: f"{what}: one of two coinciding faces has {b}, the other {back}")
        types = self.boundary_types(bf)
        if self.types is not None:
            ctx.check(types == self.types, lambda: f"{what}: the boundary has the conditions {types}, expected {self.types}")
        self.types = types
        for e, el in enumerate(m.elem):
            for c in range(12):
                ctx.check(str(el.ccurv[c]) in ("", "C", "m"), lambda: f"{what}: edge {c + 1} of element {e + 1} has curvature type {el.ccurv[c]!r}")
            for ibc in range(nbc):
                for f in range(2 * int(m.ndim), 6):
                    b = get_bc(m, ibc, e, f)
                    ctx.check(b[0] == "", lambda: f"{what}: face {f + 1} of element {e + 1} of a 2D mesh has the condition {b}")
        self.curvature(what)
        with ctx.sut(f"connectivity check after {what}"):
            m.check_connectivity()

    def curvature(self, what):
        """The two sides of an edge agree about its midpoint (the tolerance allows for seven digits)."""
        ctx, m = self.ctx, self.m
        dim = int(m.ndim)
        ids, _ = ml.vertex_ids(m, REL)
        big = max(np.abs(el.pos).max() for el in m.elem)
        seen = {}
        for e, el in enumerate(m.elem):
            for c in range(ml.nedges(dim)):
                a, b = ml.EDGES[c]
                key = frozenset((int(ids[e][a]), int(ids[e][b])))
                L = np.linalg.norm(ml.corner(el.pos, b) - ml.corner(el.pos, a))
                mid = mid_of(el, dim, c)
                ctx.check(np.isfinite(mid).all(), lambda: f"{what}: edge {c + 1} of element {e + 1} ({el.ccurv[c]!r} {el.curv[c]}) has no midpoint")
                if key in seen:
                    o, oc, om = seen[key]
                    ctx.check(np.abs(mid - om).max() <= 1e-4 * L + 2e-6 * big,
                              lambda: f"{what}: edge {c + 1} of element {e + 1} ({el.ccurv[c]!r} {el.curv[c]}) has its midpoint at {mid}, as edge {oc + 1} of element {o + 1} ({m.elem[o].ccurv[oc]!r} {m.elem[o].curv[oc]}) at {om}")
                else:
                    seen[key] = (e, c, mid)


def start(s, ctx):
    i = s["init"]
    if i["kind"].startswith("grid"):
        m = ml.Grid(i["grid"]).mesh()
        return Model(ctx, m, True, "start")
    with ctx.sut("generation"):
        if i["kind"] == "box":
            nbc = i["fields"]
            kw = {}
            for names, t in zip((("bcs_xmin", "bcs_xmax"), ("bcs_ymin", "bcs_ymax")), i["sides"]):
                for name in names:
                    kw[name] = [t] * nbc
            m = gen_box(i["n"][0], i["n"][1], 0.0, 1.5, -1.0, 1.0, var=[2, 2, 1, 0, nbc - 1], internal_bcs=i["internal"], **kw)
        else:
            m = gen_circle(i["r"], i["s"], i["ns"], i["no"], bc=list(i["bc"]), internal_bcs=i["internal"])
    return Model(ctx, m, i["internal"], "generation")


# --------------------------------------------------------------------------- operations: (state, salt) -> done or not
def op_merge(w, a, s):
    m = w.m
    if 2 * w.nel > s["limit"]:
        return False
    other = copy.deepcopy(m)
    d = pick(a, 1, int(m.ndim))
    lo = np.min([el.pos[d].min() for el in m.elem])
    hi = np.max([el.pos[d].max() for el in m.elem])

    def shifted(span):
        o = copy.deepcopy(m)
        for el in o.elem:
            el.pos[d] += span
            for c in range(12):
                if el.ccurv[c] == "m":
                    el.curv[c, d] += span
        return o

    def plan(o):
        """Pairs that must be glued, or None if the case is outside the domain."""
        dim = int(m.ndim)
        fa = np.array([[ml.face_centre(el.pos, dim, f) for f in range(2 * dim)] for el in m.elem]).reshape(-1, 3)
        fb = np.array([[ml.face_centre(el.pos, dim, f) for f in range(2 * dim)] for el in o.elem]).reshape(-1, 3)
        D = np.sqrt(((fa[:, None] - fb[None]) ** 2).sum(-1))
        lmin = min(ml.edge_lengths(el.pos, dim).min() for el in m.elem)
        if ((D > 1e-3 * lmin) & (D < 0.05 * lmin)).any():
            return None
        glue = []
        for i, j in np.argwhere(D <= 1e-3 * lmin):
            e, f, q, h = int(i) // (2 * dim), int(i) % (2 * dim), int(j) // (2 * dim), int(j) % (2 * dim)
            pa = sorted(np.round(p / (0.01 * lmin)).astype(int).tolist() for p in ml.face_points(m.elem[e].pos, dim, f))
            pb = sorted(np.round(p / (0.01 * lmin)).astype(int).tolist() for p in ml.face_points(o.elem[q].pos, dim, h))
            if np.abs(np.array(pa) - np.array(pb)).max() > 1:
                return None
            bs = [get_bc(m, ibc, e, f)[0] for ibc in range(int(m.nbc))]
            cs = [get_bc(o, ibc, q, h)[0] for ibc in range(int(m.nbc))]
            if "E" in bs + cs:
                return None
            if ("" in bs + cs) and set(bs + cs) != {""}:
                return None
            if "P" in bs + cs:
                if set(bs + cs) != {"P"}:
                    return None
                # the partner must be the face that this one is glued to, one period away
                if get_bc(m, 0, e, f)[3:5] != (q + 1.0, h + 1.0) or get_bc(o, 0, q, h)[3:5] != (e + 1.0, f + 1.0):
                    return None
            glue.append(((e, f), (q, h), list(zip(bs, cs))))
        # edges that coincide must be curved alike, whether or not a face is shared
        corners = [(z, y, x) for z in range(dim - 1) for y in (0, 1) for x in (0, 1)]
        lab = ml.cluster(np.array([ml.corner(el.pos, c) for mesh in (m, o) for el in mesh.elem for c in corners]), 1e-3 * lmin).reshape(-1, dim - 1, 2, 2)
        seen = {}
        for k, el in enumerate([*m.elem, *o.elem]):
            for c in range(ml.nedges(dim)):
                x, y = ml.EDGES[c]
                mid = mid_of(el, dim, c)
                first = seen.setdefault(frozenset((int(lab[k][x]), int(lab[k][y]))), mid)
                if np.abs(mid - first).max() > 1e-5 * lmin:
                    return None
        return glue

    span = (hi - lo) * (1 if pick(a, 2, 2) else -1)
    other = shifted(span)
    glue = plan(other)
    if glue is not None and any(str(c) for el in m.elem for c in el.ccurv):
        # both sides of the joint must be curved alike
        for (e, f), (q, h), _ in glue:
            for x, y in ((m.elem[e], f), (other.elem[q], h)):
                on = [c for c in range(ml.nedges(int(m.ndim))) if set(ml.EDGES[c]) <= set(ml.faces(int(m.ndim))[y])]
                if any(x.ccurv[c] != "" for c in on):
                    glue = None
                    break
            if glue is None:
                break
    if glue is not None and overlap(m, other):
        glue = None
    if glue is None:
        other = shifted(3 * (hi - lo))
        glue = []
    before = ml.snapshot(other)
    if pick(a, 3, 2):
        first, second = m, other
    else:
        first, second = other, m
        before = ml.snapshot(m)
    # far apart, nothing is to be glued, so it does not matter how
    kw = {} if glue else [{}, {"ignore_all_bcs": True}, {"ignore_empty": False}][pick(a, 7, 3)]
    with w.ctx.sut(f"merge {kw}"):
        n = first.merge(second, **kw)
    unchanged(w.ctx, before, second, "merging it into another mesh (the merged-in mesh)")
    live = [g for g in glue if ("", "") not in g[2]] if int(m.nbc) else []
    w.ctx.check(int(n) == len(live), lambda: f"merge reports {n} pairs of faces, {len(live)} are to be glued")
    if len(live) < len(glue):
        w.complete = False
    for ibc in range(int(m.nbc)):
        w.types[ibc] = Counter({t: 2 * k for t, k in w.types[ibc].items()})
        for _, _, bs in glue:
            for k in bs[ibc]:
                w.types[ibc][k] -= 1
        w.types[ibc] = +w.types[ibc]
    w.m = first
    w.nel *= 2
    w.size *= 2
    w.ctx.label("glued merges", bool(live))
    return True


def overlap(m, other):
    """Some element centre of one mesh lies inside the bounding box of an element of the other."""
    for x, y in ((m, other), (other, m)):
        lo = np.array([el.pos.reshape(3, -1).min(axis=1) for el in x.elem])
        hi = np.array([el.pos.reshape(3, -1).max(axis=1) for el in x.elem])
        c = np.array([el.pos.reshape(3, -1).mean(axis=1) for el in y.elem])
        d = int(m.ndim)
        if ((c[:, None, :d] > lo[None, :, :d]) & (c[:, None, :d] < hi[None, :, :d])).all(axis=2).any():
            return True
    return False


def op_keep(w, a, s):
    m = w.m
    if w.nel < 2:
        return False
    share = [8, 6, 9, 5][pick(a, 1, 4)]
    keep = [e for e in range(w.nel) if core.mix(a + e, 1, 2)[0] % np.uint64(10) < np.uint64(share)] or [pick(a, 3, w.nel)]
    ext = ["W", "", "v", "SYM"][pick(a, 4, 4)]
    # the boundary afterwards
    pairs, bf = w.faces()
    kept = set(keep)
    types = [Counter() for _ in range(int(m.nbc))]
    for ibc in range(int(m.nbc)):
        for e, f in bf:
            if e in kept:
                b = get_bc(m, ibc, e, f)
                types[ibc][ext if b[0] == "P" and int(b[3]) - 1 not in kept else b[0]] += 1
        for (e, f), (o, h) in pairs:
            for (p, q), r in (((e, f), o), ((o, h), e)):
                if p in kept and r not in kept:
                    b = get_bc(m, ibc, p, q)
                    types[ibc][ext if b[0] == "E" else b[0]] += 1
    size = sum(ml.volume(m.elem[e].pos, int(m.ndim)) for e in keep)
    order = list(keep)
    if pick(a, 5, 2):
        order = order[::-1]
    with w.ctx.sut("keep_elements"):
        keep_elements(m, order, external_bc=ext)
    w.types, w.size, w.nel = types, size, len(keep)
    return True


def op_rotate(w, a, s):
    angle = [math.pi / 2, 0.3, -1.1, math.pi, 2.5][pick(a, 1, 5)]
    big = max(np.abs(el.pos[:2]).max() for el in w.m.elem)
    c = (core.unit(a, 2, 2) - 0.5) * 2 * big
    if pick(a, 3, 2):
        c = np.zeros(2)
    with w.ctx.sut("rotation"):
        rotate_2d(w.m, float(c[0]), float(c[1]), angle)
    return True


def op_map(w, a, s):
    m = w.m
    if int(m.ndim) != 2:
        return False
    u = core.unit(a, 4, 2) * 2 - 1
    big = max(np.ptp([el.pos[d] for el in m.elem]) for d in (0, 1))
    t = {"kind": ["lin", "wave", "swirl", "quad", "turn"][pick(a, 1, 5)], "a": float(u[0]), "b": float(u[1]), "c": float(u[2]), "d": float(u[3]), "scale": float(big)}
    T = transformation(t)
    # stay with elements of a sound shape
    for el in m.elem:
        p = el.pos.copy()
        p[0], p[1] = np.vectorize(lambda x, y: T(float(x), float(y)))(el.pos[0], el.pos[1])
        j = ml.jacobians(p, 2)
        if j.min() < 0.2 * j.max() or ml.edge_lengths(p, 2).min() < 0.05 * ml.edge_lengths(p, 2).max():
            return False
    cur = bool(pick(a, 2, 2)) or not int(m.nbc)
    before = ml.snapshot(m)
    hold = w.m
    area = sum(ml.volume(mapped(el.pos, T), 2) for el in m.elem)
    with w.ctx.sut("mapping"):
        w.m = map2D(m, T, curvature=cur)
    unchanged(w.ctx, before, hold, "mapping it (the original)")
    w.size = area
    if not cur and not w.complete:
        # an interior face without a condition is no boundary, but nothing tells
        pass
    return True


def mapped(pos, T):
    p = pos.copy()
    p[0], p[1] = np.vectorize(lambda x, y: T(float(x), float(y)))(pos[0], pos[1])
    return p


def op_extrude(w, a, s):
    m = w.m
    if int(m.ndim) != 2:
        return False
    nz = 1 + pick(a, 1, 3)
    if w.nel * nz > s["limit"]:
        return False
    L = min(ml.edge_lengths(el.pos, 2).min() for el in m.elem) * [1.0, 0.5, 2.0][pick(a, 2, 3)]
    z = -0.3 * L + L * np.concatenate(([0.0], np.cumsum(0.5 + core.unit(a, nz, 3))))
    nbc = int(m.nbc)
    if pick(a, 4, 3) == 0:
        kw, ends = {}, [("P", "P")] * nbc
    else:
        ends = [("P", "P") if pick(a + i, 5, 3) == 0 else ("v", "O") for i in range(nbc)]
        # periodic in all fields or in none, as later merges expect
        if ("P", "P") in ends:
            ends = [("P", "P")] * nbc
        kw = {"bc1": [e[0] for e in ends], "bc2": [e[1] for e in ends]}
    ib = pick(a, 6, 4) > 0
    if not ib:
        kw["internal_bcs"] = False
    before = ml.snapshot(m)
    with w.ctx.sut("extrusion"):
        w.m = extrude(m, z, **kw)
    unchanged(w.ctx, before, m, "extruding it (the 2D mesh)")
    w.types = [Counter({t: k * nz for t, k in c.items()}) + Counter([e[0]] * w.nel) + Counter([e[1]] * w.nel) for c, e in zip(w.types, ends)]
    w.size *= float(z[-1] - z[0])
    if not ib:
        w.complete = not any(True for _ in w.faces()[0])
    w.nel *= nz
    return True


def op_delete(w, a, s):
    n = sum(get_bc(w.m, ibc, e, f)[0] == "E" for ibc in range(int(w.m.nbc)) for e in range(w.nel) for f in range(2 * int(w.m.ndim)))
    with w.ctx.sut("deleting internal conditions"):
        k = delete_internal_bcs(w.m)
    w.ctx.check(int(k) == n, f"{k} internal conditions reported deleted, there were {n}")
    if n:
        w.complete = False
    return n > 0


def op_regenerate(w, a, s):
    m = w.m
    nbc = int(m.nbc)
    if nbc == 0:
        return False
    # centres of faces that are free must be clearly equal or clearly apart
    pairs, bf = w.faces()
    n = sum(get_bc(m, 0, e, f)[0] == "" for (e, f), _ in pairs)
    free = [(e, f) for e, f in bf if get_bc(m, 0, e, f)[0] == ""] + [p[0] for p in pairs if get_bc(m, 0, *p[0])[0] == ""]
    if len(free) > 1:
        c = np.array([ml.face_centre(m.elem[e].pos, int(m.ndim), f) for e, f in free])
        D = np.sqrt(((c[:, None] - c[None]) ** 2).sum(-1)) + np.eye(len(c)) * 1e300
        lmin = min(ml.edge_lengths(el.pos, int(m.ndim)).min() for el in m.elem)
        if D.min() < 0.01 * lmin:
            return False
    with w.ctx.sut("generating internal conditions"):
        k = generate_internal_bcs(m)
    w.ctx.check(int(k) == n * nbc, f"{k} connections reported made, {n} pairs of faces in {nbc} fields were free")
    w.complete = True
    return n > 0


def same_export(w, r, what, digits):
    """The mesh read back against the mesh written."""
    ctx, m = w.ctx, w.m
    dim = int(m.ndim)
    ctx.check(int(r.ndim) == dim and len(r.elem) == w.nel and int(r.ncurv) == int(m.ncurv), lambda: f"{what} gives ndim {r.ndim}, {len(r.elem)} elements, {r.ncurv} curved sides; written {dim}, {w.nel}, {m.ncurv}")
    tol = 1e-6 if digits else 0.0
    for e, (x, y) in enumerate(zip(m.elem, r.elem)):
        for d in range(dim):
            ctx.check(np.abs(x.pos[d] - y.pos[d]).max() <= tol * np.abs(x.pos[d]).max() + tol * 1e-6, lambda: f"{what}: points of element {e + 1}: {y.pos[d].tolist()}, written {x.pos[d].tolist()}")
        ctx.check(list(map(str, x.ccurv)) == list(map(str, y.ccurv)), lambda: f"{what}: curvature types of element {e + 1}: {y.ccurv}, written {x.ccurv}")
        for c in range(12):
            if x.ccurv[c] != "":
                ctx.check(np.abs(x.curv[c] - y.curv[c]).max() <= tol * np.abs(x.curv[c]).max(), lambda: f"{what}: curvature of edge {c + 1} of element {e + 1}: {y.curv[c]}, written {x.curv[c]}")
        for ibc in range(int(m.nbc)):
            for f in range(2 * dim):
                b, q = get_bc(m, ibc, e, f), get_bc(r, ibc, e, f)
                if b[0] in ("", "E"):
                    ok = q[0] in ("", "E") and (q[0] == "" or (b[0] == "E" and q[3:5] == b[3:5]))
                else:
                    ok = q[0] == b[0] and q[1:3] in ((e + 1, f + 1), b[1:3] if digits else None) and all(abs(u - v) <= tol * abs(u) for u, v in zip(b[3:], q[3:]))
                ctx.check(ok, lambda: f"{what}: condition of face {f + 1} of element {e + 1} in field {ibc}: {q}, written {b}")


def op_re2(w, a, s):
    m = w.m
    before = ml.snapshot(m)
    m.endian = ["little", "big"][pick(a, 1, 2)]
    before["endian"] = m.endian
    p = w.ctx.path("m.re2")
    with w.ctx.sut("writing and reading re2"):
        writere2(p, m)
        r = readre2(p)
    unchanged(w.ctx, before, m, "writing re2")
    same_export(w, r, "re2", 0)
    if int(m.nbc) == 0:
        # an re2 file always has one field of conditions
        w.types = [Counter([""] * len(w.faces()[1]))]
        w.complete = False
    if any(get_bc(m, 0, e, f)[0] == "E" for e in range(w.nel) for f in range(2 * int(m.ndim)) if int(m.nbc)):
        w.complete = False
    w.m = r
    return True


def op_rea(w, a, s):
    m = w.m
    before = ml.snapshot(m)
    p = w.ctx.path("m.rea")
    with w.ctx.sut("writing and reading rea"):
        writerea(p, m)
        r = readrea(p)
    unchanged(w.ctx, before, m, "writing rea")
    same_export(w, r, "rea", 7)
    if int(r.nbc) != int(m.nbc):
        w.ctx.check(int(m.nbc) == 0, f"rea: {r.nbc} condition fields read, {m.nbc} written")
        w.types = [Counter([""] * len(w.faces()[1]))] * int(r.nbc)
        w.complete = False
    w.m = r
    # coordinates are rounded
    w.size = ml.total_volume(r)
    return True


def op_restack(w, a, s):
    """Refined extrusion of a box or disc by its coordinates, only where the cut elements have one side each on both ends."""
    m = w.m
    if int(m.ndim) != 2 or 9 * w.nel > s["limit"] * 2 or not w.complete:
        return False
    kind = s["init"]["kind"]
    if kind == "circle":
        f = lambda x, y: math.hypot(x, y)  # noqa: E731
    else:
        f = lambda x, y: x  # noqa: E731
    # a level between vertices such that every element is on one side or is cut through two opposite sides
    vals = sorted({round(float(f(*ml.corner(el.pos, c)[:2])), 9) for el in m.elem for c in ml.FACES2[0] + ml.FACES2[2]})
    gaps = [(q - p, 0.5 * (p + q)) for p, q in zip(vals, vals[1:]) if q - p > 1e-3 * (vals[-1] - vals[0] + 1e-300)]
    if not gaps:
        return False
    level = gaps[pick(a, 1, len(gaps))][1]
    ids, _ = ml.vertex_ids(m, REL)
    cut = 0
    for e, el in enumerate(m.elem):
        sides = [f(*ml.corner(el.pos, c)[:2]) > level for c in ((0, 0, 0), (0, 0, 1), (0, 1, 1), (0, 1, 0))]
        k = sum(sides)
        if k in (1, 3) or (k == 2 and sides[0] == sides[2]):
            return False
        cut += k == 2
    # periodic conditions across the cut are a known limit
    nbc = int(m.nbc)
    for e in range(w.nel):
        for h in range(4):
            if nbc and get_bc(m, 0, e, h)[0] == "P":
                return False
    high = pick(a, 2, 2)
    nz = 4
    z = np.linspace(0.0, 1.0, nz + 1) * 4 * min(ml.edge_lengths(el.pos, 2).min() for el in m.elem)
    before = ml.snapshot(m)
    area = w.size
    curved = int(m.ncurv) > 0
    # what dividing the curved edges at their midpoints can add or take away
    slack = 1e-6 * area
    for el in m.elem:
        for c in range(4):
            if el.ccurv[c] != "":
                (va, vb) = ml.EDGES[c]
                pa, pb = ml.corner(el.pos, va), ml.corner(el.pos, vb)
                pm = mid_of(el, 2, c) - pa
                slack += 0.5 * abs((pb - pa)[0] * pm[1] - (pb - pa)[1] * pm[0])
    slack *= float(z[-1] - z[0])
    with w.ctx.sut("refined extrusion"):
        r = extrude_refine(m, z, bc1=["v"] * nbc, bc2=["O"] * nbc, fun=[lambda x, y, p: f(float(np.asarray(x).reshape(-1)[0]), float(np.asarray(y).reshape(-1)[0])) - p], funpar=[level], imesh_high=high)
    unchanged(w.ctx, before, m, "refined extrusion (the 2D mesh)")
    inner = sum(1 for el in m.elem if all(f(*ml.corner(el.pos, c)[:2]) <= level for c in ml.FACES2[0] + ml.FACES2[2]))
    outer = w.nel - inner - cut
    n = inner * (nz if high == 0 else nz // 2) + outer * (nz // 2 if high == 0 else nz) + 6 * (nz // 4) * cut
    w.m = r
    if curved:
        # straight-sided pieces of curved elements do not add up to the straight-sided whole
        w.size = ml.total_volume(r)
        w.ctx.check(abs(w.size - area * (z[-1] - z[0])) <= slack, lambda: f"refined extrusion fills {w.size}, {area * (z[-1] - z[0])} expected up to {slack} for the curved edges")
    else:
        w.size = area * float(z[-1] - z[0])
    w.nel = n
    # conditions on the sides are checked by C24
    w.types = None
    w.complete = True
    w.ctx.label("refined extrusions with cut elements", cut > 0)
    return True


def check32(s, ctx):
    w = start(s, ctx)
    done = []
    ops = {"merge": op_merge, "keep": op_keep, "rotate": op_rotate, "map": op_map, "extrude": op_extrude, "delete": op_delete, "regenerate": op_regenerate,
           "re2": op_re2, "rea": op_rea, "restack": op_restack}
    for name, a in s["ops"]:
        if ops[name](w, a, s):
            done.append(name)
            ctx.label(f"op {name}")
        w.verify(f"{' > '.join([s['init']['kind'], *done])}" + ("" if done and done[-1] == name else f" > {name}"))
    final = copy.deepcopy(w)
    op_re2(final, 1, s)
    final = copy.copy(w)
    op_rea(final, 1, s)
    ctx.label("3D at the end", int(w.m.ndim) == 3)
    ctx.label("curved", int(w.m.ncurv) > 0)
    ctx.label("#operations", len(done) > 0)
    ctx.nontrivial(len(set(done)) >= 3)


PROPS["C32"] = Prop(
    "C32", check32, specs32, "at least three different operations took effect", examples={"quick": 1000, "thorough": 6000},
    assumptions=["faces to be glued coincide to 1e-3 of the smallest edge, others are 5% apart", "periodic faces are glued to their own periodic images only",
                 "maps keep the elements sound", "refined extrusion cuts opposite sides of elements"],
)
