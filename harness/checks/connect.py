"""C19 connectivity check, C20 merge, C21 keep_elements, C22 internal conditions."""

import copy

import numpy as np
from hypothesis import strategies as st

import core
import huge
import meshlib as ml
from checks import Prop
from pymech.core import HexaData
from pymech.meshtools import delete_internal_bcs, generate_internal_bcs, keep_elements

PROPS = {}


def pick(salt, stream, n):
    """A reproducible number below n."""
    return int(core.mix(salt, 1, stream)[0] % np.uint64(n))


def get_bc(m, ibc, e, f):
    return ml.bc_tuple(m.elem[e].bcs[ibc, f])


def set_bc(m, ibc, e, f, b):
    for i, v in enumerate(b):
        m.elem[e].bcs[ibc, f][i] = v


def unchanged(ctx, before, m, what):
    d = ml.snap_diff(before, ml.snapshot(m))
    ctx.check(d is None, lambda: f"{what} changed the mesh: {d}")


# --------------------------------------------------------------------------- C19
ALTER = ["type", "type", "element", "element", "face", "face", "shift", "shift", "cross", "missing"]


@st.composite
def specs19(draw, tier="quick"):
    big = tier != "quick"
    s = draw(ml.grid_specs(max_n=(5, 5, 4) if big else (4, 4, 3), max_nel=60 if big else 18, max_nbc=3, high_order=True, stretch=True, single=True, mixed=True, scales="wide", large=tier == "large"))
    s["internal"] = draw(st.sampled_from([True, True, True, False]))
    s["alter"] = draw(st.sampled_from(ALTER))
    s["asalt"] = draw(st.integers(0, 10**6))
    if draw(st.integers(0, 4)) == 0 and tier != "large":
        # one element wide and periodic in that direction (an element connected to itself), several fields
        s["nbc"] = draw(st.integers(2, 3))
        d = draw(st.integers(0, s["dim"] - 1))
        for q in range(s["dim"]):
            p = q == d or draw(st.booleans())
            if p:
                s["n"][q] = 1
                s["lines"][q] = s["lines"][q][:1]
            for k in (2 * q, 2 * q + 1):
                s["sides"][k] = ["P" if p else draw(st.sampled_from(ml.CODES)) for _ in range(s["nbc"])]
        s["alter"] = draw(st.sampled_from(["face", "face", "face", "element", "type"]))
    s["tol"] = draw(st.sampled_from([None, None, 1e-3, 1e-2, 1e-5]))
    return s


def connections(g, m, types=("E", "P")):
    out = []
    for ibc in range(m.nbc):
        for e in range(m.nel):
            for f in range(2 * m.ndim):
                if get_bc(m, ibc, e, f)[0] in types:
                    out.append((ibc, e, f))
    return out


def check_call(m, tol):
    return m.check_connectivity() if tol is None else m.check_connectivity(tol)


def check19(s, ctx):
    if s.get("huge"):
        return huge.c19(s, ctx)
    g = ml.Grid(s)
    m = g.mesh()
    tol = s["tol"]
    if s.get("single") and tol is not None and tol < 1e-3:
        tol = 1e-3  # the numbers themselves are no better than that of an element far from the origin
    snap = ml.snapshot(m)
    with ctx.sut("connectivity check of a consistent mesh"):
        res = check_call(m, tol)
    ctx.check(bool(res) is True, f"connectivity check of a consistent mesh returned {res!r}")
    unchanged(ctx, snap, m, "the connectivity check")
    # missing conditions
    empty = any(get_bc(m, i, e, f)[0] == "" for i in range(m.nbc) for e in range(m.nel) for f in range(2 * m.ndim))
    if empty:
        ctx.raises(m.check_bcs_present, "check for missing conditions of a mesh with an empty condition", ValueError)
    else:
        with ctx.sut("check for missing conditions"):
            res = m.check_bcs_present()
        ctx.check(bool(res) is True, f"check for missing conditions of a complete mesh returned {res!r}")
    unchanged(ctx, snap, m, "the check for missing conditions")

    # one empty condition in each field in turn
    if m.nbc and not empty and m.nel <= 60:
        for ibc in range(m.nbc):
            e, f = pick(s["asalt"] + ibc, 21, m.nel), pick(s["asalt"] + ibc, 22, 2 * m.ndim)
            b = get_bc(m, ibc, e, f)[0]
            m.elem[e].bcs[ibc, f][0] = ""
            ctx.raises(m.check_bcs_present, f"check for missing conditions with face {f + 1} of element {e + 1} empty in field {ibc}", ValueError)
            m.elem[e].bcs[ibc, f][0] = b
            ctx.label("#single empty conditions refused")

    # alterations, one at a time
    a = s["asalt"]
    kind = s["alter"]
    con = connections(g, m)
    done = False

    def altered(kind, a):
        ibc, e, f = con[pick(a, 1, len(con))]
        b = list(get_bc(m, ibc, e, f))
        if kind == "type":
            new = ["", "W", "P" if b[0] == "E" else "E", "v", "SYM"][pick(a, 2, 5)]
            what = f"type of face {f + 1} of element {e + 1} in field {ibc} changed from {b[0]!r} to {new!r}"
            b[0] = new
        elif kind == "element":
            cand = [v for v in list(range(1, m.nel + 1)) + [0, -1, m.nel + 1, 10 * m.nel + 7] if v != int(b[3])]
            new = cand[pick(a, 2, len(cand))] if pick(a, 3, 3) else [v for v in cand if v < 1 or v > m.nel][pick(a, 2, 4)]
            what = f"target element of face {f + 1} of element {e + 1} in field {ibc} changed from {b[3]} to {new} of {m.nel}"
            b[3] = float(new)
        else:
            cand = [v for v in list(range(1, 2 * m.ndim + 1)) + [0, -1, 2 * m.ndim + 1, 99] if v != int(b[4])]
            new = cand[pick(a, 2, len(cand))]
            what = f"target face of face {f + 1} of element {e + 1} in field {ibc} changed from {b[4]} to {new}"
            b[4] = float(new)
        return ibc, e, f, b, what

    if con and m.nel <= 60:
        for n, k in enumerate(("type", "element", "face")):
            ibc, e, f, b, what = altered(k, a + 1 + n)
            old = list(get_bc(m, ibc, e, f))
            set_bc(m, ibc, e, f, b)
            ctx.raises(lambda: check_call(m, tol), f"connectivity check with {what}", ValueError)
            set_bc(m, ibc, e, f, old)
            ctx.label("#further single alterations refused")
            ctx.nontrivial()
    if kind in ("type", "element", "face") and con:
        ibc, e, f, b, what = altered(kind, a)
        set_bc(m, ibc, e, f, b)
        done = True
    elif kind == "shift":
        inner = connections(g, m, ("E",))
        if inner:
            ibc, e, f = inner[pick(a, 1, len(inner))]
            # the smallest edges of the element and of all its neighbours
            o = int(get_bc(m, ibc, e, f)[3]) - 1
            ref = min(ml.edge_lengths(m.elem[e].pos, m.ndim).min(), ml.edge_lengths(m.elem[o].pos, m.ndim).min())
            u = core.unit(a, 3, 7) * 2 - 1
            if pick(a, 8, 2):
                # along one direction only
                u = np.eye(3)[pick(a, 9, m.ndim)] * [1.0, -1.0][pick(a, 10, 2)]
            if m.ndim == 2:
                u[2] = 0.0
            u /= np.linalg.norm(u) or 1.0
            t = 1e-3 if tol is None else tol
            factor = [2.0 if s.get("single") else 1.3, 2.0, 5.0, 30.0, 1.0 / t][pick(a, 2, 5)]
            for c in range(3):
                m.elem[e].pos[c] += u[c] * factor * t * ref
            what = f"element {e + 1} moved by {factor * t} of the smallest edge ({ref})"
            done = True
            # a displacement within the tolerance is still the same place
            m2 = g.mesh()
            allmin = min(ml.edge_lengths(el.pos, m.ndim).min() for el in m2.elem)
            small = 0.4 * t * allmin
            if small > (3e-6 if s.get("single") else 1e-9) * np.abs(m2.elem[e].pos).max():
                for c in range(3):
                    m2.elem[e].pos[c] += u[c] * small
                with ctx.sut("connectivity check after a displacement within the tolerance"):
                    check_call(m2, tol)
                ctx.label("#displacements within the tolerance")
    elif kind == "cross":
        inner = connections(g, m, ("E",))
        inner = [(i, e, f) for i, e, f in inner if i == (inner[pick(a, 1, len(inner))][0])]
        if inner:
            i, e, f = inner[pick(a, 2, len(inner))]
            o, h = g.conn[(e, f)]
            cand = [(p, q) for _, p, q in inner if (p, q) not in ((e, f), (o, h))]
            if cand:
                p, q = cand[pick(a, 3, len(cand))]
                r, t = g.conn[(p, q)]
                for (x, y), (z, w) in (((e, f), (p, q)), ((o, h), (r, t))):
                    bx, bz = list(get_bc(m, i, x, y)), list(get_bc(m, i, z, w))
                    bx[3:5] = [float(z + 1), float(w + 1)]
                    bz[3:5] = [float(x + 1), float(y + 1)]
                    set_bc(m, i, x, y, bx)
                    set_bc(m, i, z, w, bz)
                what = f"faces {(e + 1, f + 1)} and {(p + 1, q + 1)} (element, face) connected in field {i} although they are not at the same place"
                done = True
    elif kind == "missing" and m.nbc and not empty:
        ibc, e, f = pick(a, 1, m.nbc), pick(a, 2, m.nel), pick(a, 3, 2 * m.ndim)
        m.elem[e].bcs[ibc, f][0] = ""
        snap = ml.snapshot(m)
        ctx.raises(m.check_bcs_present, f"check for missing conditions with face {f + 1} of element {e + 1} empty in field {ibc}", ValueError)
        unchanged(ctx, snap, m, "the check for missing conditions")
        ctx.label("missing condition")
        ctx.nontrivial()
    if done:
        snap = ml.snapshot(m)
        ctx.raises(lambda: check_call(m, tol), f"connectivity check with {what}", ValueError)
        unchanged(ctx, snap, m, "the connectivity check")
        ctx.label(f"altered: {kind}")
        ctx.nontrivial()
    ctx.label("periodic", any("P" in x for x in s["sides"]))
    ctx.label("without conditions", m.nbc == 0)


PROPS["C19"] = Prop(
    "C19", check19, specs19, "one alteration of a consistent mesh was made (it must be refused)",
    examples={"quick": 4000, "thorough": 25000},
    assumptions=["periodic connections are not required to match geometrically", "whole target numbers"],
    fixed=huge.fixed, large={"quick": 6, "thorough": 24},
)


# --------------------------------------------------------------------------- C20
@st.composite
def specs20(draw, tier="quick"):
    big = tier != "quick"
    s = draw(ml.grid_specs(max_n=(5, 4, 3) if big else (4, 3, 3), max_nel=36 if big else 16, min_nbc=draw(st.sampled_from([1, 1, 1, 0])), max_nbc=3, curves=True, high_order=True, stretch=True, fields=True, single=True, scales="wide", large=tier == "large"))
    # (merging two separate large meshes takes minutes: the search is quadratic)
    s["cut"] = draw(st.sampled_from(["plane", "plane", "plane", "plane", "random", "random", "random", *(["separate"] if tier != "large" else [])]))
    wide = [d for d in range(s["dim"]) if s["n"][d] > 1]
    s["axis"] = draw(st.sampled_from(wide or range(s["dim"])))
    s["pglue"] = draw(st.booleans())
    s["msalt"] = draw(st.integers(0, 10**6))
    s["mode"] = draw(st.sampled_from(["default", "default", "default", "default", "all empty too", "all empty too", "ignore"]))
    s["shift"] = draw(st.sampled_from([0.0, 0.0, 0.0, 1e-4, 0.0, 1e-4, 0.2]))
    s["own"] = draw(st.booleans())
    s["refuse"] = draw(st.sampled_from([None, None, None, "dim", "order"]))
    s["blank"] = draw(st.sampled_from([0, 0, 0, 1, 2, 4]))
    s["tight"] = draw(st.sampled_from([False, False, True]))
    ml.keep_apart(s, 1e-2, ends=False)
    return s


def split_mesh(s):
    """Two meshes from one grid, with everything that is expected of the merged one."""
    g = ml.Grid(s)
    nel = g.nel
    if s["cut"] == "plane":
        d = s["axis"]
        at = 1 + pick(s["msalt"], 1, max(1, s["n"][d] - 1))
        part = [int(c[d] >= at) for c in g.cells]
    elif s["cut"] == "random":
        part = [int(v % np.uint64(2)) for v in core.mix(s["msalt"], nel, 2)]
    else:
        part = [0] * nel
    pglue = s["cut"] == "plane" and s["pglue"] and len(set(part)) == 2
    whole = g.mesh()
    whole.elmap = np.array(core.mix(s["msalt"], nel, 4).argsort(kind="stable") + 1, dtype=np.int32)
    members = [[e for e in range(nel) if part[e] == p] for p in (0, 1)]
    local = {}
    for p in (0, 1):
        for i, e in enumerate(members[p]):
            local[e] = i
    meshes = []
    d = s["axis"]

    def far(e, f):
        """The face of the same part at the other end of the column through (e, f) along d."""
        seen = 0
        while True:
            # opposite face of e
            ids = g.face_ids(e, f)
            opp = [h for h in range(2 * g.dim) if not (g.face_ids(e, h) & ids)][0]
            nxt = g.conn.get((e, opp))
            if nxt is None or part[nxt[0]] != part[e]:
                return e, opp
            e, f = nxt
            seen += 1
            assert seen < 100

    glue = []  # ((e, f), (o, h)) with e in part 0
    kind = {}  # (e, f) -> 'E', 'glue', 'P' with partner, 'side'
    for e in range(nel):
        for f in range(2 * g.dim):
            if (e, f) in g.conn:
                o, h = g.conn[(e, f)]
                if part[o] == part[e]:
                    kind[(e, f)] = ("E", (o, h))
                else:
                    kind[(e, f)] = ("glue", None)
                    if part[e] == 0:
                        glue.append(((e, f), (o, h)))
            else:
                kind[(e, f)] = ("side", None)
    if pglue:
        for (a, b) in glue:
            for ef in (a, b):
                other = far(*ef)
                kind[ef] = ("P", other)
                kind[other] = ("P", ef)
    for p in (0, 1):
        m = HexaData(g.dim, len(members[p]), list(whole.lr1), list(whole.var), s["nbc"])
        for i, e in enumerate(members[p]):
            src = whole.elem[e]
            m.elem[i] = copy.deepcopy(src)
            for ibc in range(s["nbc"]):
                for f in range(2 * g.dim):
                    k, other = kind[(e, f)]
                    own = (i + 1, f + 1) if s["own"] else (0, 0)
                    if k == "E":
                        b = ("E", *own, local[other[0]] + 1, other[1] + 1, 0, 0, 0) if s["internal"] else ("", 0, 0, 0, 0, 0, 0, 0)
                    elif k == "P":
                        b = ("P", *own, local[other[0]] + 1, other[1] + 1, 0, 0, 0)
                    elif k == "glue":
                        code = ml.CODES[pick(s["msalt"] + 13 * e + f + 101 * ibc, 8, len(ml.CODES))]
                        b = (code, *own, 0, 0, 0, 0, 0)
                        if s["mode"] == "all empty too" and (e + f + ibc) % 2:
                            b = ("", 0, 0, 0, 0, 0, 0, 0)
                        elif ibc and s["mode"] == "default" and pick(s["msalt"] + 3 * e + f + 7 * ibc, 11, 4) == 0:
                            # another field has a stray periodic condition there
                            b = ("P", *own, i + 1, f + 1, 0, 0, 0)
                    else:
                        full = g.expected_bc(ibc, e, f)
                        if full[0] == "P":
                            o, h = g.partner[(e, f)]
                            # the other end may be in the other part, or taken
                            if part[o] == part[e] and kind[(o, h)][0] == "side":
                                b = ("P", *own, local[o] + 1, h + 1, 0, 0, 0)
                            else:
                                b = ("W", *own, 0, 0, 0, 0, 0)
                        else:
                            b = (full[0], *own) + full[3:]
                    for c, v in enumerate(b):
                        m.elem[i].bcs[ibc, f][c] = v
        m.elmap = np.array(core.mix(s["msalt"] + p, len(members[p]), 5).argsort(kind="stable") + 1, dtype=np.int32)
        m.update_ncurv()
        meshes.append(m)
    if s["mode"] == "default" and not pglue and s.get("blank") and s["nbc"]:
        # faces without a condition count as internal: such a pair is left alone, whichever side lacks it
        left = []
        for n, (a, b) in enumerate(glue):
            which = pick(s["msalt"] + n, 10, 4 * 4) if s["blank"] < 4 else pick(s["msalt"] + n, 10, 4)
            if which >= 3 * s["blank"]:
                left.append((a, b))
                continue
            for (e, f), p in ((a, 0), (b, 1)):
                if which % 3 in (p, 2):
                    for ibc in range(s["nbc"]):
                        for c, v in enumerate(("", 0, 0, 0, 0, 0, 0, 0)):
                            meshes[p].elem[local[e]].bcs[ibc, f][c] = v
        glue = left
    glued = [((local[a[0]], a[1]), (local[b[0]], b[1])) for a, b in glue]
    return g, meshes, glued, pglue


def check20(s, ctx):
    if s.get("huge"):
        return huge.c20(s, ctx)
    if s["cut"] == "separate":
        g = ml.Grid(s)
        A = g.mesh()
        B = g.mesh()
        span = 10 * max(1.0, float(np.ptp(g.xyz, axis=0).max()))
        for el in B.elem:
            el.pos[0] += span
            for k in range(12):
                if el.ccurv[k] == "m":
                    el.curv[k, 0] += span
        glued, pglue = [], False
    else:
        g, (A, B), glued, pglue = split_mesh(s)
    if A.nel == 0 or B.nel == 0:
        if A.nel == 0:
            A, B = B, A
        B = g.mesh()
        span = 10 * max(1.0, float(np.ptp(g.xyz, axis=0).max()))
        for el in B.elem:
            el.pos[0] += span
        glued, pglue = [], False
    dim, nbc = s["dim"], s["nbc"]
    lmin = min(ml.edge_lengths(el.pos, dim).min() for m in (A, B) for el in m.elem)
    lmax = max(ml.edge_lengths(el.pos, dim).min() for m in (A, B) for el in m.elem)
    if s["shift"] and glued:
        for el in B.elem:
            el.pos[pick(s["msalt"], 6, dim)] += s["shift"] * (lmax if s["shift"] > 0.1 else lmin)
        if s["shift"] > 0.1:
            # the parts no longer touch; make sure that no other faces happen to coincide
            glued = []
            fa = np.array([ml.face_centre(el.pos, dim, f) for el in A.elem for f in range(2 * dim)])
            fb = np.array([ml.face_centre(el.pos, dim, f) for el in B.elem for f in range(2 * dim)])
            if np.sqrt(((fa[:, None] - fb[None]) ** 2).sum(-1)).min() < 0.05 * lmax:
                ctx.label("shift skipped")
                return
            pglue = False
    sa, sb = ml.snapshot(A), ml.snapshot(B)
    if s["refuse"]:
        if s["refuse"] == "dim":
            lr = list(A.lr1)
            other = HexaData(5 - dim, 1, [lr[0], lr[0], lr[0] if dim == 2 else 1], [5 - dim, 0, 0, 0, 0], nbc)
        else:
            # another order, in all directions or in one only
            lr = list(A.lr1)
            for d in [range(dim), (0,), (1,), (dim - 1,)][pick(s["msalt"], 9, 4)]:
                lr[d] += 1
            other = HexaData(dim, 1, lr, list(A.var), nbc)
        so = ml.snapshot(other)
        ctx.raises(lambda: A.merge(other), f"merging a mesh of another {s['refuse']}", ValueError)
        unchanged(ctx, sa, A, "a refused merge")
        unchanged(ctx, so, other, "a refused merge")
    kw = {"default": {}, "all empty too": {"ignore_empty": False}, "ignore": {"ignore_all_bcs": True}}[s["mode"]]
    if s.get("tight") and s["shift"] == 1e-4 and not pglue and glued:
        # a tolerance below the gap: nothing coincides
        kw = dict(kw, tol=0.1 * s["shift"] * lmin / lmax)
        glued = []
        ctx.label("gap above the tolerance")
    with ctx.sut("merge"):
        n = A.merge(B, **kw)
    unchanged(ctx, sb, B, "merging it into another mesh (the merged-in mesh)")
    na, nb = len(sa["elem"]), len(sb["elem"])
    if s["mode"] == "ignore" or nbc == 0:
        glued, pglue = [], False
    ctx.check(int(n) == len(glued), lambda: f"merge reports {n} pairs, {len(glued)} pairs of faces coincide")
    ctx.check(A.nel == na + nb and len(A.elem) == na + nb, f"merging {na} and {nb} elements gives nel = {A.nel} and {len(A.elem)} elements")
    ctx.check(A.ncurv == sa["ncurv"] + sb["ncurv"], f"merging {sa['ncurv']} and {sb['ncurv']} curved sides gives {A.ncurv}")
    em = [int(v) for v in A.elmap]
    ctx.check(em == list(sa["elmap"]) + [v + na for v in sb["elmap"]], lambda: f"element map {em} from {sa['elmap']} and {sb['elmap']}")
    after = ml.snapshot(A)
    for k in ("ndim", "nbc", "var", "lr1", "time", "istep", "wdsz", "endian"):
        ctx.check(after[k] == sa[k], f"merge changed {k} from {sa[k]} to {after[k]}")
    for e in range(na + nb):
        src = sa["elem"][e] if e < na else sb["elem"][e - na]
        d = ml.elem_diff(src, after["elem"][e], skip=("bcs",))
        ctx.check(d is None, lambda: f"element {e + 1} of the merged mesh ({na} + {nb}): {d}")
    # conditions
    link = {}
    for (e, f), (o, h) in glued:
        link[(e, f)] = (o + na, h)
        link[(o + na, h)] = (e, f)
    per = {}
    if pglue:
        for (e, f), (o, h) in glued:
            be, bo = get_bc_of(sa, 0, e, f), get_bc_of(sb, 0, o, h)
            p, q = (int(be[3]) - 1, int(be[4]) - 1), (int(bo[3]) - 1 + na, int(bo[4]) - 1)
            per[p] = q
            per[q] = p
    for e in range(na + nb):
        for f in range(6):
            for ibc in range(nbc):
                b = get_bc(A, ibc, e, f)
                src = get_bc_of(sa, ibc, e, f) if e < na else get_bc_of(sb, ibc, e - na, f)
                off = 0 if e < na else na
                if (e, f) in link:
                    o, h = link[(e, f)]
                    ctx.check(b[0] == "E" and b[3:5] == (o + 1, h + 1),
                              lambda: f"glued face {f + 1} of element {e + 1} has condition {b} in field {ibc}, expected a connection to face {h + 1} of element {o + 1}")
                    ctx.check(b[1] in (0, e + 1) and b[2] in (0, f + 1), lambda: f"glued face {f + 1} of element {e + 1} says it belongs to {b[1:3]}")
                elif (e, f) in per:
                    o, h = per[(e, f)]
                    ctx.check(b[0] == "P" and b[3:5] == (o + 1, h + 1),
                              lambda: f"periodic face {f + 1} of element {e + 1} has condition {b} in field {ibc}, expected periodicity with face {h + 1} of element {o + 1}")
                else:
                    exp = list(src)
                    if exp[1] > 0:
                        exp[1] += off
                    if exp[0] in ("E", "P"):
                        exp[3] += off
                    ctx.check(b == tuple(exp), lambda: f"face {f + 1} of element {e + 1} (of {na} + {nb}) has condition {b} in field {ibc}, expected {tuple(exp)}")
    ctx.label("glued pairs", len(glued) > 0)
    ctx.label("periodic faces glued", pglue and len(glued) > 0)
    ctx.label("some coinciding faces without condition", bool(s.get("blank")) and s["mode"] == "default" and nbc > 0 and s["cut"] != "separate" and not pglue)
    ctx.label(f"mode {s['mode']}")
    ctx.label("not touching", not glued)
    ctx.label("refused", bool(s["refuse"]))
    ctx.nontrivial(len(glued) > 0)


def get_bc_of(snap, ibc, e, f):
    return snap["elem"][e]["bcs"][1][ibc * 6 + f]


PROPS["C20"] = Prop(
    "C20", check20, specs20, "at least one pair of faces is to be glued",
    examples={"quick": 2000, "thorough": 12000},
    assumptions=["both meshes have the same number of condition fields", "a periodic face is glued only to a periodic face",
                 "faces touch to 1e-4 of the smallest edge or are at least 5% of it apart"],
    fixed=lambda t: huge.fixed(t) + huge.fixed(t, swap=True), large={"quick": 6, "thorough": 24},
)


# --------------------------------------------------------------------------- C21
@st.composite
def specs21(draw, tier="quick"):
    big = tier != "quick"
    s = draw(ml.grid_specs(max_n=(5, 5, 4) if big else (4, 4, 3), max_nel=60 if big else 24, max_nbc=3, curves=True, high_order=True, stretch=True, fields=True, single=True, mixed=True, scales="wide", large=tier == "large"))
    s["ksalt"] = draw(st.integers(0, 10**6))
    s["share"] = draw(st.sampled_from([4, 6, 2, 7, 1, 8, 0]))
    s["ext"] = draw(st.sampled_from([None, "", "W", "con", "SYM"]))
    s["form"] = draw(st.sampled_from(["list", "array", "tuple", "shuffled", "reversed", "shuffled array", "int32 array"]))
    s["refuse"] = draw(st.booleans())
    s["twice"] = draw(st.booleans())
    return s


def reduce_once(ctx, m, elems, form, ext, salt, what):
    before = ml.snapshot(m)
    dim, nbc = int(m.ndim), int(m.nbc)
    arg = list(elems)
    if form == "reversed":
        arg = arg[::-1]
    elif form in ("shuffled", "shuffled array", "int32 array"):
        arg = [arg[i] for i in core.mix(salt, len(arg), 3).argsort(kind="stable")]
    if form.endswith("array"):
        arg = np.array(arg, dtype=np.int32 if "32" in form else int)
    elif form == "tuple":
        arg = tuple(arg)
    held = copy.copy(list(arg))
    with ctx.sut(what):
        if ext is None:
            keep_elements(m, arg)
        else:
            keep_elements(m, arg, external_bc=ext)
    ctx.check(list(arg) == held, f"{what}: the list of elements given was changed")
    new = {e: i for i, e in enumerate(elems)}
    ctx.check(len(m.elem) == len(elems), f"{what}: keeping {len(elems)} elements leaves {len(m.elem)}")
    ml.check_counts(ctx, m, what)
    after = ml.snapshot(m)
    for k in ("ndim", "nbc", "var", "lr1", "time", "istep", "wdsz", "endian"):
        ctx.check(after[k] == before[k], f"{what}: {k} changed from {before[k]} to {after[k]}")
    removed = 0
    for e, i in new.items():
        d = ml.elem_diff(before["elem"][e], after["elem"][i], skip=("bcs",))
        ctx.check(d is None, lambda: f"{what}: element {e} (now {i}): {d}")
        for ibc in range(nbc):
            for f in range(6):
                src = get_bc_of(before, ibc, e, f)
                b = get_bc(m, ibc, i, f)
                exp = list(src)
                if f >= 2 * dim:
                    ctx.check(b[0] == "", lambda: f"{what}: face {f + 1} of a 2D element has condition {b}")
                    continue
                exp[1] = i + 1
                if src[0] in ("E", "P"):
                    o = int(src[3]) - 1
                    if o in new:
                        exp[3] = float(new[o] + 1)
                    else:
                        exp[0] = ext or ""
                        exp[3] = exp[4] = 0.0
                        removed += 1
                        if b[5:] == (0.0, 0.0, 0.0):
                            exp[5:] = b[5:]  # whether the numbers behind go too is left open
                ok = b == tuple(exp) or (b[1] == 0 and exp[0] == "" and b[0] == "" and b[2:] == tuple(exp)[2:])
                ctx.check(ok, lambda: f"{what}: face {f + 1} of element {e} (now {i}) has condition {b} in field {ibc}, expected {tuple(exp)}")
    return removed


def check21(s, ctx):
    if s.get("huge"):
        return huge.c21(s, ctx)
    g = ml.Grid(s)
    m = g.mesh()
    m.elmap = np.array(core.mix(s["ksalt"], m.nel, 4).argsort(kind="stable") + 1, dtype=np.int32)
    for e, el in enumerate(m.elem):
        for ibc in range(s["nbc"]):
            for f in range(2 * g.dim):
                if el.bcs[ibc, f][0] in ("E", "P") and core.mix(s["ksalt"] + 7 * e + f, 1, 11)[0] % np.uint64(5) == 0:
                    # connections of files hold other numbers too
                    el.bcs[ibc, f][5 + (e + f) % 3] = 0.5
    if s["refuse"]:
        snap = ml.snapshot(m)
        bad = m.nel + [0, 1, 5][pick(s["ksalt"], 1, 3)]
        some = [e for e in range(m.nel) if core.mix(s["ksalt"] + e, 1, 2)[0] % np.uint64(2)]
        ctx.raises(lambda: keep_elements(m, some + [bad]), f"keeping element {bad} of {m.nel}", ValueError)
        unchanged(ctx, snap, m, "a refused reduction")
        ctx.label("refused")
    h = core.mix(s["ksalt"], g.nel, 8) % np.uint64(8)
    elems = [e for e in range(g.nel) if h[e] < s["share"]]
    ctx.label("empty set", not elems)
    removed = reduce_once(ctx, m, elems, s["form"], s["ext"], s["ksalt"], f"keeping elements {elems} of {g.nel}")
    if s["twice"] and len(elems) > 1:
        h = core.mix(s["ksalt"] + 1, len(elems), 9) % np.uint64(4)
        again = [e for e in range(len(elems)) if h[e]]
        removed += reduce_once(ctx, m, again, "list", s["ext"], s["ksalt"], f"then keeping elements {again} of {len(elems)}")
    ctx.label("connections cut", removed > 0)
    ctx.nontrivial(removed > 0 and len(elems) > 0)


PROPS["C21"] = Prop(
    "C21", check21, specs21, "some elements are kept and some connection to a removed one is replaced",
    examples={"quick": 4000, "thorough": 20000}, assumptions=["element numbers are distinct and not negative"],
    fixed=lambda t: huge.fixed(t) + huge.fixed(t, front=True), large={"quick": 6, "thorough": 24},
)


# --------------------------------------------------------------------------- C22
@st.composite
def specs22(draw, tier="quick"):
    big = tier != "quick"
    s = draw(ml.grid_specs(max_n=(5, 4, 3) if big else (4, 3, 3), max_nel=40 if big else 18, min_nbc=draw(st.sampled_from([1, 1, 1, 1, 1, 0])), max_nbc=3, curves=True, high_order=True, stretch=True, fields=True,
                           internal=True, single=True, mixed=True, scales="wide", large=tier == "large"))
    s["dsalt"] = draw(st.integers(0, 10**6))
    s["clear"] = draw(st.sampled_from(["pairs", "all", "boundary", "half", "pairs", "all", "none"]))
    s["jitter"] = draw(st.sampled_from([0.0, 0.0, 1e-5]))
    s["tol"] = draw(st.sampled_from([None, None, 1e-3, 1e-2, 0.05]))
    s["zero"] = draw(st.one_of(st.none(), st.integers(0, ml.nedges(s["dim"]) - 1)))
    ml.keep_apart(s, s["tol"] or 1e-3)
    if draw(st.integers(0, 3)) == 0:
        # cells at an end thinner than the tolerance of their neighbours, with open outer faces
        d, end = draw(st.integers(0, s["dim"] - 1)), draw(st.sampled_from([0, -1]))
        if s["n"][d] > 1:
            thin = 0.3 * (s["tol"] or 1e-3) * min(min(h) for k, h in enumerate(s["lines"]) if k != d)
            s["lines"][d][end] = float(f"{max(thin, 1e-6):.2g}")
            s["lines"][d] = [max(v, 1.0) if i != end % s["n"][d] else v for i, v in enumerate(s["lines"][d])]
            s["clear"] = "ends"
            s["single"] = False
    return s


EMPTY = ("", 0, 0, 0.0, 0.0, 0.0, 0.0, 0.0)


def check22(s, ctx):
    if s.get("huge"):
        return huge.c22(s, ctx)
    g = ml.Grid(s)
    m = g.mesh()
    dim, nbc = g.dim, s["nbc"]
    salt = s["dsalt"]
    for e, el in enumerate(m.elem):
        for ibc in range(nbc):
            for f in range(2 * dim):
                if el.bcs[ibc, f][0] in ("E", "P") and core.mix(salt + 7 * e + f, 1, 1)[0] % np.uint64(4) == 0:
                    # connections of files hold other numbers too
                    el.bcs[ibc, f][5 + (e + f) % 3] = 0.5
    # deletion, also where some fields have no internal conditions, or fewer
    md = copy.deepcopy(m)
    for ibc in range(nbc):
        lose = [0, 0, 0, 1, 4][pick(salt + ibc, 12, 5)]
        for e, f in g.conn:
            if core.mix(salt + 5 * e + f + ibc, 1, 13)[0] % np.uint64(4) < lose:
                set_bc(md, ibc, e, f, EMPTY)
        if pick(salt + ibc, 14, 5) == 0:
            # a field without any condition
            for e in range(m.nel):
                for f in range(2 * dim):
                    set_bc(md, ibc, e, f, EMPTY)
    full = ml.snapshot(md)
    ne = sum(get_bc_of(full, i, e, f)[0] == "E" for i in range(nbc) for e in range(m.nel) for f in range(2 * dim))
    with ctx.sut("deleting the internal conditions"):
        n = delete_internal_bcs(md)
    ctx.check(int(n) == ne, f"deletion reports {n} conditions, there were {ne}")
    after = ml.snapshot(md)
    for e in range(m.nel):
        d = ml.elem_diff(full["elem"][e], after["elem"][e], skip=("bcs",))
        ctx.check(d is None, lambda: f"deleting internal conditions, element {e + 1}: {d}")
        for ibc in range(nbc):
            for f in range(6):
                src = get_bc_of(full, ibc, e, f)
                b = get_bc_of(after, ibc, e, f)
                exp = EMPTY if src[0] == "E" else src
                ctx.check(b == exp, lambda: f"deleting internal conditions: face {f + 1} of element {e + 1} in field {ibc}: {src} became {b}")
    for k in after:
        ctx.check(k == "elem" or after[k] == full[k], f"deleting internal conditions changed {k}")
    with ctx.sut("deleting again"):
        n = delete_internal_bcs(md)
    ctx.check(int(n) == 0, f"a second deletion reports {n} conditions")

    # a mesh in which only some faces lack conditions
    w = copy.deepcopy(m)
    if s["clear"] == "all":
        delete_internal_bcs(w)
    pairs = sorted({tuple(sorted((a, b))) for a, b in g.conn.items()})
    open_pairs = []
    for k, (a, b) in enumerate(pairs):
        r = int(core.mix(salt + k, 1, 2)[0] % np.uint64(6))
        if s["clear"] in ("pairs", "boundary", "half", "ends") and r < 3 or s["clear"] == "all":
            for ef in (a, b):
                for ibc in range(nbc):
                    set_bc(w, ibc, *ef, EMPTY)
            if s["clear"] == "half" and r == 0:
                # a condition on one side only: a wall inside the domain
                for ibc in range(nbc):
                    set_bc(w, ibc, *a, ("W", a[0] + 1, a[1] + 1, 0, 0, 0, 0, 0))
            else:
                open_pairs.append((a, b))
    if s["clear"] in ("boundary", "ends"):
        for (e, f) in g.side:
            if s["clear"] == "ends" or core.mix(salt + 31 * e + f, 1, 3)[0] % np.uint64(3) == 0:
                for ibc in range(nbc):
                    set_bc(w, ibc, e, f, EMPTY)
    if s["jitter"]:
        lmin = min(ml.edge_lengths(el.pos, dim).min() for el in w.elem)
        for e, el in enumerate(w.elem):
            u = (core.unit(salt + e, 3, 4) * 2 - 1) * s["jitter"] * lmin
            for c in range(dim):
                el.pos[c] += u[c]
    if s["zero"] is not None:
        z = copy.deepcopy(w)
        e = pick(salt, 5, z.nel)
        el = z.elem[e]
        a, b = ml.EDGES[s["zero"]]
        (z1, y1, x1), (z2, y2, x2) = a, b
        el.pos[:, -z2, -y2, -x2] = el.pos[:, -z1, -y1, -x1]
        before = ml.snapshot(z)
        ctx.raises(lambda: generate_internal_bcs(z), f"generating conditions with edge {s['zero']} of element {e + 1} of zero length", ValueError)
        unchanged(ctx, before, z, "a refused generation")
        ctx.label("edge of zero length")
    before = ml.snapshot(w)
    with ctx.sut("generating the internal conditions"):
        n = generate_internal_bcs(w) if s["tol"] is None else generate_internal_bcs(w, s["tol"])
    ctx.check(int(n) == nbc * len(open_pairs), f"generation reports {n} connections; {len(open_pairs)} pairs of faces in {nbc} fields were open")
    after = ml.snapshot(w)
    link = {}
    for a, b in open_pairs:
        link[a] = b
        link[b] = a
    for e in range(m.nel):
        d = ml.elem_diff(before["elem"][e], after["elem"][e], skip=("bcs",))
        ctx.check(d is None, lambda: f"generating internal conditions, element {e + 1}: {d}")
        for ibc in range(nbc):
            for f in range(6):
                b = get_bc_of(after, ibc, e, f)
                if (e, f) in link:
                    o, h = link[(e, f)]
                    exp = ("E", e + 1, f + 1, o + 1.0, h + 1.0, 0.0, 0.0, 0.0)
                else:
                    exp = get_bc_of(before, ibc, e, f)
                ctx.check(b == exp, lambda: f"generating internal conditions: face {f + 1} of element {e + 1} in field {ibc} has {b}, expected {exp}")
    for k in after:
        ctx.check(k == "elem" or after[k] == before[k], f"generating internal conditions changed {k}")
    with ctx.sut("generating again"):
        n = generate_internal_bcs(w)
    ctx.check(int(n) == 0, f"a second generation reports {n} connections")
    ctx.label(f"cleared: {s['clear']}")
    ctx.label("open pairs", len(open_pairs) > 0)
    ctx.nontrivial(len(open_pairs) > 0)


PROPS["C22"] = Prop(
    "C22", check22, specs22, "at least one pair of coinciding faces is to be connected",
    examples={"quick": 2500, "thorough": 12000},
    assumptions=["faces coincide to 2e-5 of the smallest edge"],
    fixed=huge.fixed, large={"quick": 6, "thorough": 24},
)
