"""Meshes of linear elements with arbitrary contents, for the mesh file formats: spec -> plain description -> HexaData."""

import numpy as np
from hypothesis import strategies as st

import core
import meshlib as ml

CODES3 = ["W", "v", "O", "SYM", "on", "T", "f", "ON", "mv", "A", "P", "ms", "t", "I", "vl", "msi", "a", "N", "mvn", "ffl", "EL", "PS", "e", "p"]
LETTERS = ["m", "C", "s", "e"]


@st.composite
def soup_specs(draw, max_nel=7, max_nbc=4, min_nbc=0, modes=("tag", "real", "wild")):
    dim = draw(st.sampled_from([2, 3]))
    return {
        "dim": dim,
        "nel": draw(st.sampled_from([*range(1, max_nel + 1), *range(2, max_nel + 1)])),
        "nbc": draw(st.sampled_from([1, 2, 3, 1, 2, *range(min_nbc, max_nbc + 1)])),
        "salt": draw(st.integers(0, 10**6)),
        "mode": draw(st.sampled_from(list(modes))),
        "endian": draw(st.sampled_from(["little", "big"])),
        # densities in tenths
        "curved": draw(st.sampled_from([1, 5, 0, 10])),
        "empty": draw(st.sampled_from([2, 5, 0, 10])),
        "inner": draw(st.sampled_from([0, 3, 8])),
        "late": draw(st.booleans()),
        "ncurv_stale": draw(st.booleans()),
        "z": draw(st.booleans()),
        "tuples": draw(st.sampled_from([False, False, True])),
    }


def describe(spec):
    """{dim, pos (nel,3,lz,2,2), curves [(iel, iedge, params, letter)], bcs [per field {(iel, iface): (type, params)}]}"""
    dim, nel, salt, mode = spec["dim"], spec["nel"], spec["salt"], spec["mode"]
    lz = dim - 1
    vals = "real" if mode == "text" else mode
    pos = core.values(salt, nel * 3 * lz * 4, vals, 1).reshape(nel, 3, lz, 2, 2).copy()
    if dim == 2:
        pos[:, 2] = 0.0
    curves = []
    ne = ml.nedges(dim)
    pick = core.mix(salt, nel * ne, 2).reshape(nel, ne)
    par = core.values(salt, nel * ne * 5, vals, 3).reshape(nel, ne, 5)
    for e in range(nel):
        for g in range(ne):
            h = int(pick[e, g])
            if h % 10 < spec["curved"] and not (spec["late"] and e < nel // 2):
                curves.append((e, g, par[e, g], LETTERS[(h >> 8) % len(LETTERS)]))
    bcs = []
    for f in range(spec["nbc"]):
        pick = core.mix(salt + 7 * f, nel * 2 * dim, 4).reshape(nel, 2 * dim)
        par = core.values(salt + 7 * f, nel * 2 * dim * 5, vals, 5).reshape(nel, 2 * dim, 5)
        cond = {}
        for e in range(nel):
            for k in range(2 * dim):
                h = int(pick[e, k])
                if h % 10 < spec["empty"] or (spec["late"] and e < nel // 2):
                    continue
                h >>= 8
                if h % 10 < spec["inner"]:
                    # connected to some element
                    cond[(e, k)] = ("E", np.array([1.0 + (h >> 4) % nel, 1.0 + (h >> 20) % (2 * dim), 0.0, 0.0, 0.0]))
                else:
                    t = CODES3[(h >> 8) % len(CODES3)]
                    p = par[e, k]
                    if t == "P":
                        p = np.array([1.0 + (h >> 4) % nel, 1.0 + (h >> 20) % (2 * dim), p[2], p[3], p[4]])
                    # without parameters, or (periodic) without a partner
                    if (h >> 28) % 4 == 0:
                        p = np.zeros(5)
                    elif (h >> 28) % 4 == 1:
                        p = np.array([0.0, *p[1:]])
                    cond[(e, k)] = (t, p)
        bcs.append(cond)
    return {"dim": dim, "pos": pos, "curves": curves, "bcs": bcs}


def build(spec, d):
    from pymech.core import HexaData

    dim, nel = spec["dim"], spec["nel"]
    m = HexaData(dim, nel, [2, 2, dim - 1], [dim, 0, 0, 0, 0], spec["nbc"])
    m.endian = spec["endian"]
    if spec.get("tuples"):
        m.lr1, m.var = tuple(m.lr1), tuple(m.var)
    for e, el in enumerate(m.elem):
        el.pos[...] = d["pos"][e]
        if dim == 2 and spec["z"]:
            el.pos[2] = 0.0
    for e, g, p, letter in d["curves"]:
        m.elem[e].curv[g, :] = p
        m.elem[e].ccurv[g] = letter
    m.ncurv = 0 if spec["ncurv_stale"] else len(d["curves"])
    for f, cond in enumerate(d["bcs"]):
        for (e, k), (t, p) in cond.items():
            b = m.elem[e].bcs[f, k]
            b[0], b[1], b[2] = t, e + 1, k + 1
            for j in range(5):
                b[3 + j] = p[j]
    return m


def labels(ctx, spec, d):
    ctx.label("3D", spec["dim"] == 3)
    ctx.label("big-endian", spec["endian"] == "big")
    ctx.label("curved edges", bool(d["curves"]))
    ctx.label("several condition fields", spec["nbc"] > 1)
    ctx.label("no condition field", spec["nbc"] == 0)
    ctx.label("a field without external conditions", any(all(t == "E" for t, _ in c.values()) for c in d["bcs"]))
    ctx.label("three-letter conditions", any(len(t) == 3 for c in d["bcs"] for t, _ in c.values()))
    ctx.label("thousand elements", spec["nel"] >= 1000)


def rich(spec, d):
    return spec["nel"] > 1 and len(d["curves"]) > 0 and any(len(c) > 1 for c in d["bcs"])


def expect(ctx, m, spec, d, what, conv=float, keep_e=False, nbc=None):
    """The mesh m against the description. conv: rounding of the format. keep_e: internal conditions survive."""
    dim, nel = d["dim"], len(d["pos"])
    nbc = len(d["bcs"]) if nbc is None else nbc
    ctx.check(int(m.ndim) == dim, f"{what}: ndim {m.ndim}")
    ctx.check(int(m.nel) == nel and len(m.elem) == nel, f"{what}: nel {m.nel}, {len(m.elem)} elements, expected {nel}")
    ctx.check(list(m.lr1) == [2, 2, dim - 1], f"{what}: lr1 {m.lr1}")
    ctx.check(list(m.var) == [dim, 0, 0, 0, 0], f"{what}: var {m.var}")
    ctx.check([int(v) for v in m.elmap] == list(range(1, nel + 1)), f"{what}: elmap {m.elmap}")
    ctx.check(int(m.ncurv) == len(d["curves"]), f"{what}: ncurv {m.ncurv}, expected {len(d['curves'])}")
    ctx.check(int(m.nbc) == nbc, f"{what}: nbc {m.nbc}, expected {nbc}")
    vec = np.vectorize(conv, otypes=[float])
    pos = vec(d["pos"])
    pos[:, dim:] = 0.0
    curves = {(e, g): (p, c) for e, g, p, c in d["curves"]}
    who = range(nel)
    if nel > 5000:
        # all points, everything else of a sample with both ends and the places where numbers get another digit
        got = np.array([el.pos for el in m.elem])
        ctx.check(core.same_bits(got, pos), lambda: f"{what}: points: {core.first_diff(got, pos)} (got, expected; element, component, z, y, x)")
        who = sorted({e + k for e in (0, 999, 9999, 99999, 999999, nel - 1) for k in range(-30, 31) if 0 <= e + k < nel} | {int(v) for v in core.mix(spec["salt"], 1000, 77) % np.uint64(nel)})
        kinds = np.array([[c != "" for c in el.ccurv] for el in m.elem])
        ctx.check({(int(e), int(g)) for e, g in np.argwhere(kinds)} == set(curves), f"{what}: other edges are curved")
    for e in who:
        el = m.elem[e]
        ctx.check(
            core.same_bits(el.pos, pos[e]), lambda: f"{what}: points of element {e + 1}: {core.first_diff(el.pos, pos[e])} (got, expected; component, z, y, x)"
        )
        cc, cv = [""] * 12, np.zeros((12, 5))
        for g in range(12):
            if (e, g) in curves:
                cv[g] = vec(curves[(e, g)][0])
                cc[g] = curves[(e, g)][1]
        ctx.check([str(c) for c in el.ccurv] == cc, lambda: f"{what}: curvature types of element {e + 1} are {el.ccurv}, expected {cc}")
        ctx.check(core.same_bits(el.curv, cv), lambda: f"{what}: curvature of element {e + 1}: {core.first_diff(el.curv, cv)} (got, expected)")
        ctx.check(el.bcs.shape == (nbc, 6), f"{what}: conditions of element {e + 1} have shape {el.bcs.shape}")
        for f in range(nbc):
            for k in range(6):
                exp = ("", 0, 0, 0.0, 0.0, 0.0, 0.0, 0.0)
                if f < len(d["bcs"]) and (e, k) in d["bcs"][f]:
                    t, p = d["bcs"][f][(e, k)]
                    if t != "E" or keep_e:
                        exp = (t, e + 1, k + 1) + tuple(conv(v) for v in p)
                got = ml.bc_tuple(el.bcs[f, k])
                ctx.check(
                    got[:3] == exp[:3] and core.same_bits(got[3:], exp[3:]),
                    lambda: f"{what}: condition of face {k + 1} of element {e + 1} in field {f} is {got}, expected {exp}",
                )
