"""C25 gen_box, C26 gen_circle, C27 map2D, C28 rotate_2d."""

import copy
import math

import numpy as np
from hypothesis import strategies as st

import core
import huge
import meshlib as ml
from checks import Prop
from checks.connect import get_bc, pick, unchanged
from checks.extrusion import mid_of
from pymech.meshtools import gen_box, gen_circle, map2D, rotate_2d

PROPS = {}


# --------------------------------------------------------------------------- C25
@st.composite
def specs25(draw, tier="quick"):
    big = 5 if tier == "quick" else 12
    order = [2, 3, 1, 4] + list(range(5, big + 1))
    var = draw(st.one_of(st.none(), st.tuples(st.just(2), st.sampled_from([2, 0]), st.integers(0, 1), st.integers(0, 1), st.integers(0, 3)).map(list)))
    v = var or [2, 2, 1, 0, 0]
    nbc = (v[1] > 0) + (v[3] > 0) + v[4]
    sides = []
    for _ in range(2):
        if draw(st.integers(0, 2)) == 0:
            sides += draw(st.sampled_from([[None, None], [None, ["P"] * nbc], [["P"] * nbc, None], [["P"] * nbc, ["P"] * nbc]]))
        else:
            a, b = [], []
            for _k in range(nbc):
                if draw(st.integers(0, 3)) == 0:
                    a.append("P")
                    b.append("P")
                else:
                    a.append(draw(st.sampled_from(ml.CODES)))
                    b.append(draw(st.sampled_from(ml.CODES)))
            sides += [a, b]
    return {
        "nx": draw(st.sampled_from(order if tier != "large" else [17, 40, 130, 2])), "ny": draw(st.sampled_from(order if tier != "large" else [12, 20, 1])), "var": var, "sides": sides,
        "xmin": draw(st.sampled_from([0.0, -1.0, 2.5, -100.0, 1e-3])), "ymin": draw(st.sampled_from([0.0, -3.0, 0.7, 1e4])),
        "lx": draw(st.sampled_from([1.0, 0.1, 7.3, 1000.0])), "ly": draw(st.sampled_from([1.0, 0.3, 2.0, 55.0])),
        "unit": draw(st.sampled_from([1.0, 1.0, 1.0, 1e-10, 3e6])),
        "internal": draw(st.sampled_from([True, None, False])), "ints": draw(st.booleans()), "vform": draw(st.sampled_from(["list", "tuple"])),
        "refuse": draw(st.sampled_from([None, None, "x0", "x-", "y0", "y-"])),
    }


def check25(s, ctx):
    if s.get("huge"):
        return huge.c25(s, ctx)
    nx, ny = s["nx"], s["ny"]
    x0, y0 = s["xmin"], s["ymin"]
    lx, ly = s["lx"], s["ly"]
    if s["ints"]:
        x0, y0, lx, ly = int(x0), int(y0), max(1, int(lx)), max(1, int(ly))
    elif s.get("unit"):
        x0, y0, lx, ly = (v * s["unit"] for v in (x0, y0, lx, ly))
    x1, y1 = x0 + lx, y0 + ly
    lx, ly = x1 - x0, y1 - y0
    kw = {}
    var = s["var"]
    if var is not None:
        kw["var"] = list(var) if s["vform"] == "list" else tuple(var)
    v = var or [2, 2, 1, 0, 0]
    nbc = (v[1] > 0) + (v[3] > 0) + v[4]
    for name, b in zip(("bcs_xmin", "bcs_xmax", "bcs_ymin", "bcs_ymax"), s["sides"]):
        if b is not None:
            kw[name] = list(b)
    if s["internal"] is not None:
        kw["internal_bcs"] = s["internal"]
    internal = s["internal"] is not False
    hold = copy.deepcopy(kw)
    if s["refuse"]:
        a = [x0, x1, y0, y1]
        k = 0 if s["refuse"][0] == "x" else 2
        a[k + 1] = a[k] if s["refuse"][1] == "0" else a[k] - 1
        ctx.raises(lambda: gen_box(nx, ny, *a, **kw), f"box over {a}", ValueError)
        ctx.label("refused")
    with ctx.sut("generating a box"):
        m = gen_box(nx, ny, x0, x1, y0, y1, **kw)
        ctx.check(int(m.ndim) == 2 and list(m.lr1) == [2, 2, 1] and list(m.var) == list(v) and int(m.nbc) == nbc,
                  lambda: f"box has ndim {m.ndim}, lr1 {m.lr1}, var {m.var} (requested {v}), {m.nbc} condition fields (expected {nbc})")
        ctx.check(len(m.elem) == nx * ny, lambda: f"box of {nx} by {ny} has {len(m.elem)} elements")
        ml.check_counts(ctx, m, "box")
    ctx.check(kw == hold, lambda: f"gen_box changed its arguments: {hold} became {kw}")
    ctx.check(int(m.ncurv) == 0, f"box has {m.ncurv} curved sides")
    tol = 1e-12 * np.array([max(abs(x0), abs(x1)), max(abs(y0), abs(y1)), 0.0])
    P = [b is None or None for b in s["sides"]]
    sides = [b if b is not None else ["P"] * nbc for b in s["sides"]]
    del P
    for j in range(ny):
        for i in range(nx):
            e = i + nx * j
            el = m.elem[e]
            for name, k in (("vel", 3), ("pres", v[2]), ("temp", v[3]), ("scal", v[4])):
                a = getattr(el, name)
                ctx.check(a.shape == (k, 1, 2, 2) and not a.any(), lambda: f"{name} of element {e + 1} has shape {a.shape}, variables {v}")
            for y in (0, 1):
                for x in (0, 1):
                    exp = np.array([x0 + lx * (i + x) / nx, y0 + ly * (j + y) / ny, 0.0])
                    ctx.check((np.abs(el.pos[:, 0, y, x] - exp) <= tol).all(), lambda: f"corner {x, y} of element {e + 1} ({i}, {j}) is {el.pos[:, 0, y, x]}, expected {exp}")
            near = [(i, j - 1, 2), (i + 1, j, 3), (i, j + 1, 0), (i - 1, j, 1)]
            side = [2, 1, 3, 0]  # bottom, right, top, left in the order xmin, xmax, ymin, ymax
            opp = [(i, ny - 1, 3), (0, j, 4), (i, 0, 1), (nx - 1, j, 2)]
            for f in range(6):
                for ibc in range(nbc):
                    b = get_bc(m, ibc, e, f)
                    if f >= 4:
                        exp = ("", 0, 0, 0.0, 0.0, 0.0, 0.0, 0.0)
                    else:
                        p, q, h = near[f]
                        if 0 <= p < nx and 0 <= q < ny:
                            exp = ("E", e + 1, f + 1, float(p + nx * q + 1), float(h + 1), 0.0, 0.0, 0.0) if internal else ("", 0, 0, 0.0, 0.0, 0.0, 0.0, 0.0)
                        else:
                            t = sides[side[f]][ibc]
                            exp = (t, e + 1, f + 1, 0.0, 0.0, 0.0, 0.0, 0.0)
                            if t == "P":
                                p, q, h = opp[f]
                                exp = (t, e + 1, f + 1, float(p + nx * q + 1), float(h), 0.0, 0.0, 0.0)
                    ctx.check(b == exp, lambda: f"face {f + 1} of element {e + 1} ({i}, {j} of {nx}, {ny}) has condition {b} in field {ibc}, expected {exp}")
    # neighbours share their corners exactly enough for the tools that glue by geometry
    ml.check_positive(ctx, m, "box")
    ml.check_conforming(ctx, m, "box", internal=internal, rel=1e-6)
    total = ml.total_volume(m)
    ctx.check(abs(total / (lx * ly) - 1) < 1e-8 + 1e-9 * max(abs(x0) / lx, abs(y0) / ly), f"elements cover {total}, the rectangle is {lx * ly}")
    with ctx.sut("connectivity check of the box"):
        m.check_connectivity()
        if internal and nbc:
            m.check_bcs_present()
    ctx.label("default sides", any(b is None for b in s["sides"]))
    ctx.label("several fields", nbc > 1)
    ctx.label("one element wide", nx == 1 or ny == 1)
    ctx.nontrivial(nx * ny > 1 and nbc > 0)


PROPS["C25"] = Prop(
    "C25", check25, specs25, "more than one element and at least one condition field",
    examples={"quick": 4000, "thorough": 20000}, assumptions=["periodic conditions are requested on both sides of a pair"],
    fixed=huge.fixed, large={"quick": 6, "thorough": 24},
)


# --------------------------------------------------------------------------- C26
CURV = {
    "default": None,
    "linear": lambda x: x,
    "square": lambda x: x * x,
    "sine": lambda x: math.sin(0.5 * math.pi * x),
}
BL = {
    "default": None,
    "linear": lambda x: x,
    "fine outside": lambda x: 1 - (1 - x) ** 1.5,
    "fine inside": lambda x: x**1.3,
}


@st.composite
def specs26(draw, tier="quick"):
    big = 5 if tier == "quick" else 9
    some = {"ns": [2, 3, 1] + list(range(4, big + 1)), "no": [2, 3, 1, 4] + list(range(5, big + 2))}
    if tier == "large":
        some = draw(st.sampled_from([{"ns": [17, 12, 19], "no": [2, 1, 3]}, {"ns": [17, 12, 19], "no": [2, 1, 3]}, {"ns": [2, 1], "no": [30, 70, 130]}, {"ns": [8], "no": [10]}]))
    nbc = draw(st.sampled_from([1, 2, 3, 0, None]))
    s = {
        "r": draw(st.sampled_from([1.0, 0.5, 12.0, 1e-3, 300.0, 1e-5, 1e5])), "s": draw(st.floats(0.25, 0.75).map(lambda v: round(v, 3))),
        "ns": draw(st.sampled_from(some["ns"])), "no": draw(st.sampled_from(some["no"])),
        "curv": draw(st.sampled_from(list(CURV))), "bl": draw(st.sampled_from(["default", "default"] + list(BL))),
        "internal": draw(st.sampled_from([True, None, True, False])),
        "bc": None if nbc is None else [draw(st.sampled_from(ml.CODES)) for _ in range(nbc)],
        "var": draw(st.one_of(st.none(), ml.var_lists(2))),
    }
    return s


def in_domain26(s):
    """The default grid spacing starts with elements as large as those of the square: they must fit."""
    if s["bl"] != "default" or s["no"] == 1:
        return True
    first, total = s["s"] * math.sqrt(2) / s["ns"], 1 - s["s"] * math.sqrt(0.5)
    if first >= 0.8 * total:
        return False
    # nor may the layers become so thin that rounding matters
    lo, hi = 0.0, 2.0
    for _ in range(60):
        a = 0.5 * (lo + hi)
        lo, hi = (a, hi) if first * sum(a**k for k in range(s["no"])) < total else (lo, a)
    return lo ** s["no"] > 1e-4


def check26(s, ctx):
    if not in_domain26(s):
        s = dict(s, bl="linear")
    r, ns, no = s["r"], s["ns"], s["no"]
    kw = {}
    if s["bc"] is not None:
        kw["bc"] = list(s["bc"])
    if s["var"] is not None:
        kw["var"] = list(s["var"])
    if s["internal"] is not None:
        kw["internal_bcs"] = s["internal"]
    if s["curv"] != "default":
        kw["curvature_fun"] = CURV[s["curv"]]
    if s["bl"] != "default":
        kw["bl_fun"] = BL[s["bl"]]
    hold = copy.deepcopy(kw)
    internal = s["internal"] is not False
    bc = s["bc"] if s["bc"] is not None else ["W"]
    v = s["var"] or [2, 2, 1, 0, 0]
    with ctx.sut("generating a circle"):
        m = gen_circle(r, s["s"], ns, no, **kw)
        ctx.check(int(m.ndim) == 2 and list(m.lr1) == [2, 2, 1] and list(m.var) == list(v) and int(m.nbc) == len(bc),
                  lambda: f"circle has ndim {m.ndim}, lr1 {m.lr1}, var {m.var} (requested {v}), {m.nbc} condition fields (expected {len(bc)})")
        ml.check_counts(ctx, m, "circle")
    ctx.check(kw == hold, "gen_circle changed its arguments")
    n = ns * (ns + 4 * no)
    ctx.check(len(m.elem) == n, lambda: f"circle with ns = {ns}, no = {no} has {len(m.elem)} elements, expected {n}")
    ml.check_positive(ctx, m, "circle")

    def outer(e, f, ibc):
        return bc[ibc]

    bf = ml.check_conforming(ctx, m, "circle", internal=internal, boundary=outer)
    ctx.check(len(bf) == 4 * ns, lambda: f"the circle has {len(bf)} outer edges, expected {4 * ns}")
    bset = set(bf)
    area = ml.total_volume(m)
    for e, el in enumerate(m.elem):
        for name, k in (("vel", 3), ("pres", v[2]), ("temp", v[3]), ("scal", v[4])):
            a = getattr(el, name)
            ctx.check(a.shape == (k, 1, 2, 2) and not a.any(), lambda: f"{name} of element {e + 1} has shape {a.shape}, variables {v}")
        for c in range(12):
            if (e, c) in bset:
                ctx.check(el.ccurv[c] == "C" and abs(el.curv[c, 0] / r - 1) < 1e-9 and not el.curv[c, 1:].any(), lambda: f"outer edge {c + 1} of element {e + 1} has curvature {el.ccurv[c]!r} {el.curv[c]}")
                (a, b) = ml.EDGES[c]
                pa, pb = ml.corner(el.pos, a), ml.corner(el.pos, b)
                for p in (pa, pb):
                    ctx.check(abs(np.hypot(p[0], p[1]) / r - 1) < 1e-9, lambda: f"outer vertex {p} is not on the circle of radius {r}")
                L = np.linalg.norm(pb - pa)
                t = 2 * math.asin(min(1.0, L / (2 * r)))
                area += 0.5 * r * r * (t - math.sin(t))
            else:
                ctx.check(el.ccurv[c] == "" and not el.curv[c].any(), lambda: f"inner edge {c + 1} of element {e + 1} has curvature {el.ccurv[c]!r} {el.curv[c]}")
        ctx.check(not el.pos[2].any(), lambda: f"element {e + 1} has z different from zero")
    ctx.check(abs(area / (math.pi * r * r) - 1) < 1e-8, lambda: f"the elements cover {area}, the disc has {math.pi * r * r}")
    ctx.check(int(m.ncurv) == 4 * ns, f"circle has {m.ncurv} curved sides, expected {4 * ns}")
    # corners that belong together are the same up to rounding
    nodes = np.array([ml.corner(el.pos, c)[:2] for el in m.elem for c in ((0, 0, 0), (0, 0, 1), (0, 1, 1), (0, 1, 0))]) / r
    near = np.abs(nodes[:, None] - nodes[None]).max(-1) <= 1e-10 if len(nodes) <= 4000 else None
    if near is not None:
        got = int(round(float((1.0 / near.sum(1)).sum())))
        want = (ns + 1) ** 2 + 4 * ns * no
        ctx.check(got == want, lambda: f"the mesh has {got} different vertices, expected {want}: corners of neighbours differ by more than rounding")
    # quarter turns map the mesh to itself
    pts = np.array([[ml.corner(el.pos, c)[:2] for c in ((0, 0, 0), (0, 0, 1), (0, 1, 1), (0, 1, 0))] for el in m.elem])
    h = min(ml.edge_lengths(el.pos, 2).min() for el in m.elem)
    key = lambda P: {frozenset((round(float(x) / (0.1 * h) + 0.137), round(float(y) / (0.1 * h) + 0.071)) for x, y in q) for q in P}  # noqa: E731
    centres = pts.mean(axis=1)
    turned = np.stack([-centres[:, 1], centres[:, 0]], axis=1)
    d = np.sqrt(((centres[:, None] - turned[None]) ** 2).sum(-1)).min(axis=0)
    ctx.check(d.max() <= 1e-6 * h, lambda: f"a quarter turn of the element at {centres[int(d.argmax())]} is not an element (next one at a distance of {d.max()})")
    allv = pts.reshape(-1, 2)
    tv = np.stack([-allv[:, 1], allv[:, 0]], axis=1)
    d = np.sqrt(((allv[:, None] - tv[None]) ** 2).sum(-1)).min(axis=0)
    ctx.check(d.max() <= 1e-6 * h, lambda: f"a quarter turn of the vertex {allv[int(d.argmax())]} is not a vertex")
    del key
    # the square in the middle: ns x ns equal squares of total diagonal 2 s r
    side = s["s"] * r * math.sqrt(2)
    inside = [q for q in pts if np.abs(q).max() <= 0.5 * side * (1 + 1e-9)]
    ctx.check(len(inside) == ns * ns, lambda: f"{len(inside)} elements are in the inner square of diagonal {2 * s['s'] * r}, expected {ns * ns}")
    box = np.array(inside).reshape(-1, 2)
    ctx.check(np.abs(np.ptp(box, axis=0) - side).max() <= 1e-9 * r, lambda: f"the inner square measures {np.ptp(box, axis=0)}, expected {side}")
    for q in inside:
        ctx.check(np.abs(np.ptp(q, axis=0) - side / ns).max() <= 1e-9 * r, lambda: f"element {q.tolist()} of the inner square is not a square of side {side / ns}")
    layers26(s, ctx, allv, side)
    with ctx.sut("connectivity check of the circle"):
        m.check_connectivity()
        if internal and bc:
            m.check_bcs_present()
    ctx.label("default spacing", s["bl"] == "default")
    ctx.label("several fields", len(bc) > 1)
    ctx.label("no internal conditions", not internal)
    ctx.label("one layer", no == 1)
    ctx.nontrivial(ns > 1)


def layers26(s, ctx, allv, side):
    """The layers around the square: along a diagonal they follow bl_fun, in the middle of a side they are bent by curvature_fun."""
    r, q, ns, no = s["r"], s["s"], s["ns"], s["no"]
    scale = allv / r
    diag = scale[(np.abs(scale[:, 0] - scale[:, 1]) <= 1e-9) & (scale[:, 0] > 0)]
    at = np.unique(np.round((np.hypot(diag[:, 0], diag[:, 1]) - q) / (1 - q), 9))
    at = at[at >= -1e-8]
    ctx.check(len(at) == no + 1, lambda: f"{len(at)} vertices on the diagonal from the square to the circle, expected {no + 1} (relative places {at})")
    bl = BL[s["bl"]]
    if bl is not None:
        want = np.array([bl(j / no) for j in range(no + 1)])
        ctx.check(np.abs(at - want).max() <= 1e-8, lambda: f"layers along the diagonal at {at}, bl_fun puts them at {want}")
    elif no > 2:
        d = np.diff(at)
        f = d[1:] / d[:-1]
        ctx.check(np.ptp(f) <= (1e-6 + 8e-9 / d.min()) * f.max(), lambda: f"widths {d} of the layers along the diagonal do not grow by a constant factor")
    if ns % 2 == 0:
        axis = scale[(np.abs(scale[:, 1]) <= 1e-9) & (scale[:, 0] > 0)][:, 0]
        a, width = q * math.sqrt(0.5), (1 - q) * math.sqrt(0.5)
        got = np.unique(np.round(axis[axis >= a - 1e-8], 9))
        ctx.check(len(got) == no + 1, lambda: f"{len(got)} vertices in the middle of a side from the square to the circle, expected {no + 1}")
        if bl is None and no > 1:
            ctx.check(abs(got[1] - got[0] - side / r / ns) <= 1e-6, lambda: f"by default the first layer should be as wide as the cells of the square ({side / r / ns}), but is {got[1] - got[0]} wide (in radii)")
        cf = CURV[s["curv"]] or (lambda x: math.sin(0.5 * math.pi * x) ** 2)
        eta = np.array([cf(x) for x in at])
        want = a + at * ((1 - eta) * width + eta * (1 - a))
        ctx.check(np.abs(got - want).max() <= 1e-7, lambda: f"layers in the middle of a side at {got} radii, expected {want} from the curvature function")


PROPS["C26"] = Prop(
    "C26", check26, specs26, "more than one element per side of the square",
    examples={"quick": 1200, "thorough": 2500},
    assumptions=["curvature and spacing functions increase from 0 at 0 to 1 at 1",
                 "with the default spacing the first element is smaller than the distance from square to circle"],
    large={"quick": 16, "thorough": 24},
)


# --------------------------------------------------------------------------- C27
def transformation(t):
    kind, a, b, c, d, scale = t["kind"], t["a"], t["b"], t["c"], t["d"], t["scale"]

    def lin(x, y):
        return (1.5 + a) * x + b * y + c, -b * x + (1.2 + d) * y - c

    def wave(x, y):
        return x + 0.1 * a * scale * math.sin(y / scale + c), y + 0.1 * b * scale * math.cos(x / scale)

    def swirl(x, y):
        rho = 0.05 * a * (x * x + y * y) / scale**2
        return x * math.cos(rho) - y * math.sin(rho), x * math.sin(rho) + y * math.cos(rho)

    def quad(x, y):
        return x + 0.02 * a * y * y / scale, y - 0.03 * b * x * x / scale + c

    def turn(x, y):
        return -y, x

    return {"lin": lin, "wave": wave, "swirl": swirl, "quad": quad, "turn": turn}[kind]


@st.composite
def transformations(draw, scale):
    u = st.floats(-1.0, 1.0).map(lambda v: round(v, 3))
    return {"kind": draw(st.sampled_from(["wave", "lin", "swirl", "quad", "turn"])), "a": draw(u), "b": draw(u), "c": draw(u), "d": draw(u), "scale": scale}


def add_spheres(m, salt):
    """Turn some circular edges into spherical ones of the same arc."""
    n = 0
    for e, el in enumerate(m.elem):
        for c in range(ml.nedges(int(m.ndim))):
            if el.ccurv[c] == "C" and core.mix(salt + 13 * e + c, 1, 71)[0] % np.uint64(2):
                (a, b) = ml.EDGES[c]
                pa, pb = ml.corner(el.pos, a), ml.corner(el.pos, b)
                R = float(el.curv[c, 0])
                d = pb - pa
                L = math.hypot(d[0], d[1])
                nrm = np.array([d[1], -d[0], 0.0]) / L
                cen = 0.5 * (pa + pb) - math.copysign(math.sqrt(R * R - L * L / 4), R) * nrm
                el.ccurv[c] = "s"
                el.curv[c] = [cen[0], cen[1], cen[2], 0.0, abs(R)]
                n += 1
    return n


@st.composite
def specs27(draw, tier="quick"):
    big = tier != "quick"
    s = draw(ml.grid_specs(dims=(2,), max_n=(6, 5) if big else (4, 3), max_nel=30 if big else 12, max_nbc=3, curves=True, fields=True, mixed=True, scales="wide", large=tier == "large"))
    s["t"] = draw(transformations(s["scale"]))
    s["curvature"] = draw(st.sampled_from([False, True, None]))
    s["boundary"] = draw(st.sampled_from([True, False, None]))
    s["sphere"] = draw(st.booleans())
    return s


def check27(s, ctx):
    if s.get("huge"):
        return huge.c27(s, ctx)
    g = ml.Grid(s)
    m = g.mesh()
    if s["sphere"]:
        ctx.label("spherical edges", add_spheres(m, s["salt"]) > 0)
    nbc = s["nbc"]
    T = transformation(s["t"])
    kw = {}
    if s["curvature"] is not None:
        kw["curvature"] = s["curvature"]
    if s["boundary"] is not None:
        kw["boundary_curvature"] = s["boundary"]
    every, bound = s["curvature"] is not False, s["boundary"] is not False
    snap = ml.snapshot(m)
    with ctx.sut("mapping"):
        r = map2D(m, T, **kw)
        ml.check_counts(ctx, r, "mapped mesh")
    unchanged(ctx, snap, m, "mapping it (the original)")
    ctx.check(r is not m, "mapping returned the mesh itself")
    after = ml.snapshot(r)
    for k in after:
        ctx.check(k in ("elem", "ncurv") or after[k] == snap[k], lambda: f"mapping changed {k} from {snap[k]} to {after[k]}")
    ctx.check(len(r.elem) == m.nel, "mapping changed the number of elements")
    size = max(np.abs(el.pos).max() for el in r.elem)
    changed = 0
    for e, (el, src) in enumerate(zip(r.elem, m.elem)):
        d = ml.elem_diff(snap["elem"][e], after["elem"][e], skip=("pos", "curv", "ccurv"))
        ctx.check(d is None, lambda: f"mapping, element {e + 1}: {d}")
        for y in (0, 1):
            for x in (0, 1):
                p = src.pos[:, 0, y, x]
                exp = T(float(p[0]), float(p[1]))
                q = el.pos[:, 0, y, x]
                ctx.check(max(abs(q[0] - exp[0]), abs(q[1] - exp[1])) <= 1e-13 * size and q[2] == p[2], lambda: f"vertex {p} of element {e + 1} is mapped to {q}, expected {exp}")
        for c in range(12):
            if c >= 4:
                ctx.check(el.ccurv[c] == src.ccurv[c] and np.array_equal(el.curv[c], src.curv[c]), lambda: f"edge {c + 1} of element {e + 1} changed")
                continue
            boundary_face = nbc > 0 and get_bc(m, 0, e, c)[0] not in ("", "E")
            want = every or src.ccurv[c] != "" or (bound and boundary_face)
            if not want:
                ctx.check(el.ccurv[c] == "" and np.array_equal(el.curv[c], src.curv[c]), lambda: f"edge {c + 1} of element {e + 1} got curvature {el.ccurv[c]!r} {el.curv[c]}, it was not to be curved")
                continue
            changed += 1
            ctx.check(el.ccurv[c] == "m", lambda: f"edge {c + 1} of element {e + 1} (type {src.ccurv[c]!r}, condition {get_bc(m, 0, e, c)[0] if nbc else None!r}) has type {el.ccurv[c]!r} after mapping with {kw}")
            mid = mid_of(src, 2, c)
            exp = T(float(mid[0]), float(mid[1]))
            ctx.check(max(abs(el.curv[c, 0] - exp[0]), abs(el.curv[c, 1] - exp[1])) <= 1e-9 * size,
                      lambda: f"edge {c + 1} of element {e + 1} (type {src.ccurv[c]!r}) has its midpoint at {el.curv[c, :2]}, the image of the midpoint {mid[:2]} is {exp}")
            if src.ccurv[c] != "s":
                ctx.check(not el.curv[c, 2:].any(), lambda: f"edge {c + 1} of element {e + 1} has parameters {el.curv[c]}")
    # independence
    for el in r.elem:
        for a in (el.pos, el.vel, el.pres, el.temp, el.scal, el.curv):
            a[...] = 3.0
        for c in range(12):
            el.ccurv[c] = "z"
        for ibc in range(nbc):
            for f in range(6):
                el.bcs[ibc, f][0] = "zz"
    r.elmap[...] = 0
    unchanged(ctx, snap, m, "modifying the mapped mesh (the original)")
    ctx.label("all edges", every)
    ctx.label("boundary edges only", not every and bound)
    ctx.label("curved edges only", not every and not bound)
    ctx.label("already curved", snap["ncurv"] > 0)
    ctx.nontrivial(changed > 0 and s["t"]["kind"] != "turn")


PROPS["C27"] = Prop(
    "C27", check27, specs27, "a midpoint is mapped by something else than a quarter turn",
    examples={"quick": 4000, "thorough": 15000}, assumptions=["at least one condition field if only boundary edges are to be curved", "edge directions: circular edges as in C30"],
    fixed=huge.fixed, large={"quick": 6, "thorough": 24},
)


# --------------------------------------------------------------------------- C28
@st.composite
def specs28(draw, tier="quick"):
    big = tier != "quick"
    s = draw(ml.grid_specs(max_n=(5, 4, 3) if big else (3, 3, 2), max_nel=24 if big else 9, max_nbc=2, curves=True, fields=True, high_order=True, mixed=True, scales="wide", large=tier == "large"))
    ang = st.one_of(st.floats(-7, 7).map(lambda v: round(v, 3)), st.sampled_from([math.pi / 2, math.pi, -math.pi / 2, math.pi / 4, 0.0]))
    s["a"] = draw(ang)
    s["b"] = draw(ang)
    s["cx"] = draw(st.sampled_from([1.5, 0.0, -2.0, 10.0, 0.3]))
    s["cy"] = draw(st.sampled_from([-0.5, 0.0, 4.0, 1.0]))
    s["sphere"] = draw(st.booleans())
    s["extra"] = draw(st.booleans())
    return s


def rotate_points(p, cx, cy, t):
    """p: (3, ...)"""
    z = (p[0] - cx) + 1j * (p[1] - cy)
    z = z * complex(math.cos(t), math.sin(t))
    return np.stack([z.real + cx, z.imag + cy, p[2]])


def compare28(ctx, m, ref, snap, t, cx, cy, what, size):
    after = ml.snapshot(m)
    for k in after:
        ctx.check(k == "elem" or after[k] == snap[k], lambda: f"{what} changed {k} from {snap[k]} to {after[k]}")
    tol = 1e-12 * size
    for e, (el, src) in enumerate(zip(m.elem, ref.elem)):
        d = ml.elem_diff(snap["elem"][e], after["elem"][e], skip=("pos", "curv"))
        ctx.check(d is None, lambda: f"{what}, element {e + 1}: {d}")
        exp = rotate_points(src.pos, cx, cy, t)
        ctx.check(np.abs(el.pos - exp).max() <= tol, lambda: f"{what}: a point of element {e + 1} is {np.abs(el.pos - exp).max()} off (mesh of size {size})")
        ctx.check(np.array_equal(el.pos[2], src.pos[2]), lambda: f"{what} changed z of element {e + 1}")
        for c in range(12):
            k = src.ccurv[c]
            q, p = el.curv[c], src.curv[c]
            if k in ("m", "s"):
                exp = np.concatenate([rotate_points(p[:3], cx, cy, t), p[3:]])
                ctx.check(np.abs(q - exp).max() <= tol and np.array_equal(q[2:], p[2:]), lambda: f"{what}: edge {c + 1} of element {e + 1} of type {k!r} has parameters {q}, expected {exp}")
            else:
                ctx.check(np.array_equal(q, p), lambda: f"{what}: parameters of edge {c + 1} of element {e + 1} of type {k!r} changed from {p} to {q}")


def check28(s, ctx):
    if s.get("huge"):
        return huge.c28(s, ctx)
    g = ml.Grid(s)
    ref = g.mesh()
    if s["sphere"]:
        ctx.label("spherical edges", add_spheres(ref, s["salt"]) > 0)
    if s.get("extra"):
        # parameters without a meaning for the type of the edge
        for e, el in enumerate(ref.elem):
            noise = core.values(s["salt"] + e, 60, "real", 71).reshape(12, 5)
            for c in range(12):
                used = {"m": slice(0, 3), "C": slice(0, 1), "s": slice(0, 5), "": slice(0, 0)}[str(el.ccurv[c])]
                keep = el.curv[c, used].copy()
                el.curv[c] = noise[c]
                el.curv[c, used] = keep
    snap = ml.snapshot(ref)
    cx, cy = s["cx"] * s["scale"], s["cy"] * s["scale"]
    size = max(np.abs(el.pos).max() for el in ref.elem) + abs(cx) + abs(cy)
    m = copy.deepcopy(ref)
    with ctx.sut("rotation"):
        res = rotate_2d(m, cx, cy, s["a"])
    ctx.check(res is None or res is m, "rotation returned something else")
    compare28(ctx, m, ref, snap, s["a"], cx, cy, f"rotation by {s['a']} about {cx, cy}", size)
    n = copy.deepcopy(m)
    with ctx.sut("second rotation"):
        rotate_2d(n, cx, cy, s["b"])
    compare28(ctx, n, ref, snap, s["a"] + s["b"], cx, cy, f"rotation by {s['a']}, then {s['b']} about {cx, cy}", size * 3)
    with ctx.sut("rotation back"):
        rotate_2d(m, cx, cy, -s["a"])
    compare28(ctx, m, ref, snap, 0.0, cx, cy, f"rotation by {s['a']} and back about {cx, cy}", size * 3)
    ctx.label("centre not at the origin", cx != 0 or cy != 0)
    ctx.label("curved", snap["ncurv"] > 0)
    ctx.label("3D", s["dim"] == 3)
    ctx.nontrivial(s["a"] != 0 and (cx != 0 or cy != 0))


PROPS["C28"] = Prop(
    "C28", check28, specs28, "a rotation by an angle that is not zero about a point that is not the origin",
    examples={"quick": 4000, "thorough": 15000},
    fixed=huge.fixed, large={"quick": 6, "thorough": 24},
)
