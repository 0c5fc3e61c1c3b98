"""C17 limits, C18 element geometry, C29 refinement parameter, C30 edge midpoints and circles."""

import math
import re

import numpy as np
from hypothesis import strategies as st

import core
import fieldlib as fl
import meshlib as ml
from checks import Prop
from pymech.core import HexaData
from pymech.meshtools import edge_circle, edge_mid, exponential_refinement_parameter

PROPS = {}

DTYPES = ["float64", "float64", "float64", "float32"]


@st.composite
def data_specs(draw, tier="quick"):
    """Meshes as bags of elements holding data, of any order and any variables."""
    dim = draw(st.sampled_from([2, 3, 3]))
    big = 6 if tier == "quick" else 9
    same = draw(st.booleans())
    lr = [draw(st.integers(2, big)) for _ in range(3)]
    if same:
        lr = [lr[0]] * 3
    return {
        "dim": dim, "nel": draw(st.one_of(st.just(1), st.integers(1, 8)) if tier != "large" else st.sampled_from([257, 1100, 2050])), "lr1": [lr[0], lr[1], lr[2] if dim == 3 else 1],
        "var": [dim, draw(st.sampled_from([0, dim])), draw(st.integers(0, 1)), draw(st.integers(0, 1)), draw(st.integers(0, 4))],
        "salt": draw(st.integers(0, 10**6)), "dtype": draw(st.sampled_from(DTYPES)),
        "sign": draw(st.sampled_from([-1, 0, 0, 1])), "ties": draw(st.sampled_from([0, 0, 1, 2])), "inf": draw(st.sampled_from([False, False, False, True])), "scale": draw(st.sampled_from([1.0, 1e-6, 1e6])),
        "nbc": draw(st.integers(0, 2)), "layout": draw(st.sampled_from(fl.LAYOUTS)),
    }


ARRAYS = ("pos", "vel", "pres", "temp", "scal")


def fill(spec, name, e, shape):
    n = int(np.prod(shape))
    v = core.values(spec["salt"] + 17 * e, n, "real", 3 + ARRAYS.index(name))
    if spec.get("ties"):
        # few different values: 1, 2, 3 or just 1, also as minima and maxima of several elements
        v = 1.0 + np.abs(np.rint(v)) % 3 if spec["ties"] == 1 else np.ones(n)
        v = v * (spec["sign"] or 1)
    elif spec["sign"]:
        v = np.abs(v) * spec["sign"]
    v = v * spec["scale"]
    if spec.get("inf"):
        h = core.mix(spec["salt"] + 31 * e + ARRAYS.index(name), 3, 8)
        if n and h[0] % np.uint64(3) == 0:
            v[int(h[1] % np.uint64(n))] = math.inf if h[2] % np.uint64(2) else -math.inf
    return v.reshape(shape)


def data_mesh(spec):
    m = HexaData(spec["dim"], spec["nel"], list(spec["lr1"]), list(spec["var"]), spec["nbc"], spec["dtype"])
    for e, el in enumerate(m.elem):
        for k, name in enumerate(ARRAYS):
            a = getattr(el, name)
            n = spec["var"][k]
            if a.size:
                a[:n] = fill(spec, name, e, a.shape)[:n]
            setattr(el, name, fl.relayout(a, spec.get("layout", "c")))
    return m


def true_limits(m):
    out = {}
    for name in ARRAYS:
        per = []
        ncomp = getattr(m.elem[0], name).shape[0]
        for c in range(ncomp):
            lo, hi = math.inf, -math.inf
            for el in m.elem:
                for v in getattr(el, name)[c].reshape(-1).tolist():
                    lo = min(lo, v)
                    hi = max(hi, v)
            per.append((lo, hi))
        out[name] = tuple(per)
    return out


def same_limits(ctx, m, what):
    exp = true_limits(m)
    with ctx.sut(f"{what}: reading the limits"):
        lims = m.lims
        got = {k: getattr(lims, k) for k in ARRAYS}
    for k in ARRAYS:
        g = got[k]
        ctx.check(isinstance(g, tuple) and all(isinstance(p, tuple) and len(p) == 2 for p in g), lambda: f"{what}: limits of {k} are {g!r}")
        ctx.check(all(type(v) is float for p in g for v in p), lambda: f"{what}: limits of {k} are not plain floats: {g!r}")
        ctx.check(g == exp[k], lambda: f"{what}: limits of {k} are {g}, the true extrema are {exp[k]}")
    return lims


def check17(spec, ctx):
    m = data_mesh(spec)
    lims = same_limits(ctx, m, "mesh")
    held = {k: getattr(lims, k) for k in ARRAYS}
    # cannot be assigned
    for name in ARRAYS + ("_variables", "other"):
        ctx.raises(lambda: setattr(lims, name, ((0.0, 1.0),) * 3), f"assigning {name} of the limits", AttributeError)
    ctx.raises(lambda: setattr(m, "lims", None), "assigning the limits of the mesh", AttributeError)
    same_limits(ctx, m, "after the refused assignments")
    # textual summary
    with ctx.sut("text of the mesh"):
        text = repr(m)
        short = repr(m.lims)
    for what, t in (("mesh", text), ("limits", short)):
        for c, name in enumerate("xyz"):
            hit = re.findall(rf"^\s*\*\s*{name}:\s*\(([^,]*),([^,]*)\)\s*$", t, re.M)
            ctx.check(len(hit) == 1, lambda: f"text of the {what} has no single line with the limits of {name}: {t!r}")
            lo, hi = (float(v) for v in hit[0])
            ctx.check((lo, hi) == held["pos"][c], lambda: f"text of the {what} gives limits {lo, hi} for {name}, expected {held['pos'][c]}")
    # follow later changes: move one point of one variable outside, then back inside
    which = [k for k in range(5) if spec["var"][k]]
    pick = core.mix(spec["salt"], 6, 91)
    for t in range(2):
        k = which[int(pick[3 * t] % np.uint64(len(which)))]
        e = int(pick[3 * t + 1] % np.uint64(spec["nel"]))
        a = getattr(m.elem[e], ARRAYS[k])
        i = int(pick[3 * t + 2] % np.uint64(a[: spec["var"][k]].size))
        idx = np.unravel_index(i, a.shape)
        ref = held[ARRAYS[k]][idx[0]]
        span = max(abs(ref[0]), abs(ref[1]), 1e-3 * spec["scale"])
        for v in (ref[1] + span, ref[0] - span, 0.5 * (ref[0] + ref[1])):
            a[idx] = v if not math.isnan(v) else 0.0  # inf - inf
            same_limits(ctx, m, f"after changing {ARRAYS[k]} of element {e} at {[int(q) for q in idx]}")
    ctx.check({k: getattr(lims, k) for k in ARRAYS} == held, "limits obtained before a change were altered by it")
    ctx.label("one element", spec["nel"] == 1)
    ctx.label("several elements", spec["nel"] > 1)
    ctx.label("all of one sign", spec["sign"] != 0)
    ctx.label("scalars", spec["var"][4] > 1)
    ctx.nontrivial(spec["sign"] != 0 or spec["nel"] > 1)


def strategy17(tier):
    return data_specs(tier)


FIXED17 = [
    {"dim": d, "nel": n, "lr1": [3, 2, 2 if d == 3 else 1], "var": [d, d, 1, 1, 2], "salt": s, "dtype": "float64", "sign": sg, "scale": 1.0, "nbc": 1}
    for d in (2, 3) for n in (1, 2) for sg in (-1, 0, 1) for s in (1, 2)
]
PROPS["C17"] = Prop(
    "C17", check17, strategy17,
    "several elements or data all of one sign (so that a zero used as start value would show)",
    examples={"quick": 1200, "thorough": 12000}, fixed=lambda t: FIXED17,
    assumptions=["NaN values are out of domain"],
    large={"quick": 6, "thorough": 24},
)


# --------------------------------------------------------------------------- C18
@st.composite
def element_specs(draw, tier="quick"):
    s = draw(data_specs(tier))
    s["short"] = draw(st.one_of(st.none(), st.integers(0, ml.nedges(s["dim"]) - 1)))
    s["ratio"] = draw(st.sampled_from([0.0, 0.01, 0.3]))
    s["flat"] = draw(st.booleans())
    return s


def element_mesh(s):
    s = {**s, "ties": 0, "inf": False}
    m = data_mesh({**s, "sign": 0})
    for e, el in enumerate(m.elem):
        # corners of comparable size, anything inside
        u = core.unit(s["salt"] + e, 3 * 8, 55).reshape(3, 2, 2, 2) * 2 - 1
        p = u * s["scale"]
        if s["dim"] == 2:
            p = p[:, :1]
            if s["flat"]:
                p[2] = 0.0
        el.pos[...] = fill(s, "pos", e, el.pos.shape) if not s["flat"] else 0.0
        zz = (0, -1) if s["dim"] == 3 else (0,)
        for z, a in enumerate(zz):
            for y in (0, 1):
                for x in (0, 1):
                    el.pos[:, a, -y, -x] = p[:, z, y, x]
        if s["short"] is not None:
            (a, b) = ml.EDGES[s["short"]]
            pa, pb = ml.corner(el.pos, a), ml.corner(el.pos, b)
            z, y, x = b
            el.pos[:, -z, -y, -x] = pa + s["ratio"] * 0.1 * (pb - pa)
    return m


def check18(s, ctx):
    m = element_mesh(s)
    snap = ml.snapshot(m)
    dim = s["dim"]
    eps = 1e-12 if s["dtype"] == "float64" else 1e-5
    for e, el in enumerate(m.elem):
        size = np.abs(el.pos).max()
        for f in range(6):
            pts = [ml.corner(el.pos, c) for c in ml.FACES3[f]]
            exp = np.mean(pts, axis=0)
            if dim == 2 and f < 4:
                exp = ml.face_centre(el.pos, 2, f)
            with ctx.sut(f"centre of face {f}"):
                got = np.array([float(v) for v in el.face_center(f)])
            ctx.check(np.abs(got - exp).max() <= eps * size, lambda: f"centre of face {f} of element {e} is {got}, the mean of its corners is {exp}")
        with ctx.sut("smallest edge"):
            got = float(el.smallest_edge())
        exp = float(ml.edge_lengths(el.pos, dim).min())
        ctx.check(abs(got - exp) <= (1e-12 if eps < 1e-6 else 1e-5) * size + 1e-12 * exp, lambda: f"smallest edge of element {e} is {got}, expected {exp}")
        with ctx.sut("centroid"):
            got = np.asarray(el.centroid, dtype=np.float64)
            text = repr(el)
        exp = el.pos.astype(np.float64).reshape(3, -1).mean(axis=1)
        ctx.check(got.shape == (3,) and np.abs(got - exp).max() <= eps * size * 10, lambda: f"centroid of element {e} is {got}, expected {exp}")
        ctx.check(isinstance(text, str), "text of an element")
    lx, ly, lz = s["lr1"]
    with ctx.sut("point list"):
        got = np.asarray(m.get_points())
    ctx.check(got.shape == (s["nel"], lx * ly * lz, 3), lambda: f"point list has shape {got.shape}, expected {(s['nel'], lx * ly * lz, 3)}")
    for e, el in enumerate(m.elem):
        i = 0
        for z in range(lz):
            for y in range(ly):
                for x in range(lx):
                    ctx.check(tuple(got[e, i].tolist()) == tuple(float(v) for v in el.pos[:, z, y, x]),
                              lambda: f"point {i} of element {e} is {got[e, i]}, expected {el.pos[:, z, y, x]}")
                    i += 1
    got[...] = -1.5
    d = ml.snap_diff(snap, ml.snapshot(m))
    ctx.check(d is None, lambda: f"the queries or a change of the point list changed the mesh: {d}")
    ctx.label("2D", dim == 2)
    ctx.label("high order", max(s["lr1"]) > 2)
    ctx.label("chosen smallest edge", s["short"] is not None)
    ctx.nontrivial(s["short"] is not None or max(s["lr1"]) > 2)


FIXED18 = [
    {"dim": d, "nel": 1, "lr1": [k, k + (k > 2), (k + 2 * (k > 2)) if d == 3 else 1], "var": [d, 0, 0, 0, 0], "salt": 5 + k, "dtype": "float64", "sign": 0,
     "scale": 1.0, "nbc": 0, "short": g, "ratio": 0.01, "flat": False}
    for d in (2, 3) for k in (2, 3) for g in range(ml.nedges(d))
]
PROPS["C18"] = Prop(
    "C18", check18, element_specs,
    "an element with interior points or one whose smallest edge was chosen",
    examples={"quick": 2400, "thorough": 12000}, fixed=lambda t: FIXED18,
    large={"quick": 6, "thorough": 24},
)


# --------------------------------------------------------------------------- C29
@st.composite
def specs29(draw, tier="quick"):
    n = draw(st.one_of(st.integers(2, 6), st.integers(2, 60), st.integers(2, 1000)))
    kind = draw(st.sampled_from(["above", "below", "near", "exact", "alpha"]))
    u = draw(st.floats(0.0, 1.0))
    if kind == "above":
        ratio = n * 10.0 ** (3 * u)
    elif kind == "below":
        ratio = 1.0001 * (n / 1.0001) ** u
    elif kind == "near":
        ratio = n * (1 + (2 * draw(st.integers(0, 1)) - 1) * 10.0 ** (-8 * u - 1))
    elif kind == "exact":
        ratio = float(n)
    else:
        # from a chosen alpha, so that the answer is known
        a = 0.5 + u
        ratio = math.fsum(a**k for k in range(n))
        if not 1.0001 <= ratio <= 1000 * n:
            ratio = float(n)
            kind = "exact"
    return {"n": n, "ratio": ratio, "l0": draw(st.sampled_from([1.0, 0.125, 3e-4, 7.0, 1e5])), "kind": kind, "unit": draw(st.sampled_from([1000.0, 0.3048, 1e-6, 2.0]))}


def check29(s, ctx):
    n, l0 = s["n"], s["l0"]
    ltot = s["ratio"] * l0
    with ctx.sut("refinement parameter"):
        a = float(exponential_refinement_parameter(l0, ltot, n))
    ctx.check(math.isfinite(a) and a > 0, f"alpha is {a}")
    total = math.fsum(l0 * a**k for k in range(n))
    # the sum amplifies an error on alpha up to n - 1 times; what is found is good to 3e-11
    tol = 1e-9 if abs(a - 1) > 1.999e-6 else 1e-10
    ctx.check(abs(total / ltot - 1) <= tol, lambda: f"alpha = {a!r}: the spacings add up to {total!r}, not {ltot!r} (n = {n}, l0 = {l0})")
    if s["kind"] == "exact":
        ctx.check(abs(a - 1) <= 1e-9, f"alpha is {a!r} for equal spacings")
    else:
        d = ltot / (n * l0) - 1
        if abs(d) > 1e-8:
            ctx.check((a > 1) == (d > 0), lambda: f"alpha is {a!r} although total / (n l0) - 1 = {d}")
    with ctx.sut("refinement parameter in other units"):
        b = float(exponential_refinement_parameter(l0 * s["unit"], ltot * s["unit"], n))
    ctx.check(abs(b - a) <= 1e-8 * max(1.0, a), lambda: f"alpha is {a!r}, but {b!r} when lengths are given in units {s['unit']} times smaller")
    ctx.label(s["kind"])
    ctx.nontrivial(s["kind"] != "exact")


FIXED29 = [{"n": n, "ratio": r * n, "l0": 1.0, "kind": "grid", "unit": 10.0}
           for n in (2, 3, 4, 5, 10, 50, 200) for r in (0.51, 0.7, 0.9, 0.99, 0.999999, 1.000001, 1.01, 1.1, 1.5, 3, 30, 900) if r * n > 1.0001]
FIXED29 += [{"n": n, "ratio": float(n), "l0": l, "kind": "exact", "unit": 0.1} for n in (2, 3, 7, 64, 200) for l in (1.0, 0.1, 1e-5)]
# close to equal spacings, where the equation is solved by an expansion
FIXED29 += [{"n": n, "ratio": math.fsum((1 + d) ** k for k in range(n)), "l0": 1.0, "kind": "expansion", "unit": 10.0}
            for n in (3, 10, 200, 1000) for d in (1e-8, 3e-7, 1.5e-6, 1.99e-6, 2.01e-6, -1e-8, -3e-7, -1.5e-6, -1.99e-6, -2.01e-6)]
PROPS["C29"] = Prop(
    "C29", check29, specs29, "the total length is not n times the first spacing",
    examples={"quick": 8000, "thorough": 60000}, fixed=lambda t: FIXED29,
    assumptions=["2 <= n <= 1000 and 1.0001 l0 <= ltot <= 1000 n l0"],
)


# --------------------------------------------------------------------------- C30
@st.composite
def specs30(draw, tier="quick"):
    dim = draw(st.sampled_from([2, 3]))
    edges = []
    for g in range(ml.nedges(dim)):
        edges.append(draw(st.sampled_from(["", "m", "C", "s"])))
    return {"dim": dim, "kinds": edges, "salt": draw(st.integers(0, 10**6)), "scale": draw(st.sampled_from([1.0, 1e-4, 1e4, 1e-7, 1e7])),
            "offset": draw(st.sampled_from([0.0, 0.0, 10.0])), "rotate": draw(st.integers(0, 23)), "slab": draw(st.booleans()),
            "wide": draw(st.sampled_from([0.0, 0.3, 1.0]))}


def element30(s):
    dim = s["dim"]
    m = HexaData(dim, 1, [2, 2, dim - 1], [dim, 0, 0, 0, 0], 0)
    el = m.elem[0]
    base = np.array([[[[x, y, z] for x in (0, 1)] for y in (0, 1)] for z in range(dim - 1)], dtype=float)
    u = core.unit(s["salt"], base.size, 1).reshape(base.shape) * 2 - 1
    p = base + 0.3 * u
    if dim == 2:
        p[..., 2] = 0.0
    elif s["slab"]:
        p[0, ..., 2] = 0.0
        p[1, ..., 2] = 1.0
    rots = ml.rotations(dim)
    r = rots[s["rotate"] % len(rots)]
    p = p.reshape(-1, 3)[r]
    p = (p + s["offset"]) * s["scale"]
    if dim == 2:
        p[..., 2] = 0.0
    el.pos[...] = np.moveaxis(p, 3, 0)
    return m, el


def check30(s, ctx):
    m, el = element30(s)
    dim = s["dim"]
    u = core.unit(s["salt"], 12 * 8, 2).reshape(12, 8)
    size = s["scale"] * (1 + s["offset"])
    expected = {}
    kinds = {}
    for g, kind in enumerate(s["kinds"]):
        (a, b) = ml.EDGES[g]
        pa, pb = ml.corner(el.pos, a), ml.corner(el.pos, b)
        L = float(np.linalg.norm(pb - pa))
        mid = 0.5 * (pa + pb)
        sign = 1 if u[g, 0] < 0.5 else -1
        if kind == "C" and pa[2] != pb[2]:
            kind = "m"  # a circular edge lies in a plane of constant z
        if kind == "":
            exp = mid
            # parameters of a straight edge mean nothing
            el.curv[g] = u[g, :5] * (u[g, 5] < 0.3)
        elif kind == "m":
            exp = mid + (u[g, 1:4] - 0.5) * L * 0.3
            if dim == 2:
                exp[2] = 0.0
            el.curv[g, :3] = exp
        elif kind == "C":
            # from nearly a half circle to almost straight
            R = 0.5 * L * (1.0005 + (10.0 ** (3 * u[g, 1] * s["wide"]) - 1) + 0.2 * u[g, 2])
            n = np.array([pb[1] - pa[1], -(pb[0] - pa[0]), 0.0]) / L
            exp = mid + sign * (R - math.sqrt(R * R - L * L / 4)) * n
            el.curv[g, 0] = sign * R
        else:
            w = u[g, 1:4] * 2 - 1
            t = (pb - pa) / L
            perp = w - np.dot(w, t) * t
            if np.linalg.norm(perp) < 1e-3:
                perp = np.cross(t, [0.3, 0.5, 0.7])
            if dim == 2:
                perp = np.array([t[1], -t[0], 0.0]) * sign
            perp = perp / np.linalg.norm(perp)
            h = L * 0.01 * 500.0 ** u[g, 4]
            c = mid - h * perp
            R = math.sqrt(h * h + L * L / 4)
            exp = c + R * perp
            el.curv[g, :3] = c
            el.curv[g, 4] = R
        el.ccurv[g] = kind
        expected[g] = np.array(exp)
        kinds[g] = kind
    before = ml.snap_elem(el)
    for g, exp in expected.items():
        with ctx.sut(f"midpoint of edge {g} of type {kinds[g]!r}"):
            got = edge_mid(el, g)
            arr = np.asarray(got, dtype=np.float64).copy()
        tol = 1e-9 * size * (10 if kinds[g] in "Cs" else 1)
        ctx.check(arr.shape == (3,) and np.abs(arr - exp).max() <= tol,
                  lambda: f"midpoint of edge {g} of type {kinds[g]!r} is {arr}, expected {exp} (curvature {el.curv[g]})")
        ctx.check(ml.elem_diff(before, ml.snap_elem(el)) is None, f"finding the midpoint of edge {g} changed the element")
        got[...] = -99.0
        ctx.check(ml.elem_diff(before, ml.snap_elem(el)) is None, f"changing the returned midpoint of edge {g} of type {kinds[g]!r} changed the element")
    # circles
    for g in expected:
        (a, b) = ml.EDGES[g]
        pa, pb = ml.corner(el.pos, a), ml.corner(el.pos, b)
        L = float(np.linalg.norm(pb - pa))
        mid = 0.5 * (pa + pb)
        flat = pa[2] == pb[2]
        sign = 1 if u[g, 6] < 0.5 else -1
        if u[g, 5] < 0.15:
            point, straight = mid.copy(), True
        else:
            straight = False
            sag = L * (0.0003 + 0.44 * u[g, 7] ** 2)
            if flat:
                n = np.array([pb[1] - pa[1], -(pb[0] - pa[0]), 0.0]) / L
            else:
                t = (pb - pa) / L
                n = np.cross(t, u[g, 1:4] + 0.1)
                n /= np.linalg.norm(n)
            point = mid + sign * sag * n
            if u[g, 4] < 0.3:
                # any point of that circle serves to find it
                R0 = (sag * sag + L * L / 4) / (2 * sag)
                c0 = mid + sign * (sag - R0) * n
                th = (u[g, 3] - 0.5) * 0.6 * math.asin(min(1.0, L / (2 * R0)))
                v1, v2 = sign * n, (pb - pa) / L
                point = c0 + R0 * (math.cos(th) * v1 + math.sin(th) * v2)
        given = point.copy()
        with ctx.sut(f"circle of edge {g}"):
            res = edge_circle(el, g, point)
            c = np.asarray(res, dtype=np.float64).copy()
        ctx.check(ml.elem_diff(before, ml.snap_elem(el)) is None, f"finding the circle of edge {g} changed the element")
        res[...] = -99.0
        ctx.check(ml.elem_diff(before, ml.snap_elem(el)) is None, f"changing the returned circle of edge {g} changed the element")
        ctx.check(np.array_equal(given, point), f"finding the circle of edge {g} changed the midpoint given to it")
        ctx.check(c.shape == (4,), lambda: f"circle of edge {g} is {c}")
        if straight:
            ctx.check(c[0] == 0.0, lambda: f"edge {g} is straight but its circle has radius {c[0]}")
            continue
        R, centre = c[0], c[1:4]
        tol = 1e-5 * abs(R) + 1e-9 * size
        for name, p in (("first end", pa), ("second end", pb), ("midpoint", point)):
            ctx.check(abs(np.linalg.norm(p - centre) - abs(R)) <= tol, lambda: f"circle of edge {g}, radius {R}, centre {centre}, misses the {name} {p}")
        # the centre lies in the plane of the three points
        nrm = np.cross(pb - pa, point - pa)
        nrm /= np.linalg.norm(nrm)
        ctx.check(abs(np.dot(centre - mid, nrm)) <= tol * 10, lambda: f"centre {centre} of the circle of edge {g} is not in the plane of its points")
        if flat:
            ctx.check((R > 0) == (sign > 0), lambda: f"circle of edge {g} has radius {R}, the midpoint is on the {'convex' if sign > 0 else 'concave'} side")
            # the radius gives the midpoint of the arc again
            R0 = abs(R)
            n = np.array([pb[1] - pa[1], -(pb[0] - pa[0]), 0.0]) / L
            back_exp = mid + sign * (R0 - math.sqrt(max(0.0, R0 * R0 - L * L / 4))) * n
            keep = (el.ccurv[g], el.curv[g].copy())
            el.ccurv[g] = "C"
            el.curv[g] = 0.0
            el.curv[g, 0] = R
            with ctx.sut(f"midpoint from the radius of edge {g}"):
                back = np.asarray(edge_mid(el, g), dtype=np.float64)
            el.ccurv[g], el.curv[g] = keep
            ctx.check(np.abs(back - back_exp).max() <= 1e-6 * L + 1e-9 * size, lambda: f"the radius {R} found for edge {g} gives the midpoint {back}, not {back_exp}")
            if u[g, 4] >= 0.3:
                ctx.check(np.abs(back - given).max() <= 1e-4 * L + 1e-9 * size, lambda: f"the radius {R} found for edge {g} from {given} gives the midpoint {back}")
            ctx.label("#arcs round trip")
    for k in set(kinds.values()):
        ctx.label(f"type {k!r}")
    ctx.label(f"{dim}D")
    ctx.nontrivial(any(kinds.values()))


FIXED30 = [{"dim": d, "kinds": [k] * ml.nedges(d), "salt": i, "scale": 1.0, "offset": 0.0, "rotate": 0, "slab": True, "wide": 0.3}
           for d in (2, 3) for i, k in enumerate(["", "m", "C", "s"])]
PROPS["C30"] = Prop(
    "C30", check30, specs30, "an element with at least one curved edge",
    examples={"quick": 8000, "thorough": 30000}, fixed=lambda t: FIXED30,
    assumptions=["elements with two points per direction", "circular edges lie in planes of constant z"],
)
