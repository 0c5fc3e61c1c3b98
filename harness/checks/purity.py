"""C31: operations that return or write a result leave their inputs alone and share nothing with them."""

import copy

import numpy as np
from hypothesis import strategies as st

import core
import meshlib as ml
from checks import Prop
from checks.connect import pick
from checks.extrusion import Splitter, end_args, end_conditions, make_z, z_lists
from checks.generate import transformation, transformations
from pymech.core import HexaData
from pymech.meshtools import edge_circle, edge_mid, exponential_refinement_parameter, extrude, extrude_refine, gen_box, gen_circle, keep_elements, map2D
from pymech.neksuite import readnek, readre2, readrea, writenek, writere2, writerea

PROPS = {}

ANY = ["re2", "rea", "nek", "connectivity", "present", "lims", "element queries", "edges", "points", "repr", "merge", "copy", "reread", "keep"]
FLAT = ["extrude", "refine", "map"]
MAKE = ["box", "box defaults", "circle", "circle defaults", "construct", "alpha"]


@st.composite
def specs31(draw, tier="quick"):
    big = tier != "quick"
    dim = draw(st.sampled_from([2, 2, 3]))
    s = draw(ml.grid_specs(dims=(dim,), max_n=(5, 4, 3) if big else (3, 3, 2), max_nel=24 if big else 8, max_nbc=3, curves=True, fields=True))
    names = ANY + MAKE + (FLAT * 3 if dim == 2 else [])
    s["ops"] = draw(st.lists(st.sampled_from(names), min_size=2, max_size=10 if big else 6))
    s["repeat"] = draw(st.integers(1, 2))
    s["sphere"] = draw(st.booleans())
    s["stale"] = draw(st.booleans())
    s["wdsz"] = draw(st.sampled_from([4, 8]))
    s["endian"] = draw(st.sampled_from(["little", "big"]))
    s["osalt"] = draw(st.integers(0, 10**6))
    s["z"] = draw(z_lists(draw(st.sampled_from([4, 8]))))
    s["ends"] = draw(end_conditions(s["nbc"]))
    s["t"] = draw(transformations(s["scale"]))
    return s


def scramble(x, depth=0):
    """Overwrites everything a caller could overwrite in a result."""
    if isinstance(x, HexaData):
        for el in x.elem:
            for a in (el.pos, el.vel, el.pres, el.temp, el.scal, el.curv):
                a[...] = -77.0
            for c in range(12):
                el.ccurv[c] = "z"
            for b in el.bcs.reshape(-1):
                b[0] = "zz"
                for i in range(1, 8):
                    b[i] = -7
        x.elem.clear()
        x.elmap[...] = -5
        if isinstance(x.var, list):
            x.var[:] = [99] * 5
        if isinstance(x.lr1, list):
            x.lr1[:] = [98] * 3
        x.nel = x.ncurv = x.nbc = -1
        x.time = -1.0
    elif isinstance(x, np.ndarray):
        if x.flags.writeable:
            x[...] = -77
    elif isinstance(x, list):
        for v in x:
            scramble(v, depth + 1)
        x.clear()
    elif isinstance(x, tuple):
        for v in x:
            scramble(v, depth + 1)


def digest(x):
    if isinstance(x, HexaData):
        return ml.snapshot(x)
    if isinstance(x, np.ndarray):
        return (x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, (list, tuple)):
        return [digest(v) for v in x]
    if isinstance(x, (bool, int, float, str, bytes, type(None))):
        return repr(x)
    return repr(x)


def difference(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return ml.snap_diff(a, b)
    return f"{str(a)[:200]} and {str(b)[:200]}"


def frozen(args):
    return [ml.snapshot(a) if isinstance(a, HexaData) else digest(a) for a in args]


def slurp(path):
    with open(path, "rb") as f:
        return f.read()


class Case:
    """The operations, each returning (result, arguments that must not change)."""

    def __init__(self, s, ctx):
        self.s, self.ctx = s, ctx
        self.g = ml.Grid(s)
        self.m = self.g.mesh()
        m = self.m
        m.wdsz, m.endian = s["wdsz"], s["endian"]
        m.time, m.istep = 2.5, 77
        m.elmap = np.array(core.mix(s["osalt"], m.nel, 4).argsort(kind="stable") + 1, dtype=np.int32)
        if s["sphere"]:
            from checks.generate import add_spheres

            add_spheres(m, s["salt"])
        if s["stale"]:
            m.ncurv = 0
        self.other = self.g.mesh()
        span = float(np.ptp(self.g.xyz[:, 0]))
        shift = span if s["warp"] == 0 and s["shear"] == 0 else 3 * span
        for el in self.other.elem:
            el.pos[0] += shift
            for c in range(12):
                if el.ccurv[c] in ("m", "s"):
                    el.curv[c, 0] += shift

    def op(self, name, n):
        s, m, ctx = self.s, self.m, self.ctx
        salt = s["osalt"] + 17 * n
        if name in ("re2", "rea", "nek"):
            w = {"re2": writere2, "rea": writerea, "nek": writenek}[name]

            def run():
                p = ctx.path("out." + name)
                if pick(salt, 9, 2):
                    with open(p, "wb") as f:
                        f.write(b"old contents " * 5000)
                w(p, m)
                return slurp(p)

            return run, [m]
        if name == "reread":
            p = ctx.path("reread.re2" if pick(salt, 1, 2) else "reread.rea")
            q = ctx.path("reread0.f00001")
            with ctx.sut("writing"):
                (writere2 if p.endswith("re2") else writerea)(p, m)
                writenek(q, m)

            def run():
                a, b = slurp(p), slurp(q)
                r = ((readre2 if p.endswith("re2") else readrea)(p), readnek(q))
                ctx.check(slurp(p) == a and slurp(q) == b, "reading a file changed it")
                return r

            return run, [m]
        if name == "connectivity":
            return lambda: m.check_connectivity(), [m]
        if name == "present":

            def run():
                try:
                    return m.check_bcs_present()
                except ValueError as e:
                    return str(e)

            return run, [m]
        if name == "lims":

            def run():
                L = m.lims
                return [np.array(v, dtype=float) for v in (L.pos, L.vel, L.pres, L.temp, L.scal)]

            return run, [m]
        if name == "element queries":

            def run():
                out = []
                for el in m.elem:
                    out.append(float(el.smallest_edge()))
                    out.append(np.array(el.centroid, dtype=float))
                    out += [np.array(el.face_center(f), dtype=float) for f in range(2 * m.ndim)]
                return out

            return run, [m]
        if name == "edges":

            def run():
                out = []
                for el in m.elem:
                    for c in range(ml.nedges(m.ndim)):
                        mid = edge_mid(el, c)
                        hold = np.array(mid, dtype=float)
                        out.append(mid)
                        if m.ndim == 2 or el.ccurv[c] == "m":
                            out.append(edge_circle(el, c, mid))
                            ctx.check(np.array_equal(hold, mid), "edge_circle changed the midpoint it was given")
                return out

            return run, [m]
        if name == "points":
            return lambda: m.get_points(), [m]
        if name == "repr":
            return lambda: repr(m) + repr(m.elem[0]) + repr(m.lims), [m]
        if name == "copy":

            def run():
                c = copy.deepcopy(m)
                d = ml.snap_diff(ml.snapshot(m), ml.snapshot(c))
                ctx.check(d is None, lambda: f"a deep copy differs: {d}")
                return c

            return run, [m]
        if name == "merge":
            kw = [{}, {"ignore_empty": False}, {"ignore_all_bcs": True}][pick(salt, 2, 3)]

            def run():
                base = copy.deepcopy(m)
                k = base.merge(self.other, **kw)
                return (k, base)

            return run, [m, self.other]
        if name == "keep":
            held = core.mix(salt, m.nel, 6).argsort(kind="stable")[: 1 + pick(salt, 12, m.nel)]
            held = held.astype(int) if pick(salt, 13, 2) else [int(v) for v in held]

            def run():
                base = copy.deepcopy(m)
                keep_elements(base, held, "W")
                return base

            return run, [m, held]
        bc1, bc2, _ = end_args(s)
        z = make_z(s["z"], s["salt"])
        ib = {} if pick(salt, 3, 3) else {"internal_bcs": False}
        if name == "extrude":
            return lambda: extrude(m, z, bc1, bc2, **ib), [m, z, bc1, bc2]
        if name == "refine":
            if s["z"]["form"] == "tuple":
                z = list(z)
            mid = pick(salt, 4, s["n"][0])
            fun = [Splitter(self.g, {"ring": False, "axis": 0, "n": s["n"], "zero": False}, mid)]
            par = [mid + 0.5]
            high = pick(salt, 5, 2)
            bcs = ([b for b in bc1] if bc1 else None, [b for b in bc2] if bc2 else None)
            return lambda: extrude_refine(m, z, bc1=bcs[0], bc2=bcs[1], fun=fun, funpar=par, imesh_high=high, **ib), [m, z, *bcs, fun, par]
        if name == "map":
            T = transformation(s["t"])
            cur = bool(pick(salt, 6, 2))
            return lambda: map2D(m, T, curvature=cur), [m]
        if name == "box":
            nbc = 1 + pick(salt, 7, 3)
            var = [2, 2, 1, 0, nbc - 1]
            sides = [["P"] * nbc if pick(salt, 8, 2) else ["W"] * nbc] * 2
            sides = [list(v) for v in sides]
            return lambda: gen_box(2, 3, 0.0, 1.0, -1.0, 1.0, bcs_xmin=sides[0], bcs_xmax=sides[1], var=var), [var, *sides]
        if name == "box defaults":
            return lambda: gen_box(2, 2, 0.0, 1.0, 0.0, 2.0), []
        if name == "circle":
            var = [2, 2, 0, 1, 0]
            bc = ["v", "t"]
            return lambda: gen_circle(1.5, 0.5, 2, 2, var=var, bc=bc), [var, bc]
        if name == "circle defaults":
            return lambda: gen_circle(1.0, 0.4, 2, 2), []
        if name == "construct":
            lr1 = [2, 2, m.ndim - 1]
            var = [m.ndim, 0, 1, 0, 2]
            d = pick(salt, 10, 2)
            # the constructor documents no copy of the lists; hand it its own
            return lambda: HexaData(m.ndim, 2, list(lr1), list(var), 1, *([] if d else ["float32"])), [lr1, var]
        if name == "alpha":
            return lambda: float(exponential_refinement_parameter(0.1, 1.0 + 0.1 * pick(salt, 11, 9), 7)), []
        raise core.HarnessError(name)


def check31(s, ctx):
    case = Case(s, ctx)
    watched = [case.m, case.other]
    base = frozen(watched)
    nmesh = 0
    for n, name in enumerate(s["ops"]):
        run, args = case.op(name, n)
        before = frozen(args)
        first = None
        for k in range(s["repeat"] + 1):
            with ctx.sut(f"{name} (call {k + 1}, operation {n + 1} of {s['ops']})"):
                r = run()
            now = frozen(args)
            for a, b in zip(before, now):
                ctx.check(a == b, lambda: f"{name} changed one of its arguments: {difference(a, b)}")
            for a, b in zip(base, frozen(watched)):
                ctx.check(a == b, lambda: f"{name} changed a mesh it was given or used before: {difference(a, b)}")
            d = digest(r)
            if first is None:
                first = d
            elif first != d:
                diff = [difference(x, y) for x, y in zip(first, d) if x != y][0] if isinstance(d, list) else difference(first, d)
                ctx.fail(f"{name} repeated with the same arguments gives another result after the first one was modified: {diff}")
            # whatever the caller does to the result
            nmesh += isinstance(r, (HexaData, tuple))
            for x in r if isinstance(r, tuple) else (r,):
                if isinstance(x, HexaData):
                    ml.check_independent(ctx, x, f"result of {name}")
            scramble(r)
            for a, b in zip(before, frozen(args)):
                ctx.check(a == b, lambda: f"modifying the result of {name} changed one of its arguments: {difference(a, b)}")
            for a, b in zip(base, frozen(watched)):
                ctx.check(a == b, lambda: f"modifying the result of {name} changed a mesh it was made from: {difference(a, b)}")
        # and the other way round: the result does not follow later changes of the inputs
        if name in ("extrude", "refine", "map", "merge"):
            hm, ho = copy.deepcopy(case.m), copy.deepcopy(case.other)
            with ctx.sut(name):
                r = run()
            d = digest(r)
            scramble(case.m)
            scramble(case.other)
            e = digest(r)
            if d != e:
                diff = [difference(x, y) for x, y in zip(d, e) if x != y][0] if isinstance(e, list) else difference(d, e)
                ctx.fail(f"the result of {name} changes when its inputs are modified: {diff}")
            for dst, src in ((case.m, hm), (case.other, ho)):
                dst.__dict__.update(src.__dict__)
            ctx.label("#results watched while inputs change")
        ctx.label(f"op {name}")
    ctx.label("curved", any(c for el in case.m.elem for c in el.ccurv))
    ctx.nontrivial(nmesh > 0 and len(set(s["ops"])) > 1)


PROPS["C31"] = Prop(
    "C31", check31, specs31, "at least two different operations, one of which returns a mesh", examples={"quick": 1600, "thorough": 8000},
    assumptions=["HexaData keeps the lists given to its constructor", "keep_elements, rotate_2d, delete_internal_bcs, generate_internal_bcs and the target of merge are meant to modify their mesh"],
)
