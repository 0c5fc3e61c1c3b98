"""C34: new meshes are empty, complete and of the asked-for kind; renumbering and counting keep them consistent."""

import copy
import sys

import numpy as np
from hypothesis import strategies as st

import meshlib as ml
from checks import Prop
from checks.connect import pick
from pymech.core import Elem, HexaData

PROPS = {}

DTYPES = {
    "default": (None, "float64"), "float64": ("float64", "float64"), "float32": ("float32", "float32"), "f8": ("f8", "float64"), "f4": ("f4", "float32"),
    "class float32": (np.float32, "float32"), "class float64": (np.float64, "float64"), "dtype float32": (np.dtype("float32"), "float32"),
}


@st.composite
def specs34(draw, tier="quick"):
    big = tier != "quick"
    kind = draw(st.sampled_from(["renumber", "new", "count", "renumber"]))
    if kind == "new":
        dim = draw(st.sampled_from([2, 3]))
        top = 6 if big else 4
        return {
            "kind": kind, "dim": dim, "nel": draw(st.integers(1, 40 if big else 7) if tier != "large" else st.integers(200, 900)), "lr": [draw(st.integers(1, top)) for _ in range(dim)] + [1] * (3 - dim),
            "var": [draw(st.integers(0, 3)), draw(st.integers(0, 3)), draw(st.integers(0, 2)), draw(st.integers(0, 2)), draw(st.integers(0, 4))],
            "nbc": draw(st.integers(0, 4)), "dtype": draw(st.sampled_from(sorted(DTYPES))), "form": draw(st.sampled_from(["list", "tuple", "array"])),
            "plain": draw(st.booleans()), "after": draw(st.booleans()),
        }
    s = draw(ml.grid_specs(max_n=(5, 4, 3) if big else (3, 3, 2), max_nel=24 if big else 9, min_nbc=0 if kind == "count" else 1, max_nbc=3, curves=True, single=True, mixed=True, scales="wide", large=tier == "large"))
    s["kind"] = kind
    s["rsalt"] = draw(st.integers(0, 10**6))
    if kind == "renumber":
        b = draw(ml.grid_specs(dims=(s["dim"],), max_n=(3, 2, 2), max_nel=6, min_nbc=s["nbc"], max_nbc=s["nbc"]))
        s["block"] = b
        s["at"] = draw(st.sampled_from([1, 0, 2, 3, 5, 100] + ([129, 250] if tier == "large" else [])))
        s["own"] = draw(st.sampled_from(["numbers", "zero", "mixed"]))
        s["first"] = draw(st.booleans())
    else:
        s["edits"] = draw(st.lists(st.tuples(st.integers(0, 9999), st.integers(0, 11), st.sampled_from(["", "m", "C", "s"])).map(list), max_size=12))
    return s


def check34(s, ctx):
    {"new": check_new, "renumber": check_renumber, "count": check_count}[s["kind"]](s, ctx)
    ctx.label(s["kind"])


# ----------------------------------------------------------------------------- new meshes
def check_new(s, ctx):
    given, want = DTYPES[s["dtype"]]
    form = {"list": list, "tuple": tuple, "array": lambda v: np.array(v, dtype=int)}[s["form"]]
    lr1, var, nbc, nel = s["lr"], s["var"], s["nbc"], s["nel"]
    kw = {} if given is None else {"dtype": given}
    with ctx.sut("new mesh"):
        if s["plain"]:
            if nbc:
                kw["nbc"] = nbc
            m = HexaData(s["dim"], nel, form(lr1), form(var), **kw)
        else:
            m = HexaData(s["dim"], nel, form(lr1), form(var), nbc, **kw)
        if s["after"]:
            # what was made before does not show in what is made next
            for el in m.elem:
                el.pos[...] = 7.0
                el.ccurv[2] = "C"
                el.bcs["f0"] = "W"
            m.elmap[...] = 9
            m = HexaData(s["dim"], nel, form(lr1), form(var), nbc, **{k: v for k, v in kw.items() if k != "nbc"})
    ctx.check((m.ndim, m.nel, m.nbc, m.ncurv) == (s["dim"], nel, nbc, 0), lambda: f"ndim, nel, nbc, ncurv are {(m.ndim, m.nel, m.nbc, m.ncurv)}")
    ctx.check([int(v) for v in m.lr1] == lr1 and [int(v) for v in m.var] == var, lambda: f"orders {m.lr1} and counts {m.var}, asked for {lr1} and {var}")
    ctx.check(m.time == 0.0 and m.istep == 0 and m.wdsz == 8 and m.endian == sys.byteorder, lambda: f"time {m.time}, step {m.istep}, {m.wdsz} bytes, {m.endian}")
    ctx.check(np.asarray(m.elmap).dtype == np.int32 and list(m.elmap) == list(range(1, nel + 1)), lambda: f"element map {m.elmap!r}")
    ctx.check(isinstance(m.elem, list) and len(m.elem) == nel, lambda: f"{len(m.elem)} elements, asked for {nel}")
    elems = list(m.elem)
    with ctx.sut("new element"):
        elems.append(Elem(form(var), form(lr1), nbc) if given is None else Elem(form(var), form(lr1), nbc, "float32" if want == "float32" else "float64"))
    shape = tuple(lr1[::-1])
    counts = {"pos": 3, "vel": 3, "pres": var[2], "temp": var[3], "scal": var[4]}
    if nel > 1000:
        # too many to look at each of them; those that are looked at are spread over all
        ctx.check(len({id(el) for el in m.elem}) == nel and len({id(el.pos) for el in m.elem}) == nel, "two elements of a new mesh are the same")
        ctx.label("many elements", True)
        ctx.nontrivial(True)
        elems = elems[:: nel // 20] + elems[-2:]
    for i, el in enumerate(elems):
        for k, n in counts.items():
            a = getattr(el, k)
            ctx.check(a.shape == (n,) + shape and a.dtype == np.dtype(want), lambda: f"element {i + 1}: {k} has shape {a.shape} and type {a.dtype}, expected {(n,) + shape} of {want}")
            ctx.check(not a.any(), f"element {i + 1}: {k} of a new element is not zero")
        ctx.check(el.curv.shape == (12, 5) and not el.curv.any(), lambda: f"element {i + 1}: curvature parameters {el.curv}")
        ctx.check(list(el.ccurv) == [""] * 12, lambda: f"element {i + 1}: curvature types {el.ccurv}")
        ctx.check(el.bcs.shape == (nbc, 6), lambda: f"element {i + 1}: conditions of shape {el.bcs.shape} for {nbc} fields")
        kinds = [el.bcs.dtype[j] for j in range(len(el.bcs.dtype))]
        ctx.check([k.kind for k in kinds] == list("Uii" + "f" * 5) and all(k == np.dtype(want) for k in kinds[3:]), lambda: f"element {i + 1}: a condition is stored as {el.bcs.dtype}")
        for b in el.bcs.reshape(-1):
            ctx.check(ml.bc_tuple(b) == ("", 0, 0, 0.0, 0.0, 0.0, 0.0, 0.0), lambda: f"element {i + 1}: conditions of a new element are {b}")
        for ibc, f in np.ndindex(nbc, 6):
            # room for what the formats hold
            b = el.bcs[ibc, f]
            for j, v in enumerate(("SYM", 2000000000, 6, 123456.0, 5.0, 0.5, -0.25, 1e30)):
                b[j] = v
            v = ml.bc_tuple(el.bcs[ibc, f])
            ctx.check(v[:3] == ("SYM", 2000000000, 6) and np.allclose(v[3:], (123456.0, 5.0, 0.5, -0.25, 1e30), rtol=1e-6, atol=0), lambda: f"a condition stored as {v}")
    if nel > 1000:
        return
    ml.check_independent(ctx, m, "new mesh")
    ctx.label("single precision", want == "float32")
    ctx.nontrivial(nel > 1 and nbc > 0 and sum(var[2:]) > 0)


# ----------------------------------------------------------------------------- renumbering
def table(elems, nbc, n):
    return [[[list(ml.bc_tuple(el.bcs[i, f])) for f in range(6)] for i in range(nbc)] for el in elems]


def moved(tab, offset, first, dim, own_from):
    """What the table becomes when elements from first (zero-based) are numbered offset higher."""
    out = copy.deepcopy(tab)
    for e, el in enumerate(out):
        for fields in el:
            for f in range(2 * dim):
                b = fields[f]
                if b[0] in ("E", "P") and int(b[3]) > first:
                    b[3] += offset
                if e >= own_from and b[1] > first:
                    b[1] += offset
    return out


def compare(ctx, m, want, what):
    got = table(m.elem, m.nbc, m.nel)
    for e, (p, q) in enumerate(zip(got, want)):
        for i, (u, v) in enumerate(zip(p, q)):
            for f in range(6):
                ctx.check(u[f] == v[f], lambda: f"{what}: element {e + 1}, field {i}, face {f + 1} has {u[f]}, expected {v[f]}")


def still_valid(ctx, m, what):
    with ctx.sut(f"connectivity check after {what}"):
        ctx.check(m.check_connectivity() is True, f"{what}: the connectivity check does not return True")


def rest(m):
    s = ml.snapshot(m)
    for e in s["elem"]:
        e.pop("bcs")
    return s


def check_renumber(s, ctx):
    dim = s["dim"]
    m = ml.Grid(s).mesh()
    block = ml.Grid(s["block"]).mesh()
    if s["own"] == "zero":
        for el in m.elem + block.elem:
            el.bcs["f1"] = 0
    elif s["own"] == "mixed":
        for i, el in enumerate(m.elem + block.elem):
            for ibc, f in np.ndindex(m.nbc, 2 * dim):
                if pick(s["rsalt"], 64 + 12 * (12 * i + ibc) + f, 2):
                    el.bcs[ibc, f][1] = 0
    at, b = min(s["at"], m.nel), block.nel
    still_valid(ctx, m, "construction")
    start, was = table(m.elem, m.nbc, m.nel), rest(m)

    # making room for the block, then inserting it
    with ctx.sut("making room"):
        r = m.offset_connectivity(b, at) if at or s["first"] else m.offset_connectivity(b)
    ctx.check(r is None, "renumbering returns something")
    room = moved(start, b, at, dim, at)
    compare(ctx, m, room, f"making room for {b} elements at {at}")
    d = ml.snap_diff(was, rest(m))
    ctx.check(d is None, lambda: f"renumbering also changed {d}")
    if at:
        with ctx.sut("renumbering the block"):
            block.offset_connectivity(at)
    joined = HexaData(dim, m.nel + b, list(m.lr1), list(m.var), m.nbc)
    joined.elem = m.elem[:at] + block.elem + m.elem[at:]
    still_valid(ctx, joined, "inserting a block")
    for i, el in enumerate(joined.elem):
        for q in el.bcs[:, : 2 * dim].reshape(-1):
            ctx.check(int(q[1]) in (0, i + 1), lambda: f"after inserting {b} elements at {at}, a face of element {i + 1} says it belongs to element {int(q[1])}")

    # taking it out again, renumbering before or after
    if s["first"]:
        with ctx.sut("closing the gap"):
            joined.offset_connectivity(-b, at + b)
        compare(ctx, joined, moved(room[:at] + table(block.elem, m.nbc, b) + room[at:], -b, at + b, dim, at + b), "closing the gap before the block is taken out")
        del joined.elem[at : at + b]
        joined.nel -= b
    else:
        del joined.elem[at : at + b]
        joined.nel -= b
        with ctx.sut("closing the gap"):
            joined.offset_connectivity(-b, at)
    compare(ctx, joined, start, "inserting a block and taking it out again")
    still_valid(ctx, joined, "taking a block out")
    with ctx.sut("renumbering by nothing"):
        joined.offset_connectivity(0)
        joined.offset_connectivity(5, joined.nel)
    compare(ctx, joined, start, "renumbering by nothing or beyond the end")
    over = any(f[0] in ("E", "P") and int(f[3]) > at for el in start[:at] for u in el for f in u)
    ctx.label("connections across", over)
    ctx.label("periodic", any(f[0] == "P" for el in start for u in el for f in u))
    ctx.nontrivial(over or (at == 0 and any(f[0] in ("E", "P") for el in start for u in el for f in u)))


# ----------------------------------------------------------------------------- counting
def check_count(s, ctx):
    m = ml.Grid(s).mesh()
    for e, c, code in s["edits"]:
        m.elem[e % m.nel].ccurv[c] = code
    before = rest(m)
    m.ncurv = [0, 5, 10**6][pick(s["rsalt"], 1, 3)]
    want = sum(1 for el in m.elem for c in el.ccurv if c != "")
    with ctx.sut("counting"):
        r = m.update_ncurv()
    ctx.check(r is None, "counting returns something")
    ctx.check(int(m.ncurv) == want, lambda: f"{m.ncurv} curved edges counted, there are {want}")
    after = rest(m)
    before["ncurv"] = after["ncurv"] = 0
    d = ml.snap_diff(before, after)
    ctx.check(d is None, lambda: f"counting also changed {d}")
    ctx.label("#curved", want)
    ctx.nontrivial(0 < want < 12 * m.nel)


def many(tier):
    base = {"kind": "new", "dim": 2, "lr": [2, 2, 1], "var": [2, 2, 0, 0, 0], "nbc": 0, "dtype": "default", "form": "list", "plain": True, "after": False}
    return [{**base, "nel": n} for n in ([1000, 33000, 70001] if tier == "quick" else [1000, 10001, 33000, 70001, 300000])]


PROPS["C34"] = Prop(
    "C34", check34, specs34,
    "several elements with fields and conditions (new), connections to renumbered elements (renumber), some but not all edges curved (count)",
    examples={"quick": 3000, "thorough": 40000}, assumptions=["blocks of elements are inserted and removed whole, with no connection to the rest"], fixed=many,
    large={"quick": 6, "thorough": 24},
)
