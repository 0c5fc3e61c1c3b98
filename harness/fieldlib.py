"""Field meshes for the field-file checks: spec -> arrays -> HexaData, and comparisons."""

import numpy as np
from hypothesis import strategies as st

import core
from nekfmt import BLOCKS


LAYOUTS = ["c", "c", "f", "transposed", "strided", "reversed"]


@st.composite
def permutation(draw, n, first=1):
    if n <= 150:
        return draw(st.permutations(range(first, first + n)))
    how = draw(st.integers(0, 2**20))
    return [first + int(i) for i in core.mix(how, n, 77).argsort(kind="stable")]


def field_specs(max_nel=6, max_n=5, max_scal=4, big=False, large=False):
    @st.composite
    def build(draw):
        ndim = draw(st.sampled_from([2, 3]))
        lr1 = [draw(st.integers(2 if i < 2 else 2, max_n)) for i in range(ndim)]
        if ndim == 2:
            lr1.append(1)
        # mostly the usual case of one order in all directions, but not always
        if draw(st.booleans()):
            lr1 = [lr1[0], lr1[0], lr1[0] if ndim == 3 else 1]
        nel = draw(st.integers(1, max_nel))
        # now and then: high order in one direction, or many elements
        odd = draw(st.sampled_from(["", "", "", "", "", "", "order", "elements"])) if big else ""
        if odd == "order":
            lr1 = [2] * ndim + [1] * (3 - ndim)
            lr1[draw(st.integers(0, ndim - 1))] = draw(st.sampled_from([9, 10, 11, 16, 17, 33, 64, 99]))
            nel = min(nel, 3)
        if large:
            odd = draw(st.sampled_from(["elements", "order"]))
            lr1 = [2] * ndim + [1] * (3 - ndim) if odd == "elements" else [draw(st.sampled_from([21, 33, 47])) for _ in range(ndim)] + [1] * (3 - ndim)
            nel = draw(st.sampled_from([257, 1025, 3001, 4444])) if odd == "elements" else draw(st.integers(1, 3))
        elif odd == "elements":
            lr1 = [2] * ndim + [1] * (3 - ndim)
            nel = draw(st.sampled_from([16, 31, 33, 64, 100, 129]))
        nscal = draw(st.one_of(st.integers(0, max_scal), st.sampled_from([0, 0, 9, 10, 12] + ([99] if big else [])))) if odd != "elements" else draw(st.integers(0, 2))
        var = [
            ndim * draw(st.integers(0, 1)), ndim * draw(st.integers(0, 1)), draw(st.integers(0, 1)),
            draw(st.integers(0, 1)), nscal,
        ]
        if not any(var):
            var[draw(st.integers(0, 3))] = 1
            if var[0]:
                var[0] = ndim
            if var[1]:
                var[1] = ndim
        spec = {
            "ndim": ndim, "lr1": lr1, "nel": nel, "var": var,
            "wdsz": draw(st.sampled_from([4, 8])),
            "endian": draw(st.sampled_from(["little", "big"])),
            "mem": draw(st.sampled_from(["float64", "float64", "float32"])),
            "elmap": draw(permutation(nel)),
            "time": draw(times()),
            "istep": draw(st.one_of(st.integers(0, 10), st.integers(0, 999999999))),
            "salt": draw(st.integers(0, 10**6)),
            "mode": draw(st.sampled_from(["tag", "real", "wild"])),
            "layout": draw(st.sampled_from(LAYOUTS)),
        }
        return spec

    return build()


def times():
    return st.one_of(
        st.just(0.0),
        st.floats(min_value=0, max_value=1e6),
        st.floats(allow_nan=False, allow_infinity=False),
    )


def arrays(spec):
    """name -> (nel, ncomp, lz, ly, lx) float64 with independent contents in every slot."""
    lx, ly, lz = spec["lr1"]
    out = {}
    for k, name in enumerate(BLOCKS):
        n = spec["var"][k]
        tot = spec["nel"] * n * lx * ly * lz
        a = core.values(spec["salt"], tot, spec["mode"], stream=k + 1)
        a = a.reshape((spec["nel"], n, lz, ly, lx))
        if spec["mem"] == "float32":
            with np.errstate(all="ignore"):
                a = a.astype(np.float32).astype(np.float64)
        out[name] = a
    return out


def make_mesh(spec, fields):
    """A HexaData holding the fields, built through the public constructor."""
    from pymech.core import HexaData

    data = HexaData(spec["ndim"], spec["nel"], list(spec["lr1"]), list(spec["var"]), 0, spec["mem"])
    data.time = spec["time"]
    data.istep = spec["istep"]
    data.wdsz = spec["wdsz"]
    data.endian = spec["endian"]
    # also as the integers a user gets by default
    data.elmap = np.array(spec["elmap"], dtype=[np.int32, np.int32, np.int64, np.int32][spec["salt"] % 4])
    for iel, el in enumerate(data.elem):
        for name in BLOCKS:
            a = fields[name][iel]
            getattr(el, name)[: a.shape[0]] = a
            setattr(el, name, relayout(getattr(el, name), spec.get("layout", "c")))
    return data


def relayout(a, how):
    """The same array, laid out differently in memory."""
    if how == "f":
        return np.asfortranarray(a)
    if how == "transposed":
        return np.ascontiguousarray(a.transpose(2, 3, 1, 0)).transpose(3, 2, 0, 1)
    if how == "strided":
        b = np.full(tuple(2 * n for n in a.shape), np.nan, dtype=a.dtype)
        b[::2, ::2, 1::2, ::2] = a
        return b[::2, ::2, 1::2, ::2]
    if how == "reversed":
        return np.ascontiguousarray(a[:, ::-1, :, ::-1])[:, ::-1, :, ::-1]
    return a


def stored(a, wdsz, mem):
    """What a value becomes after being stored with this word size and read into this precision."""
    with np.errstate(all="ignore"):
        b = a.astype(np.float32 if wdsz == 4 else np.float64)
        return b.astype(mem).astype(np.float64)


def expect_fields(ctx, data, spec, fields, mem, what, present=None, skip=()):
    """All element arrays of data against the expected ones. present: elements in the file (0-based).
    skip: set of (block, component) expected to stay zero."""
    lx, ly, lz = spec["lr1"]
    nel = len(data.elem)
    present = set(range(nel)) if present is None else set(present)
    for k, name in enumerate(BLOCKS):
        n = spec["var"][k]
        ncomp = {0: 3, 1: 3}.get(k, n)
        for iel, el in enumerate(data.elem):
            got = np.asarray(getattr(el, name))
            ctx.check(got.shape == (ncomp, lz, ly, lx), f"{what}: {name} of element {iel} has shape {got.shape}, expected {(ncomp, lz, ly, lx)}")
            if ncomp:
                ctx.check(got.dtype == np.dtype(mem), f"{what}: {name} has type {got.dtype}, asked for {mem}")
            exp = np.zeros((ncomp, lz, ly, lx))
            if iel in present:
                for c in range(n):
                    if (k, c) not in skip:
                        exp[c] = stored(fields[name][iel, c], spec["wdsz"], mem)
            ctx.check(
                core.same_bits(got, exp),
                lambda: f"{what}: {name} of element {iel}: (component, z, y, x) {core.first_diff(got, exp)} (got, expected)",
            )


def expect_meta(ctx, data, spec, what, nel=None, elmap=None):
    nel = spec["nel"] if nel is None else nel
    elmap = spec["elmap"] if elmap is None else elmap
    ctx.check(int(data.ndim) == spec["ndim"], f"{what}: ndim {data.ndim}")
    ctx.check(int(data.nel) == nel and len(data.elem) == nel, f"{what}: nel {data.nel}, {len(data.elem)} elements, expected {nel}")
    ctx.check(list(data.lr1) == list(spec["lr1"]), f"{what}: lr1 {data.lr1}")
    ctx.check(list(data.var) == list(spec["var"]), f"{what}: var {data.var}, expected {spec['var']}")
    ctx.check(list(map(int, data.elmap)) == list(elmap), f"{what}: elmap {data.elmap}, expected {elmap}")
    t = float("%.13E" % spec["time"])
    ctx.check(float(data.time) == t, f"{what}: time {data.time!r}, expected {t!r}")
    ctx.check(int(data.istep) == spec["istep"], f"{what}: istep {data.istep}, expected {spec['istep']}")
    ctx.check(int(data.wdsz) == spec["wdsz"], f"{what}: wdsz {data.wdsz}")
    ctx.check(data.endian == spec["endian"], f"{what}: endian {data.endian}, expected {spec['endian']}")
