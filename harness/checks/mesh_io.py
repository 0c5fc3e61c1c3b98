"""C06-C09: re2 and rea mesh files."""

import os
import pathlib

import numpy as np
from hypothesis import strategies as st

import core
import nekfmt
import reafmt
import souplib as sl
from checks import Prop
from pymech.core import HexaData
from pymech.neksuite import readre2, readrea, writere2, writerea

PROPS = {}
RICH = "at least two elements, a curved edge and two conditions in one field"


def fname(spec, ctx, name):
    f = ctx.path(name)
    return pathlib.Path(f) if spec.get("pathlib") else f


def slurp(f):
    with open(f, "rb") as fp:
        return fp.read()


def fixed_big(tier):
    """Meshes around the element counts at which the rea columns change."""
    base = {"mode": "real", "endian": "little", "empty": 2, "inner": 3, "late": False, "ncurv_stale": False, "z": False, "pathlib": False}
    out = []
    for dim, nel in ((2, 100200), (2, 999), (2, 1000), (2, 1001), (3, 1234)) + (((2, 12345), (3, 2000), (2, 99999)) if tier == "thorough" else ()):
        out.append({**base, "dim": dim, "nel": nel, "nbc": 2 if nel < 5000 else 1, "salt": nel, "curved": 3 if nel < 5000 or nel > 100000 else 1})
    return out


# --------------------------------------------------------------------------- C06
@st.composite
def specs06(draw, tier):
    s = draw(sl.soup_specs(max_nel=7 if tier == "quick" else 14))
    s["pathlib"] = draw(st.booleans())
    s["mem"] = draw(st.sampled_from(["float64", "float64", "float64", "float32"]))
    return s


def prepare(spec):
    d = sl.describe(spec)
    if spec.get("mem") == "float32":
        with np.errstate(all="ignore"):
            r = lambda a: np.asarray(a).astype(np.float32).astype(np.float64)  # noqa: E731
            d["pos"] = r(d["pos"])
            d["curves"] = [(e, g, r(p), c) for e, g, p, c in d["curves"]]
            d["bcs"] = [{k: (t, r(p)) for k, (t, p) in c.items()} for c in d["bcs"]]
    return d


def to_mesh(spec, d):
    m = sl.build(spec, d)
    if spec.get("mem") == "float32":
        m2 = HexaData(m.ndim, m.nel, m.lr1, m.var, m.nbc, "float32")
        with np.errstate(all="ignore"):
            for a, b in zip(m.elem, m2.elem):
                b.pos[...] = a.pos
                b.curv[...] = a.curv
                b.ccurv = list(a.ccurv)
                for f in range(m.nbc):
                    for k in range(6):
                        for j in range(8):
                            b.bcs[f, k][j] = a.bcs[f, k][j]
        m2.ncurv, m2.endian = m.ncurv, m.endian
        return m2
    return m


def check06(spec, ctx):
    d = prepare(spec)
    sl.labels(ctx, spec, d)
    ctx.nontrivial(sl.rich(spec, d))
    f = fname(spec, ctx, "a.re2")
    m = to_mesh(spec, d)
    with ctx.sut("writing and reading the re2 file"):
        writere2(f, m)
        back = readre2(f)
        what = "after a re2 round trip"
        ctx.check(back.endian == spec["endian"], f"{what}: endian {back.endian}, expected {spec['endian']}")
        ctx.check(int(back.wdsz) == 8, f"{what}: wdsz {back.wdsz}")
        sl.expect(ctx, back, spec, d, what, nbc=max(1, spec["nbc"]))
        if spec["nbc"] == 0 or spec["nel"] > 5000:
            return
        f2 = fname(spec, ctx, "b.re2")
        writere2(f2, back)
        third = readre2(f2)
        sl.expect(ctx, third, spec, d, "after a second re2 round trip")
    ctx.check(slurp(f) == slurp(f2), "writing the mesh that was read gives other bytes")


PROPS["C06"] = Prop(
    "C06", check06, lambda tier: specs06(tier),
    "Random meshes of linear elements (2D/3D, 1-7 elements, 14 thorough, 0-4 condition fields, any subset of curved edges with letters m C s e, any subset of conditions with "
    "1-3 letter types incl. internal and periodic ones, values tagged/real/any bit pattern, either byte order, stale ncurv) plus meshes of 999-1234 elements, written with "
    "writere2 and read with readre2; oracle: the generated description. Non-trivial: " + RICH + ".",
    {"quick": 2400, "thorough": 30000}, fixed=fixed_big,
    assumptions=["a mesh without condition fields reads back with one field of empty conditions: the file does not tell them apart"],
)


# --------------------------------------------------------------------------- C07
@st.composite
def specs07(draw, tier):
    s = draw(sl.soup_specs(max_nel=7 if tier == "quick" else 14))
    s.update(
        pathlib=draw(st.booleans()),
        shuffle=draw(st.booleans()),
        pad=draw(st.sampled_from(["00000000000000", "20202020202020", "0000000000e03f", "ffffffffffffff", "c3a9c3a9c3a9fe"])),
        rest=draw(st.sampled_from([" this is the hdr", "", " this is the hdr %d", "    10.5 text"])),
        nelv_less=draw(st.integers(0, 3)),
        group=draw(st.booleans()),
        refuse=draw(st.sampled_from(["order", "geometry", "order2", "order3"])),
    )
    return s


def in_file(d):
    """The description with external conditions only, as lists in file order."""
    return {
        **d,
        "bcs": [[(e, k, p, t) for (e, k), (t, p) in sorted(c.items(), key=lambda i: i[0]) if t != "E"] for c in d["bcs"]],
    }


def check07(spec, ctx):
    d = sl.describe(spec)
    sl.labels(ctx, spec, d)
    ctx.nontrivial(sl.rich(spec, d))
    nbc = spec["nbc"]
    # --- writing
    f = fname(spec, ctx, "a.re2")
    m = sl.build(spec, d)
    with ctx.sut("writing the re2 file"):
        writere2(f, m)
    raw = slurp(f)
    exp = nekfmt.re2_file(in_file(d), spec["endian"])
    nel, dim = spec["nel"], spec["dim"]
    ctx.check(raw[:80].split() == exp[:80].split() and raw[:32] == exp[:32], f"header is {raw[:80]!r}, expected {exp[:80]!r}")
    ctx.check(raw[80:84] == exp[80:84], f"tag is {raw[80:84]!r}, expected {exp[80:84]!r}")
    geo = 84 + 8 * nel * (dim * 2**dim + 1)
    a, b = (np.frombuffer(r[84:geo], nekfmt.order(spec["endian"]) + "f8") for r in (raw, exp))
    ctx.check(core.same_bits(a, b), lambda: f"geometry (flat index): {core.first_diff(a, b)} (got, expected)")
    ctx.check(len(raw) == len(exp), f"the file has {len(raw)} bytes, expected {len(exp)}")
    o = nekfmt.order(spec["endian"])
    at = geo
    for sect in ["curved edges"] + [f"conditions of field {i}" for i in range(nbc)]:
        n = int(np.frombuffer(exp[at: at + 8], o + "f8")[0])
        ctx.check(raw[at: at + 8] == exp[at: at + 8], lambda: f"number of {sect} is {np.frombuffer(raw[at: at + 8], o + 'f8')[0]}, expected {n}")
        at += 8
        for i in range(n):
            ra, rb = raw[at: at + 64], exp[at: at + 64]
            x, y = np.frombuffer(ra[:56], o + "f8"), np.frombuffer(rb[:56], o + "f8")
            same = core.same_bits(x, y) and (ra[56:57] == rb[56:57] if sect == "curved edges" else ra[56:] == rb[56:])
            ctx.check(same, lambda: f"record {i} of the {sect} is {list(x)} {ra[56:]!r}, expected {list(y)} {rb[56:]!r}")
            at += 64

    # --- reading
    c = in_file(d)
    if nbc == 0:
        ctx.label("a foreign file without conditions at all")
    corder = border = None
    if spec["shuffle"]:
        corder = [int(i) for i in np.argsort(core.mix(spec["salt"], len(c["curves"]), 50), kind="stable")]
        border = [[int(i) for i in np.argsort(core.mix(spec["salt"] + j, len(x), 51), kind="stable")] for j, x in enumerate(c["bcs"])]
    group = None
    if spec["group"]:
        group = [float(1 + i % 3) for i in range(nel)]
    head = nekfmt.re2_header(nel, dim, max(1, nel - spec["nelv_less"]), spec["rest"])
    raw = nekfmt.re2_file(c, spec["endian"], bytes.fromhex(spec["pad"]), corder, border, head, group)
    f = fname(spec, ctx, "foreign.re2")
    with open(f, "wb") as fp:
        fp.write(raw)
    with ctx.sut("reading the re2 file"):
        back = readre2(f)
        what = "reading a re2 file of an independent encoder"
        ctx.check(back.endian == spec["endian"], f"{what}: endian {back.endian}, expected {spec['endian']}")
        ctx.check(int(back.wdsz) == 8, f"{what}: wdsz {back.wdsz}")
        sl.expect(ctx, back, spec, d, what, nbc=max(1, nbc))

    # --- what must be refused
    if spec["refuse"] == "geometry":
        m.var = [0, dim, 0, 0, 0]
    elif spec["refuse"] == "order":
        n = 3 + spec["salt"] % 3
        m = HexaData(dim, nel, [n, n, n if dim == 3 else 1], [dim, 0, 0, 0, 0], nbc)
    else:
        lr = [2, 2, dim - 1]
        lr[2 if spec["refuse"] == "order3" else spec["salt"] % 2] += 1
        m = HexaData(dim, nel, lr, [dim, 0, 0, 0, 0], nbc)
    g = fname(spec, ctx, "refused.re2")
    ctx.raises(lambda: writere2(g, m), f"a mesh with orders {m.lr1} and variables {m.var}", ValueError)
    ctx.check(not os.path.exists(g) or os.path.getsize(g) == 0, "a refused mesh was written all the same")
    ctx.raises(lambda: writere2(f, m), f"a mesh with orders {m.lr1} and variables {m.var}", ValueError)
    ctx.check(slurp(f) == raw, "a file that was there before has changed although the mesh was refused")


PROPS["C07"] = Prop(
    "C07", check07, lambda tier: specs07(tier),
    "Meshes as in C06. Writing: bytes against an independent encoder (header fields, tag, corner order, counts, each record). Reading: files of the encoder in both byte orders "
    "with records in random order, five kinds of padding after the curvature letter, other header texts, non-zero group words, fewer fluid elements in the header; oracle: the description. "
    "Every case also offers a high-order or geometry-less mesh that must be refused. Non-trivial: " + RICH + ".",
    {"quick": 4000, "thorough": 24000},
    assumptions=["bytes of the header beyond the counts are compared as tokens; padding after a written curvature letter is free"],
)


# --------------------------------------------------------------------------- rea
def text_values(d, spec):
    """Values a rea file can hold: vertex exponents below 100, everything finite."""
    pos = d["pos"]
    if spec["mode"] == "wild":
        with np.errstate(all="ignore"):
            d["pos"] = np.where(np.isfinite(pos) & (np.abs(pos) < 1e90) & ((np.abs(pos) > 1e-90) | (pos == 0)), pos, 0.75)
        fin = lambda p: np.where(np.isfinite(p), p, -0.5)  # noqa: E731
        d["curves"] = [(e, g, fin(p), c) for e, g, p, c in d["curves"]]
        d["bcs"] = [{k: (t, fin(p)) for k, (t, p) in c.items()} for c in d["bcs"]]
    return d


def seven(v):
    return float("%.6e" % float(v))


def specs08(tier):
    return st.tuples(sl.soup_specs(max_nel=6 if tier == "quick" else 12), st.booleans(), st.integers(0, 3)).map(
        lambda t: {**t[0], "pathlib": t[1], "aim0": t[2] == 0}
    )


def check08(spec, ctx):
    d = text_values(sl.describe(spec), spec)
    sl.labels(ctx, spec, d)
    ctx.nontrivial(sl.rich(spec, d))
    if spec.get("aim0"):
        # internal conditions that name no element are read as empty
        for c in d["bcs"]:
            for key in [k for k, (t, p) in c.items() if t == "E"][::2]:
                c[key] = ("E", np.zeros(5))
    m = sl.build(spec, d)
    for c in d["bcs"]:
        for key in [k for k, (t, p) in c.items() if t == "E" and p[0] == 0]:
            del c[key]
            ctx.label("internal condition that names no element")
    if spec["nel"] >= 1000:
        ctx.label("thousand elements")
    f = fname(spec, ctx, "a.rea")
    with ctx.sut("writing and reading the rea file", 240 if spec["nel"] < 200000 else 600):
        writerea(f, m)
        back = readrea(f)
        sl.expect(ctx, back, spec, d, "after a rea round trip", conv=seven, keep_e=True)
        if spec["nel"] > 5000:
            return
        f2 = fname(spec, ctx, "b.rea")
        writerea(f2, back)
        third = readrea(f2)
        sl.expect(ctx, third, spec, d, "after a second rea round trip", conv=seven, keep_e=True)
    if not spec.get("aim0"):
        ctx.check(slurp(f) == slurp(f2), "writing the mesh that was read gives another text")


def fixed08(tier):
    out = fixed_big(tier)
    if tier == "thorough":
        out.append({**out[1], "dim": 2, "nel": 1000000, "nbc": 1, "curved": 1, "late": True, "salt": 3})
    return out


PROPS["C08"] = Prop(
    "C08", check08, specs08,
    "Random meshes of linear elements as in C06 (values finite, vertex exponents below 100), incl. nel = 999, 1000, 1001 and 1234 where the columns change "
    "(up to 1,000,000 thorough), written with writerea and read with readrea; oracle: the description rounded to seven significant digits, empty and aimless internal conditions "
    "empty; writing again gives the same text. Non-trivial: " + RICH + ".",
    {"quick": 1800, "thorough": 20000}, fixed=fixed08,
    assumptions=["'same text' is not asserted when the mesh holds internal conditions that name no element, since those are read as empty"],
)


# --------------------------------------------------------------------------- C09
@st.composite
def specs09(draw, tier):
    s = draw(sl.soup_specs(max_nel=6 if tier == "quick" else 12))
    s.update(
        pathlib=draw(st.booleans()),
        npar=draw(st.sampled_from([103, 118, 0, 1, 150])), nps=draw(st.integers(0, 6)), nsw=draw(st.sampled_from([13, 0, 1, 20])),
        tail=draw(st.booleans()), num=draw(st.sampled_from(["e14", "G14"])), title=draw(st.sampled_from(["****** PARAMETERS ******", "", "a title line"])),
        style="i6",
    )
    return s


def fixed09(tier):
    out = []
    for i, s in enumerate(fixed_big("quick")[1:]):
        out.append({**s, "npar": 103, "nps": 2, "nsw": 13, "tail": True, "num": "e14", "title": "x", "style": ["i6", "i5i1"][i % 2]})
    return out


def six(v):
    return float(reafmt.G14(v))


def check09(spec, ctx):
    d = text_values(sl.describe(spec), spec)
    if spec["num"] == "G14":
        # exponents the Fortran format can hold
        lim = lambda p: np.where((np.abs(p) < 1e90) & ((np.abs(p) > 1e-90) | (p == 0)), p, 3.25)  # noqa: E731
        d["curves"] = [(e, g, lim(p), c) for e, g, p, c in d["curves"]]
        d["bcs"] = [{k: (t, lim(p)) for k, (t, p) in c.items()} for c in d["bcs"]]
    sl.labels(ctx, spec, d)
    ctx.nontrivial(sl.rich(spec, d))
    m = sl.build(spec, d)
    frea, fre2 = fname(spec, ctx, "a.rea"), fname(spec, ctx, "a.re2")
    with ctx.sut("writing the mesh as rea and as re2"):
        writerea(frea, m)
        writere2(fre2, m)
        a, b = readrea(frea), readre2(fre2)
    # --- the same external mesh
    ctx.check((int(a.ndim), int(a.nel), int(a.ncurv)) == (int(b.ndim), int(b.nel), int(b.ncurv)), f"rea {a.ndim, a.nel, a.ncurv} and re2 {b.ndim, b.nel, b.ncurv} (ndim, nel, ncurv)")
    ctx.check(int(a.nbc) == spec["nbc"] and int(b.nbc) == max(1, spec["nbc"]), f"condition fields: rea {a.nbc}, re2 {b.nbc}, mesh {spec['nbc']}")
    vec = np.vectorize(seven, otypes=[float])
    for e, (x, y) in enumerate(zip(a.elem, b.elem)):
        yp = vec(y.pos)
        ctx.check(core.same_bits(x.pos, yp), lambda: f"points of element {e + 1}: rea and re2 differ {core.first_diff(x.pos, yp)}")
        ctx.check(list(map(str, x.ccurv)) == list(map(str, y.ccurv)), lambda: f"curvature of element {e + 1}: rea {x.ccurv}, re2 {y.ccurv}")
        yc = vec(y.curv)
        ctx.check(core.same_bits(x.curv, yc), lambda: f"curvature parameters of element {e + 1}: rea and re2 differ {core.first_diff(x.curv, yc)}")
        for f in range(spec["nbc"]):
            for k in range(2 * spec["dim"]):
                p, q = x.bcs[f, k], y.bcs[f, k]
                if str(p[0]) in ("", "E"):
                    ctx.check(str(q[0]) == "", lambda: f"face {k + 1} of element {e + 1} in field {f}: rea {p}, re2 {q}")
                else:
                    ctx.check(
                        str(p[0]) == str(q[0]) and int(p[1]) == int(q[1]) and int(p[2]) == int(q[2])
                        and core.same_bits([float(p[j]) for j in range(3, 8)], [seven(q[j]) for j in range(3, 8)]),
                        lambda: f"face {k + 1} of element {e + 1} in field {f}: rea {p}, re2 {q}",
                    )
    # --- the columns of the text
    with open(frea) as fp:
        text = fp.read()
    try:
        got = reafmt.parse(text)
    except (reafmt.Bad, ValueError, IndexError) as err:
        ctx.fail(f"the rea text does not follow the fixed columns: {err}")
    ctx.check(got["dim"] == spec["dim"] and len(got["pos"]) == spec["nel"] and len(got["bcs"]) == spec["nbc"], f"the text has dimension {got['dim']}, {len(got['pos'])} elements, {len(got['bcs'])} condition fields")
    want = vec(d["pos"])
    ctx.check(core.same_bits(got["pos"], want), lambda: f"corners in the text (element, component, z, y, x): {core.first_diff(got['pos'], want)} (got, expected)")
    gc = sorted((e, g, tuple(p), c) for e, g, p, c in got["curves"])
    wc = sorted((e, g, tuple(vec(p)), c) for e, g, p, c in d["curves"])
    ctx.check(repr(gc) == repr(wc), lambda: f"curved sides in the text: {next((x, y) for x, y in zip(gc + [None], wc + [None]) if repr(x) != repr(y))} (got, expected)")
    for f in range(spec["nbc"]):
        for key, (t, p) in got["bcs"][f].items():
            wt, wp = d["bcs"][f].get(key, ("E", np.zeros(5)))
            ctx.check(t == wt and core.same_bits(p, vec(wp)), lambda: f"condition of (element, face) {key} in field {f} in the text is {t} {p}, expected {wt} {wp}")

    # --- a text of an independent writer
    f = fname(spec, ctx, "foreign.rea")
    with open(f, "w") as fp:
        fp.write(reafmt.write(d, spec, reafmt.G14 if spec["num"] == "G14" else reafmt.g14))
    with ctx.sut("reading a foreign rea file"):
        m = readrea(f)
        sl.expect(ctx, m, spec, d, "reading a rea file of an independent writer", conv=six if spec["num"] == "G14" else seven, keep_e=True)


PROPS["C09"] = Prop(
    "C09", check09, lambda tier: specs09(tier),
    "Meshes as in C08. (1) rea and re2 of the same mesh read back and compared value by value; (2) the rea text parsed by an independent fixed-column parser and compared with the description; "
    "(3) texts of an independent writer with random numbers of parameters, scalar lines and switches, Fortran G14.6 or e14.6 numbers, I3I3, I6 and I5I1 columns. "
    "Non-trivial: " + RICH + ".",
    {"quick": 2400, "thorough": 16000}, fixed=fixed09,
)
