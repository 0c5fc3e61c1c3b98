"""C01-C05: Nek5000 field files."""

import io
import pathlib

import numpy as np
from hypothesis import strategies as st

import core
import fieldlib as fl
import nekfmt
from checks import Prop
from pymech.neksuite import readnek, writenek
from pymech.neksuite.field import Header, read_header

PROPS = {}

ORDERED = "elmap"


def labels(ctx, spec):
    ctx.label("3D", spec["ndim"] == 3)
    ctx.label("big-endian", spec["endian"] == "big")
    ctx.label("single precision file", spec["wdsz"] == 4)
    ctx.label("float32 in memory", spec["mem"] == "float32")
    ctx.label("permuted elmap", spec["elmap"] != sorted(spec["elmap"]))
    ctx.label("several scalars and elements", spec["var"][4] > 1 and spec["nel"] > 1)
    ctx.label("no geometry", spec["var"][0] == 0)
    ctx.label("orders differ per direction", len(set(spec["lr1"][: spec["ndim"]])) > 1)
    ctx.label("ten or more scalars", spec["var"][4] >= 10)
    ctx.label("unusual memory layout", spec.get("layout", "c") != "c")
    ctx.label("ten or more points in a direction", max(spec["lr1"]) >= 10)
    ctx.label("sixteen or more elements", spec["nel"] >= 16)


RICH = "at least two elements and at least two kinds of variable, or an element map that is not the identity"


def rich(spec):
    return (spec["nel"] > 1 and sum(v > 0 for v in spec["var"]) > 1) or spec["elmap"] != sorted(spec["elmap"])


# --------------------------------------------------------------------------- C01
def specs01(tier):
    big = tier == "thorough"
    return st.tuples(fl.field_specs(max_nel=10 if big else 6, max_n=7 if big else 5, big=True, large=tier == "large"), st.booleans(), st.sampled_from(["float64", "float32"])).map(
        lambda t: {**t[0], "pathlib": t[1], "read": t[2]}
    )


def check01(spec, ctx):
    labels(ctx, spec)
    ctx.nontrivial(rich(spec))
    fields = fl.arrays(spec)
    f = ctx.path("a0.f00001")
    f = pathlib.Path(f) if spec["pathlib"] else f
    with ctx.sut("writing the field"):
        data = fl.make_mesh(spec, fields)
        writenek(f, data)
    with ctx.sut("reading it back"):
        back = readnek(f) if spec["read"] == "float64" else readnek(f, dtype=spec["read"])
        fl.expect_meta(ctx, back, spec, "after a round trip")
        fl.expect_fields(ctx, back, spec, fields, spec["read"], "after a round trip")
    raw = open(f, "rb").read()
    if spec["wdsz"] == 8 and spec["read"] == "float32":
        return
    f2 = ctx.path("a0.f00002")
    with ctx.sut("writing again"):
        writenek(f2, back)
    raw2 = open(f2, "rb").read()
    ntrail = 0 if spec["ndim"] == 2 else 8 * spec["nel"] * sum(spec["var"])
    n = len(raw) - ntrail
    ctx.check(len(raw) == len(raw2), f"writing the field that was read gives {len(raw2)} bytes instead of {len(raw)}")
    ctx.check(raw[:132] == raw2[:132], f"header changes on rewriting: {raw[:132]} -> {raw2[:132]}")
    ctx.check(raw[:n] == raw2[:n], "writing the field that was read gives other bytes")
    if ntrail:
        o = nekfmt.order(spec["endian"])
        a, b = np.frombuffer(raw[n:], o + "f4"), np.frombuffer(raw2[n:], o + "f4")
        ctx.check(np.array_equal(a, b, equal_nan=True), "the minima and maxima change on rewriting")


PROPS["C01"] = Prop(
    "C01", check01, specs01,
    "Random field mesh (dimension, orders per direction, 1-6 elements (10 thorough), variable set, up to 99 scalars, element map permutation, word size, "
    "byte order, memory precision, values tagged/real/any bit pattern incl. NaN, inf, subnormals) written with writenek and read with readnek; "
    "oracle: every value equals the original cast to the file precision, all metadata equal, rewriting gives the same bytes. "
    "Non-trivial: " + RICH + ".",
    {"quick": 5000, "thorough": 30000},
    assumptions=["time is compared after rounding to the 13 decimals of the format", "NaN payloads are not compared"],
    large={"quick": 10, "thorough": 40},
)


# --------------------------------------------------------------------------- C02
def specs02(tier):
    big = tier == "thorough"
    return fl.field_specs(max_nel=10 if big else 6, max_n=7 if big else 5, big=True, large=tier == "large")


def check02(spec, ctx):
    labels(ctx, spec)
    ctx.nontrivial(rich(spec))
    fields = fl.arrays(spec)
    f = ctx.path("a0.f00001")
    with ctx.sut("writing the field"):
        writenek(f, fl.make_mesh(spec, fields))
    raw = open(f, "rb").read()
    exp = nekfmt.nek_file(spec, fields, trailer=False)
    ctx.check(raw[:132] == exp[:132], f"header is {raw[:132]!r}, expected {exp[:132]!r}")
    ctx.check(raw[132:136] == exp[132:136], f"endianness tag is {raw[132:136]!r}, expected {exp[132:136]!r}")
    nmap = 136 + 4 * spec["nel"]
    ctx.check(raw[136:nmap] == exp[136:nmap], f"element map is {raw[136:nmap]!r}, expected {exp[136:nmap]!r}")
    n = len(exp)
    ntrail = 0 if spec["ndim"] == 2 else 8 * spec["nel"] * sum(spec["var"])
    ctx.check(len(raw) == n + ntrail, f"the file has {len(raw)} bytes, expected {n + ntrail}")
    o = nekfmt.order(spec["endian"])
    dt = o + ("f4" if spec["wdsz"] == 4 else "f8")
    got, want = np.frombuffer(raw[nmap:n], dt), np.frombuffer(exp[nmap:n], dt)
    ctx.check(core.same_bits(got, want), lambda: f"data block (flat index): {core.first_diff(got, want)} (got, expected)")
    if ntrail:
        got = np.frombuffer(raw[n:], o + "f4")
        want = nekfmt.nek_trailer(spec, fields, spec["elmap"])
        # the minimum of data containing NaN is not specified
        ok = ~np.isnan(want)
        ctx.check(
            np.array_equal(got[ok], want[ok]),
            lambda: f"minima and maxima (flat index): {core.first_diff(got[ok], want[ok])} (got, expected)",
        )


PROPS["C02"] = Prop(
    "C02", check02, specs02,
    "Same meshes as C01, written with writenek; oracle: the bytes of an independent encoder of the format (header, tag, element map, data blocks, "
    "3D trailer of float32 extrema). Non-trivial: " + RICH + ".",
    {"quick": 5000, "thorough": 30000},
    assumptions=["extrema of components containing NaN are not compared"],
    large={"quick": 10, "thorough": 40},
)


# --------------------------------------------------------------------------- C03
@st.composite
def specs03(draw, tier):
    spec = draw(fl.field_specs(max_nel=6, max_n=5 if tier == "quick" else 7, big=True, large=tier == "large"))
    nel = spec["nel"]
    kind = draw(st.sampled_from(["full", "full", "part", "part", "zero"]))
    total = nel
    if kind == "part":
        total = nel + draw(st.integers(0, 6))
        spec["elmap"] = draw(fl.permutation(total))[:nel]
    if kind == "zero":
        total = nel + draw(st.integers(0, 2))
        m = draw(st.lists(st.integers(0, total), min_size=nel, max_size=nel)) if nel < 200 else [i % total for i in draw(fl.permutation(nel))]
        if 0 not in m:
            m[draw(st.integers(0, nel - 1))] = 0
        spec["elmap"] = m
    spec.update(
        kind=kind, total=total, fid=draw(st.integers(0, 3)), nfiles=draw(st.sampled_from([1, 2, 4, 128])),
        extra=draw(st.sampled_from(["", "   ", " 1.0E-02 F", "          0.0000000E+00 F"])),
        read=draw(st.sampled_from(["float64", "float32", "f4", "f8", "default", "np.float32", "np.float64"])),
        trailer=draw(st.booleans()), pathlib=draw(st.booleans()),
    )
    return spec


def read_as(fname, how, **kw):
    if how == "default":
        return readnek(fname, **kw)
    if how.startswith("np."):
        return readnek(fname, dtype=getattr(np, how[3:]), **kw)
    return readnek(fname, dtype=how, **kw)


MEM = {"float64": "float64", "float32": "float32", "f4": "float32", "f8": "float64", "default": "float64", "np.float32": "float32", "np.float64": "float64"}


def foreign(spec, ctx):
    """Writes the file of a foreign spec; returns (path, arrays over all elements, elements present)."""
    total, nel = spec["total"], spec["nel"]
    fields = fl.arrays({**spec, "nel": total})
    raw = nekfmt.nek_file(
        spec, fields, elmap=spec["elmap"], nel_total=total, fid=spec["fid"], nfiles=spec["nfiles"], extra=spec["extra"], trailer=spec["trailer"]
    )
    f = ctx.path("a0.f00001")
    with open(f, "wb") as fp:
        fp.write(raw)
    present = range(nel) if spec["kind"] == "zero" else [g - 1 for g in spec["elmap"]]
    return (pathlib.Path(f) if spec["pathlib"] else f), fields, present


def check03(spec, ctx):
    labels(ctx, spec)
    ctx.label("part of a multi-file output", spec["total"] > spec["nel"])
    ctx.label("zero in elmap", spec["kind"] == "zero")
    ctx.nontrivial(rich(spec) or spec["total"] > spec["nel"])
    f, fields, present = foreign(spec, ctx)
    with ctx.sut("reading the file"):
        data = read_as(f, spec["read"])
        what = "reading a file of an independent encoder"
        fl.expect_meta(ctx, data, spec, what, nel=spec["total"])
        fl.expect_fields(ctx, data, spec, fields, MEM[spec["read"]], what, present)


# small parts of meshes of many elements
FIXED03 = [
    {"ndim": 2, "lr1": [2, 2, 1], "nel": len(m), "var": v, "wdsz": w, "endian": e, "mem": "float64", "elmap": m, "time": 0.5, "istep": 3, "salt": 5, "mode": "tag",
     "layout": "c", "kind": "part", "total": t, "fid": 1, "nfiles": 2, "extra": "", "read": "default", "trailer": False, "pathlib": False}
    for m, t, v, w, e in (
        ([65700, 3, 65536, 32768], 65712, [2, 0, 0, 0, 1], 4, "big"),
        ([300, 33000, 256], 33010, [0, 2, 1, 0, 0], 8, "little"),
    )
]


PROPS["C03"] = Prop(
    "C03", check03, specs03 and (lambda tier: specs03(tier)),
    "Files of an independent encoder: all combinations of byte order, word size, variable set, orders, element maps (permuted, partial with missing elements, "
    "containing zeros), extra header tokens, with and without the 3D trailer, read in a random precision; oracle: the encoder's arrays. "
    "Non-trivial: " + RICH + ", or a partial file.",
    {"quick": 5000, "thorough": 30000},
    fixed=lambda tier: FIXED03,
    assumptions=["a partial file (one of several) leaves absent elements zero, as the reader does today"],
    large={"quick": 10, "thorough": 40},
)


# --------------------------------------------------------------------------- C04
NAMES = {
    (0, 0): ["x"], (0, 1): ["y"], (0, 2): ["z"],
    (1, 0): ["ux", "vx"], (1, 1): ["uy", "vy"], (1, 2): ["uz", "vz"],
    (2, 0): ["p", "pressure"], (3, 0): ["t", "temperature"],
}
ALL = [n for v in NAMES.values() for n in v] + [f"s{i:02d}" for i in range(1, 6)]


@st.composite
def specs04(draw, tier):
    spec = draw(specs03(tier))
    # several blocks, so that a wrong seek shows
    if draw(st.integers(0, 3)) > 0:
        nd = spec["ndim"]
        spec["var"] = [nd, nd, 1, draw(st.integers(0, 1)), draw(st.integers(0, 3))]
    mode = draw(st.integers(0, 3))
    if mode == 0:
        skip = draw(st.lists(st.sampled_from(ALL + ["s12", "s99", "other"]), max_size=4))
    elif mode == 1:
        skip = list(draw(st.permutations(draw(st.sampled_from([
            ["x", "y", "z"], ["ux", "uy", "uz"], ["vx", "vy", "vz"], ["p"], ["pressure"], ["t"], ["temperature"], ["s01", "s02", "s03"],
            ["x", "y"], ["ux", "uy"], ["x", "y", "z", "ux", "uy", "uz"], ["ux", "vx"], ["s02"], ["s01"], ["ux", "vy", "uz"],
        ])))))
    elif mode == 2:
        skip = draw(st.lists(st.sampled_from(ALL), max_size=12, unique=True))
    else:
        keep = draw(st.lists(st.sampled_from(ALL), max_size=3, unique=True))
        skip = [n for n in ALL if n not in keep]
    spec["skip"] = skip
    spec["container"] = draw(st.sampled_from(["tuple", "list"]))
    return spec


def check04(spec, ctx):
    labels(ctx, spec)
    var = spec["var"]
    skipped = set()
    for (b, c), names in NAMES.items():
        if c < var[b] and any(n in spec["skip"] for n in names):
            skipped.add((b, c))
    for i in range(var[4]):
        if "s%02d" % (i + 1) in spec["skip"]:
            skipped.add((4, i))
    slots = [(b, c) for b in range(5) for c in range(var[b])]
    reads_after = any(s not in skipped and any(t in skipped for t in slots[:i]) for i, s in enumerate(slots))
    ctx.label("a skipped variable precedes a read one", reads_after)
    for b, nm in enumerate(nekfmt.BLOCKS):
        n = sum((b, c) in skipped for c in range(var[b]))
        ctx.label(f"{nm}: all skipped", var[b] > 0 and n == var[b])
        ctx.label(f"{nm}: some skipped", 0 < n < var[b])
    ctx.nontrivial(reads_after)
    f, fields, present = foreign(spec, ctx)
    skip = tuple(spec["skip"]) if spec["container"] == "tuple" else list(spec["skip"])
    with ctx.sut("reading with skipped variables"):
        data = read_as(f, spec["read"], skip_vars=skip)
        what = f"reading without {spec['skip']}"
        fl.expect_meta(ctx, data, spec, what, nel=spec["total"])
        fl.expect_fields(ctx, data, spec, fields, MEM[spec["read"]], what, present, skip=skipped)


PROPS["C04"] = Prop(
    "C04", check04, lambda tier: specs04(tier),
    "Files as in C03 times subsets of the documented names to skip (both spellings, single components, whole variables, unknown names); oracle: the encoder's arrays "
    "for variables not skipped, zeros for skipped ones. Non-trivial: a variable that is read comes after a skipped one in the file.",
    {"quick": 4000, "thorough": 16000},
    large={"quick": 10, "thorough": 40},
)


# --------------------------------------------------------------------------- C05
@st.composite
def specs05(draw, tier):
    ndim = draw(st.sampled_from([2, 3]))
    lr1 = [draw(st.integers(1, 99)), draw(st.integers(1, 99)), 1 if ndim == 2 else draw(st.integers(2, 99))]
    nscal = draw(st.one_of(st.integers(0, 3), st.integers(0, 99)))
    var = [ndim * draw(st.integers(0, 1)), ndim * draw(st.integers(0, 1)), draw(st.integers(0, 1)), draw(st.integers(0, 1)), nscal]
    if not any(var):
        var[4] = draw(st.integers(1, 99))
    return {
        "wdsz": draw(st.sampled_from([4, 8])), "lr1": lr1, "var": var,
        "nel": draw(st.one_of(st.integers(1, 100), st.integers(1, 2**31 - 1))),
        "nelf": draw(st.one_of(st.integers(1, 100), st.integers(1, 2**31 - 1))),
        "time": draw(fl.times()),
        "istep": draw(st.one_of(st.integers(0, 10), st.integers(0, 999999999))),
        "fid": draw(st.integers(0, 999999)), "nfiles": draw(st.integers(1, 999999)),
        "how": draw(st.sampled_from(["variables", "nb_vars", "bytes", "both"])),
        "src": draw(st.sampled_from(["path", "Path", "file"])),
        "offset": draw(st.integers(0, 40)),
        "bad": draw(st.sampled_from(["wdsz", "tokens", "novars", "type"])),
        "badn": draw(st.integers(0, 11)),
        "badw": draw(st.sampled_from([0, 1, 2, 3, 5, 6, 7, 9, 16, 32, 64])),
    }


def check05(spec, ctx):
    vs = nekfmt.var_string(spec["var"])
    ndim = 2 + (spec["lr1"][2] > 1)
    ctx.label("scalars", spec["var"][4] > 0)
    ctx.label("ten or more scalars", spec["var"][4] >= 10)
    ctx.label("unusual memory layout", spec.get("layout", "c") != "c")
    ctx.label("ten or more points in a direction", max(spec["lr1"]) >= 10)
    ctx.label("sixteen or more elements", spec["nel"] >= 16)
    ctx.label("from " + spec["how"])
    ctx.label("long time", spec["time"] != 0 and not (1e-99 < abs(spec["time"]) < 1e99))
    ctx.nontrivial(len(vs) > 1)
    t = float("%.13E" % spec["time"])
    want = nekfmt.nek_header(
        spec["wdsz"], spec["lr1"], spec["nel"], spec["nelf"], spec["time"], spec["istep"], spec["fid"], spec["nfiles"], vs
    )

    def expect(h, what, time):
        ctx.check(
            (h.wdsz, tuple(h.orders), h.nb_elems, h.nb_elems_file, h.istep, h.fid, h.nb_files)
            == (spec["wdsz"], tuple(spec["lr1"]), spec["nel"], spec["nelf"], spec["istep"], spec["fid"], spec["nfiles"]),
            f"{what}: {h}",
        )
        ctx.check(h.time == time, f"{what}: time {h.time!r}, expected {time!r}")
        ctx.check(h.variables == vs, f"{what}: variables {h.variables!r}, expected {vs!r}")
        ctx.check(tuple(h.nb_vars) == tuple(spec["var"]), f"{what}: variable counts {h.nb_vars}, expected {spec['var']}")
        ctx.check(h.nb_dims == ndim, f"{what}: dimension {h.nb_dims}")
        ctx.check(int(h.nb_pts_elem) == int(np.prod(spec["lr1"])), f"{what}: points per element {h.nb_pts_elem}")
        ctx.check(h.realtype == {4: "f", 8: "d"}[spec["wdsz"]], f"{what}: real type {h.realtype}")
        b = h.as_bytestring()
        ctx.check(len(b) == 132, f"{what}: formatted header has {len(b)} bytes")
        ctx.check(bytes(b) == want, f"{what}: formatted header {b!r}, expected {want!r}")

    with ctx.sut("making a header"):
        args = (spec["wdsz"], spec["lr1"], spec["nel"], spec["nelf"], spec["time"], spec["istep"], spec["fid"], spec["nfiles"])
        if spec["how"] == "variables":
            h = Header(*args, vs)
        elif spec["how"] == "bytes":
            h = Header(*[str(a).encode() if not isinstance(a, list) else [str(i).encode() for i in a] for a in args[:4]],
                       repr(spec["time"]).encode(), *[str(a).encode() for a in args[5:]], vs.encode())
        elif spec["how"] == "nb_vars":
            h = Header(*args, nb_vars=tuple(spec["var"]))
        else:
            h = Header(*args, variables=vs, nb_vars=tuple(spec["var"]))
        expect(h, "made from " + spec["how"], spec["time"])
        raw = h.as_bytestring()

    f = ctx.path("h.f00001")
    with open(f, "wb") as fp:
        fp.write(bytes(raw) + b"rest of the file" * 3)
    before = 0
    if spec["src"] == "file" and spec["istep"] % 3 == 0:
        # another header, or something else, comes first
        other = [nekfmt.nek_header(4, [3, 3, 3], 7, 7, 1.5, 3, 0, 1, "XU"), b"something in front"][spec["istep"] % 2]
        before = len(other)
        with open(f, "wb") as fp:
            fp.write(other + bytes(raw) + b"rest of the file" * 3)
    ctx.label("header not at the start of the file", before > 0)
    with ctx.sut("reading the header"):
        if spec["src"] == "file":
            with open(f, "rb") as fp:
                fp.read(before)
                h2 = read_header(fp)
                ctx.check(fp.tell() == before + 132, f"after reading the header at {before} the file is at {fp.tell()}")
                ctx.check(fp.read(4) == b"rest", "the rest of the file is not where it should be")
        else:
            h2 = read_header(f if spec["src"] == "path" else pathlib.Path(f))
        expect(h2, "read back", t)

    # --- what must be refused
    if spec["bad"] == "wdsz":
        ctx.raises(lambda: Header(spec["badw"], *args[1:], vs), f"word size {spec['badw']}", ValueError)
    elif spec["bad"] == "novars":
        ctx.raises(lambda: Header(*args), "no variables", ValueError)
    elif spec["bad"] == "tokens":
        short = b" ".join(want.split()[: spec["badn"]]).ljust(132)
        f2 = ctx.path("short.f00001")
        with open(f2, "wb") as fp:
            fp.write(short + b"x" * 20)
        ctx.raises(lambda: read_header(f2), f"header with {spec['badn']} tokens")
    else:
        ctx.raises(lambda: read_header(io.StringIO("x")), "a text object instead of a binary file", ValueError)


PROPS["C05"] = Prop(
    "C05", check05, lambda tier: specs05(tier),
    "Random valid header values (orders to 99, counts to 2^31-1, any finite time, 0-99 scalars) given as variables string, counts, bytes or both; oracle: reference "
    "formatting, parsing back from path / Path / open file with position check, derived quantities; plus one invalid header per case that must be refused. "
    "Non-trivial: more than one kind of variable.",
    {"quick": 5000, "thorough": 30000},
)
