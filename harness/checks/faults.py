"""C10: truncated and untagged files."""

import os
import struct

import numpy as np
from hypothesis import strategies as st

import core
import fieldlib as fl
import nekfmt
import reafmt
import simfmt
import souplib as sl
from checks import Prop, small_io
from checks import mesh_io
from pymech.neksuite import readma2, readnek, readre2, readrea
from pymech.simsonsuite import readdns, readplane

PROPS = {}
KINDS = ["field", "field", "field", "re2", "re2", "rea", "ma2", "simson", "plane"]


@st.composite
def specs10(draw, tier):
    kind = draw(st.sampled_from(KINDS))
    if kind == "field":
        s = draw(fl.field_specs(max_nel=3, max_n=3, max_scal=2))
        s["total"] = s["nel"]
        if draw(st.integers(0, 2)) == 0:
            s["total"] = s["nel"] + draw(st.integers(1, 3))
            s["elmap"] = draw(st.permutations(range(1, s["total"] + 1)))[: s["nel"]]
        s["skip"] = draw(st.sampled_from([[], [], [], ["x", "y", "z"], ["x"], ["ux", "uy", "uz"], ["vx"], ["p"], ["x", "y", "z", "ux", "uy", "uz"], ["s01"], ["t", "p"]]))
    elif kind in ("re2", "rea"):
        s = draw(sl.soup_specs(max_nel=3, max_nbc=3))
        if s["mode"] == "wild":
            s["mode"] = "real"
        s.update(npar=draw(st.sampled_from([0, 3, 118])), nps=draw(st.integers(0, 2)), nsw=draw(st.integers(0, 3)), style="i6", writer=draw(st.booleans()))
        s["tail"] = False
    elif kind == "ma2":
        s = draw(small_io.specs11("quick"))
        s["nel"] = 1 + s["nel"] % 12
    elif kind == "simson":
        s = draw(small_io.specs12("quick"))
    else:
        s = draw(small_io.specs13("quick"))
    s["kind"] = kind
    s["cutsalt"] = draw(st.integers(0, 10**6))
    near = [6.5431, 6.5433, 6.54, 6.55, 6.5, 6.6, 7.0, 6.0, -6.54321, 654321.0, 0.654321, 65.4321, 6.54321e-5]
    near = [int.from_bytes(struct.pack(o + "f", v), "little") for v in near for o in "<>"]
    s["tag"] = draw(st.one_of(st.integers(0, 2**32 - 1), st.sampled_from(near), st.sampled_from([0, 2**32 - 1, 0x7F800000, 0x807F, 0x40D161AF, 0x3F800000, 0x20202020])))
    return s


ENUM = {"quick": 400, "thorough": 3000}


def cuts(n, marks, salt, limit):
    """Lengths to cut to: all below n if few, otherwise a spread sample plus everything near the section boundaries."""
    if n <= limit:
        return list(range(n))
    out = set(int(v) for v in core.mix(salt, limit // 3, 1) % np.uint64(n))
    for m in marks:
        for k in (-9, -8, -7, -5, -4, -2, -1, 0, 1, 3, 4, 7, 8):
            if 0 <= m + k < n:
                out.add(m + k)
    out.update(range(max(0, n - 20), n))
    return sorted(out)


def build10(spec, ctx):
    """(bytes, reader, cut marks, set of lengths the format allows as an end, number of bytes that are promised)"""
    kind = spec["kind"]
    if kind == "field":
        fields = fl.arrays({**spec, "nel": spec["total"]})
        raw = nekfmt.nek_file(spec, fields, elmap=spec["elmap"], nel_total=spec["total"], trailer=False)
        lx, ly, lz = spec["lr1"]
        n = lx * ly * lz * spec["wdsz"]
        marks = [132, 136, 136 + 4 * spec["nel"]]
        at = marks[-1]
        slots = []
        for b in range(4):
            for c in range(spec["var"][b]):
                slots.append((b, c))
            at += n * spec["var"][b] * spec["nel"]
            marks.append(at)
        for c in range(spec["var"][4]):
            slots.append((4, c))
            at += n * spec["nel"]
            marks.append(at)
        assert at == len(raw)
        # skipping must leave the last stored variable to be read, otherwise the end of the file is not looked at
        skip = list(spec["skip"])
        last = slots[-1]
        from checks.field_io import NAMES

        names = NAMES.get(last, ["s%02d" % (last[1] + 1)])
        if any(v in skip for v in names):
            skip = []
        return raw, (lambda f: readnek(f, skip_vars=tuple(skip))), marks, set(), 132
    if kind == "re2":
        d = sl.describe(spec)
        c = mesh_io.in_file(d)
        raw = nekfmt.re2_file(c, spec["endian"])
        if spec["writer"]:
            from pymech.neksuite import writere2

            f = ctx.path("w.re2")
            with ctx.sut("writing"):
                writere2(f, sl.build(spec, d))
            raw = open(f, "rb").read()
        nel, dim = spec["nel"], spec["dim"]
        at = 84 + 8 * nel * (dim * 2**dim + 1)
        marks = [80, 84, at]
        at += 8 + 64 * len(c["curves"])
        legal = {at}
        marks.append(at)
        for b in c["bcs"]:
            at += 8 + 64 * len(b)
            legal.add(at)
            marks.append(at)
        if at != len(raw):
            ctx.fail(f"the re2 file has {len(raw)} bytes, expected {at}")
        return raw, readre2, marks, legal, 84
    if kind == "rea":
        d = mesh_io.text_values(sl.describe(spec), spec)
        if spec["writer"]:
            from pymech.neksuite import writerea

            f = ctx.path("w.rea")
            with ctx.sut("writing"):
                writerea(f, sl.build(spec, d))
            text = open(f).read()
        else:
            text = reafmt.write(d, spec)
        raw = text.encode()
        # end of what is promised: the last condition line, or the last curved side; the sections that follow are not read
        lines = text.split("\n")
        start, p = [], 0
        for ln in lines:
            start.append(p)
            p += len(ln) + 1
        icurv = next(i for i, ln in enumerate(lines) if "CURVED SIDE" in ln)
        i = icurv + 1 + len(d["curves"])
        legal = set()
        marks = [start[icurv], start[i]]

        def allow(last_line, next_header):
            """From inside the last number of the line up to (excluding) the word BOUNDARY being complete in the next section's title."""
            a = start[last_line] + len(lines[last_line])
            b = len(raw)
            if next_header is not None:
                b = start[next_header] + lines[next_header].index("BOUNDARY") + len("BOUNDARY") - 1
            lo = a - 14  # inside the last number of a condition
            if last_line == icurv + 1:
                lo = start[last_line] + 12  # no curved sides: after their number
            elif last_line == i:
                lo = a
            legal.update(range(lo, b + 1))

        heads = [k for k, ln in enumerate(lines) if "BOUNDARY CONDITIONS" in ln and k > i + 1 and " NO " not in ln]
        nlines = 2 * spec["dim"] * spec["nel"]
        ends = [i] + [h + nlines for h in heads]
        for k, e in enumerate(ends):
            allow(e, heads[k] if k < len(heads) else None)
            marks.append(start[e] + len(lines[e]))
        return raw[: start[ends[-1]] + len(lines[ends[-1]]) + 1], readrea, marks, legal, 0
    if kind == "ma2":
        cells, procs = small_io.ma2(spec)
        raw = nekfmt.ma2_file(cells, procs, spec["endian"])
        return raw, readma2, [132, 136], set(), 132
    if kind == "simson":
        c = small_io.modes(spec)
        raw, head = simfmt.sim_file(spec, c, spec["endian"])
        # the record marker after the last value carries nothing
        return raw[:-8], readdns, [head], set(), 0
    x, d = small_io.plane(spec)
    raw = simfmt.plane_file(x, d, spec["nn"], spec["endian"])
    return raw[:-4], readplane, [4, 4 + 4 * len(spec["nn"])], set(), 0


def is_data(r, kind):
    """Whether the reader handed something back as data (the SIMSON readers answer a negative number for a file they cannot open or identify)."""
    if kind in ("simson", "plane") and isinstance(r, int) and r < 0:
        return False
    return True


def check10(spec, ctx):
    kind = spec["kind"]
    raw, reader, marks, legal, tag_end = build10(spec, ctx)
    ctx.label(kind)
    n = len(raw)
    f = ctx.path("a0.f00001")
    with open(f, "wb") as fp:
        fp.write(raw)
    how, r = ctx.outcome(lambda: reader(f))
    ctx.check(how == "ok" and is_data(r, kind), f"the complete {kind} file is refused: {r!r}")
    todo = cuts(n, marks, spec["cutsalt"], spec.get("limit", 400))
    ctx.label("all cut positions", len(todo) == n)
    tried = 0
    for k in sorted(todo, reverse=True):
        if k in legal:
            continue
        os.truncate(f, k)
        how, r = ctx.outcome(lambda: reader(f))
        tried += 1
        if how == "ok" and is_data(r, kind):
            ctx.fail(f"a {kind} file cut to {k} of its {n} bytes is returned as data ({type(r).__name__})")
    ctx.nontrivial(tried > 50)
    ctx.labels["# cut positions"] = tried
    # --- the endianness tag
    if tag_end and kind != "rea":
        tag = struct.pack("<I", spec["tag"])
        vals = [struct.unpack(o + "f", tag)[0] for o in "<>"]
        if all(not abs(v - nekfmt.TAG) < 5e-5 for v in vals):
            at = 132 if kind in ("field", "ma2") else 80
            ctx.label("wrong tag")
            with open(f, "wb") as fp:
                fp.write(raw[:at] + tag + raw[at + 4:])
            e = ctx.raises(lambda: reader(f), f"a {kind} file with the endianness tag {tag.hex()}")
            # int(inf) is an OverflowError; anything else that is not a ValueError means the tag was not what stopped it
            ctx.check(isinstance(e, (ValueError, OverflowError)), f"a {kind} file with the endianness tag {tag.hex()} raised {type(e).__name__}")


PROPS["C10"] = Prop(
    "C10", check10, lambda tier: specs10(tier).map(lambda s: {**s, "limit": ENUM[tier]}),
    "Small random files of all six kinds (field files full, partial and with skipped variables, re2 and rea by pymech's and by the reference writer, map, SIMSON velocity and plane), each cut at "
    "every byte (files up to 400 bytes, 3000 thorough) or at a sample plus all positions near section boundaries; oracle: the reader raises, except at the ends the format allows; the complete "
    "file must be accepted. Plus a file with a random endianness tag that must be refused. Non-trivial: more than 50 cut positions tried.",
    {"quick": 1600, "thorough": 4000}, level="fault_enumeration",
    assumptions=[
        "ends the formats allow: re2 after the curved sides and after each condition field; rea inside the last number of a section's last line (text numbers have no end mark) and anywhere between "
        "sections; the 3D extrema at the end of field files and the last record marker of SIMSON files are not promised values",
        "when variables are skipped, the last stored variable is always one that is read",
        "a tag of infinity is refused with OverflowError, accepted here as a refusal",
        "SIMSON readers answer a negative number for files they cannot identify; that counts as a refusal",
    ],
)
