"""C36: what a call does depends on its arguments and the files as they are now, not on earlier calls."""

import concurrent.futures
import gc
import os
import pathlib
import sys

import numpy as np
from hypothesis import strategies as st

import core
import fieldlib as fl
import meshlib as ml
import nekfmt
import simfmt
import souplib as sl
from checks import Prop, datasets, small_io
from checks.purity import scramble
from pymech import dataset as pmd
from pymech.neksuite import readma2, readnek, readre2, readrea, writenek, writere2, writerea
from pymech.neksuite.field import read_header
from pymech.simsonsuite import readdns, readplane

PROPS = {}
NAMES = ["a0.f00001", "a0.f00002", "b0.fld", "mesh.re2"]
KINDS = ["field", "field", "field", "box", "box", "re2", "re2", "rea", "ma2", "simson", "plane"]
OPS = ["write", "write", "write", "read", "read", "read", "read", "rewrite", "rewrite", "cut", "delete", "copy", "move", "all at once"]


@st.composite
def contents(draw, kind):
    if kind == "field":
        s = draw(fl.field_specs(max_nel=3, max_n=3, max_scal=2))
    elif kind == "box":
        s = draw(datasets.box_specs("quick", max_nel=4))
    elif kind in ("re2", "rea"):
        s = draw(sl.soup_specs(max_nel=3, max_nbc=2))
        if kind == "rea" and s["mode"] == "wild":
            s["mode"] = "real"
    elif kind == "ma2":
        s = draw(small_io.specs11("quick"))
        s["nel"] = 1 + s["nel"] % 12
    elif kind == "simson":
        s = draw(small_io.specs12("quick"))
    else:
        s = draw(small_io.specs13("quick"))
    s["kind"] = kind
    return s


@st.composite
def specs36(draw, tier):
    big = tier != "quick"
    pool = [draw(contents(draw(st.sampled_from(KINDS)))) for _ in range(draw(st.integers(1, 3)))]
    # twins: the same file but for the values in it
    for i in range(len(pool)):
        if draw(st.booleans()):
            twin = {**pool[i], "salt": pool[i].get("salt", 0) + 1 + draw(st.integers(0, 9999))}
            if twin["kind"] == "field" and draw(st.integers(0, 3)):
                twin["time"], twin["istep"] = twin["time"] / 2 + 1, (twin["istep"] + 1) % 10**9
            pool.append(twin)
    ops = []
    for _ in range(draw(st.sampled_from([6, 8, 10, 12, 4] + ([16, 24] if big else [])))):
        ops.append({
            "op": draw(st.sampled_from(OPS)), "name": draw(st.sampled_from([0, 0, 1, 1, 2, 3])), "to": draw(st.integers(0, len(NAMES) - 1)),
            "item": draw(st.integers(0, len(pool) - 1)), "how": draw(st.integers(0, 10**4)), "old": draw(st.booleans()), "style": draw(st.integers(0, 3)),
        })
    return {"pool": pool, "ops": ops}


class Item:
    """One thing that can be in a file: its bytes, the writer that makes it (if any) and the ways to read it."""

    def __init__(self, spec, ctx):
        self.spec = spec
        kind = self.kind = spec["kind"]
        self.write = None
        if kind == "field":
            m = fl.make_mesh(spec, fl.arrays(spec))
            self.write = lambda f: writenek(f, m)
            self.raw = self.written(ctx)
        elif kind == "box":
            self.box = datasets.Box(spec)
            self.raw = nekfmt.nek_file(self.box.header(), self.box.fields)
        elif kind in ("re2", "rea"):
            m = sl.build(spec, sl.describe(spec))
            w = writere2 if kind == "re2" else writerea
            self.write = lambda f: w(f, m)
            self.raw = self.written(ctx)
        elif kind == "ma2":
            self.raw = nekfmt.ma2_file(*small_io.ma2(spec), spec["endian"])
        elif kind == "simson":
            self.raw = simfmt.sim_file(spec, small_io.modes(spec), spec["endian"])[0]
        else:
            self.raw = simfmt.plane_file(*small_io.plane(spec), spec["nn"], spec["endian"])

    def written(self, ctx):
        f = ctx.path("first")
        with ctx.sut(f"writing a {self.kind} file"):
            self.write(f)
        with open(f, "rb") as fp:
            return fp.read()


def twin_of(a, b):
    """Differing in nothing but the values, the time and the step."""
    return {**a, "salt": 0, "time": 0, "istep": 0} == {**b, "salt": 0, "time": 0, "istep": 0}


READERS = {
    "field": ["readnek", "readnek", "float32", "skip", "header", "open header"],
    "box": ["dataset", "dataset", "xarray", "readnek", "header"],
    "re2": ["readre2"], "rea": ["readrea"], "ma2": ["readma2"], "simson": ["readdns"], "plane": ["readplane"],
}


def read(how, f):
    if how == "readnek":
        return readnek(f)
    if how == "float32":
        return readnek(f, dtype="float32")
    if how == "skip":
        return readnek(f, skip_vars=("x", "uy", "p", "s01"))
    if how == "header":
        return read_header(f)
    if how == "open header":
        with open(f, "rb") as fp:
            h = read_header(fp)
            return [repr(h), fp.tell()]
    if how == "dataset":
        return pmd.open_dataset(f)
    if how == "xarray":
        import xarray as xr

        return xr.open_dataset(f, engine="pymech").load()
    return {"readre2": readre2, "readrea": readrea, "readma2": readma2, "readdns": readdns, "readplane": readplane}[how](f)


def digest(r):
    if hasattr(r, "data_vars"):
        return {str(n): (tuple(map(str, r[n].dims)), str(r[n].dtype), np.asarray(r[n].values).tobytes()) for n in sorted(map(str, r.variables))}
    if hasattr(r, "elem") and hasattr(r, "lr1"):
        snap = ml.snapshot(r)
        snap["dtypes"] = sorted({str(a.dtype) for el in r.elem for a in (el.pos, el.vel, el.pres, el.temp, el.scal)})
        return snap
    if isinstance(r, np.ndarray):
        return (r.shape, str(r.dtype), r.tobytes())
    if isinstance(r, (list, tuple)):
        return [digest(v) for v in r]
    if isinstance(r, dict):
        return {str(k): digest(v) for k, v in r.items()}
    if hasattr(r, "__dict__") and not isinstance(r, type):
        return {k: digest(v) for k, v in sorted(vars(r).items())}
    return repr(r)


def attempt(how, f):
    """Outcome of reading; nothing of the result survives."""
    with np.errstate(all="ignore"):
        try:
            r = read(how, f)
        except core.CallTimeout:
            raise
        except Exception as e:  # noqa: BLE001
            return ("error", type(e).__name__)
        d = ("ok", repr(digest(r)))  # as text: NaN equals NaN
        if hasattr(r, "data_vars"):
            for n in r.variables:
                v = r[n].values
                if v.flags.writeable and v.ndim:
                    v[...] = -77
        else:
            scramble(r)
    return d


def slurp(p):
    with open(p, "rb") as f:
        return f.read()


def show(d):
    return f"{d[0]} {d[1][:160]}"


def check36(spec, ctx):
    items = [Item(s, ctx) for s in spec["pool"]]
    d = os.path.dirname(ctx.path("x"))
    model = {}  # name -> (bytes, item number)
    truth = {}

    def expected(raw, how, name):
        """Outcome of reading these bytes from a file that never existed before, with the same name."""
        k = (raw, how, os.path.splitext(name)[1])
        if k not in truth:
            f = ctx.path(name)
            with open(f, "wb") as fp:
                fp.write(raw)
            ctx.calls += 1
            with core.quiet():
                truth[k] = attempt(how, f)
        return truth[k]

    # the contents themselves, each from its own file
    for i, it in enumerate(items):
        for how in dict.fromkeys(READERS[it.kind]):
            with ctx.sut(f"reading a {it.kind} file"):
                e = expected(it.raw, how, "a0.f00001")
            ctx.check(e[0] == "ok", f"a {it.kind} file cannot be read ({how}): {e[1]}")
            if how in ("readnek", "dataset", "readre2", "readrea", "readma2", "readdns", "readplane"):
                for j in range(i):
                    twins = twin_of(items[j].spec, it.spec) and items[j].raw != it.raw
                    if twins and it.kind in ("field", "box") and it.spec.get("mode") != "wild":
                        ctx.check(expected(items[j].raw, how, "a0.f00001") != e, f"two different {it.kind} files are read as the same data ({how})")
    nfd = len(os.listdir("/proc/self/fd"))

    def path(name, salt):
        p = os.path.join(d, NAMES[name])
        k = salt % 4
        if k == 0:
            return pathlib.Path(p)
        if k == 1:
            return NAMES[name]
        return p

    def compare(op, name, how, got):
        raw, i = model[name]
        exp = expected(raw, how, NAMES[name])
        same = got == exp if got[0] == "ok" else got[0] == exp[0]
        ctx.check(same, lambda: f"{op}: reading {NAMES[name]} ({how}) gives {show(got)}, a fresh file of the same contents {show(exp)}")

    reads = rewrites = 0
    cwd = os.getcwd()
    os.chdir(d)
    try:
        for n, o in enumerate(spec["ops"]):
            op, name, it = o["op"], o["name"], items[o["item"]]
            if op in ("read", "cut", "delete", "copy", "move") and model and o["how"] % 7:
                name = sorted(model)[name % len(model)]
            f = os.path.join(d, NAMES[name])
            what = f"step {n + 1} ({op})"
            stamp = os.stat(f) if name in model else None
            if op == "write":
                rewrites += name in model
                if it.write and o["how"] % 3:
                    with ctx.sut(f"{what}: writing {it.kind} over whatever is there"):
                        it.write(path(name, o["how"] // 3))
                else:
                    with open(f, "wb") as fp:
                        fp.write(it.raw)
                model[name] = (it.raw, o["item"])
                if stamp and o["old"]:
                    os.utime(f, ns=(stamp.st_atime_ns, stamp.st_mtime_ns))
            elif op == "rewrite":
                # read, replaced by something else of the same size (if there is any) without a trace in the directory, read again
                i = o["item"] if name not in model or o["how"] % 5 == 0 else model[name][1]
                other = [j for j in range(len(items)) if j != i and twin_of(items[j].spec, items[i].spec)]
                j = other[o["how"] % len(other)] if other else o["item"]
                every = list(dict.fromkeys(READERS[items[i].kind]))
                stamp = None
                for k in (i, j, i):
                    if k != j or stamp is None or items[k].kind == items[i].kind:
                        if items[k].write and o["style"] % 2:
                            with ctx.sut(f"{what}: writing {items[k].kind}"):
                                items[k].write(path(name, o["how"]))
                        else:
                            with open(f, "r+b" if os.path.exists(f) and o["style"] > 1 else "wb") as fp:
                                fp.write(items[k].raw)
                                fp.truncate()
                        model[name] = (items[k].raw, k)
                        if stamp:
                            os.utime(f, ns=(stamp.st_atime_ns, stamp.st_mtime_ns))
                        stamp = os.stat(f)
                        for how in every:
                            with ctx.sut(f"{what}: {how}"):
                                got = attempt(how, path(name, o["how"]))
                            compare(what, name, how, got)
                            reads += 1
                rewrites += 1
                ctx.label("twins exchanged", bool(other))
            elif op == "read":
                if name in model:
                    how = READERS[items[model[name][1]].kind]
                    how = how[o["how"] // 4 % len(how)]
                    with ctx.sut(f"{what}: {how}"):
                        got = attempt(how, path(name, o["how"]))
                    compare(what, name, how, got)
                    reads += 1
                else:
                    how = READERS[it.kind][0]
                    if how not in ("readdns", "readplane"):
                        e = ctx.raises(lambda: read(how, path(name, o["how"])), f"{what}: reading {NAMES[name]}, which does not exist")
                        if how != "dataset":
                            ctx.check(isinstance(e, OSError), f"{what}: reading a missing file raised {type(e).__name__}")
                        e = None
            elif op == "cut" and name in model:
                raw, i = model[name]
                raw = raw[: o["how"] % len(raw)] if raw else raw
                os.truncate(f, len(raw))
                model[name] = (raw, i)
            elif op == "delete" and name in model:
                os.remove(f)
                del model[name]
            elif op in ("copy", "move") and name in model and o["to"] != name:
                g = os.path.join(d, NAMES[o["to"]])
                if op == "copy":
                    with open(g, "wb") as fp:
                        fp.write(model[name][0])
                    model[o["to"]] = model[name]
                else:
                    os.replace(f, g)
                    model[o["to"]] = model.pop(name)
            elif op == "all at once" and model:
                # readers of every file at the same time, the interpreter switching often
                jobs = []
                for k, nm in enumerate(sorted(model) * 2):
                    how = READERS[items[model[nm][1]].kind]
                    jobs.append((nm, how[(o["how"] + k) % len(how)]))
                for nm, how in jobs:
                    expected(model[nm][0], how, NAMES[nm])
                hold = sys.getswitchinterval()
                sys.setswitchinterval(1e-5)
                try:
                    with ctx.sut(f"{what}: {jobs}"), concurrent.futures.ThreadPoolExecutor(len(jobs)) as ex:
                        res = list(ex.map(lambda j: attempt(j[1], os.path.join(d, NAMES[j[0]])), jobs))
                finally:
                    sys.setswitchinterval(hold)
                for (nm, how), got in zip(jobs, res):
                    compare(what, nm, how, got)
                ctx.label("#files read at the same time", True)
            now = sorted(os.listdir(d))
            ctx.check(now == sorted(NAMES[k] for k in model), lambda: f"{what} leaves the files {now}, expected {sorted(NAMES[k] for k in model)}")
            for k, (raw, _) in model.items():
                ctx.check(slurp(os.path.join(d, NAMES[k])) == raw, lambda: f"{what} on {NAMES[name]} leaves other contents in {NAMES[k]} than were put there")
    finally:
        os.chdir(cwd)
    gc.collect()
    left = len(os.listdir("/proc/self/fd"))
    ctx.check(left <= nfd, f"{left - nfd} files are still open after the last call")
    ctx.label("overwritten", rewrites > 0)
    for k in {i.kind for i in items}:
        ctx.label(k)
    ctx.nontrivial(reads > 0 and rewrites > 0 or reads > 1)


PROPS["C36"] = Prop(
    "C36", check36, lambda tier: specs36(tier),
    "Histories of writing, overwriting (also with the old time stamp), cutting, deleting, copying, moving and reading files of all kinds under four names, readers of one history also in parallel "
    "threads; model: the bytes that are in each file; oracle: reading gives what a fresh file with these bytes gives, writing gives the bytes the writer gave first, no other file changes, none stays "
    "open. Non-trivial: at least two reads, or a read and an overwritten file.",
    {"quick": 1000, "thorough": 8000},
    assumptions=["only readers run at the same time", "errors of cut files are compared by being errors"],
)
