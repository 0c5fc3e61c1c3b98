"""Runs one check. Exit 0: held. Exit 1: VIOLATION line printed. Exit 2: the check itself failed."""

import argparse
import faulthandler
import hashlib
import importlib
import json
import logging
import os
import pickle
import sys
import time
import traceback
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402
from core import CallTimeout, Ctx, Violation  # noqa: E402

SHRINK_S = 40


def jdump(spec):
    return json.dumps(spec, sort_keys=True)


def run_case(prop, spec):
    """One case in this process. Returns the context; raises Violation."""
    with core.scratch() as tmp:
        ctx = Ctx(tmp)
        try:
            prop.check(spec, ctx)
        except (Violation, CallTimeout, core.HarnessError, MemoryError):
            raise
        except Exception as e:
            # the inputs cannot be built with the mesh classes of pymech, or what it returned or wrote cannot be taken apart as it should be
            if core._is_hypothesis(e) or (isinstance(e, OSError) and not isinstance(e, FileNotFoundError)):
                raise
            tb = traceback.extract_tb(e.__traceback__)
            where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-3:])
            raise Violation(f"{'examining the result' if ctx.calls else 'building the input'}: {type(e).__name__}: {str(e)[:300]} (at {where})") from e
        return ctx


# ------------------------------------------------------------------------------
def in_child(fn):
    """Run fn() in a forked child; returns ('ok', result) | ('crash', status)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            try:
                res = fn()
            except BaseException as e:  # noqa: BLE001
                res = {"error": "".join(traceback.format_exception(e))[-4000:]}
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    return pid, os.fdopen(r, "rb")


def collect(pid, f):
    data = f.read()
    f.close()
    _, status = os.waitpid(pid, 0)
    if status != 0 or not data:
        return {"error": f"worker died (status {status})", "died": status}
    return pickle.loads(data)


def replay_specs(prop, specs):
    """In a fresh child: run the specs in order; message of the first violation or None."""

    def go():
        for s in specs:
            try:
                run_case(prop, s)
            except Violation as v:
                return {"violation": str(v)}
            except CallTimeout as v:
                return {"violation": str(v)}
        return {"violation": None}

    return collect(*in_child(go))


# ------------------------------------------------------------------------------
def worker(prop, tier, seed, shard, nshards, budget_s, fixed):
    """Explore one share of the cases. Returns a plain dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    import hypothesis.internal.conjecture.engine as engine

    if hasattr(engine, "MAX_SHRINKING_SECONDS"):
        engine.MAX_SHRINKING_SECONDS = SHRINK_S

    t_end = time.monotonic() + budget_s
    st = {
        "evaluations": 0, "hashes": {}, "labels": {}, "samples": [], "trivial": 0, "skipped_budget": 0,
        "failure": None, "history": [],
    }
    state = {"failed": None, "fail_until": None}

    def account(spec, ctx):
        st["evaluations"] += 1
        for k, v in ctx.labels.items():
            st["labels"][k] = st["labels"].get(k, 0) + (v if k.startswith("#") else 1 if v else 0)
        if ctx.is_nontrivial:
            h = hashlib.sha1(jdump(spec).encode()).digest()[:8]
            st["hashes"][h] = 1
            if len(st["samples"]) < 3 or (st["evaluations"] % 97 == 0 and len(st["samples"]) < 6):
                s = jdump(spec)
                if len(s) < 3000:
                    st["samples"].append(json.loads(s))
        else:
            st["trivial"] += 1

    def one(spec):
        spec = json.loads(jdump(spec))  # what is replayed is what was run
        first = state["failed"] is None
        if first:
            st["history"].append(spec)
            if time.monotonic() > t_end:
                st["skipped_budget"] += 1
                return
        try:
            ctx = run_case(prop, spec)
        except Violation as v:
            state["failed"] = (spec, str(v))
            raise
        except CallTimeout as v:
            st["failure"] = (spec, str(v))
            raise
        if first:
            account(spec, ctx)

    try:
        for spec in fixed:
            one(spec)
        n = prop.examples[tier]
        n = n // nshards + (1 if shard < n % nshards else 0)
        if n > 0 and prop.strategy is not None:
            strat = prop.strategy(tier)

            @hypothesis.seed(seed * 1000 + shard)
            @settings(
                max_examples=n, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
                print_blob=False, phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck),
            )
            @given(strat)
            def test(spec):
                one(spec)

            test()
    except Violation as v:
        st["failure"] = state["failed"] or (None, str(v))
    except CallTimeout:
        pass
    except hypothesis.errors.Flaky as e:
        st["failure"] = state["failed"] or (None, f"flaky: {e}")
        st["flaky"] = True
    if st["failure"] is None:
        st["history"] = []
    st["hashes"] = list(st["hashes"])
    return st


def drawn(strategy, n, seed):
    """n cases of a strategy, without running them."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    out = []

    @hypothesis.seed(seed)
    @settings(max_examples=n + 1, database=None, deadline=None, phases=(Phase.generate,), suppress_health_check=list(HealthCheck))
    @given(strategy)
    def test(spec):
        out.append(json.loads(jdump(spec)))

    test()
    return out[1:]  # the first is always the simplest


def minimise_history(prop, specs, t_limit=60):
    """Drop chunks of the history while it still fails."""
    t_end = time.monotonic() + t_limit
    size = max(1, len(specs) // 2)
    while size >= 1 and time.monotonic() < t_end:
        i = 0
        while i < len(specs) - 1 and time.monotonic() < t_end:
            cand = specs[:i] + specs[min(i + size, len(specs) - 1):]
            if len(cand) < len(specs) and replay_specs(prop, cand).get("violation"):
                specs = cand
            else:
                i += size
        size //= 2
    return specs


def write_replay(pid, specs, msg):
    d = os.path.join(core.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = json.dumps({"property": pid, "specs": specs, "message": msg}, indent=1, sort_keys=True)
    path = os.path.join(d, f"{pid}-{hashlib.sha1(body.encode()).hexdigest()[:12]}.json")
    with open(path, "w") as f:
        f.write(body)
    return path


def read_known():
    """property -> list of descriptions of unrepaired findings."""
    known = {}
    p = os.path.join(core.VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("KNOWN-FINDING: property="):
                rest = line[len("KNOWN-FINDING: property="):]
                pid, _, what = rest.partition(" ")
                key, _, what = what.partition(" ")
                known.setdefault(pid, []).append((key, what))
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--examples", type=int)
    ap.add_argument("--show-labels", action="store_true")
    a = ap.parse_args()
    t0 = time.monotonic()
    faulthandler.enable()
    warnings.simplefilter("ignore")
    core.setup_imports()
    logging.getLogger("pymech").setLevel(50)
    seed = int(os.environ.get("VERIF_SEED", "1"))

    import checks

    try:
        prop = checks.load(a.property)
    except checks.ImportBroken as e:
        # the code under test does not import: nothing it promises holds
        path = write_replay(a.property, [], f"pymech cannot be imported: {e}")
        print(f"pymech cannot be imported: {e}")
        print(f"VIOLATION property={a.property} replay={path}")
        return 1
    logging.getLogger("pymech").setLevel(50)
    for h in list(logging.getLogger("pymech").handlers):
        h.setLevel(100)

    if a.replay:
        rec = json.load(open(a.replay))
        for s in rec["specs"]:
            try:
                run_case(prop, s)
            except (Violation, CallTimeout) as v:
                print(json.dumps(s)[:2000])
                print(f"{v}")
                print(f"VIOLATION property={a.property} replay={a.replay}")
                return 1
        print("the recorded case passes now")
        return 0

    if a.examples is not None:
        prop.examples = {"quick": a.examples, "thorough": a.examples}
    tier = a.tier
    nshards = min(8, os.cpu_count() or 1)
    budget = {"quick": 240, "thorough": 700}[tier]

    # --- known findings: each has a fixed probe; a listed finding that still fails is reported, not alarmed
    known = dict(read_known().get(a.property, []))
    found = []
    for key, probe in prop.probes.items():
        res = collect(*in_child(lambda: _probe(probe)))
        if "error" in res:
            print(res["error"], file=sys.stderr)
            return 2
        if res["fails"]:
            found.append((key, res["fails"]))
    for key, what in found:
        if key in known:
            print(f"KNOWN-FINDING: property={a.property} {key} {known[key]}")
        else:
            path = write_replay(a.property, [], f"{key}: {what}")
            print(f"{key}: {what}")
            print(f"VIOLATION property={a.property} replay={path}")
            return 1

    # --- explore
    fixed = list(prop.fixed(tier)) if prop.fixed else []
    nlarge = prop.large.get(tier, 0) if a.examples is None else 0
    if nlarge:
        fixed += drawn(prop.strategy("large"), nlarge, seed)
    kids = []
    for shard in range(nshards):
        mine = fixed[shard::nshards]
        kids.append(in_child(lambda s=shard, m=mine: worker(prop, tier, seed, s, nshards, budget, m)))
    results = [collect(*k) for k in kids]
    for r in results:
        if "error" in r:
            died = r.get("died")
            print(r["error"], file=sys.stderr)
            if died is not None:
                print("a worker process died", file=sys.stderr)
    errors = [r for r in results if "error" in r]
    good = [r for r in results if "error" not in r]
    fails = [r for r in good if r["failure"]]

    labels, hashes, samples = {}, set(), []
    for r in good:
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        hashes.update(r["hashes"])
    for i in range(6):
        for r in good:
            if i < len(r["samples"]) and len(samples) < 6:
                samples.append(r["samples"][i])
    evaluations = sum(r["evaluations"] for r in good)
    evidence = {
        "property": a.property, "tier": tier, "seed": seed, "level": prop.level,
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(hashes),
            "rule": prop.rule,
            "samples": samples,
            "labels": dict(sorted(labels.items())),
            "trivial": sum(r["trivial"] for r in good),
            "not_run_for_time": sum(r["skipped_budget"] for r in good),
            "fixed_cases": len(fixed) - nlarge,
            "large_cases": nlarge,
            "known_findings_seen": [k for k, _ in found],
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(fails),
    }

    def save_evidence():
        d = os.path.join(core.VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, f"{a.property}.json"), "w") as f:
            json.dump(evidence, f, indent=1)

    if fails:
        r = min(fails, key=lambda r: len(jdump(r["failure"][0])))
        spec, msg = r["failure"]
        specs = None
        if spec is not None:
            if replay_specs(prop, [spec]).get("violation"):
                specs = [spec]
        if specs is None:
            hist = r["history"] + ([spec] if spec is not None else [])
            if replay_specs(prop, hist).get("violation"):
                specs = minimise_history(prop, hist)
            else:
                specs = hist
                msg += " (did not fail again when replayed)"
        path = write_replay(a.property, specs, msg)
        evidence["wall_s"] = round(time.monotonic() - t0, 2)
        save_evidence()
        print(msg[:3000])
        print("case:", json.dumps(specs)[:2000])
        print(f"VIOLATION property={a.property} replay={path}")
        return 1
    if errors:
        return 2
    save_evidence()
    print(
        f"{a.property} held: {evaluations} cases, {len(hashes)} distinct non-trivial, "
        f"{evidence['wall_s']} s" + (f", {evidence['coverage']['not_run_for_time']} not run" if evidence["coverage"]["not_run_for_time"] else "")
    )
    if a.show_labels:
        for k, v in sorted(labels.items()):
            print(f"   {k}: {v}")
    return 0


def _probe(probe):
    try:
        with core.scratch() as tmp:
            msg = probe(Ctx(tmp))
    except (Violation, CallTimeout) as v:
        msg = str(v)
    return {"fails": msg}


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
