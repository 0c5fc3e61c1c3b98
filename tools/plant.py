#!/opt/venv/bin/python
"""Plants bugs: plant.py FILE.py [id ...]  confirms the bugs listed in FILE.py and keeps them under /verif/seeded.

FILE.py defines BUGS, a list of dicts: id, property, needs, breaks, edits [(path, old, new)], demo (python text).
Each one is applied to a scratch copy of /repo; the stable tests must pass there, the demonstration must pass on
/repo and fail on the copy. Then the quick check of the property runs against the copy (VERIF_REPO).
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
from pathlib import Path

BASE = "1269b8d"
SEEDED = Path("/verif/seeded")
DEMO_SH = """#!/bin/bash
# exit 0 on the unchanged tree, 1 with the change; runs in the root of the repository
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d)" || exit 2
trap 'rm -rf "$scratch"' EXIT
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 SCRATCH="$scratch"
/opt/venv/bin/python -B "$here/demo.py" || exit 1
"""


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, shell=True, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=timeout)


def stable(copy):
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None
    r = sh("/opt/venv/bin/python -B -m pytest -q -p no:cacheprovider --timeout=300 -o junit_family=xunit2 --junitxml=/tmp/plant.xml tests", copy, {"PYTHONPATH": f"{copy}/src", "PYTHONDONTWRITEBYTECODE": "1"})
    sh("/usr/bin/python3 /opt/vp/results.py /tmp/plant.json junit:/tmp/plant.xml", copy)
    got = json.load(open("/tmp/plant.json"))
    return got, want, r


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = set(sys.argv[2:])
    head = sh("git rev-parse HEAD", "/repo").stdout.strip()
    for b in bugs:
        if only and b["id"] not in only:
            continue
        copy = Path("/tmp/plant") / b["id"]
        shutil.rmtree(copy, ignore_errors=True)
        copy.parent.mkdir(exist_ok=True)
        sh(f"cp -a /repo {copy}", "/tmp")
        ok = True
        for path, old, new in b["edits"]:
            f = copy / path
            s = f.read_text()
            if s.count(old) != 1:
                print(f"{b['id']}: text occurs {s.count(old)} times in {path}: {old[:60]!r}")
                ok = False
                break
            start = s[: s.index(old)].count("\n") + 1
            f.write_text(s.replace(old, new))
        if not ok:
            continue
        diff = sh("git diff", copy).stdout
        # changed lines must be of the original repository
        mine = []
        for path in {p for p, _, _ in b["edits"]}:
            blame = sh(f"git blame -s {head} -- {path}", copy).stdout.splitlines()
            d = sh(f"git diff -U0 -- {path}", copy).stdout
            n = 0
            for line in d.splitlines():
                if line.startswith("@@"):
                    n = int(line.split()[1][1:].split(",")[0])
                elif line.startswith("-") and not line.startswith("---"):
                    if not blame[n - 1].startswith("^" + BASE) and not blame[n - 1].lstrip("^").startswith(BASE[:6]):
                        orig = sh(f"git merge-base --is-ancestor {blame[n-1].split()[0].lstrip('^')} {BASE}", copy).returncode
                        if orig != 0:
                            mine.append((path, n))
                    n += 1
        d = SEEDED / b["id"]
        shutil.rmtree(d, ignore_errors=True)
        d.mkdir(parents=True)
        (d / "patch.diff").write_text(diff)
        (d / "demo.py").write_text(b["demo"].lstrip("\n"))
        (d / "demo.sh").write_text(DEMO_SH)
        os.chmod(d / "demo.sh", 0o755)
        (d / "meta.json").write_text(json.dumps({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
        got, want, r = stable(copy)
        base = json.load(open("/tmp/plant_base.json")) if os.path.exists("/tmp/plant_base.json") else None
        lost = sorted(set(base["passed"]) - set(got["passed"])) if base else "?"
        good = sh(f"bash {d}/demo.sh", "/repo")
        bad = sh(f"bash {d}/demo.sh", copy)
        verdicts = {}
        if good.returncode == 0 and bad.returncode == 1 and not lost:
            for pid in [b["property"], *b.get("also", [])]:
                c = sh(f"bash /verif/run.sh {pid} quick", "/verif", {"VERIF_REPO": str(copy), "VERIF_SEED": "1"})
                verdicts[pid] = {0: "missed", 1: "CAUGHT"}.get(c.returncode, f"rc={c.returncode}")
                if c.returncode not in (0, 1):
                    verdicts[pid] += c.stderr[-800:]
                v = [x for x in c.stdout.splitlines() if "VIOLATION" in x or x.startswith("   ")]
                verdicts[pid] += " " + " | ".join(v)[:300]
        print(f"{b['id']}: tests lost {lost or 'none'}; demo {good.returncode}/{bad.returncode} [{bad.stderr.strip().splitlines()[-1][:150] if bad.stderr.strip() else ''}]; {'EDITS MY LINES ' + str(mine) if mine else ''} {verdicts}", flush=True)
        if good.returncode:
            print(good.stderr[-600:])
        shutil.rmtree(copy, ignore_errors=True)


main()
