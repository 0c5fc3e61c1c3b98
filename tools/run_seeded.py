#!/opt/venv/bin/python
"""Runs the quick check of each planted bug's property (or the properties given after --checks) against a copy of /repo
with the bug in it, and writes the table between the markers in DESIGN.md.

run_seeded.py [--checks C20,C35] [id ...]     results are kept in /verif/tools/seeded_results.json
"""
import json
import os
import shutil
import subprocess
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
RES = V / "tools" / "seeded_results.json"
args = sys.argv[1:]
checks = None
if args[:1] == ["--checks"]:
    checks = args[1].split(",")
    args = args[2:]
table_only = args == ["--table"]
results = json.load(open(RES)) if RES.exists() else {}
bugs = sorted(p.name for p in (V / "seeded").iterdir())
for b in [] if table_only else bugs:
    if args and b not in args:
        continue
    meta = json.load(open(V / "seeded" / b / "meta.json"))
    w = Path("/tmp/run_seeded")
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", str(w)], check=True)
    if subprocess.run(["git", "apply", str(V / "seeded" / b / "patch.diff")], cwd=w).returncode:
        print(b, "does not apply", flush=True)
        continue
    for c in checks or [meta["property"]]:
        before = set((V / "replays").glob("*"))
        r = subprocess.run(["bash", str(V / "run.sh"), c, "quick"], env={**os.environ, "VERIF_REPO": str(w)}, capture_output=True, text=True)
        for p in set((V / "replays").glob("*")) - before:
            p.unlink()
        results.setdefault(b, {})[c] = r.returncode
        json.dump(results, open(RES, "w"), indent=1, sort_keys=True)
        print(b, c, "caught" if r.returncode == 1 and f"VIOLATION property={c}" in r.stdout else f"exit {r.returncode}", flush=True)
    shutil.rmtree(w, ignore_errors=True)
results = {b: results[b] for b in bugs if b in results}
json.dump(results, open(RES, "w"), indent=1, sort_keys=True)
rows = ["| planted bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
for b in bugs:
    m = json.load(open(V / "seeded" / b / "meta.json"))
    got = results.get(b, {})
    yes = " ".join(c for c, rc in sorted(got.items()) if rc == 1) or "-"
    no = " ".join(c for c, rc in sorted(got.items()) if rc != 1)
    rows.append(f"| {b} | {m['what_it_breaks']} | {m['needs']} | {yes}{' (not ' + no + ')' if no else ''} |")
d = V / "DESIGN.md"
s = d.read_text()
a, z = "<!-- seeded table -->", "<!-- end of seeded table -->"
if a in s:
    s = s[: s.index(a)] + a + "\n" + "\n".join(rows) + "\n" + s[s.index(z):]
    d.write_text(s)
