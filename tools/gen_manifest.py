"""Writes /verif/MANIFEST.json from the checks that exist."""
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
src = open(os.path.join(V, "harness", "checks", "__init__.py")).read()
modules = eval(re.search(r"MODULES = (\{.*?\n\})", src, re.S).group(1))

TECH = {
    "C01": "property-based round trip (Hypothesis), exact oracle",
    "C02": "property-based differential test against a reference encoder of the byte layout",
    "C03": "property-based test: files from a reference encoder, exact oracle",
    "C04": "property-based metamorphic test over subsets of skipped variables",
    "C05": "property-based round trip and reference formatter, invalid-input generation",
    "C06": "property-based round trip, exact oracle",
    "C07": "property-based differential test against a reference re2 encoder, both directions",
    "C08": "property-based round trip with the precision of the text format",
    "C09": "property-based differential test: rea against re2, and an independent fixed-column parser and writer",
    "C10": "fault enumeration over cut positions of generated files (Hypothesis-driven)",
    "C11": "property-based test: files from a reference encoder, exact oracle",
    "C12": "property-based differential test against a direct trigonometric sum",
    "C13": "property-based test: files from a reference encoder, exact oracle",
    "C14": "property-based test against a coordinate dictionary of the generated box",
    "C15": "property-based differential test between entry points; grammar of file names",
    "C16": "property-based test: concatenation against single-file datasets",
    "C17": "property-based test against brute-force extrema",
    "C18": "property-based test against brute-force geometry from corner lists",
    "C19": "fault injection into generated consistent meshes (property-based), both directions",
    "C20": "model-based test: generated mesh partitions merged against vertex-identity connectivity",
    "C21": "model-based test: subset of a mesh against vertex-identity connectivity",
    "C22": "model-based test: deletion/regeneration against vertex-identity connectivity",
    "C23": "property-based test against a reference extrusion",
    "C24": "property-based validity predicate: conformity, volume, conditions, curvature",
    "C25": "property-based test against a reference tiling",
    "C26": "property-based validity predicate: area, conformity, circle, symmetry",
    "C27": "property-based test against a reference mapping of vertices and midpoints",
    "C28": "property-based metamorphic and reference test of rotations",
    "C29": "property-based test of the defining equation",
    "C30": "property-based test against analytic geometry, inverse relation",
    "C31": "property-based deep comparison of inputs before and after, with result mutation",
    "C32": "stateful generated operation sequences with invariants after every step",
    "C33": "property-based test with a recording stand-in for the VTK library",
    "C34": "property-based test against a reference renumbering; exact oracle for new meshes",
    "C35": "metamorphic property-based test: two routes to the same mesh compared up to numbering",
    "C36": "model-based testing of generated file histories and parallel readers",
}
LEVEL = {"C10": "fault_enumeration"}
NOTE = {
    "C01": "Random search, no proof of absence; trusts numpy casts as the rounding reference.",
    "C10": "All cut positions of small files are enumerated and boundary-biased samples of larger ones; the set of allowed ends of file is stated in DESIGN.md.",
    "C12": "Restricted to the modes whose treatment the format leaves no doubt about; see known_findings.txt and DESIGN.md for the rest.",
    "C33": "The VTK library is absent; a stand-in records the arrays. Only 3D fields.",
}
props = [json.loads(line) for line in open(os.path.join(V, "properties.jsonl"))]
have = {i for m, ids in modules.items() if os.path.exists(os.path.join(V, "harness", "checks", m + ".py")) for i in ids}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append(
            {
                "property": i,
                "quick_cmd": f"bash run.sh {i} quick",
                "thorough_cmd": f"bash run.sh {i} thorough",
                "technique": TECH[i],
                "level": LEVEL.get(i, "exploration"),
                "level_note": NOTE.get(i, "Generated-input search with a stated oracle: evidence that no violation exists in the explored space, not proof; trusts numpy and the harness's own reference."),
            }
        )
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks: bash run.sh <id> [quick|thorough]; replay: bash run.sh <id> --replay <file>. Seed: VERIF_SEED. The code under test is imported from /repo/src as it is.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
