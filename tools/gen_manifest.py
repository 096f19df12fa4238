#!/usr/bin/env python3
"""Writes MANIFEST.json. A property is claimed when it has an entry below."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
ids = [json.loads(l)["id"] for l in open(V / "properties.jsonl")]
EX = "exhaustive bounded exploration of the real code against an executable specification"
C = {}
def claim(i, technique, note, level="model_checking"):
    C[i] = dict(technique=technique, note=note, level=level)
exec(open(V / "tools/claims.py").read())
NA = {}
m = dict(version=1, setup_cmd="bash ./check.sh setup", checks=[], not_applicable=[])
for i in ids:
    if i in C:
        m["checks"].append(dict(property=i, quick_cmd=f"bash ./check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough bash ./check.sh {i}",
                                evidence_file=f"evidence/{i}.json", technique=C[i]["technique"], level=C[i]["level"], level_note=C[i]["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "check under construction")))
m["notes"] = ("No hooks in /repo: the harness links the crate as it is and replaces the rand crate under it "
              "(vendor/rand, a copy of rand 0.8 whose StdRng draws become choice points of the explorer when a script is active). "
              "KNOWN_FINDINGS.txt lists repaired defects and known findings.")
json.dump(m, open(V / "MANIFEST.json", "w"), indent=1)
open(V / "MANIFEST.json", "a").write("\n")
