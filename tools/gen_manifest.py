#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties that have a check."""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
have = set()
for f in ("harness/src/main.rs", "harness_aux/src/main.rs", "harness_ui/src/main.rs"):
    f = os.path.join(root, f)
    if os.path.exists(f):
        have |= set(re.findall(r'id: "([A-Z]\d\d)"', open(f).read()))
tech = {
 "B": "property-based testing: generated outline pairs against independent geometry",
 "O": "property-based testing: generated sources and distances against a distance-field oracle",
 "S": "property-based testing: generated nested shapes against a distance-field oracle",
 "H": "stateful model-based testing of generated operation histories against winding and distance oracles",
 "I": "property-based testing: generated curve pairs against independent intersection geometry",
 "G": "property-based testing: generated polylines against independent reference geometry",
 "E": "property-based testing: generated edits and operation histories against a reference model",
 "V": "property-based testing: generated views against a copied-out reference path",
 "R": "property-based fuzzing: arbitrary structured inputs through every public operation",
 "F": "stateful model-based testing of generated C-interface call histories",
 "U": "property-based testing: generated geometry drawn in generated plot windows against reference geometry",
 "D": "property-based round-trip and mutation testing of serialized data",
}
notes = json.load(open(os.path.join(root, "tools", "level_notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append(dict(property=i, quick_cmd=f"./run.sh {i} --tier quick", thorough_cmd=f"./run.sh {i} --tier thorough",
            technique=tech[i[0]], level="exploration", level_note=notes.get(i) or notes[i[0]]))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="./setup.sh",
    hooks=dict(guard="none", enable="no hooks: every check uses the public interface only", source_commits=[]),
    checks=checks, not_applicable=na,
    notes="Every check builds its harness crate against /repo's working tree (about 10 s) and runs a fixed, seed-determined number of generated cases.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "without")
