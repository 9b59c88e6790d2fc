#!/usr/bin/env python3
"""Generates MANIFEST.json from the list of built checks."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
NOTES = {}
exec(open(os.path.join(HERE, 'level_notes.py')).read())
checks, na = [], []
for line in open(os.path.join(HERE, '..', 'properties.jsonl')):
    x = json.loads(line)
    i = x['id']
    if i in NOTES:
        tech, note = NOTES[i]
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
            evidence_file=f"evidence/{i}.json", technique=tech, level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="bash /verif/setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: randomness and parallelism are controlled by patched copies of the rand and rayon-core crates (vendor/), selected in harness/Cargo.toml.")
json.dump(m, open(os.path.join(HERE, '..', 'MANIFEST.json'), 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), len(na))
