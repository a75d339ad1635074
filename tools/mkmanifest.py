"""Writes /verif/MANIFEST.json from contracts.CHECKS and checks it and the properties against the schemas."""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from contracts import CHECKS

checks = []
for p in sorted(CHECKS):
    c = CHECKS[p]
    checks.append(dict(property=p, quick_cmd="python3-vt check.py " + p, thorough_cmd="python3-vt check.py " + p, evidence_file="evidence/%s.json" % p,
                       technique=c.get("technique", "contracts on the real functions, obligations discharged by SMT; run-time contracts for replay"),
                       level=c["level"], level_note=c["note"]))
m = dict(version=1, setup_cmd="python3-vt tools/setup.py", checks=checks, not_applicable=[],
         notes="Every check parses /repo's sources anew.  No hooks were added to /repo.  See DESIGN.md.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for line in open(os.path.join(HERE, "properties.jsonl")):
        jsonschema.validate(json.loads(line), ps)
    es = json.load(open("/root/.vp/EVIDENCE.schema.json"))
    d = os.path.join(HERE, "evidence")
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        jsonschema.validate(json.load(open(os.path.join(d, f))), es)
    print("valid")
except FileNotFoundError as e:
    print("schemas not available:", e)
