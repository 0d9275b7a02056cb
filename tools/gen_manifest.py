#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json and properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(os.path.join(H, "checks.json")))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    c = cfg["properties"].get(i)
    if c and c.get("claimed", True):
        checks.append(dict(property=i, quick_cmd="./check %s --tier quick" % i, thorough_cmd="./check %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=c["technique"], level=c.get("level", "exploration"),
                           level_note=c["level_note"]))
    else:
        na.append(dict(property=i, reason=cfg.get("not_applicable", {}).get(i, "not built yet; the check for this property is still to come")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="Every check is `./check <id>`: it compiles the harness of /verif/harness into the packages of /repo's working tree (go test -c -overlay, so /repo stays as it is), runs the generated cases and writes evidence/<id>.json. VERIF_SEED chooses the cases. Replay: ./check <id> --replay <file>. No hooks were added to /repo; the commits there are fix: commits (known_findings.jsonl).")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
