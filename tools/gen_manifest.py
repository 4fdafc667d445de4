"""Writes /verif/MANIFEST.json from config.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import config
VERIF = os.path.dirname(HERE)
props = [json.loads(l) for l in open(VERIF + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in config.CHECKS:
        c = config.CHECKS[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py %s quick" % i, thorough_cmd="python3 run.py %s thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique=c.get("technique", "property-based testing: generated cases against a reference model, with shrinking and replay"),
            level="exploration", level_note=c.get("note", "Held on every generated case of the run, under sanitizers and optimised; says nothing about cases outside the generators' reach.")))
    else:
        na.append(dict(property=i, reason=config.NOT_APPLICABLE.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks were added to /repo; its commits are repairs (see known_findings.txt).")
json.dump(m, open(VERIF + "/MANIFEST.json", "w"), indent=1)
open(VERIF + "/MANIFEST.json", "a").write("\n")
