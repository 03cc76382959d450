"""Writes MANIFEST.json from the table of built checks and properties.jsonl."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "checks"))
import run_table

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in run_table.NOTES:
        checks.append({"property": i, "quick_cmd": "python3 checks/run.py %s quick" % i,
                       "thorough_cmd": "python3 checks/run.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": run_table.TECH.get(i, run_table.DEFAULT_TECH),
                       "level": "model_checking", "level_note": run_table.NOTES[i]})
    else:
        na.append({"property": i, "reason": run_table.NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 checks/setup.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specification in spec/, checked with TLC; conformance harnesses in harness/; see DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
