"""Writes MANIFEST.json from the registry (run by hand after adding a check)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "CHDR_VERIF (unused: no hook was needed)", "enable": "nothing to enable; the harnesses in /verif/harness compile the headers of /repo as they are", "source_commits": []},
     "checks": [], "not_applicable": [], "notes": "See DESIGN.md. All specifications are TLA+, in spec/, checked with TLC."}
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        tech, note = registry.NOTES[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": registry.CHECKS[i][1], "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": registry.NOT_YET.get(i, "no check yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(m["checks"]), "checks")
