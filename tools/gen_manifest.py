#!/usr/bin/env python3
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
import registry, props_src
NA = {
 "C31": "Graded (fermionic) tensor algebra lives entirely in the TensorToolkit library, which is not available here; a stand-in written by us would be checking our own sign rules, not the repository's.",
}
DEFAULT_NA = "Not claimed (yet): the machinery for it is not built."
checks = []
for pid, c in sorted(registry.CHECKS.items()):
    checks.append({"property": pid, "quick_cmd": "python3 run.py " + pid,
      "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + pid, "evidence_file": "evidence/%s.json" % pid,
      "technique": "model checking: " + c["technique"], "level": c["level"], "level_note": c["note"]})
na = [{"property": p["id"], "reason": NA.get(p["id"], DEFAULT_NA)} for p in props_src.P if p["id"] not in registry.CHECKS]
m = {"version": 1, "setup_cmd": "python3 -c 'import json;json.load(open(\"MANIFEST.json\"))'", "checks": checks, "not_applicable": na,
     "notes": "Every check is run.py <property>: it compiles the harnesses listed in tools/registry.py against /repo's working tree and explores exhaustively within the stated bounds. No hooks are needed in /repo."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
