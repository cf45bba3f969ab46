#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from checks.py and properties.jsonl.
import json, os, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, ROOT)
from checks import CHECKS
NA = {
 "C42": "background services (amelie/db/service, amelie/db/db) do not compile at the pinned commit, so there is no implementation to explore or to bind a model to",
}
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
NOTE = {
 "model_checking": "Bounded exhaustive: every execution within the stated depth, alphabet and preemption/fault bounds is run on the real code and compared with a reference model. Trusts the reference model, the explorer and the bounds.",
 "fault_enumeration": "Exhaustive within the stated bounds: every crash or fault point of every bounded history is run on the real code. Trusts the disk model in mc/crashfs.c, the explorer and the bounds.",
 "exploration": "Exhaustive over the stated bounded input space on the real code. Trusts the oracle and the bounds.",
}
checks, na = [], []
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p,
            "thorough_cmd": "python3 check.py %s --tier thorough" % p,
            "evidence_file": "evidence/%s.json" % p, "technique": c["technique"],
            "level": c["level"], "level_note": (c["note"] + " " if c["note"] else "") + NOTE[c["level"]]})
    else:
        na.append({"property": p, "reason": NA.get(p, "model checking applies, but its check is not built yet")})
m = {"version": 1, "setup_cmd": "clang --version && ninja --version && python3 -c 'import checks'",
     "checks": checks, "not_applicable": na,
     "notes": "Checks build /repo's sources themselves (cached under /verif/.work by content). See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
