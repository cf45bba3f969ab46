#!/usr/bin/env python3
# fixed.py PROP COMMIT TEXT: records a repaired defect
import sys
prop, commit, text = sys.argv[1:4]
p = "/verif/known_findings.json"
s = open(p).read().rstrip()
assert s.endswith("]\n}")
s = s[:-len("\n ]\n}")].rstrip()
s += ',\n  {"status": "fixed", "property": "%s", "note": "fixed: property=%s %s %s"}\n ]\n}\n' % (prop, prop, commit, text.replace('"', "'"))
open(p, "w").write(s)
