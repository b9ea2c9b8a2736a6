#!/usr/bin/env python3
"""fixed.py PXX <commit> <what failed>: record a repaired defect in known_findings.json"""
import json, sys
p = "/verif/known_findings.json"
k = json.load(open(p))
prop, com, what = sys.argv[1:4]
k["findings"].append({"property": prop, "status": "fixed", "commit": com, "what": "fixed: property=%s %s %s" % (prop, com, what)})
json.dump(k, open(p, "w"), indent=1)
