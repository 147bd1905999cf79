#!/usr/bin/env python3
"""fixed.py ID COMMIT TEXT: records a repair in known_findings.json"""
import json,sys
p='/verif/known_findings.json';k=json.load(open(p))
k["fixed"].append(f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}")
json.dump(k,open(p,'w'),indent=1)
