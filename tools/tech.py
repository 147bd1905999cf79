#!/usr/bin/env python3
"""tech.py ID TECHNIQUE NOTE: sets the technique of a check and rewrites the manifest"""
import json,sys,os
p='/verif/tools/techniques.json';t=json.load(open(p))
t[sys.argv[1]]={"technique":sys.argv[2],"note":sys.argv[3]}
json.dump(dict(sorted(t.items())),open(p,'w'),indent=1)
os.system('python3 /verif/tools/gen_manifest.py')
