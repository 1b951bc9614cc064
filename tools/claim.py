#!/usr/bin/env python3
"""claim.py ID technique note: add a claimed property to meta.json and regenerate the manifest."""
import json, os, subprocess, sys
h = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(h, "meta.json")
m = json.load(open(p))
m[sys.argv[1]] = dict(technique=sys.argv[2], note="Exploration: held on the executions observed (see evidence); " + sys.argv[3])
json.dump(m, open(p, "w"), indent=1)
for t in ("make_properties.py", "make_manifest.py"):
    subprocess.run([sys.executable, os.path.join(h, t)], check=True)
