"""Regenerates MANIFEST.json from properties.jsonl and the checks present."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
META = json.load(open(os.path.join(V, "tools", "meta.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        m = META[i]
        checks.append(dict(property=i, quick_cmd=f"bash run.sh {i} quick", thorough_cmd=f"bash run.sh {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique=m["technique"], level=m.get("level", "exploration"),
                           level_note=m["note"]))
    else:
        na.append(dict(property=i, reason=META.get(i, {}).get("reason", "No monitor has been built for this property yet; it is not claimed.")))
man = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
           notes="Checks import lsst.pipe.base from /repo/python (editable install in /opt/venv); nothing is built. No hooks in /repo.")
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")
