"""python3 tools/plant.py save <id> <property> <needs> <breaks>  -- store /repo's diff as a planted bug, undo it
python3 tools/plant.py try <id> [--notests]   -- apply; run stable tests, demo, and the property's quick check; undo
Developer tool only: no check uses it."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
cmd, i = sys.argv[1:3]
d = os.path.join(V, "seeded", i)
ENV = dict(os.environ); ENV.pop("PYTHONPATH", None)
if cmd == "save":
    os.makedirs(d, exist_ok=True)
    diff = sh("git -C /repo diff").stdout
    assert diff.strip()
    open(d + "/patch.diff", "w").write(diff)
    sh("git -C /repo checkout -- .")
    json.dump(dict(property=sys.argv[3], needs=sys.argv[4], what_it_breaks=sys.argv[5]), open(d + "/meta.json", "w"), indent=1)
    with open(d + "/demo.sh", "w") as f:
        f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
else:
    p = json.load(open(d + "/meta.json"))["property"]
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    r = sh(f"bash {d}/demo.sh", cwd="/repo", env=ENV); print("demo clean rc", r.returncode)
    if r.returncode: print(r.stdout[-1500:], r.stderr[-1500:])
    a = sh(f"git -C /repo apply {d}/patch.diff"); assert a.returncode == 0, a.stderr
    try:
        r = sh(f"bash {d}/demo.sh", cwd="/repo", env=ENV); print("demo patched rc", r.returncode, (r.stderr or r.stdout)[-300:])
        if "--notests" not in sys.argv:
            sh("bash /opt/vp/test.sh /tmp/plant_t.json", env=ENV)
            t = json.load(open("/tmp/plant_t.json")); b = json.load(open("/opt/vp/BASELINE.json"))
            print("stable tests broken:", [x for x in b["stable"] if x not in set(t["passed"])])
        if "--nocheck" not in sys.argv:
            r = sh(f"bash run.sh {p} quick", cwd=V, env=ENV); print("check rc", r.returncode); print(r.stdout[-900:])
    finally:
        sh("git -C /repo checkout -- .")
