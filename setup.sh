#!/bin/bash
# Nothing to build: checks import /repo/python directly.  Verify that this works.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence/replay
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python - <<'PY'
import lsst.pipe.base, os
p = os.path.realpath(lsst.pipe.base.__file__)
assert p.startswith("/repo/python/"), p
print("ok", p)
PY
