#!/bin/sh
# Builds every simulator once, so that what does not build is found before the checks run.
cd "$(dirname "$0")" || exit 2
exec /usr/bin/python3 - <<'PY'
import sys
sys.path.insert(0, ".")
from vlib import build
try:
    for p in ("C07", "C08", "C09"):
        build.engine_for(p)
except build.BuildError as e:
    sys.exit(str(e))
PY
