#!/bin/bash
# Nothing is built: the checks import the package from /repo's working tree.
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python -B - <<'PY'
import sys
sys.path.insert(0, "/repo/src")
import numpy, scipy, tqdm  # what every check needs
PY
