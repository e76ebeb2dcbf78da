#!/bin/bash
# Nothing to compile: the checks import pyowc from /repo's working tree. Confirm that they can.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/lib/env.sh"
mkdir -p "$here/evidence"
cd "$here" && PYTHONPATH="${OWC_REPO:-/repo}:$here/lib" /opt/venv/bin/python - <<'P'
import numpy, scipy, gsw, world
print("numpy", numpy.__version__, "scipy", scipy.__version__, "gsw", gsw.__version__)
P
