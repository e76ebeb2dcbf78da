#!/bin/bash
# bash run.sh P01 [--tier quick|thorough] [--replay FILE]
here=$(cd "$(dirname "$0")" && pwd)
. "$here/lib/env.sh"
cd "$here" || exit 2
id=$1; shift
mod=$(cd checks && ls "${id,,}"_*.py 2>/dev/null | head -1)
[ -n "$mod" ] || { echo "no check for $id"; exit 2; }
exec "${OWC_PYTHON:-/opt/venv/bin/python}" lib/engine.py "${mod%.py}" "$@"
