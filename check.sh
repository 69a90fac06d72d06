#!/bin/bash
# bash check.sh <property id>   (VERIF_TIER=quick|thorough, VERIF_SEED)
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 4
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
export PYTHONPATH="$here/harness" PYTHONDONTWRITEBYTECODE=1
exec "$py" -m vh.main "$@"
