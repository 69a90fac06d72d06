#!/bin/bash
# Checks that the toolchain works; nothing has to be built.
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here/spec" || exit 1
tmp="$(mktemp -d)"
trap 'rmdir "$tmp" 2>/dev/null' EXIT
cp=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
for m in *.tla; do
  java -Djava.io.tmpdir="$tmp" -cp "$cp" tla2sany.SANY "$m" > "$tmp/out" 2>&1 || { cat "$tmp/out"; exit 1; }
done
find "$tmp" -mindepth 1 -delete
mkdir -p "$here/evidence" "$here/out"
PYTHONPATH="$here/harness" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "
from vh.env import import_tranquilo
import_tranquilo()
print('ready')"
