#!/bin/bash
# one.sh MUTANT CHECK...: full quick checks on one test-surviving mutant of
# tools/mutate.py (development tool)
m=$1; shift
d=$(mktemp -d /tmp/one.XXXX); cp -a /repo/src "$d/src"
f=$(python3 -c "import json;print(json.load(open('/tmp/mut/$m/info.json'))['file'])")
(cd "$d/src/os_urlpattern" && patch -s "$f" < /tmp/mut/$m/diff) || echo "patch failed"
for c in "$@"; do
  MC_REPO_SRC=$d/src timeout 900 bash "$(dirname "$0")/../run.sh" $c quick > "$d/out" 2>&1; r=$?
  echo "$m $c rc=$r $(grep -A1 case: "$d/out" | head -2 | cut -c1-200 | tr '\n' ' ')"
done
rm -rf "$d"
