#!/bin/bash
# Determinism: the digest over all event logs must not depend on the number of workers or on PYTHONHASHSEED.
cd "$(dirname "$0")/.."
bad=0
for id in ${*:-$(/opt/venv/bin/python -c "import json; print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}; do
  a=$(PYTHONHASHSEED=0 ./check $id --runs 240 --jobs 8 --digest | sort -n | sha256sum | cut -c1-16)
  b=$(PYTHONHASHSEED=77 ./check $id --runs 240 --jobs 3 --digest | sort -n | sha256sum | cut -c1-16)
  [ "$a" = "$b" ] && echo "$id $a" || { echo "$id DIFFERS: $a / $b"; bad=1; }
done
exit $bad
