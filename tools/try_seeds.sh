#!/bin/bash
# try_seeds.sh ID...: for each planted change, in a scratch copy: demo before/after, stable tests, its property's check
for id in "$@"; do
  s=/verif/seeded/$id; w=/tmp/seedtry_$id
  rm -rf "/tmp/seedtry_$id"; cp -a /repo "$w"
  cd "$w" || exit 1
  bash "$s/demo.sh" >/tmp/seedtry_$id.d0 2>&1; d0=$?
  git -C "$w" apply "$s/patch.diff" || { echo "$id: patch does not apply"; continue; }
  bash "$s/demo.sh" >/tmp/seedtry_$id.d1 2>&1; d1=$?
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  t=skipped
  if [ -z "$NOTESTS" ]; then
    PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 4 --timeout=300 --continue-on-collection-errors --tb=line --disable-warnings -o junit_family=xunit2 --junitxml=/tmp/seedtry_$id.xml python/test >/dev/null 2>&1
    /usr/bin/python3 /opt/vp/results.py /tmp/seedtry_$id.json junit:/tmp/seedtry_$id.xml >/dev/null 2>&1
    t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/seedtry_$id.json'))
print([t for t in b if t not in o['passed']] or 'pass')")
  fi
  VERIF_REPO_SRC=$w/python/src python3-vt /verif/check.py $p >/tmp/seedtry_$id.c 2>&1; c=$?
  echo "$id [$p]: demo unchanged=$d0 patched=$d1 tests=$t check exit=$c $(grep -c '^VIOLATION' /tmp/seedtry_$id.c)"
  rm -rf "/tmp/seedtry_$id"
done
