#!/bin/bash
# seedcheck.sh SEED...: confirm planted bugs in a scratch copy (tests pass, demo fails only with the patch), then run the property's check on it.
# With NOTEST=1 the test suite is skipped.
export TMPDIR=/tmp
for s in "$@"; do
  d=/verif/seeded/$s
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  w=$(mktemp -d /tmp/seed.XXXXXX); cp -a /repo $w/repo
  run() { (cd $w/repo && PYTHONPATH=$w/repo JAX_PLATFORMS=cpu timeout 300 bash $d/demo.sh >$w/demo.log 2>&1); }
  run; a=$?
  if ! git -C $w/repo apply $d/patch.diff; then echo "$s: PATCH DOES NOT APPLY"; rm -rf "$w"; continue; fi
  run; b=$?
  t=skipped
  if [ -z "$NOTEST" ]; then
    t=$(cd $w/repo && SEEDREPO=$w/repo python3 /verif/bin/runtests.py $w/repo)
  fi
  c=$(cd /verif && VERIF_REPO=$w/repo timeout 900 /opt/venv/bin/python bin/check.py $prop $CHECKARGS 2>&1)
  rc=$?
  echo "$s ($prop): demo clean=$a patched=$b tests=$t check=$rc $(echo "$c" | grep -a -E 'VIOLATION|obligations' | tr '\n' ' ')"
  rm -rf "$w"
done
