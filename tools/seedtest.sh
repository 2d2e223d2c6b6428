#!/bin/bash
# seedtest.sh <id>...: confirm planted changes in a scratch copy of /repo and say whether the check catches them
for id in "$@"; do
  S=/verif/seeded/$id; W=$(mktemp -d /tmp/seedXXXXXX)
  cp -a /repo $W/repo; cp -a $S $W/demo; rm -f $W/demo/*.diff $W/demo/meta.json
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  (cd $W/repo && bash $W/demo/demo.sh >$W/o0 2>&1); a=$?
  if ! git -C $W/repo apply $S/patch.diff; then echo "$id PATCH DOES NOT APPLY"; continue; fi
  (cd $W/repo && bash $W/demo/demo.sh >$W/o1 2>&1); b=$?
  t=$(cd $W/repo && /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors 2>&1 | tail -1)
  (cd /verif && VERIF_REPO=$W/repo python3-vt check.py $P > $W/o2 2>&1); c=$?
  echo "$id prop=$P demo clean=$a patched=$b tests=[$t] check=$c $(grep VIOLATION $W/o2 | head -1)"
  if [ -n "$V" ]; then cat $W/o1 | tail -5; tail -12 $W/o2; fi
  rm -rf $W
done
