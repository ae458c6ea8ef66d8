#!/bin/bash
# runs the check of the property of each planted bug (or of the given ones) against it, in a private mount
cd "$(dirname "$0")/.."
one() { b=$1; c=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  w=$(mktemp -d /tmp/catch.XXXX); cp -a /repo $w/repo; cp -a /verif $w/verif; git -C $w/repo apply /verif/seeded/$b/patch.diff
  unshare -Urm bash -c "mount --bind $w/repo /repo && mount --bind $w/verif /verif && cd /verif && timeout 600 python3 checks/run.py $c quick" > $w/out 2>&1; r=$?
  echo "$b $c exit=$r $(grep -m1 -c VIOLATION $w/out) $(grep -m1 VIOLATION $w/out | cut -c1-200)"; rm -rf $w; }
export -f one
printf '%s\n' ${@:-$(ls seeded)} | xargs -P 4 -I{} bash -c 'one {}'
