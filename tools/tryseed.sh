#!/bin/bash
# tryseed.sh <seed id> [--tests] [property...]   applies a planted bug to /repo, runs checks, undoes it
id=$1; shift
tests=0; [ "${1:-}" = --tests ] && { tests=1; shift; }
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
props=${*:-$prop}
git -C /repo diff --quiet || { echo "/repo not clean"; exit 1; }
git -C /repo apply "$d/patch.diff" || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
if [ $tests = 1 ]; then
  bash /opt/vp/build.sh > /tmp/build.log 2>&1 || echo "$id: BUILD FAILS"
  bash /opt/vp/test.sh /tmp/o.json | tail -1
fi
for p in $props; do
  crate=$(cd /verif && sys=$p python3 -c "
import sys,os;sys.path.insert(0,'tools');sys.dont_write_bytecode=True
from props import PROPS
print([x['crate'] for x in PROPS if x['id']==os.environ['sys']][0])")
  out=$(cd /verif && bash run.sh "$crate" "$p" 2>/tmp/try.err); rc=$?
  if [ $rc = 1 ] && grep -q "VIOLATION property=$p " <<<"$out"; then echo "$id $p: CAUGHT  $(grep -v VIOLATION <<<"$out" | head -1 | cut -c1-160)"; else echo "$id $p: missed (rc=$rc)"; fi
done
