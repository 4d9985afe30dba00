#!/bin/bash
# development: applies planted bugs to a copy of /repo one by one, runs demo and the property's check there is not possible -> only build, tests and demo
for b in "$@"; do
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b: does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
  (cd /repo && bash /verif/seeded/$b/demo.sh >/tmp/demo.log 2>&1); d=$?
  python3 /verif/check.py $p >/tmp/check.out 2>/tmp/check.err; c=$?
  git -C /repo checkout -- .
  (cd /repo && bash /verif/seeded/$b/demo.sh >/tmp/demo0.log 2>&1); d0=$?
  echo "$b $p: demo with=$d without=$d0 check=$c $(head -1 /tmp/check.out)"
done
