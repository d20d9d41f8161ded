#!/bin/bash
# development only: runs the check of each planted bug's property against a scratch copy of /repo with the bug
for d in ${@:-/verif/seeded/*/}; do
  d=${d%/}; id=$(basename $d); p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  rm -rf /tmp/mrepo; mkdir /tmp/mrepo; (cd /repo && git ls-files -z | xargs -0 cp --parents -t /tmp/mrepo) 
  (cd /tmp/mrepo && git init -q . 2>/dev/null; git apply $d/patch.diff) || { echo "$id patch"; continue; }
  out=$(REPO=/tmp/mrepo python3 /verif/run.py check $p 2>&1); rc=$?
  echo "$id [$p] rc=$rc $(echo "$out" | grep -E 'failed obl|failing inp|VIOL|bounded only|no answer' | cut -c1-200 | tr '\n' '|')"
done
