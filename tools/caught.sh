#!/bin/bash
# caught.sh [ID...]: runs the check of each planted bug's property against a scratch copy having the bug
cd /verif; [ $# -gt 0 ] || set -- $(ls seeded planted_other | grep -v :)
for id in "$@"; do
  d=/verif/seeded/$id; [ -d $d ] || d=/verif/planted_other/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  s=$(date +%s); out=$(N=3 W=220 bash tools/mut.sh $d/patch.diff $prop 2>&1); e=$(date +%s)
  echo "## $id $((e-s))s"; echo "$out"
done
