#!/bin/bash
# runseed.sh ID...: the property's check on a scratch copy with the planted bug (VP_REPO)
for id in "$@"; do
  s=/verif/seeded/$id; w=/tmp/seedrun.$id; rm -rf "$w"; mkdir -p "$w"; cp -a /repo/include /repo/src /repo/bindings "$w/"; cp -a /repo/.git "$w/.git"
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  (cd "$w" && git apply $s/patch.diff) || { echo "$id: no apply"; continue; }
  o=$(VP_REPO=$w python3 /verif/engine/check.py ${PROP:-$p} 2>&1); echo "$id ${PROP:-$p}: exit $? $(echo "$o" | grep -v undecided | head -${LINES_N:-2} | cut -c1-260 | tr '\n' '|')"
  rm -rf "$w"
done
