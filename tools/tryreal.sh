#!/bin/bash
# tryreal.sh ID...: like tryseed.sh with the real build and the full stable test list, in /repo itself (restored afterwards)
cd /repo || exit 2
[ -z "$(git status --short)" ] || { echo "/repo is not clean"; exit 2; }
bash /opt/vp/build.sh > /dev/null 2>&1
for id in "$@"; do
  s=/verif/seeded/$id
  bash $s/demo.sh >/dev/null 2>&1; a=$?
  git apply $s/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh > /dev/null 2>&1; c=$?
  bash $s/demo.sh >/dev/null 2>&1; b=$?
  t=$(bash /opt/vp/test.sh /tmp/tryreal.json 2>/dev/null | tail -1)
  git checkout -q -- .
  echo "$id: build=$c demo clean=$a patched=$b tests: $t"
done
bash /opt/vp/build.sh > /dev/null 2>&1
