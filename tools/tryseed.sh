#!/bin/bash
# tryseed.sh ID...: in a scratch copy of /repo: the patch builds, passes the stable tests, the demo tells the trees apart
for id in "$@"; do
  s=/verif/seeded/$id; w=/tmp/seedtry.$id; rm -rf "$w"; mkdir -p "$w"; cp -a /repo/. "$w/"
  cd "$w" || exit 2
  bash $s/demo.sh >/dev/null 2>&1; a=$?
  git apply $s/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash $s/demo.sh >/dev/null 2>&1; b=$?
  t=$(g++ -std=c++17 -O1 -w -Iinclude -Iinclude/public src/BigInteger.cpp src/BigIntegerCalculator/*.cpp $(find test* -name '*.cpp' | grep -v bench) -lgtest -lgtest_main -lpthread -o t.out 2>&1 && ./t.out 2>&1 | tail -3 | tr '\n' ' ')
  echo "$id: demo clean=$a patched=$b tests: $t" | cut -c1-250
  cd /; rm -rf "$w"
done
