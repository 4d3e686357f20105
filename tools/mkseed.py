"""Writes seeded/<id>/ from seeds.py. mkseed.py [ID...]"""
import os, sys, json, subprocess, difflib
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seeds import SEEDS
DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w -pthread -Iinclude -Iinclude/public "$d/demo.cpp" src/BigInteger.cpp src/BigIntegerCalculator/*.cpp -o "$t/demo" %s|| exit 2
timeout 120 "$t/demo"
'''
CPP = '''#include <bigintegercpp/BigInteger.h>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <stdexcept>
#include <unistd.h>
#include <sys/wait.h>
#include <thread>
#include <atomic>
typedef BigInteger B;
%s
int main() {
%s
}
'''
for id, prop, file, edits, demo, needs, breaks in SEEDS:
    if len(sys.argv) > 1 and id not in sys.argv[1:]: continue
    src = open('/repo/' + file).read(); new = src
    for a, b in edits:
        if new.count(a) != 1: sys.exit('%s: %d matches of %r' % (id, new.count(a), a[:80]))
        new = new.replace(a, b)
    d = os.path.join(VERIF, 'seeded', id); os.makedirs(d, exist_ok=True)
    diff = ''.join(difflib.unified_diff(src.splitlines(True), new.splitlines(True), 'a/' + file, 'b/' + file))
    open(d + '/patch.diff', 'w').write(diff)
    san = ''
    pre = ''
    if demo.startswith('//ASAN'): san = '-fsanitize=address,undefined -fno-sanitize-recover=all '
    if '//MAIN' in demo: pre, demo = demo.split('//MAIN')
    if demo.startswith('#!'): open(d + '/demo.sh', 'w').write(demo)
    else:
        open(d + '/demo.sh', 'w').write(DEMO % san); open(d + '/demo.cpp', 'w').write(CPP % (pre, demo))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
