"""/repo's current sources -> LLVM IR (front end only, nothing optimised) -> JSON for the analyses."""
import os, subprocess, sys, json, hashlib, glob, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CXX = 'clang++-18'
def sources():
    r = []
    for d, ds, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs:
            if f.endswith(('.cpp', '.cc', '.cxx')): r.append(os.path.join(d, f))
    return sorted(r)
FLAGS = ['-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-w']
def incs():
    return ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'include/public')]
class ExtractError(Exception): pass
def tools():
    """build the exporter and the LP library when missing or outdated"""
    os.makedirs(BUILD, exist_ok=True)
    def stale(out, src): return not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src)
    x = os.path.join(BUILD, 'irexport'); s = os.path.join(HERE, 'irexport.cpp')
    if stale(x, s):
        fl = subprocess.check_output(['llvm-config-18', '--cxxflags'], text=True).split()
        run([CXX, '-O1'] + fl + [s, '-o', x + '.tmp%d' % os.getpid(), '-L/usr/lib/llvm-18/lib', '-lLLVM-18']); os.replace(x + '.tmp%d' % os.getpid(), x)
    y = os.path.join(BUILD, 'liblp.so'); s = os.path.join(HERE, 'lp.cpp')
    if stale(y, s):
        run(['g++', '-O2', '-shared', '-fPIC', s, '-o', y + '.tmp%d' % os.getpid(), '-lgmpxx', '-lgmp']); os.replace(y + '.tmp%d' % os.getpid(), y)
def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: raise ExtractError('%s failed:\n%s' % (' '.join(cmd[:3]), p.stdout[-3000:]))
def extract(out, bindings=False):
    """writes the JSON program to directory out; returns its path"""
    tools()
    os.makedirs(out, exist_ok=True)
    srcs = sources()
    if not srcs: raise ExtractError('no sources under %s/src' % REPO)
    srcs.append(os.path.join(HERE, 'shim.cpp'))
    more = {}
    if bindings:
        import bindings as pb
        src = os.path.join(REPO, 'bindings/python/python-bindings.cpp')
        srcs.append(src); more[src] = pb.pyflags()
    procs = []; bcs = []
    for i, s in enumerate(srcs):
        bc = os.path.join(out, '%d.%s.bc' % (i, os.path.basename(s)))
        bcs.append(bc)
        procs.append((s, subprocess.Popen([CXX] + FLAGS + ['-c', '-emit-llvm'] + incs() + more.get(s, []) + [s, '-o', bc], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for s, p in procs:
        o, _ = p.communicate()
        if p.returncode: raise ExtractError('compiling %s failed:\n%s' % (s, o[-3000:]))
    js = os.path.join(out, 'out.json')
    p = subprocess.run([os.path.join(BUILD, 'irexport'), js] + bcs, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    for b in bcs: os.remove(b)
    if p.returncode: raise ExtractError('irexport: ' + p.stderr[-2000:])
    return js
if __name__ == '__main__':
    if len(sys.argv) > 1: print(extract(sys.argv[1]))
    else: tools()
