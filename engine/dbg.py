import sys, time
sys.setrecursionlimit(20000)
from alg import *
from state import *
from interp import *
import interp
def mach(path='/tmp/ir/out.json'):
    return Machine(Module(path))
def vecparam(m, st, name, lo=1, hi=(1<<26)-1, w=4, size=None):
    n = size if size is not None else fresh(name + '.n', lo, hi, 0)
    arr = Arr(name, 8*w)
    b = m.newbuf(st, n, w, [(ZERO, n, E(arr, BETA))])
    base = ('o', ('arg', name)); st.alive.add(base)
    st.cells[(base, 0)] = (24, Vec(b))
    return Ptr(base, ZERO), n, arr, b
def outobj(st, name):
    base = ('o', ('arg', name)); st.alive.add(base); return Ptr(base, ZERO)
def report(m):
    for k, v in sorted(m.obs.items(), key=str):
        if v[1]: print('FAIL', k, v[0], v[1], v[2]['detail'], v[2]['stack'][-2:])
    print('obligations', sum(1 for v in m.obs.values()), 'failed', sum(1 for v in m.obs.values() if v[1]))
    print(STATS, 'steps', m.steps)
