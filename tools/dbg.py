"""Debug: explore one harness in-process; show conditions of undecided paths. python3-vt tools/dbg.py N01 add [json params]"""
import sys, os, json
sys.path.insert(0, '/verif')
sys.path.insert(0, '/repo')
sys.setrecursionlimit(20000)
from sx import core, explore
from sx.core import Stats
env = explore.Env(sys.argv[1], '/verif')
hd = [x for x in env.mod.HARNESSES if x['name'] == sys.argv[2]][0]
params = dict(hd.get('quick', {}))
if len(sys.argv) > 3:
    params.update(json.loads(sys.argv[3]))
lim = int(os.environ.get('N', '3'))
stack = [[]]
stats = Stats()
import time
orig = core.set_ctx
cur = []
def sc(c):
    if c is not None:
        cur[:] = [c]
    orig(c)
core.set_ctx = sc
explore.core.set_ctx = sc
k = 0
while stack:
    p = stack.pop()
    t = time.time()
    alts, rec, sample, cov, nt, outcome = explore.run_path(env, hd, p, {'params': params, 'timeout_ms': 2000, 'path_limit_s': 60}, stats, False)
    dt = time.time() - t
    stack.extend(alts)
    if rec or dt > float(os.environ.get('SLOW', '3')):
        c = cur[0]
        print('-----', outcome, rec, '%.1fs' % dt)
        print('cons', c.cons)
        print('lazy', c.lazy)
        print('fixed', {c.atoms[i].name + str(i): v for i, v in c.fixed.items()}, 'zeros', c.zeros)
        print('coprime', c.coprime)
        k += 1
        if k >= lim:
            break
print(stats.dict())
