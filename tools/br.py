"""Debug: histogram of forking sites. python3-vt tools/br.py N07 literal ['{params}']"""
import sys, os, json, collections, traceback, time
sys.path.insert(0, '/verif'); sys.path.insert(0, '/repo')
sys.setrecursionlimit(20000)
from sx import core, explore
from sx.core import Stats
env = explore.Env(sys.argv[1], '/verif')
hd = [x for x in env.mod.HARNESSES if x['name'] == sys.argv[2]][0]
params = dict(hd.get('quick', {}))
if len(sys.argv) > 3: params.update(json.loads(sys.argv[3]))
hist = collections.Counter()
ot = core.Ctx.take
def take(self, d, others=()):
    if others:
        fr = [f for f in traceback.extract_stack()[:-1]]
        a = [f for f in fr if '/sx/' in f.filename and os.path.basename(f.filename) not in ('core.py','explore.py')][-6:]
        b = [f for f in fr if '/sx/' not in f.filename and 'tools/' not in f.filename][-3:]
        hist[' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(b)) + ' || ' + ' < '.join('%s:%s' % (f.name, f.lineno) for f in reversed(a))] += 1
    return ot(self, d, others)
core.Ctx.take = take
stack=[[]]; stats=Stats(); t0=time.time()
outs=collections.Counter()
while stack and time.time()-t0 < float(os.environ.get('T','60')):
    p=stack.pop()
    alts, rec, s, c, n, o = explore.run_path(env, hd, p, {'params': params,'timeout_ms':2000,'path_limit_s':60}, stats, False)
    outs[o]+=1
    if rec and outs[o]<4: print(rec)
    stack.extend(alts)
print(stats.paths, dict(outs), 'left', len(stack), '%.1fs'%(time.time()-t0))
for k,v in hist.most_common(int(os.environ.get('N','25'))): print(v,k)
