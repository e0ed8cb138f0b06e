"""development aid: dbg.py PID ENTRY REGEX... : keep only the spec candidates matching a regex (plus generic ones), show each check"""
import sys, re, os, time
sys.path.insert(0, '/verif/vc'); sys.path.insert(0, '/verif/specs'); sys.path.insert(0, '/verif')
import importlib, check, solve, speclib, z3
from vcgen import Exec
pid, entry, pats = sys.argv[1], sys.argv[2], sys.argv[3:]
spec = importlib.import_module('P_' + pid)
fs = [f for f in spec.FUNCS if f.entry == entry][0]
ctx = check.Ctx(pid)
m = ctx.module(fs.tu)
import shutil; shutil.rmtree(ctx.dir)
ex = Exec(m, fs.entry, dom=fs.dom() if fs.dom else None)
fs.setup(ex)
ex.run()
cn = check.cname
def match(c):
    full = c.loop.header + ' ' + c.name
    return any(re.fullmatch(p, full) for p in pats)
for c in ex.cands:
    c.on = c.src == 'generic' or match(c)
if '-g' in pats:
    pass
# generic: houdini among them first with spec ones frozen
spec_c = [c for c in ex.cands if c.src != 'generic' and c.on]
allc = ex.cands
ex.cands = [c for c in allc if c.src == 'generic']
solve.houdini(ex)
ex.cands = allc
print('generic kept', [cn(c) for c in allc if c.on and c.src == 'generic'])
jobs = []
for c in spec_c:
    for ch in c.checks:
        jobs.append((c, ch))
def f(j):
    c, (pre, g, p, where) = j
    r, s, t = solve.run_query(ex, pre, g, p, 8000)
    return str(r), t, s.reason_unknown() if r == z3.unknown else ''
for (c, ch), r in zip(jobs, solve.fork_map(f, jobs)):
    print(r[0], '%.2f' % r[1], c.loop.header, c.name, ch[3], r[2])
for o in solve.discharge(ex, timeout=8000, second=False):
    if o.status != 'valid': print(o.status, o.kind, o.name, o.where, o.model[:200])
for L in {id(c.loop): c.loop for c in allc}.values():
    print(L.header, [str(b)[:60] for b in L.bounds])
