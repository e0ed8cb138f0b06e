"""dbg2.py PID ENTRY REGEX...: Houdini over the generic candidates and the spec candidates matching a regex; report"""
import sys, re, os, time
sys.path[:0] = ['/verif/vc', '/verif/specs', '/verif']
import importlib, check, solve, speclib, z3
from vcgen import Exec
pid, entry, pats = sys.argv[1], sys.argv[2], sys.argv[3:]
spec = importlib.import_module('P_' + pid)
fs = [f for f in spec.FUNCS if f.entry == entry][0]
ctx = check.Ctx(pid)
m = ctx.module(fs.tu)
import shutil; shutil.rmtree(ctx.dir)
ex = Exec(m, fs.entry, dom=fs.dom() if fs.dom else None)
fs.setup(ex)
ex.run()
for o in speclib.prove_lemmas(ex):
    if o.status != 'valid': print('LEMMA', o.name, o.model)
ex.cands = [c for c in ex.cands if c.src == 'generic' or any(re.fullmatch(p, check.cname(c)) for p in pats)]
ids = {c.id for c in ex.cands}
ex.facts = [(f, c) for f, c in ex.facts if c is None or c.id in ids] if False else ex.facts
for f, c in ex.facts:
    if c is not None and c.id not in ids: c.on = False
t = time.time()
solve.houdini(ex, timeout=int(os.environ.get('T', '1500')), log=lambda *a: print(*[str(x)[:700] for x in a]))
print('%.1f' % (time.time() - t))
for c in ex.cands:
    if c.src != 'generic' and not c.on: print('DROPPED', check.cname(c), c.why)
print('generic', [check.cname(c) for c in ex.cands if c.on and c.src == 'generic'])
for o in solve.discharge(ex, timeout=8000, second=False):
    if o.status != 'valid': print(o.status, o.kind, o.name, o.where[:60], o.model[:200])
