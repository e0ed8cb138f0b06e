"""development aid: prof.py PID ENTRY REGEX [back]: dump the first matching candidate check as SMT and profile quantifier instances"""
import sys, re, os
sys.path.insert(0, '/verif/vc'); sys.path.insert(0, '/verif/specs'); sys.path.insert(0, '/verif')
import importlib, check, solve, speclib, z3, subprocess, collections
from vcgen import Exec
pid, entry, pat, wh = sys.argv[1:5]
spec = importlib.import_module('P_' + pid)
fs = [f for f in spec.FUNCS if f.entry == entry][0]
ctx = check.Ctx(pid)
m = ctx.module(fs.tu)
import shutil; shutil.rmtree(ctx.dir)
ex = Exec(m, fs.entry, dom=fs.dom() if fs.dom else None)
fs.setup(ex)
ex.run()
keep = sys.argv[5:]
off = os.environ.get("OFF")
for c in ex.cands:
    if keep and not any(re.fullmatch(k, c.loop.header + ' ' + c.name) for k in keep): c.on = False
    if off and re.search(off, c.loop.header + ' ' + c.name): c.on = False
for c in ex.cands:
    if re.fullmatch(pat, c.loop.header + ' ' + c.name):
        for (pre, g, p, where) in c.checks:
            if where.startswith(wh):
                s = solve.base_solver(ex, pre, 3000); s.add(g); s.add(z3.Not(p))
                txt = s.to_smt2()
                open('/tmp/q.smt2', 'w').write(txt)
                # name quantifiers by line
                r = subprocess.run(['z3-new', 'smt.mbqi=false', 'auto_config=false', 'smt.qi.profile=true', '-T:8', '-st', '/tmp/q.smt2'], capture_output=True, text=True)
                d = collections.Counter()
                last = {}
                for l in (r.stdout + r.stderr).split('\n'):
                    mm = re.match(r'\[quantifier_instances\]\s+(\S+)\s+:\s+(\d+)', l)
                    if mm: last[mm.group(1)] = max(last.get(mm.group(1), 0), int(mm.group(2)))
                for k, v in sorted(last.items(), key=lambda x: -x[1])[:15]: print(v, k)
                print(r.stdout.split('\n')[0])
                i = 0
                sys.exit()
