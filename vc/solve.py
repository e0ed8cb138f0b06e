"""Houdini invariant inference and discharge of obligations; z3 in forked workers, cvc5 as second back end."""
import os
import sys
import time
import pickle
import select
import subprocess
import tempfile
import z3

NPROC = int(os.environ.get('VP_NPROC', '8'))
DEBUG = os.environ.get('VP_DEBUG')


def limit(s, ms):
    """deterministic effort limit (about `ms` milliseconds of one unloaded core), wall clock only as a backstop"""
    s.set('rlimit', ms * RL)
    s.set('timeout', ms * 6)


RL = 2500


def base_solver(ex, prefix, timeout, mbqi=False):
    s = z3.SimpleSolver() if not mbqi else z3.Solver()
    if not mbqi:
        s.set('smt.mbqi', False)
        s.set('auto_config', False)
    limit(s, timeout)
    s.set('random_seed', 1)
    for f in ex.pre:
        s.add(f)
    for f in ex.dom.side:
        s.add(f)
    for f, c in ex.facts[:prefix]:
        if c is None or c.on:
            s.add(f)
    return s


def run_query(ex, prefix, guard, p, timeout, mbqi=False):
    s = base_solver(ex, prefix, timeout, mbqi)
    s.add(guard)
    s.add(z3.Not(p))
    t = time.time()
    r = s.check()
    return r, s, time.time() - t


def split_query(ex, prefix, guard, p, timeout, depth=2, skip=0):
    """is p proved when the paths that meet at the last joins before it are considered one by one?"""
    ms = [m for m in ex.merges if m[0] <= prefix]
    if depth == 0 or len(ms) <= skip:
        return False
    conds = ms[-1 - skip][1]
    for c in conds + [z3.Not(z3.Or(conds))]:
        g = z3.And(guard, c)
        r, s, _ = run_query(ex, prefix, g, p, timeout)
        if r != z3.unsat and not split_query(ex, prefix, g, p, timeout, depth - 1, skip + 1):
            return False
    return True


def fork_map(fn, items, nproc=None):
    """run fn(item) for items in forked children; returns list of results (picklable) in order"""
    nproc = min(nproc or NPROC, len(items))
    if nproc <= 1:
        return [fn(x) for x in items]
    res = [None] * len(items)
    # dynamic distribution: each child gets a stride slice
    procs = []
    for k in range(nproc):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                out = []
                for j in range(k, len(items), nproc):
                    try:
                        out.append((j, fn(items[j])))
                    except Exception as e:       # noqa
                        out.append((j, ('exc', repr(e))))
                with os.fdopen(w, 'wb') as fh:
                    pickle.dump(out, fh)
            finally:
                os._exit(0)
        os.close(w)
        procs.append((pid, r))
    for pid, r in procs:
        with os.fdopen(r, 'rb') as fh:
            data = fh.read()
        os.waitpid(pid, 0)
        if data:
            for j, v in pickle.loads(data):
                res[j] = v
    return res


class Check:
    """one proof duty of a candidate: formula p under guard, with the facts before `prefix`"""
    __slots__ = ('c', 'prefix', 'guard', 'p', 'where', 'core', 'k')

    def __init__(self, c, ch, k):
        self.c = c
        self.prefix, self.guard, self.p, self.where = ch
        self.core = None        # ids of candidates used by the last proof (None: not proved)
        self.k = k


def lit(c):
    return z3.Bool('A!%d' % c.id)


def group_solver(ex, prefix, guard, timeout, subset):
    """solver whose candidate facts are switched by assumption literals; returns (solver, literals of the candidates in scope)"""
    s = z3.SimpleSolver()
    s.set('smt.mbqi', False)
    s.set('auto_config', False)
    limit(s, timeout)
    s.set('random_seed', 1)
    for f in ex.pre:
        s.add(f)
    for f in ex.dom.side:
        s.add(f)
    lits = []
    seen = set()
    for f, c in ex.facts[:prefix]:
        if c is None:
            s.add(f)
        elif c.on and (subset is None or c.id in subset):
            s.add(z3.Implies(lit(c), f))
            if c.id not in seen:
                seen.add(c.id)
                lits.append(lit(c))
    s.add(guard)
    return s, lits


def run_plain(ex, checks, timeout):
    """the same with the facts asserted outright: often faster, but no unsat core (every candidate in scope counts as used)"""
    def work(ch):
        r, s, t = run_query(ex, ch.prefix, ch.guard, ch.p, timeout)
        return r == z3.unsat or split_query(ex, ch.prefix, ch.guard, ch.p, 2 * timeout)
    out = []
    for ch, ok in zip(checks, fork_map(work, checks)):
        if ok is True:
            out.append((ch.k, 'ok', [c.id for f, c in ex.facts[:ch.prefix] if c is not None and c.on]))
    return out


def run_checks(ex, checks, timeout, subset_of=None):
    """prove each Check; returns list of (k, verdict, core) with verdict in ok/dead/late"""
    groups = {}
    for ch in checks:
        sub = subset_of(ch) if subset_of else None
        groups.setdefault((ch.prefix, ch.guard.get_id(), None if sub is None else frozenset(sub)), []).append(ch)
    items = []
    tot = len(checks)
    for (prefix, gid, sub), cs in groups.items():
        n = max(1, min(len(cs), -(-len(cs) * NPROC * 2 // max(1, tot))))
        for k in range(n):
            items.append((sub, cs[k::n]))

    def work(it):
        sub, cs = it
        s, lits = group_solver(ex, cs[0].prefix, cs[0].guard, timeout, sub)
        out = []
        dead = set()
        for x, ch in enumerate(cs):
            if ch.c.id in dead:
                continue
            if z3.is_true(z3.simplify(ch.p)):
                out.append((ch.k, 'ok', []))
                continue
            s.push()
            s.add(z3.Not(ch.p))
            r = s.check(*lits)
            if r == z3.unsat:
                core = [int(str(a)[2:]) for a in s.unsat_core()]
                out.append((ch.k, 'ok', core))
            elif r == z3.unknown and s.reason_unknown() in ('timeout', 'canceled', 'max. resource limit exceeded', 'interrupted from keyboard'):
                out.append((ch.k, 'late', None))
            else:
                out.append((ch.k, 'dead', None))
                dead.add(ch.c.id)
            s.pop()
        return out
    res = []
    for o in fork_map(work, items):
        if o is None or (isinstance(o, tuple) and o[0] == 'exc'):
            raise RuntimeError('worker failed: %s' % (o,))
        res += o
    return res


def houdini(ex, timeout=1500, log=None, budget=300):
    """greatest inductive subset of the candidates (up to the solver's strength).  A candidate is dropped when one of its checks is
    refuted or saturates without a proof, or still runs out of time in the retries.  Every proof records the candidates it used (unsat
    core) and is redone when one of them is dropped; on return every check of every remaining candidate has a proof that uses only
    remaining candidates."""
    t0 = time.time()
    rounds = nq = 0
    checks = []
    byc = {}
    for c in ex.cands:
        for ch in c.checks:
            x = Check(c, ch, len(checks))
            checks.append(x)
            byc.setdefault(c.id, []).append(x)
    tmo = timeout
    latek = set()
    while True:
        rounds += 1
        if time.time() - t0 > budget:
            raise TimeoutError('invariant inference budget')
        todo = [x for x in checks if x.c.on and x.core is None and x.k not in latek]
        dead = set()
        if todo:
            for k, v, core in run_checks(ex, todo, timeout):
                nq += 1
                if v == 'ok':
                    checks[k].core = frozenset(core)
                elif v == 'dead':
                    dead.add(checks[k].c.id)
                else:
                    latek.add(k)
        elif latek:
            lates = [checks[k] for k in latek if checks[k].c.on and checks[k].core is None]
            latek = set()
            lateids = {x.c.id for x in lates}
            if lates:
                # portfolio of weaker contexts and more time
                if log:
                    log('   late: ' + ', '.join(x.c.loop.header + ' ' + x.c.name + ' ' + x.where for x in lates)[:400])
                on = {c.id for c in ex.cands if c.on}
                gen = {c.id for c in ex.cands if c.on and c.src == 'generic'}
                stages = [(timeout, lambda x: on - lateids), (timeout, lambda x: (on - lateids) | {x.c.id}), (timeout, lambda x: (gen - lateids) | {x.c.id}),
                          (timeout * 4, lambda x: on - (lateids - {x.c.id}))]
                left = lates
                for k, v, core in run_plain(ex, [x for x in left if x.c.src != 'generic'], timeout):
                    nq += 1
                    checks[k].core = frozenset(core)
                left = [x for x in left if x.core is None]
                if log:
                    log('   plain: %d left, %.1fs' % (len(left), time.time() - t0))
                for tm, sub in stages:
                    if not left:
                        break
                    # a generic (arithmetic) candidate gets one retry; the contract's own candidates get all of them
                    todo2 = [x for x in left if x.c.src != 'generic' or (tm, sub) == stages[2]]
                    for k, v, core in run_checks(ex, todo2, tm, sub) if todo2 else []:
                        nq += 1
                        if v == 'ok':
                            checks[k].core = frozenset(core)
                    left = [x for x in left if x.core is None]
                    if log:
                        log('   stage %d ms: %d left, %.1fs' % (tm, len(left), time.time() - t0))
                dead |= {x.c.id for x in left}
                if log and left:
                    log('   timed out: ' + ', '.join(x.c.loop.header + ' ' + x.c.name + ' ' + x.where for x in left)[:1500])
        else:
            break
        for c in ex.cands:
            if c.id in dead:
                c.on = False
                c.why = 'round %d' % rounds
        if dead:
            for x in checks:
                if x.core is not None and x.core & dead:
                    x.core = None
            latek = set(k for k in latek if checks[k].c.on)
        if log:
            log('houdini round %d: dropped %d, late %d, %d left, %.1fs' % (rounds, len(dead), len(latek), sum(c.on for c in ex.cands), time.time() - t0))
            if dead and len(dead) < 12:
                log('   dead: ' + ', '.join(c.loop.header + ' ' + c.name for c in ex.cands if c.id in dead))
    assert all(x.core is not None and not (x.core & {c.id for c in ex.cands if not c.on}) for x in checks if x.c.on)
    return {'rounds': rounds, 'queries': nq, 'time': time.time() - t0, 'checks': checks}


def needed(ex, checks, timeout=20000):
    """candidates used, transitively, by the proofs of the obligations (None when an obligation is not proved this way)"""
    def work(o):
        if z3.is_true(o.p):
            return []
        s, lits = group_solver(ex, o.prefix, o.guard, timeout, None)
        s.add(z3.Not(o.p))
        if s.check(*lits) != z3.unsat:
            return None
        return [int(str(a)[2:]) for a in s.unsat_core()]
    cores = fork_map(work, ex.obls + ex.vobls)
    if any(c is None for c in cores):
        return None
    need = set().union(*map(set, cores)) if cores else set()
    byc = {}
    for x in checks:
        byc.setdefault(x.c.id, []).append(x)
    todo = list(need)
    while todo:
        c = todo.pop()
        for x in byc.get(c, []):
            for d in (x.core or ()):
                if d not in need:
                    need.add(d)
                    todo.append(d)
    return [c for c in ex.cands if c.id in need]


def cvc5_check(smt, timeout):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fh:
        fh.write('(set-logic ALL)\n' + smt)
        nm = fh.name
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % timeout, nm], capture_output=True, text=True, timeout=timeout / 1000 + 10)
        return r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'timeout'
    except Exception:
        return 'timeout'
    finally:
        os.unlink(nm)


def discharge(ex, timeout=10000, second=True, log=None, deadline=None):
    """returns list of per-obligation results (status, time, backend, info)"""
    def work(o):
        t = time.time()
        if z3.is_true(o.p):
            return ('valid', 0.0, 'simplifier', '')
        if deadline and t > deadline + 30:
            return ('unknown', 0.0, 'none', 'the time for this run is used up')
        r, s, dt = run_query(ex, o.prefix, o.guard, o.p, timeout)
        if r == z3.unsat:
            return ('valid', dt, 'z3', '')
        info = ''
        if r == z3.unknown and split_query(ex, o.prefix, o.guard, o.p, timeout // 3):
            return ('valid', time.time() - t, 'z3', '')
        if r == z3.sat:
            m = s.model()
            info = model_txt(ex, m)
            return ('refuted', time.time() - t, 'z3', info)
        if second:
            c = cvc5_check(s.to_smt2(), timeout)
            if c == 'unsat':
                return ('valid', time.time() - t, 'cvc5', '')
            if c == 'sat':
                return ('refuted', time.time() - t, 'cvc5', '')
            info = 'z3: %s; cvc5: %s' % (s.reason_unknown(), c)
        else:
            info = 'z3: %s' % s.reason_unknown()
        return ('unknown', time.time() - t, 'z3+cvc5' if second else 'z3', info)
    outs = fork_map(work, ex.obls)
    for o, r in zip(ex.obls, outs):
        if r is None or r[0] == 'exc':
            r = ('unknown', 0, 'none', 'worker: %s' % (r,))
        o.status, o.time, o.backend, o.model = r
    return ex.obls + termination(ex, min(timeout, 3000))


def termination(ex, timeout):
    """for every loop of a function with the termination flag: an expression that decreases and is bounded below"""
    ex.vobls = []
    loops = [L for L in ex.loops.values() if ex.terminate and L.header in ex.reach and hasattr(L, 'varchecks')]
    jobs = [(L, nm) for L in loops for nm, _ in L.variants]

    def work(j):
        L, nm = j
        t = time.time()
        for prefix, guard, p, where in L.varchecks.get(nm, []):
            r, s, dt = run_query(ex, prefix, guard, p, timeout)
            if r != z3.unsat:
                return (False, time.time() - t)
        return (True, time.time() - t)
    outs = fork_map(work, jobs)
    res = []
    from vcgen import Obl
    for L in loops:
        good = [(nm, r[1]) for (M, nm), r in zip(jobs, outs) if M is L and r is not None and r[0] is True]
        o = Obl('loop at %s terminates' % L.header, 'termination', 0, z3.BoolVal(True), z3.BoolVal(True), L.header)
        o.status, o.time, o.backend = ('valid' if good else 'unknown'), (good[0][1] if good else 0.0), 'z3'
        o.model = good[0][0] if good else 'no decreasing expression found among ' + ', '.join(nm for M, nm in jobs if M is L)
        res.append(o)
        if good:
            for prefix, guard, p, where in L.varchecks.get(good[0][0], []):
                ex.vobls.append(Obl('variant', 'termination', prefix, guard, p, where))
    return res


def model_txt(ex, m):
    out = []
    for d in m.decls():
        n = d.name()
        if d.arity() == 0 and not n.startswith('R!'):
            v = m[d]
            if z3.is_int_value(v) or z3.is_true(v) or z3.is_false(v) or z3.is_bv_value(v):
                out.append('%s=%s' % (n, v))
    return ' '.join(sorted(out))[:1500]


def check_reachable(ex, timeout=5000):
    """vacuity: preconditions satisfiable (not refutable) and at least one return reachable with the inferred invariants.
    Returns (ok, detail)."""
    s = z3.Solver()
    s.set('timeout', timeout)
    for f in ex.pre + ex.dom.side:
        s.add(f)
    r = s.check()
    if r == z3.unsat:
        return False, 'preconditions contradictory'
    if not ex.rets:
        return False, 'no return reached'
    s = base_solver(ex, len(ex.facts), timeout)
    s.add(z3.Or([R for R, _, _ in ex.rets]))
    r2 = s.check()
    if r2 == z3.unsat:
        return False, 'no return is reachable under the assumptions'
    return True, 'pre: %s, return: %s' % (r, r2)
