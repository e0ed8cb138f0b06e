#!/usr/bin/env python3-vt
"""check.py PROPERTY -- decide one property on /repo's current working tree.

1. compile the wrappers of the property (specs/cxx/*.cpp, which only instantiate and call /repo's templates) to LLVM IR
2. for every function under contract: generate the verification conditions, infer loop invariants from the contract's candidates,
   prove lemmas and discharge every obligation (vc/)
3. build and run the replay / bounded harness (harness/*.cpp) with the real compiler and the real libraries: it replays concrete
   inputs against the executable statement of the property (this is where failing inputs come from), and it is the bounded stand-in
   for the functions listed as bounded.
exit 0: held; exit 1: VIOLATION line.
"""
import importlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, os.path.join(HERE, 'vc'))
sys.path.insert(0, os.path.join(HERE, 'specs'))
sys.setrecursionlimit(20000)

import solve          # noqa: E402
import speclib        # noqa: E402
from ir import Module, Unsupported     # noqa: E402
from vcgen import Exec    # noqa: E402

T0 = time.time()
PROVE_S, ALL_S = 430, 780      # seconds: proving stops, everything stops (a check has 900)
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
VERBOSE = os.environ.get('VP_VERBOSE')
CLANG = '/usr/bin/clang++-18'
CLANG_FLAGS = ['-w', '-std=c++20', '-fdelayed-template-parsing', '-include', 'cstdint', '-include', 'functional',
               '-I' + HERE + '/shim', '-I' + REPO + '/include', '-I' + REPO + '/include/nwgraph', '-O1', '-fno-vectorize',
               '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-threadsafe-statics', '-fno-access-control', '-mllvm', '-inline-threshold=100000', '-S',
               '-emit-llvm']
GXX_FLAGS = ['-w', '-std=c++20', '-g1', '-include', 'cstdint', '-include', 'functional', '-I' + HERE + '/harness',
             '-I' + REPO + '/include', '-I' + REPO + '/include/nwgraph', '-I' + REPO + '/test']
TBB = ['-ltbb', '-lpthread']


RECORD = False        # development: `check.py PID record` stores hints


def log(*a):
    if VERBOSE:
        print('[%6.1f]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        base = os.path.join(HERE, '.build')
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=pid + '.', dir=base)
        self.mods = {}

    def quiet(self, src, out):
        """the module text; a unit marked 'vp: debug output off' has nw::graph::g_debug_compressed fixed to its initial value, false"""
        t = open(out).read()
        if 'vp: debug output off' not in open(src).read(2000):
            return t
        t = re.sub(r'(?m)^(  %[\w.]+ = )load i8, ptr @_ZN2nw5graph18g_debug_compressedE.*$', r'\1add i8 0, 0', t)
        p = subprocess.run(['opt', '-S', '-passes=function(sccp,simplifycfg)'], input=t, capture_output=True, text=True)
        if p.returncode:
            raise Unsupported('extraction: opt: ' + p.stderr[:200])
        open(out, 'w').write(p.stdout)
        return p.stdout

    def module(self, tu):
        """returns Module or raises Unsupported"""
        if tu not in self.mods:
            src = os.path.join(HERE, 'specs', 'cxx', tu)
            out = os.path.join(self.dir, tu + '.ll')
            p = subprocess.run([CLANG] + CLANG_FLAGS + [src, '-o', out], capture_output=True, text=True)
            if p.returncode:
                self.mods[tu] = Unsupported('extraction: clang: ' + (re.findall(r'error:.*', p.stderr) or [p.stderr[:300]])[0])
            else:
                self.mods[tu] = Module(self.quiet(src, out))
        if isinstance(self.mods[tu], Exception):
            raise self.mods[tu]
        return self.mods[tu]


def cname(c):
    return c.loop.header + ' ' + c.name


def norm(s):
    """a candidate's name without IR register and bound numbers"""
    return re.sub(r'\bb\d+\b', 'b', re.sub(r'%[\w.]+', '%', re.sub(r'heap\d+', 'heap', s)))


def stop():
    return None if RECORD else T0 + PROVE_S


def left(budget):
    """what is left of the time for proving in this run"""
    return budget if RECORD else max(1.0, min(budget, T0 + PROVE_S - time.time()))


def prove(ctx, fs):
    """one function spec -> result dict"""
    t0 = time.time()
    r = {'function': fs.target, 'wrapper': fs.entry, 'contract': fs.contract, 'status': None, 'obligations': 0, 'discharged': 0,
         'by': {}, 'solver_s': 0.0, 'failed': []}
    try:
        m = ctx.module(fs.tu)
        if fs.entry not in m.funcs:
            raise Unsupported('wrapper %s not in the module' % fs.entry)
        ex = Exec(m, fs.entry, dom=fs.dom() if fs.dom else None)
        fs.setup(ex)
        if not ex.handlers:
            ex.handlers = speclib.std_handlers(ex)
        ex.run()
        lem = speclib.prove_lemmas(ex, timeout=fs.timeout)
        # a recorded list of sufficient invariants is tried first (a hint only: every one of them is proved again here)
        hf = os.path.join(HERE, 'specs', 'hints', fs.entry + '.json')
        done = False
        def attempt(hint):
            sel = [c for c in ex.cands if cname(c) in hint]
            if len({cname(c) for c in sel}) != len(hint):
                return None
            allc = ex.cands
            for c in allc:
                c.on = cname(c) in hint
            ex.cands = sel
            try:
                h = solve.houdini(ex, timeout=fs.htimeout * 4, log=log if VERBOSE else None, budget=left(fs.budget))
                obs = solve.discharge(ex, timeout=fs.timeout, second=False, deadline=stop())
                if all(o.status == 'valid' for o in obs):
                    return h, obs
                for o in obs:
                    if o.status != 'valid':
                        log('   hinted: not proved:', o.name, o.model[:100])
            except TimeoutError:
                pass
            ex.cands = allc
            for c in allc:
                c.on = True
            return None
        if os.path.exists(hf) and not RECORD:
            for hint in json.load(open(hf)):
                a = attempt(set(hint))
                if a:
                    h, obs = a
                    done = r['hinted'] = True
                    break
        if not done and os.path.exists(hf) and not RECORD:
            # the code's registers were renumbered: every candidate of the same shapes, filtered by Houdini
            hs = json.load(open(hf))
            shapes = {norm(x) for h in hs[:1] for x in h}
            allc = ex.cands
            for c in allc:
                c.on = norm(cname(c)) in shapes
            ex.cands = [c for c in allc if c.on]
            log('   shapes: %d of %d candidates' % (len(ex.cands), len(allc)))
            try:
                h = solve.houdini(ex, timeout=fs.htimeout, log=log if VERBOSE else None, budget=left(fs.budget))
                obs = solve.discharge(ex, timeout=fs.timeout, second=False, deadline=stop())
                if all(o.status == 'valid' for o in obs):
                    done = r['hinted'] = True
            except TimeoutError:
                pass
            if not done:
                ex.cands = allc
                for c in allc:
                    c.on = True
        if not done:
            h = solve.houdini(ex, timeout=fs.htimeout, log=log if VERBOSE else None, budget=left(fs.budget))
            obs = solve.discharge(ex, timeout=fs.timeout, deadline=stop())
            if RECORD:
                os.makedirs(os.path.dirname(hf), exist_ok=True)
                need = solve.needed(ex, h['checks'])
                allc, on = ex.cands, [c for c in ex.cands if c.on]
                good = []
                for v in ([need] if need is not None else []) + [on]:
                    t1 = time.time()
                    if attempt({cname(c) for c in v}):
                        good.append((time.time() - t1, [cname(c) for c in v]))
                    ex.cands = allc
                log('hints that work:', [(round(t, 1), len(g)) for t, g in good], 'of', len(on))
                json.dump([g for t, g in sorted(good)], open(hf, 'w'), indent=0)
                for c in allc:
                    c.on = c in on
        vac, vacinfo = solve.check_reachable(ex)
        kept = [c for c in ex.cands if c.on]
        r['invariants'] = len(kept)
        r['invariant_candidates'] = len(ex.cands)
        r['houdini_queries'] = h['queries']
        allo = lem + obs
        r['obligations'] = len(allo) + sum(len(c.checks) for c in kept)
        n = sum(len(c.checks) for c in kept)
        r['by']['z3 (invariant entry/preservation)'] = n
        for o in allo:
            if o.status == 'valid':
                n += 1
                r['by'][o.backend] = r['by'].get(o.backend, 0) + 1
            else:
                r['failed'].append({'name': o.name, 'kind': o.kind, 'where': o.where, 'status': o.status, 'info': o.model,
                                    'backend': o.backend})
        r['discharged'] = n
        r['solver_s'] = round(h['time'] + sum(o.time for o in allo), 2)
        r['vacuity'] = vacinfo
        r['calls_by_contract'] = sorted(set(ex.calls))
        if not vac:
            r['failed'].append({'name': 'contract is not vacuous', 'kind': 'vacuity', 'where': '', 'status': 'refuted', 'info': vacinfo,
                                'backend': 'z3'})
        r['status'] = 'proved' if not r['failed'] else 'failed'
        if VERBOSE:
            for c in kept:
                if c.src == 'spec' or VERBOSE == '2':
                    log('   inv', c.loop.header, c.name)
            if VERBOSE == '3':
                for c in ex.cands:
                    if not c.on and c.src == 'spec':
                        log('   dropped', c.loop.header, c.name, c.why)
        r['ex'] = ex
    except Unsupported as e:
        r['status'] = 'unsupported'
        r['why'] = str(e)
        if VERBOSE == '2':
            traceback.print_exc()
    except TimeoutError as e:
        r['status'] = 'unsupported'
        r['why'] = 'timeout: %s' % e
    except Exception as e:      # the verifier itself failed: never a verdict about the code
        r['status'] = 'unsupported'
        r['why'] = 'internal: %r' % e
        if VERBOSE:
            traceback.print_exc()
    r['wall_s'] = round(time.time() - t0, 2)
    log('%s: %s %d/%d obligations, %.1fs %s' % (fs.entry, r['status'], r['discharged'], r['obligations'], r['wall_s'], r.get('why', '')))
    for f in r['failed']:
        log('   FAILED %s %s [%s] %s %s' % (f['kind'], f['name'], f['where'][:90], f['status'], f['info'][:300]))
    return r


def build_harness(ctx, src, out, flags):
    p = subprocess.run(['g++'] + GXX_FLAGS + flags + [src, '-o', out] + TBB, capture_output=True, text=True)
    return p.returncode == 0, p.stderr


def run_harness(ctx, spec, result, tier=None, deadline=500):
    """bounded / replay harness; returns dict"""
    h = {'fails': [], 'cases': 0, 'sections': {}, 'built': False, 'samples': []}
    src = os.path.join(HERE, 'harness', spec.HARNESS)
    exe = os.path.join(ctx.dir, 'h')
    ok, err = build_harness(ctx, src, exe, getattr(spec, 'HFLAGS', ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']))
    if not ok:
        h['error'] = 'harness does not compile: ' + (re.findall(r'error:.*', err) or [err[:500]])[0]
        return h
    h['built'] = True
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0'
    env['UBSAN_OPTIONS'] = 'halt_on_error=1:exitcode=98:print_stacktrace=0'
    tmp = os.path.join(ctx.dir, 'scratch')
    os.makedirs(tmp, exist_ok=True)
    p = subprocess.Popen([exe, str(SEED), tier or TIER, tmp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd=tmp,
                         start_new_session=True, errors='replace')
    try:
        out, err = p.communicate(timeout=deadline)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        h['error'] = 'harness deadline reached'
    for line in out.split('\n'):
        if line.startswith('FAIL '):
            key, _, txt = line[5:].partition(' | ')
            h['fails'].append((key.strip(), txt.replace('\\n', '\n')))
        elif line.startswith('SECTION '):
            f = line.split()
            h['sections'][f[1]] = int(f[2])
            h['cases'] += int(f[2])
        elif line.startswith('SAMPLE ') and len(h['samples']) < 12:
            h['samples'].append(line[7:300])
    h['stderr'] = err[-3000:]
    if p.returncode not in (0, 1) and 'error' not in h:
        h['error'] = 'harness ended with status %s' % p.returncode
    shutil.rmtree(tmp, ignore_errors=True)
    return h


def main():
    global RECORD
    pid = sys.argv[1]
    RECORD = 'record' in sys.argv
    only = [a for a in sys.argv[2:] if a != 'record']      # development: restrict to some wrappers / 'noharness'
    spec = importlib.import_module('P_' + pid)
    ctx = Ctx(pid)
    try:
        rc = decide(pid, spec, ctx, only)
    finally:
        shutil.rmtree(ctx.dir, ignore_errors=True)
    sys.exit(rc)


def hint_size(fs):
    try:
        return os.path.getsize(os.path.join(HERE, 'specs', 'hints', fs.entry + '.json'))
    except OSError:
        return 1 << 30


def prove_all(ctx, funcs):
    """every function under contract, each in a process of its own (the largest first), JOBS at a time"""
    if JOBS <= 1 or len(funcs) <= 1:
        out = []
        for fs in funcs:
            out.append(prove(ctx, fs))
            out[-1].pop('ex', None)
        return out
    todo, run, res, again = sorted(funcs, key=lambda f: -hint_size(f)), {}, {}, set()
    sys.stdout.flush()
    while todo or run:
        while todo and len(run) < JOBS:
            fs = todo.pop(0)
            out = tempfile.NamedTemporaryFile(dir=ctx.dir, suffix='.json', delete=False)
            pid = os.fork()
            if pid == 0:
                rc = 1
                try:
                    r = prove(ctx, fs)
                    r.pop('ex', None)
                    with open(out.name, 'w') as fh:
                        json.dump(r, fh)
                    rc = 0
                except BaseException as e:      # noqa
                    import traceback
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(rc)
            run[pid] = (fs, out.name)
        pid, st = os.wait()
        if pid not in run:
            REAPED[pid] = st
            continue
        fs, name = run.pop(pid)
        if st and fs.entry not in again:       # the prover itself died (memory): once more
            again.add(fs.entry)
            todo.append(fs)
            continue
        res[fs.entry] = json.load(open(name)) if not st else {
            'function': fs.target, 'wrapper': fs.entry, 'contract': fs.contract, 'status': 'unsupported', 'obligations': 0, 'discharged': 0,
            'by': {}, 'solver_s': 0.0, 'failed': [], 'wall_s': 0, 'why': 'internal: the prover ended with status %d' % st}
    return [res[fs.entry] for fs in funcs]


def check_lemmas(spec):
    """the mathematical lemmas a property's contracts use, checked by Lean's kernel"""
    out = []
    for fname, thms in getattr(spec, 'LEMMAS', []):
        path = os.path.join(HERE, 'lemmas', fname)
        r = {'function': 'lemma (%s): %s' % (fname, ', '.join(thms)), 'wrapper': 'lean:' + fname, 'contract': 'lemma', 'status': 'proved',
             'obligations': len(thms), 'discharged': 0, 'by': {'lean': len(thms)}, 'solver_s': 0, 'failed': []}
        t = time.time()
        try:
            p = subprocess.run(['lean', path], capture_output=True, text=True, timeout=300)
            ax = dict(re.findall(r"'(\w+)' depends on axioms: \[([^\]]*)\]", p.stdout))
            bad = [x for x in thms if x not in ax or set(re.split(r',\s*', ax[x])) - {'propext', 'Classical.choice', 'Quot.sound'}]
            if p.returncode or bad:
                r['failed'] = [{'name': x, 'kind': 'lemma', 'where': path, 'backend': 'lean', 'status': 'unknown', 'info': (p.stdout + p.stderr)[-800:]}
                               for x in bad or thms]
                r['status'] = 'failed'
            r['discharged'] = len(thms) - len(r['failed'])
        except (OSError, subprocess.TimeoutExpired) as e:
            r.update(status='unsupported', why='lean could not be run: %r' % (e,))
        r['solver_s'] = round(time.time() - t, 2)
        out.append(r)
    return out


REAPED = {}
JOBS = int(os.environ.get('VP_JOBS', '6'))


def known(pid):
    try:
        k = json.load(open(os.path.join(HERE, 'known_findings.json')))
    except FileNotFoundError:
        return {}
    return {e['key']: e for e in k.get('findings', []) if e['property'] == pid}


def decide(pid, spec, ctx, only):
    results = []
    hres = {}
    harness_on = 'noharness' not in only
    only = [o for o in only if o != 'noharness']
    if 'onlyharness' in only:
        funcs = []
    else:
        funcs = [f for f in spec.FUNCS if not only or f.entry in only]
    hp = None
    if harness_on and getattr(spec, 'HARNESS', None):
        # run the harness in a child while proving
        rfd, wfd = os.pipe()
        sys.stdout.flush()
        cpid = os.fork()
        if cpid == 0:
            os.close(rfd)
            try:
                d = run_harness(ctx, spec, None)
            except BaseException as e:       # noqa
                d = {'error': repr(e), 'fails': [], 'cases': 0, 'sections': {}, 'samples': [], 'built': False}
            with os.fdopen(wfd, 'w') as fh:
                json.dump(d, fh)
            os._exit(0)
        os.close(wfd)
        hp = (cpid, rfd)
    # wrappers of one translation unit share the IR; compile each once
    for tu in sorted({f.tu for f in funcs}):
        try:
            ctx.module(tu)
        except Unsupported as e:
            log(str(e))
    results += prove_all(ctx, funcs)
    if not only and funcs:
        results += check_lemmas(spec)
    if hp:
        with os.fdopen(hp[1]) as fh:
            hres = json.load(fh)
        if hp[0] not in REAPED:
            os.waitpid(hp[0], 0)
        log('harness', hres.get('cases'), 'cases', hres.get('error', ''), hres.get('sections'), 'fails', [k for k, _ in hres['fails']])
    kn = known(pid)
    new = [(k, t) for k, t in hres.get('fails', []) if k not in kn]
    for k in dict.fromkeys(k for k, _ in hres.get('fails', []) if k in kn):
        print('KNOWN-FINDING: property=%s %s' % (pid, kn[k]['what']))
    failed = [r for r in results if r['status'] == 'failed']
    unsup = [r for r in results if r['status'] == 'unsupported']
    rc = 0
    line = None
    os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
    rp = os.path.join(HERE, 'replay', pid + '.txt')
    if (failed or unsup) and not new and not only and getattr(spec, 'HARNESS', None) and hres.get('built'):
        # look harder for a failing input before reporting a bare proof failure
        h2 = run_harness(ctx, spec, None, tier='deep', deadline=max(20, min(240, T0 + ALL_S - time.time())))
        hres['deep_cases'] = h2['cases']
        new = [(k, t) for k, t in h2['fails'] if k not in kn]
    violations = 0
    if new:
        rc = 1
        violations = len({k for k, _ in new})
        with open(rp, 'w') as fh:
            fh.write('property %s: failing input on the real code\nharness: %s (seed %d)\n' % (pid, spec.HARNESS, SEED))
            for k, t in new[:20]:
                fh.write('--- %s\n%s\n' % (k, t))
            for r in failed:
                for f in r['failed']:
                    fh.write('failed obligation: %s / %s: %s [%s] %s\n' % (r['function'], f['kind'], f['name'], f['where'], f['status']))
        line = 'VIOLATION property=%s replay=%s' % (pid, rp)
    elif failed or unsup:
        # the property is accepted only when the verifier accepts every function under contract, from this tree
        hard = failed + unsup
        for r in unsup:
            r['failed'].append({'name': 'the function can be brought under its contract', 'kind': 'reach', 'where': '', 'status': 'not reached',
                                'info': r.get('why', ''), 'backend': 'vcgen'})
        if hard:
            rc = 1
            violations = sum(len(r['failed']) for r in hard)
            with open(rp, 'w') as fh:
                fh.write('property %s: the verifier does not accept these obligations; no failing input was found by the harness\n' % pid)
                for r in hard:
                    for f in r['failed']:
                        fh.write('failed obligation: function %s (wrapper %s), %s: %s\n  at: %s\n  %s: %s\n  verifier output: %s\n' % (
                            r['function'], r['wrapper'], f['kind'], f['name'], f['where'], f['backend'], f['status'], f['info']))
            line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp)
    ob = sum(r['obligations'] for r in results)
    di = sum(r['discharged'] for r in results)
    ev = {
        'property': pid, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': 'proof',
        'coverage': {
            'obligations': ob, 'discharged': di,
            'checker_cmd': 'python3-vt /verif/check.py %s' % pid,
            'trusted_base': ['vc/ (IR parser, VC generator)', 'clang 18 front end and -O1 pipeline', 'z3 (python API), cvc5 1.1.2',
                             'shim/vp_shim.hpp contracts of the standard library and TBB'],
            'functions_under_contract': [{k: v for k, v in r.items()} for r in results],
            'functions_proved': sum(r['status'] == 'proved' for r in results),
            'functions_not_reached_this_run': [{'function': r['function'], 'why': r.get('why')} for r in unsup],
            'solver_s': round(sum(r['solver_s'] for r in results), 2),
            'bounded_standin': {
                'label': 'bounded, not counted as proved', 'harness': getattr(spec, 'HARNESS', None), 'bound': getattr(spec, 'BOUND', ''),
                'functions': getattr(spec, 'BOUNDED', []), 'evaluations': hres.get('cases', 0), 'sections': hres.get('sections', {}),
                'samples': hres.get('samples', []), 'error': hres.get('error')},
            'known_findings_seen': sorted({k for k, _ in hres.get('fails', []) if k in kn}),
        },
        'assumptions': getattr(spec, 'ASSUME', []),
        'wall_s': round(time.time() - T0, 2),
        'violations': violations,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d functions under contract, %d proved, %d failed, %d not reached; %d/%d obligations; harness %d cases; %.1fs' % (
        pid, len(results), ev['coverage']['functions_proved'], len(failed), len(unsup), di, ob, hres.get('cases', 0), time.time() - T0))
    for r in unsup:
        print('  not reached: %s: %s' % (r['function'], r.get('why')))
    if hres.get('error'):
        print('  harness: ' + hres['error'])
    if line:
        print(line)
    if rc == 0 and getattr(spec, 'HARNESS', None) and harness_on and not hres.get('built'):
        return 2        # no answer: the bounded stand-in could not be built from this tree
    return rc


if __name__ == '__main__':
    main()
