#!/usr/bin/env python3-vt
"""MANIFEST.json from the specs present: a property is claimed iff specs/P_<id>.py exists; others need a reason in NA."""
import importlib, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H + '/vc', H + '/specs']
NA = {
 'C23': 'undecided: the property quantifies over vertices coloured by racing parallel loops (data races are part of the algorithm); no contract of the sequential verifier expresses it',
 'C24': 'floating point: convergence of an iterative float computation is outside the reach of the deductive back end (real-arithmetic contracts would be a model)',
 'C25': 'floating point: accumulated path-count ratios; and the reference definition (sum over all shortest paths) has no first-order contract within reach',
 'C26': 'floating point ratio of two counts; the integer part (intersection size) is proved under C08',
 'C27': 'max-flow = min-cut needs ghost flows over residual graphs stored in std::map-like property maps of an external-style implementation; no contract within reach',
 'C28': 'schedules: the verifier is sequential; concurrent behaviour is outside contract-based deductive verification here (threaded variants are exercised as bounded stand-ins inside the per-algorithm properties)',
}
NOTREACHED = 'no function of this property has been brought under contract within the verifier\'s reach yet; a bounded check alone would not be this technique'
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/specs/P_%s.py' % (H, i)):
        m = importlib.import_module('P_' + i)
        fs = ', '.join(dict.fromkeys(f.target for f in m.FUNCS))
        b = '; '.join(getattr(m, 'BOUNDED', [])) or 'none'
        checks.append({'property': i, 'quick_cmd': './check.py ' + i, 'thorough_cmd': './check.py ' + i,
          'technique': 'contract-based deductive verification (VC generation from the LLVM IR of the real code, z3/cvc5)',
          'level': 'proof',
          'level_note': 'Proved for all inputs: %s. Bounded stand-in (not counted as proved): %s. Trusts: clang front end and -O1 pipeline, vc/ generator, z3/cvc5, the contracts of std/TBB in shim/. %s' % (fs, b, getattr(m, 'NOTE', ''))})
    else:
        na.append({'property': i, 'reason': NA.get(i, NOTREACHED)})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo. Each check compiles /repo/include anew.'}, open(H + '/MANIFEST.json', 'w'), indent=1)
import jsonschema
jsonschema.validate(json.load(open(H + '/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json'))) if os.path.exists('/root/.vp') else None
print(len(checks), 'claimed;', len(na), 'not applicable')
