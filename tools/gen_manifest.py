#!/usr/bin/env python3
"""Source of MANIFEST.json (run by hand; the output is committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(V + '/tools/config.json'))
P = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in P:
    i = p['id']; c = cfg.get(i, {})
    if c.get('not_applicable'): na.append({'property': i, 'reason': c['not_applicable']}); continue
    checks.append({'property': i, 'quick_cmd': f'python3 tools/check.py {i}', 'thorough_cmd': f'VERIF_TIER=thorough python3 tools/check.py {i}', 'evidence_file': f'evidence/{i}.json',
                   'technique': c.get('technique', 'contracts on the real functions, discharged by a deductive verifier over the compiled code (LLVM IR, symbolic execution to real-arithmetic verification conditions; normal forms, intervals, z3, cvc5)'),
                   'level': c.get('level', 'proof'), 'level_note': c.get('note', 'Every obligation is discharged for all inputs with floating point read as real arithmetic; trusted: rustc/LLVM front end, vpengine, z3/cvc5, libm names. The native lane (bounded) runs the same contracts in floating point.') + (' Bounded in size: ' + next((a for a in c.get('assumptions', []) if 'enumerated' in a), 'sizes are enumerated') + '.' if c.get('sized', '$^') != '$^' else '')})
json.dump({'version': 1, 'setup_cmd': 'python3 tools/check.py --setup', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the contracts reach everything through the public API. See DESIGN.md.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), len(na))
