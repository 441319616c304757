"""MANIFEST.json from the contract files present and tools/notes.json (per-property level notes and not-applicable reasons)"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
notes = json.load(open(V + '/tools/notes.json')) if os.path.exists(V + '/tools/notes.json') else {}
checks, na = [], []
TEC = 'contracts on the real functions: obligations generated by symbolic execution of the current source, discharged by exact term normalisation and z3/cvc5; counterexamples replayed on the running code'
for p in props:
    i = p['id']; n = notes.get(i, {})
    if 'not_applicable' in n or not os.path.exists(V + '/contracts/%s.py' % i.lower()):
        na.append({'property': i, 'reason': n.get('not_applicable', 'contract not written yet')}); continue
    checks.append({'property': i, 'quick_cmd': './check.sh ' + i, 'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + i, 'evidence_file': 'evidence/%s.json' % i,
                   'technique': n.get('technique', TEC), 'level': n.get('level', 'other'),
                   'level_note': n.get('note', 'Every obligation generated from the current source is discharged for all real values at the array shapes listed in the evidence (bounded in shape, so not counted as proved); the same contracts run on the real package with sampled shapes and values. Trusts the engine in pyded, numpy array plumbing, and exact real arithmetic for floating point.')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
