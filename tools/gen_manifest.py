"""Writes MANIFEST.json from the contract modules present."""
import importlib.util, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
sys.path.insert(0, V)
NOTES = {}
nf = os.path.join(V, 'tools', 'level_notes.json')
if os.path.exists(nf):
    NOTES = json.load(open(nf))
checks = []
for p in props:
    i = p['id']
    proof = os.path.exists(os.path.join(V, 'contracts', i + '.py'))
    note = NOTES.get(i)
    if proof:
        tech = 'contract-based deductive verification (symbolic execution of the real source, obligations by tensor normal form + z3)'
        level = 'proof'
        note = note or ('Contracts on the real functions, every obligation discharged for all sizes, inputs and iterations over the reals. '
                        'Trusted: the NumPy model, the executor, z3; floating point treated as real arithmetic.')
    else:
        tech = 'contracts as executable oracles (bounded stand-in for contracts not yet discharged)'
        level = 'exploration'
        note = note or 'Bounded: the contract is evaluated on the real code for generated inputs; nothing is counted as proved.'
    checks.append({'property': i,
                   'quick_cmd': 'PYTHONPATH=. python3-vt -m dv.check %s' % i,
                   'thorough_cmd': 'PYTHONPATH=. python3-vt -m dv.check %s --thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i,
                   'technique': tech, 'level': level, 'level_note': note})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': [],
     'notes': 'Every check re-reads /repo/src/reor on every run. See DESIGN.md for what each proof covers, the trusted base and the bounded stand-ins.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', sum(c['level'] == 'proof' for c in checks), 'proof')
