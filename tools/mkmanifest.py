"""writes MANIFEST.json from the properties and the contract modules present"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, 'tools', 'notes.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    n = NOTES.get(i, {})
    if os.path.exists(os.path.join(V, 'contracts', i.lower() + '.py')) and 'na' not in n:
        checks.append({
            'property': i, 'quick_cmd': f'./check.sh {i}', 'thorough_cmd': f'./check.sh {i} --tier thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': n.get('technique', 'contract-based deductive verification: contracts on the real functions, obligations '
                                            'generated from their source on every run and discharged by z3, cvc5 and a '
                                            'rational-function normaliser'),
            'level': n.get('level', 'proof'), 'level_note': n.get('note', 'all listed obligations are discharged for all inputs; bounded '
                                                          'conformance trials of the same contracts run beside them')})
    else:
        na.append({'property': i, 'reason': n.get('na', 'no contract built yet')})
out = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}
json.dump(out, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not')
