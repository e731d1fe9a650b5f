import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine'))
import registry
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in registry.TABLE:
        level, fn = registry.TABLE[i]
        cmd = f'python3-vt engine/check.py {i}'
        c = {'property': i, 'quick_cmd': cmd, 'thorough_cmd': cmd, 'evidence_file': f'evidence/{i}.json',
             'technique': registry.technique(i), 'level': level, 'level_note': registry.note(i)}
        checks.append(c)
    else:
        na.append({'property': i, 'reason': registry.NA.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'python3-vt engine/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the checks extract LLVM IR from the unmodified headers and generator output on every run. '
              'See DESIGN.md and known-findings.txt.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
