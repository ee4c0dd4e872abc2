"""Writes MANIFEST.json from the check modules (PROPERTY, LEVEL, TECHNIQUE, NOTE)."""
import ast, glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {'exploration': 'bounded-exhaustive exploration of the real code against a reference model',
        'model_checking': 'explicit-state model checking of the real code in lock-step with a reference model',
        'fault_enumeration': 'exhaustive enumeration of fault and truncation points on the real code'}
checks = []
for f in sorted(glob.glob(os.path.join(root, 'checks', 'C*.py'))):
    vals = {}
    for node in ast.parse(open(f).read()).body:
        if isinstance(node, ast.Assign):
            t = node.targets[0]
            try:
                v = ast.literal_eval(node.value)
            except ValueError:
                continue
            if isinstance(t, ast.Tuple):
                vals.update(zip([e.id for e in t.elts], v))
            else:
                vals[t.id] = v
    p = vals['PROPERTY']
    note = vals.get('NOTE') or vals['RULE']
    checks.append(dict(property=p, quick_cmd=f'./run.sh {p} quick', thorough_cmd=f'./run.sh {p} thorough',
                       evidence_file=f'evidence/{p}.json', technique=vals.get('TECHNIQUE', TECH[vals['LEVEL']]), level=vals['LEVEL'],
                       level_note=note + ' Trusted: NumPy/SciPy, the reference model in mc/ref.py, and: ' + '; '.join(vals.get('ASSUMPTIONS', ['nothing else'])) + '.'))
props = [json.loads(l)['id'] for l in open(os.path.join(root, 'properties.jsonl'))]
have = {c['property'] for c in checks}
na = [dict(property=p, reason='check not built yet') for p in props if p not in have]
m = dict(version=1, setup_cmd='/opt/venv/bin/python -B -c "import numpy, scipy, h5py, pandas, matplotlib, hdf5storage"', checks=checks, not_applicable=na,
         notes='Everything runs on the real code of /repo compiled from its working tree; no hooks are needed. VERIF_SEED only rotates the order of exploration.')
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not yet')
