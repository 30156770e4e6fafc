"""Writes MANIFEST.json from the property list and the harness modules present."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE]
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
NA = {}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'props', i + '.py')) and i not in NA:
        M = importlib.import_module('props.' + i)
        checks.append({'property': i, 'quick_cmd': f'./check.sh {i} quick', 'thorough_cmd': f'./check.sh {i} thorough',
                       'evidence_file': f'evidence/{i}.json', 'technique': 'bounded symbolic execution of the Python source, obligations decided by polynomial normal form and Z3 (reals)',
                       'level': 'other',
                       'level_note': 'All values within the bounds decided symbolically: ' + M.BOUNDS + '. Trusted: the symbolic models of TensorFlow/NumPy/Sionna operations (compared with the real code on concrete runs in every check), '
                       'real-number semantics (no rounding), Z3. Counterexamples are replayed on the real code before being reported. '
                       + ('Assumes: ' + '; '.join(M.ASSUMPTIONS) if M.ASSUMPTIONS else '')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no harness in this state of the work')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'check.sh PROPERTY TIER runs engine/main.py; see DESIGN.md. No hooks in /repo.'}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
