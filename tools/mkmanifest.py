"""writes MANIFEST.json from pmlv/meta.json and properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
meta = json.load(open(V + '/pmlv/meta.json'))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks = []; na = []
for p in props:
    i = p['id']
    m = meta.get(i)
    if not m or 'na' in m:
        na.append({'property': i, 'reason': m['na'] if m else 'no check built yet'}); continue
    checks.append({'property': i, 'quick_cmd': 'python3-vt -m pmlv.check %s quick' % i, 'thorough_cmd': 'python3-vt -m pmlv.check %s thorough' % i,
                   'technique': m.get('technique', 'contract-based deductive verification of the clang AST of the real C++ source (pmlv: VC generation, loop invariants, z3 + ring normal form), bounded replay driver for counterexamples'),
                   'level': m['level'], 'level_note': m['note']})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -m compileall -q pmlv && mkdir -p evidence', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo. Genuine defects repaired by fix: commits, listed in known_findings.json.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
