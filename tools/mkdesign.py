"""DESIGN.md from tools/DESIGN.in.md, pmlv/meta.json, known_findings.json, seeded/*, and the contract registry (run with python3-vt)"""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from pmlv import contracts
meta = json.load(open(V + '/pmlv/meta.json')); props = [json.loads(l) for l in open(V + '/properties.jsonl')]
out = []
for p in props:
    i = p['id']; m = meta[i]
    out.append('### %s — %s' % (i, p['title']))
    if 'na' in m: out.append('Not applicable: ' + m['na'] + '\n'); continue
    cs = [c for c in contracts.ALL if i in c.prop]; a = sorted({repr(c) for c in cs if c.assumed}); t = sorted({repr(c) for c in cs if not c.assumed} )
    out.append('Level: **%s**. Functions under contract and verified: %d; with an assumed contract (bounded check only): %d.\n' % (m['level'], len(t), len([x for x in a if x not in t and x + ' [explicit invariants]' not in t])))
    out.append(m['note'] + '\n')
    if m.get('assumptions'): out.append('Assumptions: ' + '; '.join(m['assumptions']) + '.\n')
    if m.get('bounded'): out.append('Bounded driver only (`drivers/%s*.cpp`): ' % i + '; '.join(m['bounded']) + '.\n')
kf = json.load(open(V + '/known_findings.json'))
fi = '\n'.join('* `%s` (%s): %s' % (e['id'], e['property'], e['what']) for e in kf['findings'])
catch = json.load(open(V + '/tools/catches.json')) if os.path.exists(V + '/tools/catches.json') else {}
se = ['| id | property | breaks | needs | caught by |', '|---|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*')):
    s = os.path.basename(d); m = json.load(open(d + '/meta.json'))
    se.append('| %s | %s | %s | %s | %s |' % (s, m['property'], m['what_it_breaks'], m['needs'], catch.get(s, '')))
s = open(V + '/tools/DESIGN.in.md').read()
s = s.replace('@@TABLE@@', '\n'.join(out)).replace('@@FINDINGS@@', fi).replace('@@SEEDS@@', '\n'.join(se)).replace('50+ entries', '%d entries' % len(kf['fixed']))
open(V + '/DESIGN.md', 'w').write(s)
