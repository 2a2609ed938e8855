"""writes seeded/<id>/ from tools/seeds.py (patches against /repo HEAD)"""
import os, sys, subprocess, json, shutil, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import S
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); only = sys.argv[1:]
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero otherwise; run in /repo after the build
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
inc=; for d in ntl-extras/*/; do inc="$inc -I$PWD/$d"; done
g++ -std=c++11 -O1 -DNTL_RANGE_CHECK $inc -I$PWD/_build/include "$here/demo.cpp" _build/libpml.a -lntl -lpthread -lgmp -lm -o "$t/demo" || exit 3
timeout 250 "$t/demo"
'''
w = tempfile.mkdtemp(dir='/tmp')
subprocess.run('git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm x' % (w, w), shell=True, check=True)
for x in S:
    if x is None: continue
    i, prop, edits, needs, what, demo, hdrs = x
    if only and i not in only: continue
    for f, a, b in edits:
        s = open(w + '/' + f).read(); assert s.count(a) == 1, (i, s.count(a), a); open(w + '/' + f, 'w').write(s.replace(a, b))
    d = V + '/seeded/' + i; os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True).stdout)
    subprocess.run(['git', '-C', w, 'checkout', '-q', '--', '.'])
    pre, body = demo if isinstance(demo, tuple) else ('', demo)
    open(d + '/demo.cpp', 'w').write('#include <NTL/lzz_pX.h>\n#include <NTL/mat_lzz_p.h>\n' + ''.join('#include "%s"\n' % h for h in hdrs) + 'using namespace NTL; using namespace PML;\n' + pre.strip('\n') + '\nint main()\n{\n    ' + body.strip() + '\n    return 0;\n}\n')
    open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
shutil.rmtree(w)
