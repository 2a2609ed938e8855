"""development driver: python3-vt -m pmlv.dev PROP [substring]"""
import sys, time, os
from . import contracts
from .verify import *
def main():
    prop = sys.argv[1]; sub = sys.argv[2] if len(sys.argv) > 2 else ''
    cs = [c for c in contracts.ALL if (prop == 'all' or prop in c.prop) and sub in repr(c) and not c.assumed]
    t = time.time()
    def log(k, r):
        bad = [o for o in r['obls'] if not o[3]]
        print('%-9s %6.1fs %3d obl %s [%s] %s' % (r['status'], r['time'], len(r['obls']), k[0], k[1], r.get('why', '')[:int(1500)]), flush=True)
        for o in bad[:4]: print('      FAILED', o[0], o[1], '\n        ', o[4][:int(os.environ.get('PMLV_W','700'))].replace('\n', '\n         '))
    ex = sorted({c.file for c in cs})
    res, prog = verify_contracts(cs, '/tmp/pmlv_build', 8, log=log)
    from collections import Counter
    print(Counter(r['status'] for r in res.values()), 'obligations', sum(len(r['obls']) for r in res.values()), '%.1fs' % (time.time() - t))
main()
