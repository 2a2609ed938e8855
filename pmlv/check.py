"""check of one property: python3-vt -m pmlv.check C03"""
import sys, os, time, json, shutil, tempfile, subprocess, re, resource, signal
from . import build
VERIF = build.VERIF
META = json.load(open(os.path.join(VERIF, 'pmlv', 'meta.json')))

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2: tier = sys.argv[2]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    scratch = tempfile.mkdtemp(prefix='pmlv_%s_' % prop, dir='/tmp')
    def bye(*a): raise SystemExit(2)
    signal.signal(signal.SIGTERM, bye)
    try: rc = run(prop, tier, seed, scratch)
    finally: shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

def known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return [e for e in json.load(open(p))['findings'] if e['property'] == prop]

def run(prop, tier, seed, scratch):
    t0 = time.time()
    os.environ['PMLV_SCRATCH'] = scratch
    quick = tier == 'quick'
    deadline = t0 + (760 if quick else 3200)
    exes, err = build.build_all(scratch, prop)
    tb = time.time() - t0
    if exes is None:
        print('the library does not compile: no verdict'); print(err); return 2
    if err: print('note: ' + err)
    # --- bounded replay driver, in the background
    env = dict(os.environ, MALLOC_PERTURB_='165')
    procs = []
    for e in exes:
        o = open(e + '.out', 'w')
        cmd = [e, '--seed', str(seed), '--jobs', '4' if quick else '8', '--time', '70' if quick else '500', '--mult', '25' if quick else '150']
        procs.append((e, cmd, subprocess.Popen(cmd, stdout=o, stderr=subprocess.STDOUT, env=env, start_new_session=True)))
    # --- deductive part
    from .verify import verify_contracts
    from . import contracts
    cs = [c for c in contracts.ALL if prop in c.prop and not c.assumed]
    res = {}
    tv0 = time.time()
    if cs:
        try: res, prog = verify_contracts(cs, scratch, 8, deadline=t0 + (600 if quick else 2400), scale=1 if quick else 4)
        except Exception as e:
            import traceback; traceback.print_exc()
            print('note: the verifier could not process the tree (%s); bounded stand-in only' % e)
    tv = time.time() - tv0
    # --- collect driver results
    fails = []; done = []; tdrv = 0
    for e, cmd, p in procs:
        try: p.wait(timeout=max(5, deadline - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); p.wait()
        txt = open(e + '.out', errors='replace').read()
        for l in txt.splitlines():
            if l.startswith('FAIL '): fails.append((os.path.basename(e), l))
            elif l.startswith('DONE '): done.append(l)
    kf = known(prop)
    # --- classify
    viol = []; kfs = []
    tdead = []
    for e, l in fails:
        m = re.match(r'FAIL case=(.*?) iter=(-?\d+) seed=(\d+) : (.*)', l)
        case, it, sd, msg = m.groups()
        k = [x for x in kf if x.get('case') == case and re.search(x.get('match', ''), msg)]
        if k: kfs.append(k[0]); continue
        if 'no result within the time limit' in msg: tdead.append(l)
        viol.append(('input', '%s (iteration %s, seed %s)' % (case, it, sd), l))
    failed = []; und = []
    for (c, cfg), r in sorted(res.items()):
        if r['status'] == 'failed':
            for o in r['obls']:
                if o[3]: continue
                k = [x for x in kf if x.get('contract') == c and x.get('obligation', '') in o[1] and x.get('cfg', cfg) == cfg]
                if k: kfs.append(k[0]); continue
                failed.append((c, cfg, o))
        elif r['status'] != 'ok': und.append((c, cfg, r['status'], r['why']))
    # --- report
    rd = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True)
    n = 0; seen = set()
    for e in kfs:
        if e['id'] in seen: continue
        seen.add(e['id']); print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
    rc = 0
    def obtext():
        t = []
        for c, cfg, o in failed:
            t.append('failed obligation: %s\n  function under contract: %s  aliasing: %s\n  kind: %s\n  where: %s\n  verifier output:\n    %s' % (o[1], c, cfg or 'none', o[0], o[2], o[4].replace('\n', '\n    ')))
        return '\n\n'.join(t)
    if viol:
        rp = os.path.join(rd, '%s.txt' % prop)
        with open(rp, 'w') as h:
            h.write('property %s is violated by /repo\'s current tree\n\nfailing inputs on the real code (bounded replay driver, drivers/%s.cpp):\n' % (prop, prop))
            for k, d, l in viol[:20]: h.write('  ' + l + '\n')
            h.write('\nreplay: build drivers/%s.cpp against /repo/ntl-extras and run with --case "<case>" --iter <iter> --seed <seed>\n' % prop)
            if failed: h.write('\n' + obtext() + '\n')
        for k, d, l in viol[:8]: print(l[:400])
        for c, cfg, o in failed[:6]: print('failed obligation: %s [%s] %s: %s' % (c, cfg, o[0], o[1]))
        print('VIOLATION property=%s replay=%s' % (prop, rp)); rc = 1
    elif failed:
        rp = os.path.join(rd, '%s.txt' % prop)
        with open(rp, 'w') as h:
            h.write('property %s: obligations generated from /repo\'s current tree are not discharged; the replay driver found no failing input\n\n%s\n' % (prop, obtext()))
        for c, cfg, o in failed[:8]: print('failed obligation: %s [%s] %s: %s' % (c, cfg, o[0], o[1]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp)); rc = 1
    for c, cfg, s, w in und[:40]: print('undecided by the verifier (bounded stand-in decides): %s [%s] %s: %s' % (c, cfg, s, w.strip().split('\n')[-1][:200]))
    write_evidence(prop, tier, seed, res, cs, done, fails, und, failed, viol, kfs, time.time() - t0, tb, tv, exes)
    ok = sum(1 for r in res.values() if r['status'] == 'ok')
    print('%s %s: %d/%d function configurations proved, %d obligations discharged, %d cases in the bounded driver, %.0f s' % (
        prop, 'VIOLATED' if rc else 'holds', ok, len(res), sum(1 for r in res.values() for o in r['obls'] if o[3]), len(done), time.time() - t0))
    return rc

def write_evidence(prop, tier, seed, res, cs, done, fails, und, failed, viol, kfs, wall, tb, tv, exes):
    m = META[prop]
    ob = sum(len(r['obls']) for r in res.values()); dis = sum(1 for r in res.values() for o in r['obls'] if o[3])
    kinds = {}
    for r in res.values():
        for o in r['obls']: kinds[o[0]] = kinds.get(o[0], 0) + 1
    used = sorted({u for r in res.values() for u in r.get('used', [])})
    called = sorted({u for r in res.values() for u in r.get('contracts', [])})
    own = {repr(c) for c in cs}
    from . import contracts
    assumed = sorted(c for c in called if c not in own)
    from .alg import AREG
    allc = {}
    for c in AREG.all + contracts.ALL:
        if repr(c) not in allc or allc[repr(c)].assumed: allc[repr(c)] = c
    trusted = ['clang AST front end', 'pmlv VC generator (entry level and matrix-algebra level) and ring-identity procedures', 'z3 %s' % z3v()]
    trusted += ['mathematical ' + u if u.startswith('lemma: ') else 'trusted contract of dependency: ' + u for u in used]
    def origin(c):
        k = allc.get(c)
        if k is None: return 'assumed contract: ' + c
        if not k.assumed: return 'contract proved under property %s: %s' % ('/'.join(k.prop) or prop, c)
        h = allc.get(c + ' [explicit invariants]')
        if h is not None and not h.assumed: return 'contract proved under property %s with explicit invariants: %s' % ('/'.join(h.prop), c)
        t = getattr(k, 'trust', '')
        if re.fullmatch(r'C\d\d', t): return 'contract used at matrix level, its entry-level form belongs to property %s: %s' % (t, c)
        return 'assumed contract (%s): %s' % (t or 'bounded check only', c)
    trusted += [origin(c) for c in assumed]
    fdone = {}
    for l in done:
        g = re.match(r'DONE case=(.*) runs=(\d+) evals=(\d+) distinct=(\d+) sec=(\S+)', l)
        if g: fdone[g.group(1)] = [int(g.group(2)), int(g.group(3)), int(g.group(4))]
    cov = {
        'obligations': ob, 'discharged': dis, 'checker_cmd': 'python3-vt -m pmlv.check %s' % prop, 'trusted_base': trusted,
        'obligations_by_kind': kinds,
        'functions_under_contract': sorted({c for (c, cfg), r in res.items()}),
        'functions_fully_proved': sorted({c for (c, cfg), r in res.items() if all(q['status'] == 'ok' for (c2, _), q in res.items() if c2 == c)}),
        'configurations': len(res), 'configurations_proved': sum(1 for r in res.values() if r['status'] == 'ok'),
        'undecided': ['%s [%s] %s' % (c, cfg, w.strip().split('\n')[-1][:200]) for c, cfg, s, w in und],
        'inlined_helpers': sorted({u for r in res.values() for u in r.get('inlined', [])}),
        'loops_with_proved_invariants': sum(r.get('loops', 0) for r in res.values()),
        'solver_queries': sum(r.get('nq', 0) for r in res.values()), 'solver_time_s': round(sum(r.get('tz3', 0) for r in res.values()), 2),
        'ring_identities': sum(r.get('ring', 0) for r in res.values()), 'back_ends': ['z3 (python API)', 'pmlv ring normal form with z3 side conditions'],
        'verifier_wall_s': round(tv, 1), 'build_s': round(tb, 1),
        'bounded_standin': {'driver': 'drivers/%s*.cpp' % prop, 'label': 'bounded: random and enumerated inputs against naive oracles, never counted as proved', 'cases': fdone,
                            'evaluations': sum(v[1] for v in fdone.values()), 'distinct_nontrivial': sum(v[2] for v in fdone.values()), 'failures': [l[:300] for _, l in fails][:20]},
        'bounded_only_functions': m.get('bounded', []),
        'evaluations': sum(v[1] for v in fdone.values()), 'distinct_nontrivial': sum(v[2] for v in fdone.values()),
        'rule': 'one evaluation = one generated input tuple run through the listed functions and compared with the naive oracle; distinct by its size/degree/field signature',
        'samples': [l[:200] for l in done[:5]],
        'explanation': m['note'],
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': m['level'], 'coverage': cov,
          'assumptions': META['_assumptions'] + m.get('assumptions', []), 'wall_s': round(wall, 1), 'violations': len(viol) + (len(failed) if not viol else 0)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)

def z3v():
    import z3
    return z3.get_version_string()

if __name__ == '__main__': main()
