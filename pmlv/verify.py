"""Function-by-function verification against contracts."""
import z3, time, os, pickle, sys, traceback, select, signal
from .terms import *
from .prover import *
from .execu import *
from .front import parse_type, parse_raw, RING, Program, Func
from .ntl import Builtins

def argtypes(typ):
    """parameter types of a function type string"""
    i = typ.index('('); 
    # return types may contain parentheses? not in this code base
    d = 0; j = i
    for j in range(i, len(typ)):
        if typ[j] == '(': d += 1
        if typ[j] == ')':
            d -= 1
            if d == 0: break
    from .front import split_targs
    inner = typ[i + 1:j].strip()
    if inner in ('', 'void'): return ()
    return tuple(strip_ref(parse_raw(t)) for t in split_targs(inner))

def strip_ref(t):
    if isinstance(t, tuple) and t[0] == 'ref': return t[1]
    if t == 'U': return 'Z'
    return t

def deep(t):
    if t == 'U': return 'Z'
    if isinstance(t, tuple): return tuple(deep(x) for x in t)
    return t

class C:
    """a contract; fn(E) states it"""
    def __init__(s, name, types, names, fn, prop, file, cls=None, alias='auto', defaults=None, pure_outs=(), raw_ok=(), noalias=(), const=None, inv=None, budget=150, note='', unred=False, noinv=False, uses=(), aux=False, nounroll=False, ring=False):
        s.ring = ring; s.uses = tuple(uses); s.aux = aux; s.nounroll = nounroll
        s.name = name; s.cls = cls; s.types = types; s.names = names.split() if isinstance(names, str) else list(names); s.fn = fn
        s.prop = prop if isinstance(prop, (list, tuple)) else [prop]
        s.file = file; s.alias = alias; s.defaults = defaults or {}; s.pure_outs = set(pure_outs); s.raw_ok = set(raw_ok)
        s.noalias = [tuple(x) for x in noalias]; s.key = (cls, name, tuple(deep(strip_ref(parse_raw(t))) for t in types))
        s.alg = False; s.const = const; s.inv = inv; s.budget = budget; s.note = note; s.assumed = False; s.unred = unred; s.noinv = noinv
    def params(s, f): return s.names
    def __repr__(s): return '%s%s(%s)' % (s.cls + '::' if s.cls else '', s.name, ', '.join(s.types))

class Registry:
    def __init__(s): s.by = {}; s.all = []; s.verifying_nocontract = None; s.disabled = set(); s.hidden = None; s.clsinv = {}
    def add(s, c): s.by[c.key] = c; s.all.append(c)
    def find(s, cls, name, typ):
        try: k = (cls, name, tuple(deep(t) for t in argtypes(typ)))
        except ValueError: return None
        c = s.by.get(k)
        if c is None: return None
        if c.key in s.disabled: return None
        if c.ring != RING[0]: raise Unsupported('contract of %s at another level of abstraction' % name)
        return c

REG = Registry()

def clsinv(cls):
    """class invariant: fn(ex, fields) -> fields written in terms of the independent ones; assumed for every object that
    is not under construction, and established by the constructors (whose contracts give the same fields)"""
    def deco(fn): REG.clsinv[cls] = fn; return fn
    return deco

def contract(sig, names, prop, file, cls=None, assumed=False, **kw):
    """sig: 'name(type, type, ...)'"""
    i = sig.index('('); nm = sig[:i].strip()
    from .front import split_targs
    types = split_targs(sig[i + 1:sig.rindex(')')])
    def deco(fn):
        c = C(nm, types, names, fn, prop, file, cls, **kw); c.assumed = assumed
        REG.add(c); return fn
    return deco

class Env(ContractEnv):
    def __init__(s, ex, st, pre, mode, final=None, ret=None, prest=None):
        ContractEnv.__init__(s, ex, st, pre, mode)
        s.final = final; s.retv = ret; s.havocs = {}; s.pw = {}; s.prest = prest or st
    def ptr(s, name):
        """(available length, element function) of the memory a pointer argument points to, in the pre-state"""
        p = s.v[name]; m = s.ex.load(s.st if s.mode == 'call' else s.prest, p.base); o = p.off
        L = m.len if isinstance(m, Vec) else s.ex.polylen(m)
        g = m.get if isinstance(m, Vec) else s.ex.seal(m)[1]
        return simp(L - o), (lambda i: g(o + i))
    def pwrites(s, name, n, fn):
        """the call writes exactly elements 0..n-1 through the pointer (fn None: arbitrary values)"""
        s.pw[name] = (n, fn, True)
    def disjoint(s, a, na, b, nb):
        """the ranges a[0..na) and b[0..nb) do not overlap"""
        if s.mode != 'call': return
        p, q = s.v[a], s.v[b]
        if p.base.root != q.base.root or not p.base.same(q.base): return
        s.requires(z3.Or(na <= 0, nb <= 0, p.off + na <= q.off, q.off + nb <= p.off), 'ranges of %s and %s are disjoint' % (a, b))
    def out(s, name, ty):
        """final value of an out parameter constrained only by ensures"""
        if s.mode == 'verify' and s.final is not None: s.havocs[name] = True; return s.final[name]
        v = s.ex.symbolic(parse_type(ty) if isinstance(ty, str) and ty not in ('Z', 'B', 'F', 'P') else ty, s.ex.det_name('o_' + name), tuple(s.ex.loopstack))
        t = State(); s.ex.wf(v, t); s.facts += t.pc
        s.outs[name] = v; s.havocs[name] = True
        return v
    def result(s, ty):
        if s.mode == 'verify' and s.retv is not None: s.ret = None; s.nores = True; return s.retv
        v = s.ex.symbolic(ty, s.ex.det_name('res'), tuple(s.ex.loopstack))
        t = State(); s.ex.wf(v, t); s.facts += t.pc
        s.ret = v
        return v

def find_func(prog, c):
    todo = [c.cls]
    while todo:
        cls = todo.pop(0)
        for f in prog.byname.get((cls + '::' if cls else '') + c.name, []):
            try: k = tuple(deep(t) for t in argtypes(f.type))
            except ValueError: continue
            if k == c.key[2] and (c.const is None or f.const == c.const): return f
        if cls and cls in prog.classes: todo += prog.classes[cls].bases   # inherited definition
    return None

def configs(c, f):
    """aliasing configurations: list of dict name -> name of the object it shares"""
    outs = []; ins = []
    for nm, p in zip(c.names, f.params):
        q = norm_type(qt(p)); t = parse_type(q)
        if t[0] != 'ref': continue
        if q.startswith('const '): ins.append((nm, t))
        else: outs.append((nm, t))
    cfgs = [{}]
    if c.alias == 'none' or getattr(c, 'hoare', False) and not c.aliased: return cfgs
    for o, t in outs:
        same = [i for i, ti in ins if deep(ti) == deep(t) and (o, i) not in c.noalias and (i, o) not in c.noalias]
        for i in same: cfgs.append({i: o})
        if len(same) == 2: cfgs.append({same[0]: o, same[1]: o})
    return cfgs

class Result:
    def __init__(s): s.obls = []; s.status = 'ok'; s.why = ''; s.time = 0; s.nq = 0; s.tz3 = 0; s.ring = 0; s.used = set(); s.contracts = set(); s.inlined = set(); s.loops = 0; s.assumes = []; s.paths = 0

def verify_one(prog, c, cfg, timeout_ms=8000, budget=None):
    if getattr(c, 'hoare', False):
        from .hoare import verify_hoare
        return verify_hoare(prog, c, cfg, timeout_ms, budget)
    if c.alg:
        from .alg import verify_alg
        return verify_alg(prog, c, cfg, timeout_ms, budget)
    t0 = time.time()
    r = Result()
    f = find_func(prog, c)
    if f is None:
        r.status = 'missing'; r.why = 'no definition of %r in the current source' % c; return r
    ctx = Ctx(timeout_ms); ctx.budget_end = time.time() + (budget or c.budget)
    bi = Builtins(); ex = Exec(prog, ctx, REG, bi); ex.func = f; ex.unred = c.unred; ex.nounroll = c.nounroll
    ex.cfg = ','.join('%s is %s' % kv for kv in sorted(cfg.items()))
    try:
        RING[0] = c.ring; _verify(ex, ctx, c, f, cfg, r)
    except (Unsupported, MergeError) as e:
        r.status = 'undecided'; r.why = '%s: %s' % (type(e).__name__, e)
    except RecursionError as e:
        r.status = 'undecided'; r.why = 'recursion limit'
    except (KeyError, AttributeError, TypeError, IndexError, ValueError, z3.Z3Exception, AssertionError, NotImplementedError) as e:
        r.status = 'undecided'; r.why = 'internal: ' + ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]
    RING[0] = False
    r.obls = ex.obls
    if r.status == 'ok' and any(not o.ok for o in r.obls):
        r.status = 'failed'
        if ctx.nto:
            # a solver time-out is no evidence against the code: the bounded stand-in decides
            r.status = 'undecided'; r.why = '%d solver time-outs; not discharged: %s' % (ctx.nto, '; '.join(o.desc for o in r.obls if not o.ok)[:300])
        elif c.aux:
            # an auxiliary contract fixes an internal representation; another representation can satisfy the property as well
            r.status = 'undecided'; r.why = 'auxiliary contract does not hold any more: %s' % '; '.join(o.desc for o in r.obls if not o.ok)[:300]
    r.time = time.time() - t0; r.nq = ctx.nq; r.tz3 = ctx.tz3; r.ring = ctx.ring_checks
    r.used = bi.used; r.contracts = ex.used_contracts; r.inlined = ex.inlined; r.loops = ex.loops
    return r

def _verify(ex, ctx, c, f, cfg, r):
    st = State()
    env = {}; pre = {}; objs = {}; mems = {}
    inst = {}
    this = None
    if c.cls and not f.ctor:
        if c.noinv: ex.noinv = 'this'
        v = ex.symbolic(('rec', c.cls), 'this'); ex.wf(v, st)
        this = ex.newobj(st, v, 'this'); pre['this'] = v
    elif f.ctor:
        v = ex.default(('rec', c.cls)); this = ex.newobj(st, v, 'this'); pre['this'] = v
    st.this = this
    for nm, p in zip(c.names, f.params):
        ty = parse_type(qt(p))
        if ty[0] == 'other' and 'desugaredQualType' in p['type']: ty = parse_type(p['type']['desugaredQualType'])
        base = cfg.get(nm, nm)
        isref = ty[0] == 'ref'
        t = ty[1] if isref else ty
        if isref and base in objs:
            lv = objs[base]
        elif t[0] == 'ptr' and t[1] in ('F', 'Z', 'P'):
            mem = ex.symbolic(('vec', t[1]), 'mem_' + base); ex.wf(mem, st)
            mlv = ex.newobj(st, mem, 'mem_' + nm); mems[nm] = mlv
            lv = ex.newobj(st, Ptr(mlv, 0), nm); objs[nm] = lv
        else:
            v = ex.symbolic(t, 'in_' + base); ex.wf(v, st)
            if t == 'U': st.assume(v >= 0)
            lv = ex.newobj(st, v, nm)
            if isref or base == nm: objs[base] = lv
        objs[nm] = lv
        env[p['id']] = lv; pre[nm] = ex.read(st, lv)
    pre_store = dict(st.store); pst = State([], pre_store)
    E0 = Env(ex, st, pre, 'verify', prest=pst)
    E0.lvs = dict(objs)
    c.fn(E0)
    for nm in list(E0.havocs): E0.outs.pop(nm, None)
    for g, d in E0.req: st.assume(g)
    if ctx.check(st.pc, 5000) == z3.unsat:
        raise Unsupported('vacuous precondition')
    ex.record('vacuity', 'precondition is satisfiable (not refuted)', True)
    bn = len(st.pc)
    t = State(list(st.pc), dict(st.store), env, this)
    ex.callstack.append(f); ex.depth = 0
    ex.ret_ref = f.type[:f.type.index('(')].strip().endswith('&')
    for ini in f.inits: ex.ctor_init(t, ini)
    rs = ex.stmt(t, f.body)
    nok = 0
    rty = f.type[:f.type.index('(')].strip()
    for k, x, v in rs:
        if x.dead(): continue
        if k == 'err': ex.errs.append(And_(*x.pc)); continue
        if k not in ('norm', 'ret'): raise Unsupported('control flow at end')
        if ctx.check(x.pc, 2000) == z3.unsat: continue
        nok += 1
        r.paths += 1
        final = {nm: ex.read(x, lv) for nm, lv in objs.items()}
        if this is not None: final['this'] = ex.read(x, this)
        if v is not None and not isinstance(v, Void):
            v = ex.load(x, v)
            if rty not in ('void',):
                ty = parse_type(rty.rstrip('&').strip())
                if isinstance(ty, str): v = ex.convert(x, v, ty)
        E = Env(ex, x, pre, 'verify', final, v, pst); E.lvs = dict(objs)
        c.fn(E)
        if E.rai is not None:
            ex.oblige(x, Not_(E.rai), 'raises', 'no normal return when the documented error condition holds')
            x.assume(Not_(E.rai))
            if ctx.check(x.pc, 2000) == z3.unsat: continue
        for nm, want in E.outs.items():
            ex.valeq(x, final[nm], want, 'result %s' % nm)
        for g in E.facts: ex.oblige(x, g, 'post', 'postcondition')
        for nm, (n_, fn, exact) in E.pw.items():
            old = pre_store[mems[nm].root]; new = x.store[mems[nm].root]
            i = freshvar('i'); t_ = x.copy(); t_.assume(i >= 0, i < old.len)
            ex.oblige(x, new.len == old.len, 'frame', 'memory block of %s keeps its size' % nm)
            if fn is not None: ex.valeq(ex.under(t_, i < n_), new.get(i), fn(i), 'values written through %s' % nm)
            ex.valeq(ex.under(t_, i >= n_), new.get(i), old.get(i), 'frame: memory beyond the range of %s unchanged' % nm, 'frame')
        for nm, lv in mems.items():
            if nm not in E.pw and x.store[lv.root] is not pre_store[lv.root]:
                ex.valeq(x, x.store[lv.root], pre_store[lv.root], 'frame: memory read through %s unchanged' % nm, 'frame')
        if E.ret is not None and v is not None: ex.valeq(x, v, fixret(ex, x, E.ret, v), 'returned value')
        # frame
        done = set()
        for nm, lv in objs.items():
            root = lv.root
            if root in done: continue
            done.add(root)
            group = [m for m in objs if objs[m].root == root]
            if any(m in E.outs or m in E.havocs for m in group): continue
            p = [q for q in f.params if env.get(q['id']) is lv]
            if p and parse_type(qt(p[0]))[0] != 'ref': continue
            if x.store[root] is not pre_store[root]:
                ex.valeq(x, x.store[root], pre_store[root], 'frame: %s unchanged' % nm, 'frame')
        if this is not None and 'this' not in E.outs and 'this' not in E.havocs and x.store[this.root] is not pre_store[this.root]:
            ex.valeq(x, x.store[this.root], pre_store[this.root], 'frame: object unchanged', 'frame')
    rai = E0.rai
    for e in ex.errs:
        es = State([e])
        if ctx.check([e], 2000) == z3.unsat: continue
        ex.oblige(es, rai if rai is not None else FALSE, 'raises', 'an error is raised only under the documented condition')
    if nok == 0: raise Unsupported('no feasible normal path')

def fixret(ex, st, want, got):
    if isinstance(want, z3.ExprRef) and isinstance(got, z3.ExprRef) and want.sort() != got.sort():
        if z3.is_bool(want): return If_(want, z3.IntVal(1), z3.IntVal(0))
        if z3.is_bool(got): return want != 0
    return want

# ---------------------------------------------------------------- parallel driver
def load_contracts():
    from .contracts import ALL
    return ALL

def run_jobs(jobs, ncpu, deadline, log=None):
    """jobs: list of (key, thunk, budget). Runs each in a forked child. returns {key: Result-like dict}"""
    res = {}; running = {}
    jobs = list(jobs)
    while jobs or running:
        while jobs and len(running) < ncpu:
            key, fn, budget = jobs.pop(0)
            if time.time() > deadline - 5:
                res[key] = {'status': 'undecided', 'why': 'time budget of the check exhausted', 'obls': [], 'time': 0}; continue
            rfd, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rfd)
                try:
                    sys.setrecursionlimit(20000)
                    try: out = fn()
                    except BaseException as e:
                        out = {'status': 'undecided', 'why': 'internal: %s' % traceback.format_exc()[-1500:], 'obls': [], 'time': 0}
                    data = pickle.dumps(out)
                    with os.fdopen(wfd, 'wb') as h: h.write(data)
                finally: os._exit(0)
            os.close(wfd)
            running[rfd] = [key, pid, time.time() + budget, b'']
        if not running: continue
        rl, _, _ = select.select(list(running), [], [], 0.5)
        for fd in rl:
            d = os.read(fd, 1 << 20)
            if d: running[fd][3] += d; continue
            key, pid, end, buf = running.pop(fd)
            os.close(fd); os.waitpid(pid, 0)
            try: res[key] = pickle.loads(buf)
            except Exception: res[key] = {'status': 'undecided', 'why': 'verifier process ended unexpectedly', 'obls': [], 'time': 0}
            if log: log(key, res[key])
        now = time.time()
        for fd in list(running):
            key, pid, end, buf = running[fd]
            if now > end or now > deadline:
                os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0); os.close(fd); del running[fd]
                res[key] = {'status': 'undecided', 'why': 'timeout', 'obls': [], 'time': 0}
                if log: log(key, res[key])
    return res

def result_dict(r):
    return {'status': r.status, 'why': r.why, 'time': r.time, 'nq': r.nq, 'tz3': r.tz3, 'ring': r.ring, 'used': sorted(r.used), 'contracts': sorted(r.contracts),
            'inlined': sorted(r.inlined), 'loops': r.loops, 'paths': r.paths,
            'obls': [(o.kind, o.desc, o.func, o.ok, o.detail, o.cfg) for o in r.obls]}

def verify_contracts(cs, build, ncpu=8, deadline=None, log=None, extra_files=(), scale=1):
    prog = Program(build)
    files = []
    for c in cs:
        for fl in (c.file,) + c.uses:
            if fl not in files: files.append(fl)
    for f in extra_files:
        if f not in files: files.append(f)
    load_parallel(prog, files)
    jobs = []
    for c in cs:
        f = find_func(prog, c)
        if f is None:
            jobs.append(((repr(c), ''), (lambda c=c: result_dict(verify_one(prog, c, {}))), 30)); continue
        for cfg in configs(c, f):
            nm = ','.join('%s is %s' % kv for kv in sorted(cfg.items()))
            jobs.append(((repr(c), nm), (lambda c=c, cfg=cfg: result_dict(verify_one(prog, c, cfg, 8000 * scale, c.budget * scale))), c.budget * scale + 20))
    return run_jobs(jobs, ncpu, deadline or time.time() + 3600, log), prog

def load_parallel(prog, files):
    from concurrent.futures import ThreadPoolExecutor
    prog.prefetch(files)
    for f in files: prog.load(f)
