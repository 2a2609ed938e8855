"""Symbolic executor / verification condition generator over the clang AST."""
import os
import z3, re
from .terms import *
from .prover import *
from .front import parse_type, norm_type, Program, Func

class LV:
    """lvalue: object id + access path"""
    __slots__ = ('root', 'path')
    def __init__(s, root, path=()): s.root = root; s.path = tuple(path)
    def ext(s, *p): return LV(s.root, s.path + tuple(p))
    def subst(s, sg):
        return LV(s.root, tuple((p[0], zsub(p[1], sg)) if p[0] in ('i', 'r') else p for p in s.path))
    def walk(s, f):
        for p in s.path:
            if p[0] in ('i', 'r'): f(p[1])
    def same(s, o):
        if s.root != o.root or len(s.path) != len(o.path): return False
        for p, q in zip(s.path, o.path):
            if p[0] != q[0]: return False
            if p[0] in ('i', 'r'):
                if not lin(simp(p[1])).add(lin(simp(q[1])), -1).iszero(): return False
            elif p[1:] != q[1:]: return False
        return True
    def __repr__(s): return 'LV(%s%s)' % (s.root, ''.join('.' + str(p[1] if len(p) > 1 else p[0]) for p in s.path))

class State:
    __slots__ = ('pc', 'store', 'env', 'this')
    def __init__(s, pc=None, store=None, env=None, this=None):
        s.pc = pc if pc is not None else []
        s.store = store if store is not None else {}
        s.env = env if env is not None else {}
        s.this = this
    def copy(s): return State(list(s.pc), dict(s.store), dict(s.env), s.this)
    def assume(s, *cs):
        for c in cs:
            c = simp(c)
            if not z3.is_true(c): s.pc.append(c)
        return s
    def dead(s): return any(z3.is_false(c) for c in s.pc)

class Obl:
    __slots__ = ('kind', 'desc', 'func', 'ok', 'detail', 'cfg')
    def __init__(s, kind, desc, func, ok, detail, cfg): s.kind = kind; s.desc = desc; s.func = func; s.ok = ok; s.detail = detail; s.cfg = cfg

def strip(n):
    """skip wrappers without semantics"""
    while n.get('kind') in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr',
                            'SubstNonTypeTemplateParmExpr', 'FullExpr', 'CXXDefaultArgExpr', 'CXXRewrittenBinaryOperator'):
        if not n.get('inner'): break
        n = n['inner'][0]
    return n

def qt(n): return n['type']['qualType']

class ContractEnv:
    def __init__(s, ex, st, pre, mode):
        s.ex = ex; s.ctx = ex.ctx; s.st = st; s.v = pre; s.mode = mode
        s.req = []; s.rai = None; s.outs = {}; s.ret = None; s.noal = []; s.facts = []; s.post = []; s.fresh_outs = {}
        s.partial = []
    def __getitem__(s, n): return s.v[n]
    def requires(s, c, d=''): s.req.append((c, d))
    def raises(s, c): s.rai = c if s.rai is None else Or_(s.rai, c)
    def sets(s, n, val): s.outs[n] = val
    def returns(s, val): s.ret = val
    def noalias(s, a, b): s.noal.append((a, b))
    def ensures(s, c): s.facts.append(c)
    def coef(s, p): return s.ex.tcoef(p)
    def polylen(s, p): return s.ex.polylen(p)

class Contract:
    def __init__(s, cls, name, types, fn, alias=(), this=None, prop=None, setup=None, const=None, mono=False):
        s.cls = cls; s.name = name; s.types = types; s.fn = fn; s.alias = alias; s.prop = prop; s.setup = setup; s.mono = mono
    def __repr__(s): return (s.cls + '::' if s.cls else '') + s.name + '(' + ', '.join(s.types or ['?']) + ')'

def modred(a, d):
    """a without the terms that are multiples of d (same Euclidean remainder)"""
    a = z3.simplify(a, som=True)
    def mult(t): return t.eq(d) or (z3.is_mul(t) and any(c.eq(d) for c in t.children()))
    if mult(a): return z3.IntVal(0)
    if z3.is_add(a):
        r = [t for t in a.children() if not mult(t)]
        if len(r) < a.num_args(): return z3.Sum(*r) if len(r) > 1 else r[0] if r else z3.IntVal(0)
    return a

class Exec:
    def __init__(s, prog, ctx, contracts, builtins):
        s.prog = prog; s.ctx = ctx; s.contracts = contracts; s.bi = builtins
        s.obls = []; s.quiet = 0; s.func = None; s.cfg = ''
        s.nobj = itertools.count(1)
        s.loopstack = []; s.callstack = []
        s.assumed = set(); s.inlined = set(); s.used_contracts = set()
        s.errs = []; s.loops = 0
        s.inv = 0
        s.strict_loops = True
        s.depth = 0; s.noinv = None
        s.globals = {}
        s.nodes = []; s.detnames = {}

    # ------------------------------------------------------------ obligations
    def oblige(s, st, goal, kind, desc):
        if s.quiet or st.dead(): return
        n0 = s.ctx.nto
        ok = s.ctx.prove(st.pc, goal)
        if not ok and s.ctx.nto > n0:
            s.ctx.tscale = 4
            try: ok = s.ctx.prove(st.pc, goal)
            finally: s.ctx.tscale = 1
        det = ''
        if not ok:
            m = s.ctx.last_model
            det = 'goal: %s' % z3.simplify(getattr(s.ctx, 'last_goal', goal))
            if os.environ.get('PMLV_DEBUG'): det += '\nPC:\n' + '\n'.join(map(str, st.pc))
            if m is not None: det += '\nmodel: %s' % str(m)[:1500]
        s.obls.append(Obl(kind, desc, s.where(), ok, det, s.cfg))
        if not ok: st.assume(goal)

    def record(s, kind, desc, ok, detail=''):
        if s.quiet: return
        s.obls.append(Obl(kind, desc, s.where(), ok, detail, s.cfg))

    def where(s):
        return ' <- '.join(f.key for f in reversed(s.callstack)) if s.callstack else str(s.func)

    # ------------------------------------------------------------ objects
    def stale(s, v):
        """value after assignment to an existing object, whose storage may hold older elements"""
        if isinstance(v, Poly) and v.fresh: return Poly(v.coef, v.len)
        if isinstance(v, Vec) and v.fresh: return Vec(v.len, v.get, v.et, tot=v.tot)
        if isinstance(v, Mat) and v.fresh: return Mat(v.rows, v.cols, v.get, v.et)
        return v
    def newobj(s, st, val, name=''):
        oid = '%s#%d' % (name, next(s.nobj))
        st.store[oid] = val
        return LV(oid)

    def fresh_int(s, p='k'):
        """unknown integer (skolem function of the active loop counters)"""
        return s.ctx.zapp(s.det_name(p), list(s.loopstack))

    def rank(s, a):
        """rank over F_p of a matrix, as an uninterpreted function of its entries"""
        from .loops import mkdef
        i = freshvar('i'); j = freshvar('j')
        return mkdef(s, 'rank', [i, j], [simp(a.rows), simp(a.cols), s.ctx.enc(rsimp(a.get(i, j)))], lambda X, nb, es: z3.And(X >= 0, X <= es[0], X <= es[1]))

    def default(s, ty):
        if ty in ('Z', 'U'): return s.fresh_int('uninit')
        if ty == 'B': return s.fresh_int('uninit') == 0
        if ty == 'F': return R0
        if ty == 'P': return Poly(Lam([freshvar('k')], R0))
        if ty == 'D': return Opaque('double')
        if ty[0] == 'vec': return Vec(0, lam(1, lambda i: s.default(ty[1])), ty[1], True)
        if ty[0] == 'mat': return Mat(0, 0, lam(2, lambda i, j: s.default(ty[1])), ty[1], True)
        if ty[0] == 'ptr': return Ptr(None, 0)
        if ty[0] == 'rec':
            if ty[1] == 'pair': return Rec('pair', {'first': s.default(ty[2][0]), 'second': s.default(ty[2][1])})
            if ty[1] in s.bi.special_types: return s.bi.special_types[ty[1]](s)
            c = s.prog.classes.get(ty[1])
            if c is not None:
                f = {}
                for b in c.bases:
                    bt = parse_type(b)
                    if bt[0] == 'rec' and bt[1] in s.prog.classes:
                        bv = s.default(bt)
                        if isinstance(bv, Rec): f.update(bv.f)
                for n, t in c.fields:
                    try: f[n] = s.default(parse_type(t))
                    except Unsupported: f[n] = Opaque('field', ty[1] + '.' + n)
                return Rec(ty[1], f)
            return Opaque('obj', ty[1])
        if ty[0] == 'other' and ty[1].split('<')[0].split('::')[-1] in ('greater', 'greater_equal', 'less', 'less_equal'): return Opaque('obj', ty[1])
        raise Unsupported('default value of type %s' % (ty,))

    def symbolic(s, ty, name, args=()):
        """arbitrary value of a type; args: index parameters it depends on"""
        args = tuple(args)
        ctx = s.ctx
        if ty in ('Z', 'U'): return ctx.zapp(name, list(args))
        if ty == 'B': return ctx.zapp(name, list(args), z3.BoolSort())
        if ty == 'F':
            ctx.ring_atom(name, len(args)); return RA(name, args)
        if ty == 'P':
            ctx.poly_atom(name, len(args) + 1)
            return Poly(lam(1, lambda k: RA(name, args + (k,)), 'k'))
        if ty[0] == 'vec':
            ln = ctx.zapp(name + '.len', list(args))
            return Vec(ln, lam(1, lambda i: s.symbolic(ty[1], name, args + (i,))), ty[1])
        if ty[0] == 'mat':
            r = ctx.zapp(name + '.rows', list(args)); c = ctx.zapp(name + '.cols', list(args))
            return Mat(r, c, lam(2, lambda i, j: s.symbolic(ty[1], name, args + (i, j))), ty[1])
        if ty[0] == 'rec':
            if ty[1] == 'pair': return Rec('pair', {'first': s.symbolic(ty[2][0], name + '.first', args), 'second': s.symbolic(ty[2][1], name + '.second', args)})
            if ty[1] in s.bi.special_symbolic: return s.bi.special_symbolic[ty[1]](s, name, args)
            c = s.prog.classes.get(ty[1])
            if c is not None:
                f = {}
                for b in c.bases:
                    bt = parse_type(b)
                    if bt[0] == 'rec' and bt[1] in s.prog.classes:
                        bv = s.symbolic(bt, name, args)
                        if isinstance(bv, Rec): f.update(bv.f)
                for n, t in c.fields:
                    try: f[n] = s.symbolic(parse_type(t), name + '.' + n, args)
                    except Unsupported: f[n] = Opaque('field:' + n)
                inv = s.contracts.clsinv.get(ty[1])
                if inv is not None and s.noinv != name: f = inv(s, f)
                return Rec(ty[1], f)
        raise Unsupported('symbolic value of type %s' % (ty,))

    def wf(s, v, st):
        """type invariants (lengths nonnegative) of a symbolic value"""
        if isinstance(v, Vec):
            st.assume(v.len >= 0)
            if isinstance(v.get.body, (Vec, Mat, Rec)): s.wf_elem(v.get, st)
        elif isinstance(v, Mat):
            st.assume(v.rows >= 0, v.cols >= 0)
        elif isinstance(v, Rec):
            for x in v.f.values(): s.wf(x, st)
    def wf_elem(s, l, st):
        t = State()
        s.wf(l.body, t)
        for c in t.pc:
            st.assume(z3.ForAll(list(l.ps), c))

    # ------------------------------------------------------------ polynomial helpers
    def seal(s, p):
        """(len, coef) of a Poly"""
        if isinstance(p, VIte):
            l1, c1 = s.seal(p.a); l2, c2 = s.seal(p.b)
            return If_(p.c, l1, l2), vmerge(p.c, c1, c2)
        if p.len is not None: return p.len, p.coef
        return s.ctx.seal(p.coef)
    def polylen(s, p): return s.seal(p)[0]
    def tcoef(s, p):
        """total coefficient function"""
        if isinstance(p, VIte): return vmerge(p.c, s.tcoef(p.a), s.tcoef(p.b))
        if p.len is None: return p.coef
        L = p.len; c = p.coef
        return lam(1, lambda k: rite(z3.And(k >= 0, k < L), c(k), R0), 'k')
    def normalized(s, st, p, what='operand'):
        """use of a polynomial where NTL requires it normalized"""
        if isinstance(p, VIte):
            return vmerge(p.c, s.normalized(s.under(st, p.c), p.a, what), s.normalized(s.under(st, Not_(p.c)), p.b, what))
        if p.len is None: return p
        if not s.quiet:
            top = p.coef(p.len - 1)
            s.oblige(st, z3.Or(p.len == 0, z3.Not(s.ctx.isz(top))), 'normalized', '%s is a normalized polynomial' % what)
        return Poly(s.tcoef(p))
    def under(s, st, c):
        t = st.copy(); t.assume(c); return t

    def copyp(s, st, p): return p
    # ------------------------------------------------------------ lvalues
    def load(s, st, x):
        if isinstance(x, LV): return s.read(st, x)
        return x
    def read(s, st, lv):
        v = st.store[lv.root]
        for p in lv.path: v = s.step(st, v, p)
        return v
    def step(s, st, v, p):
        if isinstance(v, VIte):
            return vmerge(v.c, s.step(st, v.a, p), s.step(st, v.b, p))
        k = p[0]
        if k == 'f':
            if isinstance(v, Rec) and p[1] in v.f: return v.f[p[1]]
            raise Unsupported('field %s of %s' % (p[1], type(v).__name__))
        if k == 'i':
            if isinstance(v, Vec): return s.rd(st, v.get(p[1]))
            if isinstance(v, Poly):
                L, c = s.seal(v); return s.rd(st, c(p[1]))
        if k == 'r' and isinstance(v, Mat):
            i = p[1]
            return Vec(v.cols, lam(1, lambda j: v.get(i, j)), v.et)
        if k == 'rep' and isinstance(v, Poly):
            if v.fresh: return Vec(0, v.coef, 'F', True)
            L, c = s.seal(v)
            return Vec(L, c, 'F')
        if k == 'deref': return v
        raise Unsupported('access %s on %s' % (p, type(v).__name__))
    def rd(s, st, v):
        """prune ites decided by the path condition (cheap)"""
        n = 0
        while isinstance(v, (RIte, VIte)) or (isinstance(v, z3.ExprRef) and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE):
            n += 1
            if n > 8: break
            if isinstance(v, z3.ExprRef): c, a, b = v.children()
            else: c, a, b = v.c, v.a, v.b
            if s.ctx.check(st.pc + [z3.Not(c)], 500) == z3.unsat: v = a
            elif s.ctx.check(st.pc + [c], 500) == z3.unsat: v = b
            else: break
        return v
    def prune(s, st, c, v):
        """drop branches of a conditional value excluded by c"""
        n = 0
        while isinstance(v, VIte) and n < 6:
            n += 1
            if s.ctx.check(st.pc + [c, v.c], 500) == z3.unsat: v = v.b
            elif s.ctx.check(st.pc + [c, z3.Not(v.c)], 500) == z3.unsat: v = v.a
            else: break
        return v
    def write(s, st, lv, val):
        st.store[lv.root] = s.upd(st, st.store[lv.root], lv.path, val)
    def upd(s, st, v, path, val):
        if not path: return val
        p = path[0]; rest = path[1:]
        if isinstance(v, VIte) and isinstance(v.a, Poly) and p[0] in ('rep', 'i'):
            L, c = s.seal(v); v = Poly(c, L)
        k = p[0]
        if k == 'f':
            f = dict(v.f); f[p[1]] = s.upd(st, v.f[p[1]], rest, val); return Rec(v.cls, f)
        if k == 'deref': return s.upd(st, v, rest, val)
        if k == 'rep':
            L, c = s.seal(v)
            nv = s.upd(st, Vec(L, c, 'F'), rest, val)
            return Poly(nv.get, nv.len)
        if k == 'i':
            i = p[1]
            if isinstance(v, Poly):
                L, c = s.seal(v)
                nv = s.upd(st, c(i), rest, val)
                return Poly(lam(1, lambda kk: rite(simp(kk == i), nv, c(kk)), 'k'), L)
            old = v.get(i)
            nv = s.upd(st, s.rd(st, old) if rest else old, rest, val)
            g = v.get
            return Vec(v.len, lam(1, lambda x: vmerge(simp(x == i), nv, s.prune(st, simp(x != i), g(x)))), v.et, v.fresh)
        if k == 'r':
            i = p[1]; g = v.get
            row = Vec(v.cols, lam(1, lambda j: g(i, j)), v.et)
            if rest and rest[0][0] == 'i':
                j0 = rest[0][1]
                old = g(i, j0)
                nv = s.upd(st, s.rd(st, old) if len(rest) > 1 else old, rest[1:], val)
                return Mat(v.rows, v.cols, lam(2, lambda a, b: vmerge(simp(z3.And(a == i, b == j0)), nv, s.prune(st, simp(z3.Or(a != i, b != j0)), g(a, b)))), v.et, v.fresh)
            nr = s.upd(st, row, rest, val)
            s.oblige(st, nr.len == v.cols, 'bounds', 'row assigned to a matrix has the number of columns of the matrix')
            return Mat(v.rows, v.cols, lam(2, lambda a, b: vmerge(simp(a == i), nr.get(b), g(a, b))), v.et, v.fresh)
        raise Unsupported('write %s' % (p,))

    def index(s, st, lv, i, what='index'):
        """lvalue of element i of vector-like lvalue/value, with bounds obligation"""
        v = s.load(st, lv)
        if isinstance(v, Mat):
            s.oblige(st, z3.And(i >= 0, i < v.rows), 'bounds', 'row index within the matrix')
            return s.sub(st, lv, ('r', i))
        if isinstance(v, Vec):
            s.oblige(st, z3.And(i >= 0, i < v.len), 'bounds', 'index within the vector')
            return s.sub(st, lv, ('i', i))
        if isinstance(v, Poly) or (isinstance(v, VIte) and isinstance(v.a, Poly)):
            L, c = s.seal(v)
            s.oblige(st, z3.And(i >= 0, i < L), 'bounds', 'coefficient index within the stored coefficients')
            return s.sub(st, lv, ('i', i))
        if isinstance(v, Ptr):
            if v.base is None: raise Unsupported('null pointer access')
            j = simp(v.off + i)
            bv = s.load(st, v.base)
            L = bv.len if isinstance(bv, Vec) else s.polylen(bv)
            s.oblige(st, z3.And(j >= 0, j < L), 'bounds', 'pointer access within the array')
            return v.base.ext(('i', j))
        raise Unsupported('indexing %s' % type(v).__name__)
    def sub(s, st, lv, p):
        if isinstance(lv, LV): return lv.ext(p)
        return s.step(st, lv, p)
    def aslv(s, st, x):
        if isinstance(x, LV): return x
        return s.newobj(st, x, 'tmp')

    # ------------------------------------------------------------ merging
    def merge_states(s, base_n, sts, vals=None):
        """merge states sharing the first base_n path conditions. returns (state, value)"""
        sts2 = []; v2 = []
        for i, t in enumerate(sts):
            if t.dead(): continue
            sts2.append(t); v2.append(vals[i] if vals else None)
        if not sts2: return None, None
        if len(sts2) == 1: return sts2[0], v2[0]
        deltas = [And_(*t.pc[base_n:]) for t in sts2]
        acc = sts2[-1].copy(); av = v2[-1]
        for t, d, v in list(zip(sts2, deltas, v2))[-2::-1]:
            store = {}
            for o, x in acc.store.items():
                if o in t.store:
                    y = t.store[o]
                    store[o] = y if y is x else vmerge(d, y, x)
                else: store[o] = x
            for o, y in t.store.items():
                if o not in store: store[o] = y
            if vals is not None:
                if v is not av: av = vmerge(d, v, av)
            env = dict(acc.env); env.update(t.env)
            acc = State(acc.pc, store, env, t.this)
        acc.pc = list(sts2[0].pc[:base_n])
        o = simp(Or_(*deltas))
        if not z3.is_true(o): acc.pc.append(o)
        return acc, av

    # ------------------------------------------------------------ statements
    # results: list of (kind, state, value); kinds: norm ret brk cont err
    def block(s, st, stmts):
        cur = [st]; out = []
        for n in stmts:
            nxt = []
            for t in cur:
                if t.dead(): continue
                for r in s.stmt(t, n):
                    if r[0] == 'norm': nxt.append(r[1])
                    else: out.append(r)
            cur = nxt
            if len(cur) > 1 and (s.depth > 0 or len(cur) > 24):
                base = min(len(t.pc) for t in cur)
                bn = 0
                while bn < base and all(cur[0].pc[bn] is t.pc[bn] or cur[0].pc[bn].eq(t.pc[bn]) for t in cur): bn += 1
                try:
                    m, _ = s.merge_states(bn, cur)
                    cur = [m] if m is not None else []
                except MergeError: pass
            if not cur: break
        return out + [('norm', t, None) for t in cur]

    def stmt(s, st, n):
        k = n['kind']
        if k == 'CompoundStmt': return s.block(st, n.get('inner', []))
        if k == 'NullStmt': return [('norm', st, None)]
        if k == 'DeclStmt':
            for d in n.get('inner', []): s.decl(st, d)
            return s.after(st)
        if k == 'ReturnStmt':
            if n.get('inner'):
                v = s.ev(st, n['inner'][0])
                if not getattr(s, 'ret_ref', False): v = s.load(st, v)
                return [('ret', st, v)]
            return [('ret', st, VOID)]
        if k == 'IfStmt': return s.if_(st, n)
        if k == 'ForStmt':
            init, _, cond, inc, body = n['inner']
            if init: 
                if init.get('kind') == 'DeclStmt':
                    for d in init['inner']: s.decl(st, d)
                else: s.ev(st, init)
            return s.loop(st, cond if cond.get('kind') else None, body, inc if inc.get('kind') else None)
        if k == 'WhileStmt':
            c, b = n['inner'][-2], n['inner'][-1]
            return s.loop(st, c, b, None)
        if k == 'DoStmt':
            b, c = n['inner']
            return s.loop(st, c, b, None, post=True)
        if k == 'CXXForRangeStmt': return s.forrange(st, n)
        if k == 'BreakStmt': return [('brk', st, None)]
        if k == 'ContinueStmt': return [('cont', st, None)]
        if k == 'SwitchStmt': return s.switch(st, n)
        if k in ('CXXThrowExpr',): return [('err', st, None)]
        if k == 'CXXTryStmt': raise Unsupported('try')
        e = strip(n)
        if e.get('kind') == 'CXXThrowExpr': return [('err', st, None)]
        s.ev(st, n)
        return s.after(st)

    def after(s, st):
        if getattr(st, 'pc', None) is not None and st.dead(): return [('err', st, None)]
        return [('norm', st, None)]

    def decl(s, st, d):
        s.nodes.append([d.get('id'), 0])
        try: return s.decl_(st, d)
        finally: s.nodes.pop()
    def decl_(s, st, d):
        k = d['kind']
        if k in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'UsingDirectiveDecl', 'StaticAssertDecl', 'EmptyDecl'): return
        if k != 'VarDecl': raise Unsupported('declaration %s' % k)
        ty = parse_type(qt(d))
        if ty[0] == 'other' and 'desugaredQualType' in d['type']: ty = parse_type(d['type']['desugaredQualType'])
        init = [x for x in d.get('inner', []) if x.get('kind') and not x['kind'].endswith('Attr') and not x['kind'].endswith('Comment')]
        if d.get('storageClass') == 'static' or d.get('tls'):
            # scratch storage kept across calls: contents arbitrary
            st.env[d['id']] = s.newobj(st, s.static_value(st, ty, d), d['name'])
            return
        if ty[0] == 'ref':
            v = s.ev(st, init[0])
            st.env[d['id']] = s.aslv(st, v)
            return
        if not init:
            dv = s.default(ty)
            if isinstance(dv, Poly): dv = Poly(dv.coef, None, True)
            st.env[d['id']] = s.newobj(st, dv, d['name']); return
        v = s.ev(st, init[0])
        v = s.load(st, v)
        v = s.convert(st, v, ty)
        st.env[d['id']] = s.newobj(st, v, d['name'])

    def static_value(s, st, ty, d):
        v = s.symbolic(ty, s.det_name('static_' + d['name']), tuple(s.loopstack))
        s.wf(v, st)
        return v

    def convert(s, st, v, ty):
        if ty == 'F' and isinstance(v, z3.ExprRef) and v.sort() == IS: return s.int2ring(v)
        if ty == 'B' and isinstance(v, z3.ExprRef) and v.sort() == IS: return v != 0
        if ty in ('Z', 'U') and isinstance(v, z3.ExprRef) and z3.is_bool(v): return If_(v, z3.IntVal(1), z3.IntVal(0))
        if ty == 'P' and isinstance(v, z3.ExprRef): return s.constpoly(s.int2ring(v))
        if ty == 'P' and isinstance(v, RT): return s.constpoly(v)
        return v
    def int2ring(s, v):
        v = simp(v)
        if z3.is_int_value(v): return RC(v.as_long())
        return RF('int', (), (v,))
    def constpoly(s, r):
        return Poly(lam(1, lambda k: rite(k == 0, r, R0), 'k'))

    def if_(s, st, n):
        inner = n['inner']
        if n.get('hasInit') or n.get('hasVar'): raise Unsupported('if with init')
        cond = inner[0]; th = inner[1]; el = inner[2] if len(inner) > 2 else None
        c = s.cond(st, cond)
        c = simp(c)
        if st.dead(): return [('err', st, None)]
        if z3.is_true(c): return s.stmt(st, th)
        if z3.is_false(c): return s.stmt(st, el) if el else [('norm', st, None)]
        bn = len(st.pc)
        a = st.copy(); a.assume(c)
        b = st.copy(); b.assume(Not_(c))
        if not s.quiet or True:
            if s.ctx.check(st.pc + [c], 400) == z3.unsat:
                return s.stmt(b, el) if el else [('norm', b, None)]
            if s.ctx.check(st.pc + [Not_(c)], 400) == z3.unsat:
                return s.stmt(a, th)
        ra = s.scoped(a, th); rb = s.scoped(b, el) if el else [('norm', b, None)]
        res = [r for r in ra + rb if r[0] != 'norm']
        nm = [r[1] for r in ra + rb if r[0] == 'norm']
        if len(nm) > 1 and s.depth > 0:
            try:
                m, _ = s.merge_states(bn, nm)
                return res + ([('norm', m, None)] if m is not None else [])
            except MergeError: pass
        return res + [('norm', t, None) for t in nm]

    def scoped(s, st, n): return s.stmt(st, n)

    def switch(s, st, n):
        v = s.load(st, s.ev(st, n['inner'][0]))
        body = n['inner'][-1]
        items = []   # flatten: list of ('case',val)|('default',)|('stmt',n)
        def flat(x):
            if x['kind'] == 'CaseStmt':
                items.append(('case', x['inner'][0])); flat(x['inner'][-1])
            elif x['kind'] == 'DefaultStmt':
                items.append(('default',)); flat(x['inner'][-1])
            else: items.append(('stmt', x))
        for x in body.get('inner', []): flat(x)
        res = []; conds = []
        entries = []
        for i, it in enumerate(items):
            if it[0] == 'case':
                cv = s.load(st, s.ev(st, it[1])); c = simp(v == cv); conds.append(c); entries.append((i, c))
        for i, it in enumerate(items):
            if it[0] == 'default': entries.append((i, simp(And_(*[Not_(c) for c in conds]))))
        if not any(it[0] == 'default' for it in items): entries.append((len(items), simp(And_(*[Not_(c) for c in conds]))))
        for i, c in entries:
            if z3.is_false(c): continue
            t = st.copy(); t.assume(c)
            if s.ctx.check(t.pc, 400) == z3.unsat: continue
            stm = [it[1] for it in items[i:] if it[0] == 'stmt']
            for r in s.block(t, stm):
                if r[0] == 'brk': res.append(('norm', r[1], None))
                else: res.append(r)
        return res

    # ------------------------------------------------------------ expressions
    def cond(s, st, n):
        v = s.load(st, s.ev(st, n))
        if isinstance(v, z3.ExprRef):
            if z3.is_bool(v): return v
            return v != 0
        if isinstance(v, Ptr): return FALSE if v.base is None else TRUE
        raise Unsupported('condition of type %s' % type(v).__name__)

    def ev(s, st, n):
        n = strip(n)
        k = n['kind']
        m = getattr(s, 'x_' + k, None)
        if m is None: raise Unsupported('expression %s' % k)
        s.nodes.append([n.get('id'), 0])
        try: return m(st, n)
        finally: s.nodes.pop()

    def det_name(s, p):
        """name of an unknown value: inside a loop it is determined by the program point (call path included), so that
        re-executing the loop body in the invariant check refers to the same unknown function of the iteration counters"""
        if not s.loopstack or not s.nodes: return fresh_name(p)
        top = s.nodes[-1]; top[1] += 1
        key = (p, len(s.loopstack), tuple(x[0] for x in s.nodes), top[1])
        if key not in s.detnames: s.detnames[key] = fresh_name(p)
        return s.detnames[key]

    def x_IntegerLiteral(s, st, n): return z3.IntVal(int(n['value']))
    def x_CXXBoolLiteralExpr(s, st, n): return z3.BoolVal(bool(n['value']))
    def x_CharacterLiteral(s, st, n): return z3.IntVal(int(n['value']))
    def x_FloatingLiteral(s, st, n): return Opaque('double')
    def x_StringLiteral(s, st, n): return Opaque('string', n.get('value'))
    def x_CXXNullPtrLiteralExpr(s, st, n): return Ptr(None, 0)
    def x_GNUNullExpr(s, st, n): return Ptr(None, 0)
    def x_CXXThisExpr(s, st, n): return Opaque('this', st.this)
    def x_UnaryExprOrTypeTraitExpr(s, st, n): return s.fresh_int('sizeof')
    def x_CXXScalarValueInitExpr(s, st, n): return s.zero(parse_type(qt(n)))
    def x_ImplicitValueInitExpr(s, st, n): return s.zero(parse_type(qt(n)))
    def x_LambdaExpr(s, st, n): return Opaque('lambda', LambdaVal(n, dict(st.env), st.this))
    def zero(s, ty):
        if ty in ('Z', 'U'): return z3.IntVal(0)
        if ty == 'B': return FALSE
        return s.default(ty)

    def x_DeclRefExpr(s, st, n):
        r = n['referencedDecl']
        i = r['id']
        if i in st.env: return st.env[i]
        if r['kind'] == 'EnumConstantDecl':
            if r['name'] in s.prog.enums: return z3.IntVal(s.prog.enums[r['name']])
            return Opaque('enum', r['name'])
        if r['kind'] in ('FunctionDecl', 'CXXMethodDecl'): return Opaque('func', r)
        if r['kind'] == 'VarDecl':
            if r['name'] in s.globals: return s.globals[r['name']]
            g = s.prog.globals.get(r['name'])
            if g is not None and g.get('inner'):
                ty = parse_type(qt(g))
                if ty in ('Z', 'U', 'B'):
                    init = [x for x in g['inner'] if x.get('kind')]
                    return s.load(st, s.ev(st, init[0]))
            if parse_type(r['type']['qualType']) in ('Z', 'U'):
                # global tuning variable: arbitrary value
                return s.ctx.zapp('global_' + r['name'], [])
            return Opaque('global', r['name'])
        raise Unsupported('reference to %s %s' % (r['kind'], r.get('name')))

    def x_ImplicitCastExpr(s, st, n):
        ck = n.get('castKind')
        v = s.ev(st, n['inner'][0])
        if ck == 'LValueToRValue': return s.load(st, v)
        if ck in ('NoOp', 'FunctionToPointerDecay', 'UncheckedDerivedToBase', 'DerivedToBase', 'UserDefinedConversion', 'ConstructorConversion', 'ArrayToPointerDecay', 'BitCast'):
            if ck == 'ArrayToPointerDecay' and isinstance(v, LV):
                if isinstance(s.load(st, v), Vec): return Ptr(v, 0)
            return v
        if ck == 'IntegralCast':
            v = s.load(st, v)
            if isinstance(v, z3.ExprRef) and z3.is_bool(v): v = If_(v, z3.IntVal(1), z3.IntVal(0))
            to = parse_type(qt(n)); fr = parse_type(qt(n['inner'][0]))
            if to == 'U' and fr == 'Z' and isinstance(v, z3.ExprRef) and not z3.is_int_value(v):
                s.oblige(st, v >= 0, 'conversion', 'nonnegative value converted to an unsigned type')
            return v
        if ck == 'IntegralToBoolean':
            v = s.load(st, v)
            return v if z3.is_bool(v) else v != 0
        if ck in ('PointerToBoolean',):
            v = s.load(st, v)
            return s.cond_ptr(v)
        if ck in ('IntegralToFloating', 'FloatingToIntegral', 'FloatingCast'):
            v = s.load(st, v)
            if ck == 'FloatingToIntegral': return s.fresh_int('dbl')
            return Opaque('double')
        if ck == 'NullToPointer': return Ptr(None, 0)
        if ck == 'ToVoid': return VOID
        raise Unsupported('cast %s' % ck)
    def cond_ptr(s, v):
        if isinstance(v, Ptr): return FALSE if v.base is None else TRUE
        raise Unsupported('pointer condition')
    x_CStyleCastExpr = x_ImplicitCastExpr
    x_CXXStaticCastExpr = x_ImplicitCastExpr
    x_CXXConstCastExpr = x_ImplicitCastExpr
    def x_CXXFunctionalCastExpr(s, st, n):
        ck = n.get('castKind')
        if ck in ('ConstructorConversion',): return s.ev(st, n['inner'][0])
        return s.x_ImplicitCastExpr(st, n)

    def x_ParenListExpr(s, st, n): return s.ev(st, n['inner'][-1])

    def x_ConditionalOperator(s, st, n):
        c = simp(s.cond(st, n['inner'][0]))
        if z3.is_true(c): return s.ev(st, n['inner'][1])
        if z3.is_false(c): return s.ev(st, n['inner'][2])
        if s.ctx.check(st.pc + [Not_(c)], 400) == z3.unsat: return s.ev(st, n['inner'][1])
        if s.ctx.check(st.pc + [c], 400) == z3.unsat: return s.ev(st, n['inner'][2])
        bn = len(st.pc)
        a = st.copy(); a.assume(c); va = s.load(a, s.ev(a, n['inner'][1]))
        b = st.copy(); b.assume(Not_(c)); vb = s.load(b, s.ev(b, n['inner'][2]))
        m, v = s.merge_states(bn, [a, b], [va, vb])
        if m is None: st.pc.append(FALSE); return va
        s.become(st, m)
        return v
    def become(s, st, m):
        st.pc = m.pc; st.store = m.store; st.env = m.env

    def x_BinaryOperator(s, st, n):
        op = n['opcode']; L, R = n['inner']
        if op == ',':
            s.ev(st, L); return s.ev(st, R)
        if op == '=':
            v = s.load(st, s.ev(st, R)); lv = s.ev(st, L)
            s.assign(st, lv, v, parse_type(qt(L)))
            return lv
        if op in ('&&', '||'):
            a = simp(s.cond(st, L))
            if op == '&&' and z3.is_false(a): return FALSE
            if op == '||' and z3.is_true(a): return TRUE
            g = a if op == '&&' else Not_(a)
            if z3.is_true(g): return s.cond(st, R)
            bn = len(st.pc)
            t = st.copy(); t.assume(g)
            if s.ctx.check(t.pc, 400) == z3.unsat: return FALSE if op == '&&' else TRUE
            b = s.cond(t, R)
            if any(t.store.get(o) is not v for o, v in st.store.items()):
                u = st.copy(); u.assume(Not_(g))
                m, _ = s.merge_states(bn, [t, u])
                s.become(st, m)
            else:
                for o, v in t.store.items(): st.store.setdefault(o, v)
                # facts learnt while evaluating the right operand hold under g
                ex = t.pc[bn + 1:]
                if ex: st.assume(z3.Implies(g, And_(*ex)))
            return simp(z3.And(a, b) if op == '&&' else z3.Or(a, b))
        a = s.load(st, s.ev(st, L)); b = s.load(st, s.ev(st, R))
        return s.binop(st, op, a, b, n)

    def binop(s, st, op, a, b, n):
        if isinstance(a, Ptr) or isinstance(b, Ptr): return s.ptrop(st, op, a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if isinstance(a, Opaque) and isinstance(b, Opaque) and a.tag == 'addr' and b.tag == 'addr' and op in ('==', '!='):
                e = s.addr_eq(st, a.data, b.data)
                return e if op == '==' else Not_(e)
            if isinstance(a, Opaque) and isinstance(b, Opaque) and {a.tag, b.tag} <= {'addr', 'this'} and op in ('==', '!='):
                e = s.addr_eq(st, a.data, b.data)
                return e if op == '==' else Not_(e)
            if (isinstance(a, Opaque) and a.tag == 'double') or (isinstance(b, Opaque) and b.tag == 'double'):
                if op in ('<', '>', '<=', '>=', '==', '!='): return s.fresh_int('dblcmp') == 0
                return Opaque('double')
            raise Unsupported('operator %s on opaque value' % op)
        if isinstance(a, VIte) or isinstance(b, VIte): raise Unsupported('operator on conditional aggregate')
        if isinstance(a, RT) or isinstance(b, RT):
            if isinstance(a, z3.ExprRef): a = s.int2ring(a)
            if isinstance(b, z3.ExprRef): b = s.int2ring(b)
            if op == '==': return s.ctx.req(a, b)
            if op == '!=': return Not_(s.ctx.req(a, b))
            if getattr(s, 'unred', False) and op in ('+', '-', '*'): return a + b if op == '+' else a - b if op == '-' else a * b
            raise Unsupported('machine arithmetic %s on residues' % op)
        if z3.is_bool(a) and z3.is_bool(b) and op in ('==', '!=', '&', '|', '^'):
            if op == '==': return a == b
            if op == '!=': return a != b
            if op == '&': return z3.And(a, b)
            if op == '|': return z3.Or(a, b)
            return z3.Xor(a, b)
        if z3.is_bool(a): a = If_(a, z3.IntVal(1), z3.IntVal(0))
        if z3.is_bool(b): b = If_(b, z3.IntVal(1), z3.IntVal(0))
        uns = n is not None and parse_type(qt(n)) == 'U'
        if op == '+': return simp(a + b)
        if op == '-':
            if uns: s.oblige(st, a >= b, 'arithmetic', 'unsigned subtraction does not wrap')
            return simp(a - b)
        if op == '*': return simp(a * b)
        if op in ('/', '%'):
            s.oblige(st, b != 0, 'arithmetic', 'divisor is nonzero')
            return s.divmod(st, op, a, b)
        if op == '<': return a < b
        if op == '<=': return a <= b
        if op == '>': return a > b
        if op == '>=': return a >= b
        if op == '==': return a == b
        if op == '!=': return a != b
        if op == '<<':
            bb = simp(b); aa = simp(a)
            if z3.is_int_value(bb): return simp(a * (1 << bb.as_long()))
            return simp(a * s.pow2(st, b))
        if op == '>>':
            bb = simp(b)
            if z3.is_int_value(bb): return simp(a / z3.IntVal(1 << bb.as_long()))
            return a / s.pow2(st, b)
        if op == '&':
            bb = simp(b)
            if z3.is_int_value(bb) and (bb.as_long() & (bb.as_long() + 1)) == 0 and bb.as_long() > 0:
                return a % z3.IntVal(bb.as_long() + 1)
        raise Unsupported('operator %s' % op)

    def pow2(s, st, b):
        bb = simp(b)
        if z3.is_int_value(bb) and bb.as_long() >= 0: return z3.IntVal(1 << bb.as_long())
        if 'pow2' not in s.ctx.axioms:
            x = z3.Int('x!p2')
            f = s.ctx.zf('pow2', 1)
            s.ctx.axiom('pow2', z3.ForAll([x], z3.And(f(x) >= 1), patterns=[f(x)]))
        e = s.ctx.zapp('pow2', [b])
        return e

    def divmod(s, st, op, a, b):
        bb = simp(b)
        if z3.is_int_value(bb) and bb.as_long() > 0:
            if s.ctx.check(st.pc + [a < 0], 400) == z3.unsat:
                return simp(a / b) if op == '/' else simp(a % b)
            if op == '/': return If_(a >= 0, a / b, -((-a) / b))
            return If_(a >= 0, a % b, -((-a) % b))
        ap = s.ctx.check(st.pc + [a < 0], 400) == z3.unsat
        bp = s.ctx.check(st.pc + [b <= 0], 400) == z3.unsat
        if ap and bp: return simp(a / b) if op == '/' else simp(modred(a, bb) % b)
        raise Unsupported('division with operands of unknown sign')

    def ptrop(s, st, op, a, b):
        if isinstance(a, Opaque) or isinstance(b, Opaque): return s.addr_cmp(op, a, b)
        if isinstance(a, Ptr) and isinstance(b, z3.ExprRef):
            if op == '+': return Ptr(a.base, simp(a.off + b))
            if op == '-': return Ptr(a.base, simp(a.off - b))
        if isinstance(b, Ptr) and isinstance(a, z3.ExprRef) and op == '+': return Ptr(b.base, simp(b.off + a))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if op in ('==', '!='):
                if a.base is None or b.base is None: e = TRUE if (a.base is None and b.base is None) else FALSE
                elif a.base.root != b.base.root: e = FALSE
                elif a.base.same(b.base): e = simp(a.off == b.off)
                else: raise Unsupported('pointer comparison')
                return e if op == '==' else Not_(e)
            if a.base is not None and b.base is not None and a.base.same(b.base):
                if op == '-': return simp(a.off - b.off)
                if op == '<': return a.off < b.off
                if op == '<=': return a.off <= b.off
                if op == '>': return a.off > b.off
                if op == '>=': return a.off >= b.off
        raise Unsupported('pointer operator %s' % op)
    def addr_cmp(s, op, a, b):
        raise Unsupported('address comparison')
    def addr_eq(s, st, a, b):
        if a.root != b.root: return FALSE
        if len(a.path) != len(b.path): return FALSE
        cs = []
        for p, q in zip(a.path, b.path):
            if p[0] != q[0]: return FALSE
            if p[0] in ('i', 'r'): cs.append(p[1] == q[1])
            elif p[1:] != q[1:]: return FALSE
        return simp(And_(*cs))

    def x_CompoundAssignOperator(s, st, n):
        op = n['opcode'][:-1]; L, R = n['inner']
        b = s.load(st, s.ev(st, R)); lv = s.ev(st, L)
        a = s.load(st, lv)
        v = s.binop(st, op, a, b, n)
        s.assign(st, lv, v, parse_type(qt(L)))
        return lv

    def assign(s, st, lv, v, ty=None):
        if not isinstance(lv, LV): raise Unsupported('assignment to a temporary')
        if ty == 'F' and isinstance(v, z3.ExprRef): v = s.int2ring(v)
        if ty in ('Z', 'U') and isinstance(v, z3.ExprRef) and z3.is_bool(v): v = If_(v, z3.IntVal(1), z3.IntVal(0))
        if ty == 'B' and isinstance(v, z3.ExprRef) and not z3.is_bool(v): v = v != 0
        s.write(st, lv, v)

    def x_UnaryOperator(s, st, n):
        op = n['opcode']; sub = n['inner'][0]
        if op == '&':
            v = s.ev(st, sub)
            if isinstance(v, LV):
                # pointer to element of a vector, or address of an object
                if v.path and v.path[-1][0] == 'i':
                    return Ptr(LV(v.root, v.path[:-1]), v.path[-1][1])
                return Opaque('addr', v)
            raise Unsupported('address of temporary')
        if op == '*':
            v = s.load(st, s.ev(st, sub))
            if isinstance(v, Ptr): return s.index(st, v, z3.IntVal(0))
            if isinstance(v, Opaque) and v.tag in ('this', 'addr'): return v.data
            if isinstance(v, Opaque) and v.tag == 'iter':
                return s.index(st, v.data[0], v.data[1])
            raise Unsupported('dereference of %r' % (v,))
        if op in ('++', '--'):
            lv = s.ev(st, sub); v = s.load(st, lv)
            if isinstance(v, Ptr): nv = Ptr(v.base, simp(v.off + (1 if op == '++' else -1)))
            elif isinstance(v, z3.ExprRef): 
                nv = simp(v + 1) if op == '++' else simp(v - 1)
                if op == '--' and parse_type(qt(sub)) == 'U': s.oblige(st, v >= 1, 'arithmetic', 'unsigned decrement does not wrap')
            else: raise Unsupported('++ on %s' % type(v).__name__)
            s.write(st, lv, nv)
            return v if n.get('isPostfix') else lv
        v = s.load(st, s.ev(st, sub))
        if op == '-':
            if isinstance(v, RT): return -v
            if isinstance(v, Opaque): return v
            return simp(-v)
        if op == '+': return v
        if op == '!':
            if isinstance(v, Ptr): return TRUE if v.base is None else FALSE
            if not z3.is_bool(v): v = v != 0
            return Not_(v)
        raise Unsupported('unary %s' % op)

    def x_ArraySubscriptExpr(s, st, n):
        b = s.load(st, s.ev(st, n['inner'][0])); i = s.load(st, s.ev(st, n['inner'][1]))
        if isinstance(b, Ptr): return s.index(st, b, i)
        if isinstance(b, Opaque) and b.tag == 'global' and isinstance(i, z3.ExprRef) and parse_type(qt(n)) == 'Z':
            s.bi.used.add('global table %s: fixed unknown nonnegative values' % b.data)
            r = s.ctx.zapp('g_' + b.data, [i]); st.assume(r >= 0); return r
        if isinstance(b, Opaque) and b.tag == 'addr':
            if z3.is_int_value(simp(i)) and simp(i).as_long() == 0: return b.data
        raise Unsupported('array subscript on %s' % type(b).__name__)

    def x_MemberExpr(s, st, n):
        b = s.ev(st, n['inner'][0])
        if n.get('isArrow'):
            b2 = s.load(st, b)
            if isinstance(b2, Opaque) and b2.tag == 'global' and parse_type(qt(n)) == 'Z':
                s.bi.used.add('global %s->%s: fixed unknown value' % (b2.data, n['name']))
                return s.ctx.zapp('g_%s.%s' % (b2.data, n['name']), [])
            b = s.deref_obj(st, b)
        nm = n['name']
        return s.member(st, b, nm)
    def deref_obj(s, st, b):
        b2 = s.load(st, b)
        if isinstance(b2, Opaque) and b2.tag in ('this', 'addr'): return b2.data
        if isinstance(b2, Ptr): return s.index(st, b2, z3.IntVal(0))
        if isinstance(b2, (Rec, VIte)): return b
        if isinstance(b2, Opaque) and b2.tag == 'uptr': return b2.data
        raise Unsupported('-> on %s' % type(b2).__name__)
    def member(s, st, b, nm):
        v = s.load(st, b)
        if isinstance(v, Poly) or (isinstance(v, VIte) and isinstance(v.a, Poly)):
            if nm == 'rep': return s.sub(st, b, ('rep',))
        if isinstance(v, RT) and nm in ('_zz_p__rep',): return b
        if isinstance(v, Rec): return s.sub(st, b, ('f', nm))
        raise Unsupported('member %s of %s' % (nm, type(v).__name__))

    def x_InitListExpr(s, st, n):
        ty = parse_type(qt(n))
        vs = [s.load(st, s.ev(st, x)) for x in n.get('inner', [])]
        if isinstance(ty, str) and len(vs) == 1: return s.convert(st, vs[0], ty)
        if isinstance(ty, str) and not vs: return s.zero(ty)
        return Opaque('initlist', vs)
    def x_CXXStdInitializerListExpr(s, st, n): return s.ev(st, n['inner'][0])

    # ------------------------------------------------------------ calls
    def x_CXXConstructExpr(s, st, n):
        ty = parse_type(qt(n))
        if 'desugaredQualType' in n['type'] and ty[0] == 'other' or (ty[0] == 'rec' and ty[1] not in s.prog.classes and 'desugaredQualType' in n['type']):
            ty = parse_type(n['type']['desugaredQualType'])
        args = [x for x in n.get('inner', [])]
        return s.construct(st, ty, args, n)
    x_CXXTemporaryObjectExpr = x_CXXConstructExpr

    def construct(s, st, ty, argn, n):
        argn = [a for a in argn if not (a.get('kind') == 'CXXDefaultArgExpr' and not a.get('inner'))]
        if ty[0] == 'rec' and ty[1] in s.prog.classes and ty[1] not in s.bi.special_types:
            ctype = norm_type(n['ctorType']['qualType']) if 'ctorType' in n else None
            if len(argn) == 1 and ctype and ('const %s &' % ty[1] in ctype or '%s &&' % ty[1] in ctype):
                return s.load(st, s.ev(st, argn[0]))
            f = s.prog.funcs.get('%s::%s|%s' % (ty[1], ty[1], ctype))
            if f is None:
                if not argn: return s.default(ty)
                a2 = [s.ev(st, a) for a in argn]; c2 = s.extern_method(st, ty[1], ty[1], a2)
                if c2 is not None:
                    obj = s.newobj(st, s.default(ty), 'obj'); s.apply_contract(st, c2, a2, obj, None); return s.read(st, obj)
                raise Unsupported('constructor %s %s' % (ty[1], ctype))
            obj = s.newobj(st, s.default(ty), 'obj')
            s.call_pml(st, f, [s.ev(st, a) for a in argn], this=obj)
            return s.read(st, obj)
        args = [s.ev(st, a) for a in argn]
        return s.bi.construct(s, st, ty, args, n)

    def x_CXXOperatorCallExpr(s, st, n):
        callee = strip(n['inner'][0])
        while callee.get('kind') == 'ImplicitCastExpr': callee = strip(callee['inner'][0])
        r = callee['referencedDecl']
        args = n['inner'][1:]
        return s.call_named(st, r['name'], norm_type(r['type']['qualType']), args, n, r)

    def x_CallExpr(s, st, n):
        c = n['inner'][0]
        c = strip(c)
        while c.get('kind') == 'ImplicitCastExpr': c = strip(c['inner'][0])
        if c['kind'] == 'DeclRefExpr':
            r = c['referencedDecl']
            return s.call_named(st, r['name'], norm_type(r['type']['qualType']), n['inner'][1:], n, r)
        if c['kind'] == 'MemberExpr':
            return s.call_member(st, c, n['inner'][1:], n)
        raise Unsupported('call through %s' % c['kind'])

    def x_CXXMemberCallExpr(s, st, n):
        c = strip(n['inner'][0])
        while c.get('kind') == 'ImplicitCastExpr': c = strip(c['inner'][0])
        if c['kind'] == 'MemberExpr': return s.call_member(st, c, n['inner'][1:], n)
        raise Unsupported('member call through %s' % c['kind'])

    def call_member(s, st, c, argn, n):
        b = s.ev(st, c['inner'][0])
        if c.get('isArrow'): b = s.deref_obj(st, b)
        nm = c['name']
        v = s.load(st, b)
        cls = None
        if isinstance(v, Rec) and v.cls in s.prog.classes:
            cls = v.cls
            args = s.evargs(st, argn)
            return s.call_method(st, cls, nm, b, args, c, n, argn)
        args = s.evargs(st, argn)
        return s.bi.method(s, st, b, v, nm, args, n)

    def evargs(s, st, argn):
        out = []
        for a in argn:
            out.append(s.ev(st, a))
        return out

    def call_method(s, st, cls, nm, obj, args, c, n, argn):
        # candidates by number of parameters and argument types
        seen = []
        k = cls
        while k:
            fs = [f for f in s.prog.byname.get(k + '::' + nm, []) if len(f.params) == len(args)]
            if fs: seen = fs; break
            bs = s.prog.classes[k].bases if k in s.prog.classes else []
            k = bs[0] if bs else None
        c2 = s.extern_method(st, cls, nm, args) if not seen else None
        if c2 is not None:
            if not isinstance(obj, LV): obj = s.newobj(st, obj, 'tmp')
            return s.apply_contract(st, c2, args, obj, None)
        if not seen:
            bm = s.bi.class_method(s, st, cls, nm, obj, args, n)
            if bm is not None: return bm[0]
            raise Unsupported('method %s::%s without visible definition' % (cls, nm))
        f = s.pick(st, seen, args, argn)
        if not isinstance(obj, LV): obj = s.newobj(st, obj, 'tmp')
        return s.call_pml(st, f, args, this=obj, dyn=cls)

    def kindof(s, st, v):
        v = s.load(st, v)
        if isinstance(v, RT): return 'F'
        if isinstance(v, Poly): return 'P'
        if isinstance(v, VIte): return s.kindof(st, v.a)
        if isinstance(v, Vec): return ('vec', v.et)
        if isinstance(v, Mat): return ('mat', v.et)
        if isinstance(v, Rec): return ('rec', v.cls)
        if isinstance(v, z3.ExprRef): return 'B' if z3.is_bool(v) else 'Z'
        return None

    def extern_method(s, st, cls, nm, args):
        """contract of a method whose body is in another translation unit"""
        k = cls
        while k:
            cs = [c for c in s.contracts.all if c.cls == k and c.name == nm and len(c.types) == len(args) and c.key not in s.contracts.disabled
                  and all(s.kindof(st, a) == t for a, t in zip(args, c.key[2]))]
            if len(cs) == 1: return cs[0]
            bs = s.prog.classes[k].bases if k in s.prog.classes else []
            k = bs[0] if bs else None
        return None

    def pick(s, st, fs, args, argn):
        if len(fs) == 1: return fs[0]
        kindof = lambda v: s.kindof(st, v)
        best = []
        for f in fs:
            ok = True
            for p, a in zip(f.params, args):
                t = parse_type(qt(p))
                if t[0] == 'ref': t = t[1]
                ka = kindof(a)
                if t == 'U': t = 'Z'
                if ka == 'B' and t == 'Z': continue
                if t[0] == 'vec' and ka and ka[0] == 'vec':
                    if t[1] == 'U' and ka[1] == 'Z': continue
                if ka != t and not (t[0] == 'ptr'): ok = False
            if ok: best.append(f)
        if len(best) > 1:
            b2 = [f for f in best if f.const == False]
            if len(b2) >= 1: return b2[0]
        if len(best) >= 1: return best[0]
        raise Unsupported('overload resolution of %s' % fs[0].name)

    def call_named(s, st, name, typ, argn, n, r=None):
        # user functions of the library first (unless NTL provides the same signature)
        f = s.prog.funcs.get(name + '|' + typ)
        if f is None:
            # operator() etc. on library classes
            if name.startswith('operator') and argn:
                if name == 'operator=':
                    return s.bi.op_assign(s, st, argn, n)
                a0 = s.ev(st, argn[0]); v0 = s.load(st, a0)
                if isinstance(v0, Opaque) and v0.tag == 'lambda':
                    return s.call_lambda(st, v0.data, s.evargs(st, argn[1:]))
                if isinstance(v0, Rec) and v0.cls in s.prog.classes and s.prog.byname.get(v0.cls + '::' + name):
                    args = s.evargs(st, argn[1:])
                    return s.call_method(st, v0.cls, name, a0, args, None, n, argn[1:])
                args = [a0] + s.evargs(st, argn[1:])
                return s.bi.call(s, st, name, typ, args, n)
            args = s.evargs(st, argn)
            f2 = s.contract_extern(name, typ)
            if f2 is not None: return s.apply_contract(st, f2, args, None, None, (name, typ))
            return s.bi.call(s, st, name, typ, args, n)
        args = s.evargs(st, argn)
        return s.call_pml(st, f, args)

    def contract_extern(s, name, typ):
        """contract of a library function whose body is in another translation unit"""
        c = s.contracts.find(None, name, typ)
        return c

    def call_lambda(s, st, lv, args):
        raise Unsupported('lambda call')

    def call_pml(s, st, f, args, this=None, dyn=None):
        c = s.contracts.find(dyn, f.name, f.type) if dyn and dyn != f.cls else None
        if c is None: c = s.contracts.find(f.cls, f.name, f.type)
        if c is not None and c is not s.contracts.verifying_nocontract:
            return s.apply_contract(st, c, args, this, f)
        if any(g is f for g in s.callstack): raise Unsupported('recursion without contract: %s' % f.key)
        if len(s.callstack) > 12: raise Unsupported('inlining depth')
        if s.bi.prefers(f):  # library function whose body is outside reach but modelled as trusted primitive
            return s.bi.call(s, st, f.name, f.type, args, None)
        return s.inline(st, f, args, this)

    def bind(s, st, f, args, this):
        env = {}
        t = State(st.pc, st.store, env, this)
        for i, p in enumerate(f.params):
            ty = parse_type(qt(p))
            if ty[0] == 'other' and 'desugaredQualType' in p['type']: ty = parse_type(p['type']['desugaredQualType'])
            if i < len(args): a = args[i]
            else:
                ini = s.prog.default(f, i)
                if not ini: raise Unsupported('missing argument')
                a = s.ev(t, ini)
            if isinstance(a, Opaque) and a.tag == 'defaultarg':
                ini = s.prog.default(f, i)
                if not ini: raise Unsupported('default argument not visible')
                ini = [ini]
                a = s.ev(t, ini[0])
            if ty[0] == 'ref':
                env[p['id']] = a if isinstance(a, LV) else s.newobj(st, s.convert(st, a, ty[1]), p.get('name', 'arg'))
            else:
                env[p['id']] = s.newobj(st, s.convert(st, s.load(st, a), ty), p.get('name', 'arg'))
        return env

    def x_CXXDefaultArgExpr(s, st, n):
        return Opaque('defaultarg')

    def inline(s, st, f, args, this):
        s.inlined.add(f.key)
        env = s.bind(st, f, args, this)
        bn = len(st.pc)
        t = State(list(st.pc), dict(st.store), env, this)
        s.callstack.append(f)
        sd = s.depth; s.depth += 1
        oldref = getattr(s, 'ret_ref', False)
        rty = f.type[:f.type.index('(')].strip()
        s.ret_ref = rty.endswith('&')
        try:
            for ini in f.inits: s.ctor_init(t, ini)
            rs = s.stmt(t, f.body)
        finally:
            s.callstack.pop(); s.depth = sd; s.ret_ref = oldref
        ends = []; vals = []
        for k, x, v in rs:
            if k == 'norm': ends.append(x); vals.append(VOID)
            elif k == 'ret': ends.append(x); vals.append(v if v is not None else VOID)
            elif k == 'err': s.error_path(x)
            else: raise Unsupported('control flow')
        if s.ret_ref_type(f) and len([e for e in ends if not e.dead()]) > 1:
            vals = [s.load(e, v) for e, v in zip(ends, vals)]
        ty = parse_type(rty) if rty not in ('void',) else None
        if ty is not None and not isinstance(ty, tuple):
            vals = [s.convert(e, v, ty) for e, v in zip(ends, vals)]
        m, v = s.merge_states(bn, ends, vals)
        if m is None:
            st.pc.append(FALSE); return VOID if f.type.startswith('void') else s.dummy(f)
        st.pc = m.pc; st.store = m.store
        return v
    def ret_ref_type(s, f): return f.type[:f.type.index('(')].strip().endswith('&')
    def dummy(s, f):
        rty = f.type[:f.type.index('(')].strip()
        try: return s.default(parse_type(rty) if not rty.endswith('&') else parse_type(rty[:-1]))
        except Unsupported: return VOID

    def ctor_init(s, t, ini):
        any_ = ini.get('anyInit')
        inner = ini.get('inner', [])
        if any_ is None:
            # base class initialiser
            if inner:
                e = strip(inner[0])
                if e.get('kind') == 'CXXConstructExpr':
                    ctype = norm_type(e['ctorType']['qualType']); ty = parse_type(qt(e))
                    f = s.prog.funcs.get('%s::%s|%s' % (ty[1], ty[1], ctype)) if ty[0] == 'rec' else None
                    if f is not None: s.call_pml(t, f, [s.ev(t, a) for a in e.get('inner', [])], this=t.this)
            return
        v = s.load(t, s.ev(t, inner[0]))
        ty = parse_type(any_['type']['qualType'])
        s.write(t, t.this.ext(('f', any_['name'])), s.convert(t, v, ty))

    def error_path(s, x):
        """an error (LogicError/throw) is reached with path condition x.pc"""
        if s.quiet: return
        s.errs.append(And_(*x.pc))

    # ------------------------------------------------------------ contracts at call sites
    def apply_contract(s, st, c, args, this, f, ext=None):
        names = c.params(f)
        pre = {}
        lvs = {}
        for i, nm in enumerate(names):
            if i < len(args): a = args[i]
            else: a = Opaque('defaultarg')
            if isinstance(a, Opaque) and a.tag == 'defaultarg':
                d = c.defaults.get(nm) if c.defaults else None
                if d is None and f is not None and i < len(f.params):
                    ini = s.prog.default(f, i)
                    if ini:
                        tt = State(st.pc, st.store, {}, this); a = s.ev(tt, ini)
                elif d is None and ext is not None and (ext[0], norm_type(ext[1]), i) in s.prog.defaults:
                    a = s.ev(State(st.pc, st.store, {}, this), s.prog.defaults[(ext[0], norm_type(ext[1]), i)])
                elif d is not None: a = d(s)
                if isinstance(a, Opaque) and a.tag == 'defaultarg': raise Unsupported('default argument of %r' % c)
            lvs[nm] = a
            v = s.load(st, a)
            if f is not None and i < len(f.params):
                ty = parse_type(qt(f.params[i]))
                if ty[0] == 'ref': ty = ty[1]
                v = s.convert(st, v, ty)
            elif c.types and i < len(c.types):
                ty = parse_type(c.types[i])
                if ty[0] == 'ref': ty = ty[1]
                v = s.convert(st, v, ty)
            pre[nm] = v
        if this is not None:
            pre['this'] = s.load(st, this); lvs['this'] = this
        # inputs must be normalized polynomials
        for nm in list(pre):
            if isinstance(pre[nm], (Poly, VIte)) and nm not in c.raw_ok and is_poly(pre[nm]):
                if nm not in c.pure_outs: pre[nm] = s.normalized(st, pre[nm], 'argument %s of %s' % (nm, c.name))
        from .verify import Env
        ce = Env(s, st, pre, 'call')
        ce.lvs = lvs
        c.fn(ce)
        for a, b in ce.noal:
            la, lb = lvs.get(a), lvs.get(b)
            if isinstance(la, LV) and isinstance(lb, LV) and overlap(la, lb):
                s.record('precondition', '%r: %s and %s must not be the same object' % (c, a, b), False, 'aliased call')
        for g, d in ce.req: s.oblige(st, g, 'precondition', '%r: %s' % (c, d))
        if ce.rai is not None:
            e = s.under(st, ce.rai)
            if not z3.is_false(simp(ce.rai)) and s.ctx.check(e.pc, 1000) != z3.unsat: s.error_path(e)
            st.assume(Not_(ce.rai))
        for g in ce.facts: st.assume(g)
        for nm, v in ce.outs.items():
            lv = lvs[nm]; v = s.realize(st, v)
            if isinstance(lv, LV): s.write(st, lv, v)
            elif isinstance(lv, Ptr): raise Unsupported('pointer out parameter without writer')
        for nm, (n_, fn, exact) in ce.pw.items():
            p = pre[nm]; m = s.load(st, p.base); o = p.off
            ispoly = not isinstance(m, Vec)
            if ispoly: m = s.read(st, p.base.ext(('rep',)))
            g = m.get
            s.oblige(st, z3.Implies(n_ > 0, z3.And(o >= 0, o + n_ <= m.len)), 'bounds', '%r: range written through %s within the array' % (c, nm))
            if fn is None:
                jk = s.bi.junk(s, m.et); fn = lambda i: jk(i)
            nv = Vec(m.len, lam(1, lambda i, fn=fn: vmerge(simp(z3.And(i >= o, i < o + n_)), fn(simp(i - o)), g(i))), m.et)
            s.write(st, p.base.ext(('rep',)) if ispoly else p.base, nv)
        for fn in ce.partial: fn(s, st, lvs)
        s.used_contracts.add(repr(c))
        return s.realize(st, ce.ret) if ce.ret is not None else VOID
    def realize(s, st, v):
        """a specification value as a program value"""
        if isinstance(v, Rec) and any(isinstance(x, NPoly) for x in v.f.values()): return Rec(v.cls, {k: s.realize(st, x) for k, x in v.f.items()})
        if isinstance(v, NPoly):
            L = s.fresh_int('ny'); f = v.f; i = freshvar('i')
            pl = s.polylen(f(i))
            st.assume(L >= 0, z3.Or(L == 0, s.polylen(f(simp(L - 1))) > 0))
            un = z3.is_app(pl) and pl.decl().kind() == z3.Z3_OP_UNINTERPRETED and occurs(i, pl)
            q = z3.Implies(i >= L, pl == 0)
            st.assume(z3.ForAll([i], q, patterns=[pl]) if un else z3.ForAll([i], q))
            return Vec(L, f, 'P', tot=True)
        return v

    # ------------------------------------------------------------ loops
    def forrange(s, st, n):
        inner = n['inner']
        # [init?, range decl, begin decl, end decl, cond, inc, loopvar decl, body]
        decls = [x for x in inner if x and x.get('kind') == 'DeclStmt']
        body = inner[-1]
        rng = decls[0]['inner'][0]; var = decls[-1]['inner'][0]
        init = [x for x in rng.get('inner', []) if x.get('kind')]
        r = s.ev(st, init[0])
        if not isinstance(r, LV): r = s.newobj(st, r, 'range')
        cnt = s.newobj(st, z3.IntVal(0), 'it')
        byref = parse_type(qt(var))[0] == 'ref'
        def iteration(t):
            v = s.load(t, r); i = s.load(t, cnt)
            L = v.len if isinstance(v, Vec) else (v.rows if isinstance(v, Mat) else None)
            if L is None: raise Unsupported('range-for over %s' % type(v).__name__)
            c = simp(i < L)
            res = []
            e = t.copy(); e.assume(Not_(c)); res.append(('exit', e, None))
            b = t.copy(); b.assume(c)
            el = s.index(b, r, i)
            if byref: b.env[var['id']] = el
            else: b.env[var['id']] = s.newobj(b, s.load(b, el), var['name'])
            for k, u, x in s.stmt(b, body):
                if k in ('norm', 'cont'):
                    s.write(u, cnt, simp(s.load(u, cnt) + 1)); res.append(('cont', u, None))
                else: res.append((k, u, x))
            return res
        def probe(t):
            v = s.load(t, r); i = s.load(t, cnt)
            L = v.len if isinstance(v, Vec) else (v.rows if isinstance(v, Mat) else None)
            return None if L is None else simp(i < L)
        iteration.probe = probe
        return s.run_loop(st, iteration)

    def loop(s, st, cond, body, inc, post=False):
        def iteration(t):
            res = []
            if post:
                for k, u, x in s.stmt(t, body):
                    if k in ('norm', 'cont'):
                        c = simp(s.cond(u, cond))
                        e = u.copy(); e.assume(Not_(c)); b = u; b.assume(c)
                        res.append(('exit', e, None)); res.append(('cont', b, None))
                    else: res.append((k, u, x))
                return [r for r in res if not r[1].dead()]
            c = simp(s.cond(t, cond)) if cond else TRUE
            if not z3.is_true(c):
                e = t.copy(); e.assume(Not_(c)); res.append(('exit', e, None))
            b = t; b.assume(c)
            if b.dead(): return res
            for k, u, x in s.stmt(b, body):
                if k in ('norm', 'cont'):
                    if inc: s.ev(u, inc)
                    res.append(('cont', u, None))
                else: res.append((k, u, x))
            return res
        if not post and cond:
            iteration.probe = lambda t: simp(s.cond(t, cond))
        return s.run_loop(st, iteration)

    def run_loop(s, st, iteration):
        from .loops import summarize
        return summarize(s, st, iteration)

    # ------------------------------------------------------------ value equality obligations
    def valeq(s, st, got, want, desc, kind='post'):
        """generate obligations got == want"""
        if isinstance(want, VIte):
            s.valeq(s.under(st, want.c), got, want.a, desc, kind)
            s.valeq(s.under(st, Not_(want.c)), got, want.b, desc, kind)
            return
        if isinstance(got, VIte):
            s.valeq(s.under(st, got.c), got.a, want, desc, kind)
            s.valeq(s.under(st, Not_(got.c)), got.b, want, desc, kind)
            return
        if st.dead() : return
        if isinstance(want, RT):
            if not isinstance(got, RT): raise Unsupported('kind mismatch in %s' % desc)
            ok, res = s.ctx.ring_eq(st.pc, got, want)
            s.record(kind, desc, ok, '' if ok else 'undischarged residue: %s' % '; '.join(map(repr, res[:4])) if res else '')
            return
        if isinstance(want, z3.ExprRef):
            s.oblige(st, got == want, kind, desc); return
        if isinstance(want, Poly):
            g = s.normalized(st, got, desc) if got.len is not None else got
            k = freshvar('k')
            t = st.copy(); t.assume(k >= 0)
            w = want.coef if want.len is None else s.tcoef(want)
            ok, res = s.ctx.ring_eq(t.pc, g.coef(k), w(k))
            s.record(kind, desc + ': coefficient of every degree', ok, '' if ok else 'undischarged residue: %s' % '; '.join(map(repr, (res or [])[:4])))
            return
        if isinstance(want, NPoly):
            s.oblige(st, z3.Or(got.len == 0, s.polylen(got.get(simp(got.len - 1))) > 0), kind, desc + ': last entry is not zero')
            i = freshvar('i'); k = freshvar('k'); t = st.copy(); t.assume(i >= 0, k >= 0)
            g = got.get(i)
            if not got.tot: g = vmerge(simp(z3.And(i >= 0, i < got.len)), g, Poly(Lam([freshvar('k')], R0)))
            ok, res = s.ctx.ring_eq(t.pc, s.tcoef(g)(k), s.tcoef(want.f(i))(k))
            s.record(kind, desc + ': coefficient of every bidegree', ok, '' if ok else 'undischarged residue: %s' % '; '.join(map(repr, (res or [])[:4])))
            return
        if isinstance(want, Vec):
            s.oblige(st, got.len == want.len, kind, desc + ': length')
            i = freshvar('i')
            t = st.copy(); t.assume(i >= 0, i < want.len)
            if s.ctx.check(t.pc, 1000) == z3.unsat: return
            s.valeq(t, got.get(i), want.get(i), desc + '[i]', kind)
            return
        if isinstance(want, Mat):
            s.oblige(st, got.rows == want.rows, kind, desc + ': number of rows')
            s.oblige(st, got.cols == want.cols, kind, desc + ': number of columns')
            i = freshvar('i'); j = freshvar('j')
            t = st.copy(); t.assume(i >= 0, i < want.rows, j >= 0, j < want.cols)
            if s.ctx.check(t.pc, 1000) == z3.unsat: return
            s.valeq(t, got.get(i, j), want.get(i, j), desc + '[i][j]', kind)
            return
        if isinstance(want, Rec):
            for k in want.f:
                if k in got.f: s.valeq(st, got.f[k], want.f[k], desc + '.' + k, kind)
            return
        if isinstance(want, Void): return
        if isinstance(want, Ptr):
            return
        if isinstance(want, Opaque) and isinstance(got, Opaque) and (want is got or (want.tag in ('obj', 'field') and want.tag == got.tag and want.data == got.data)): return
        raise Unsupported('comparison of %s' % type(want).__name__)

class LambdaVal:
    def __init__(s, node, env, this): s.node = node; s.env = env; s.this = this

def is_poly(v):
    while isinstance(v, VIte): v = v.a
    return isinstance(v, Poly)

def overlap(a, b):
    if a.root != b.root: return False
    for p, q in zip(a.path, b.path):
        if p[0] in ('i', 'r') and q[0] == p[0]:
            d = lin(simp(p[1])).add(lin(simp(q[1])), -1)
            if not d.iszero() and not d.m: return False
        elif p != q: return False
    return True
