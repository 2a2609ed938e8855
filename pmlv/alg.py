"""Matrix-level layer of the verifier.

The entry-level layer (execu.py) proves functions that are written entry by entry. Functions that are written as sequences of
whole-matrix operations (Newton inversion, series solving, divide-and-conquer bases) are verified here, on the same clang AST:
a polynomial matrix is an element of the noncommutative ring generated over Z[x] by matrix symbols, an operation is the contract
of the called function, and an obligation is an identity between such elements, exact or modulo x^N, with integer side
conditions discharged by z3. Truncation and shifting are expressed through one right-shift symbol H(w, n):
w = (w mod x^n) + x^n H(w, n)."""
import z3, time, re, os
from .front import parse_type, norm_type, split_targs, Func
from .terms import MergeError
from .execu import Obl, strip, qt
from .verify import C, argtypes, deep, strip_ref, find_func, configs, Result
from .prover import Unsupported
I = z3.IntVal
def simp(e): return z3.simplify(e, som=True) if isinstance(e, z3.ExprRef) else I(e)

class El:
    """sum of coef * x^exp * word; word = tuple of (symbol, transposed)"""
    __slots__ = ('t',)
    def __init__(s, t=()): s.t = tuple(t)
    def __add__(s, o): return El(s.t + el(o).t)
    def __sub__(s, o): return El(s.t + (-el(o)).t)
    def __neg__(s): return El(tuple((-c, e, w) for c, e, w in s.t))
    def __mul__(s, o): return El(tuple((c * d, simp(e + f), w + v) for c, e, w in s.t for d, f, v in el(o).t))
    def sh(s, n): return El(tuple((c, simp(e + n), w) for c, e, w in s.t))
    @property
    def T(s): return El(tuple((c, e, tw(w)) for c, e, w in s.t))
    def __repr__(s): return ' + '.join('%s%s%s' % ('' if c == 1 else c, '' if z3.is_int_value(e) and e.as_long() == 0 else 'x^(%s) ' % str(e).replace('\n', ''), '.'.join(a + ("'" if t else '') for a, t in w) or '1') for c, e, w in s.t) or '0'
def tw(w): return tuple((a, not t) for a, t in reversed(w))
ONE = El([(1, I(0), ())])
ZERO = El()
def el(x):
    if isinstance(x, El): return x
    if isinstance(x, MX): return x.el
    raise TypeError(x)

class Sym:
    def __init__(s, name, rows, cols, ln, h=None): s.name = name; s.rows = rows; s.cols = cols; s.len = ln; s.h = h
class MX:
    """polynomial matrix; len is a variable for its exact length (degree + 1)"""
    __slots__ = ('el', 'rows', 'cols', 'len', 'grow', 'ent')
    def __init__(s, e, rows, cols, ln): s.el = e; s.rows = rows; s.cols = cols; s.len = ln
    def __add__(s, o): return s.el + o
    def __sub__(s, o): return s.el - o
    def __mul__(s, o): return s.el * o
    def __neg__(s): return -s.el
    def sh(s, n): return s.el.sh(n)
    @property
    def T(s): return s.el.T
class VL:
    """vector of integers: opaque term and length, element function, facts instantiated at every access"""
    __slots__ = ('term', 'len', 'f', 'inst')
    def __init__(s, term, ln, f=None, inst=()): s.term = term; s.len = ln; s.f = f; s.inst = tuple(inst)
class Opq:
    """opaque object (lists of points, multipliers, ...)"""
    def __init__(s, kind, **kw): s.kind = kind; s.__dict__.update(kw)
class VM:
    """vector of constant matrices: length, common dimensions, element function (ex, state, index) -> MX"""
    __slots__ = ('len', 'rows', 'cols', 'f', 'w')
    def __init__(s, ln, rows, cols, f, w=()): s.len = ln; s.rows = rows; s.cols = cols; s.f = f; s.w = tuple(w)
class Loc:
    __slots__ = ('i',)
    def __init__(s, i): s.i = i
class Junk: pass
class Frag:
    """an entry of a matrix or vector: writing it havocs the container"""
    __slots__ = ('loc', 'val', 'idx', 'row')
    def __init__(s, loc, val=None, idx=None, row=None): s.loc = loc; s.val = val; s.idx = idx; s.row = row

class St:
    def __init__(s): s.pc = []; s.store = {}; s.env = {}; s.rules = []; s.preds = []; s.inv0 = []
    def copy(s):
        t = St(); t.pc = list(s.pc); t.store = dict(s.store); t.env = dict(s.env); t.rules = list(s.rules); t.preds = list(s.preds); t.inv0 = list(s.inv0); return t

class AC(C):
    def __init__(s, *a, loop=None, lemma=(), trust='', blocks=(), entries=False, **k): C.__init__(s, *a, **k); s.entries = entries; s.loop = loop; s.lemma = lemma; s.trust = trust; s.blocks = blocks
class Block:
    """statement contract of a loop nest: names of its free variables, entry-level contract (proved for the nest alone by the
    entry-level engine, which sees nothing of the surrounding function), and the same effect at matrix level"""
    def __init__(s, names, spec, effect): s.names = names.split(); s.spec = spec; s.effect = effect
class AReg:
    def __init__(s): s.by = {}; s.all = []
    def find(s, cls, name, typ):
        try: return s.by.get((cls, name, tuple(deep(t) for t in argtypes(typ))))
        except ValueError: return None
AREG = AReg()
def acontract(sig, names, prop, file, cls=None, assumed=False, **kw):
    i = sig.index('('); nm = sig[:i].strip(); types = split_targs(sig[i + 1:sig.rindex(')')])
    def deco(fn):
        c = AC(nm, types, names, fn, prop, file, cls, **kw); c.assumed = assumed; c.alg = True
        AREG.by[c.key] = c; AREG.all.append(c); return fn
    return deco
ASSUME = {}  # name -> hook(ex, st, args): consequences of an assumed predicate
PREDS = {}   # name -> prover(ex, st, args) -> bool, detail
def pred(name):
    def deco(f): PREDS[name] = f; return f
    return deco

class AE:
    """contract environment: mode 'call' (caller's view), 'pre'/'post' (callee's view), 'assume'/'check' (loop invariants)"""
    def __init__(s, ex, st, v, mode, final=None, ret=None, locs=None, where=''):
        s.ex = ex; s.st = st; s.v = v; s.mode = mode; s.final = final or {}; s.retv = ret; s.locs = locs or {}; s.where = where
        s.rai = []; s.out = {}; s.ret = None; s.touched = set()
    def __getitem__(s, n): return s.v[n]
    assumes = property(lambda s: s.mode in ('call', 'assume'))
    def requires(s, g, d=''):
        if s.mode == 'call': s.ex.oblige(s.st, g, 'pre', 'precondition of %s: %s' % (s.where, d)); s.st.pc.append(g)
        elif s.mode == 'pre': s.st.pc.append(g)
    def raises(s, g):
        if s.mode == 'call':
            s.ex.err(s.st, g); s.st.pc.append(z3.Not(g))
        else: s.rai.append(g)
    def inv0(s, m):
        """the constant coefficient of m is invertible"""
        return s.ex.inv0(s.st, el(m))
    def req_eqmod(s, a, b, n, desc=''):
        if s.mode == 'call': s.ex.eqmod(s.st, el(a), el(b), n, 'pre', 'precondition of %s: %s' % (s.where, desc))
        elif s.mode == 'pre': s.ex.addrule(s.st, el(a), el(b), n)
    def req_inverse(s, x, a, n, desc='inverse'):
        m = s.mode
        if m == 'call': s.mode = 'check'; s.inverse(x, a, n, 'precondition of %s: %s' % (s.where, desc)); s.mode = m
        elif m == 'pre': s.mode = 'assume'; s.inverse(x, a, n); s.mode = m
    def fact(s, g, d='postcondition'):
        if s.assumes: s.st.pc.append(g)
        elif s.mode in ('post', 'check'): s.ex.oblige(s.st, g, 'post' if s.mode == 'post' else 'invariant', d)
    def every(s, v, g, d='elements'):
        """g(f, i) for every index i of the integer vector v (f: its elements)"""
        h = lambda f, i: z3.Implies(z3.And(i >= 0, i < v.len), g(f, i))
        if s.assumes: v.inst = v.inst + (h,)
        elif s.mode in ('post', 'check'):
            i = s.ex.int('i'); t = s.st.copy(); t.pc += [i >= 0, i < v.len]
            for q in v.inst: t.pc += [q(v.f, i), q(v.f, simp(i - 1)), q(v.f, simp(i + 1))]
            s.ex.oblige(t, g((lambda j: I(0)) if v.f is None else v.f, i), 'post' if s.mode == 'post' else 'invariant', d)
    def new(s, name, rows, cols, maxlen=None):
        """final value of an output parameter (or 'return')"""
        s.touched.add(name)
        if s.mode == 'call':
            m = s.ex.fresh(s.st, rows, cols, maxlen, name)
            if name == 'return': s.ret = m
            else: s.out[name] = m
            return m
        if s.mode == 'pre': return s.ex.fresh(s.st.copy(), rows, cols, maxlen, name)
        m = s.retv if name == 'return' else s.final[name]
        if not isinstance(m, MX): raise Unsupported('result %s is not a matrix' % name)
        s.ex.oblige(s.st, z3.And(m.rows == rows, m.cols == cols), 'post', 'dimensions of %s' % name)
        if maxlen is not None: s.ex.oblige(s.st, m.len <= maxlen, 'post', 'degree bound of %s' % name)
        return m
    def newval(s, name, v):
        """opaque output value: taken as fresh by the caller, unconstrained for the callee"""
        s.touched.add(name)
        if s.mode == 'call':
            if name == 'return': s.ret = v
            else: s.out[name] = v
            return v
        if s.mode == 'pre': return v
        return s.retv if name == 'return' else s.final[name]
    def sets(s, name, e, rows, cols, *bounds):
        e = el(e)
        if s.mode == 'call':
            m = s.ex.mk(s.st, e, rows, cols, *bounds); s.touched.add(name)
            if name == 'return': s.ret = m
            else: s.out[name] = m
            return m
        if s.mode == 'post':
            m = s.new(name, rows, cols); s.ex.eqmod(s.st, m.el, e, None, 'post', 'value of %s' % name)
        s.touched.add(name)
    def eqmod(s, a, b, n=None, desc='', prefer=None, kind=None):
        a = el(a); b = el(b)
        if s.assumes: s.ex.addrule(s.st, a, b, n, prefer)
        elif s.mode in ('post', 'check'): s.ex.eqmod(s.st, a, b, n, 'post' if s.mode == 'post' else 'invariant', desc)
    def inverse(s, x, a, n, desc='x is the inverse of a modulo x^n'):
        """x a = a x = 1 mod x^n; one side suffices for square matrices over a commutative ring"""
        if s.assumes:
            r1 = s.ex.addrule(s.st, el(x) * a, ONE, n); r2 = s.ex.addrule(s.st, el(a) * x, ONE, n)
            if r1 and r2 and len(el(a).t) == 1 and len(el(x).t) == 1:
                s.ex.addrule(s.st, el(a) * r1, r2 * a, None, None); s.ex.addrule(s.st, el(x) * r2, r1 * x, None, None)
        elif s.mode in ('post', 'check'):
            k = 'post' if s.mode == 'post' else 'invariant'
            if s.ex.iszero(s.st, el(a) * x - ONE, n)[0]: s.ex.rec(k, desc, True); return
            s.ex.eqmod(s.st, el(x) * a, ONE, n, k, desc)
    def pred(s, name, *args):
        if s.assumes:
            s.st.preds.append((name,) + args)
            if name in ASSUME: ASSUME[name](s.ex, s.st, args)
        elif s.mode in ('post', 'check'):
            r = PREDS[name](s.ex, s.st, args); ok, why = r if isinstance(r, tuple) else (r, '')
            s.ex.rec('post' if s.mode == 'post' else 'invariant', '%s (lemma instance)' % name, ok, why)
    def req_pred(s, name, *args):
        m = s.mode
        if m == 'call':
            r = PREDS[name](s.ex, s.st, args); ok, why = r if isinstance(r, tuple) else (r, '')
            s.ex.rec('pre', 'precondition of %s: %s' % (s.where, name), ok, why)
        elif m == 'pre': s.mode = 'assume'; s.pred(name, *args); s.mode = m
    def trunc(s, a, n): return s.ex.trunc(s.st, el(a), n)
    def rsh(s, a, n): return s.ex.rsh(s.st, el(a), n)

class Ret(Exception): pass

class AX:
    def __init__(s, prog, c, budget=120):
        s.prog = prog; s.c = c; s.obls = []; s.n = 0; s.syms = {}; s.H = {}; s.errs = []; s.nq = 0; s.tz3 = 0; s.nto = 0; s.used = set(); s.ring = 0; s.loops = 0; s.cfg = ''; s.end = time.time() + budget; s.used_c = set(); s.func = None; s.depth = 0; s.lemmas = set(); s.inl = set(); s.cs = {}; s.cv = {}; s.lost = False; s.reads = []; s.blk = {}
    # ------------------------------------------------------------ logic
    def name(s, p):
        s.n += 1; return '%s#%d' % (p, s.n)
    def int(s, p): return z3.Int(s.name(p))
    def rec(s, kind, desc, ok, detail=''): s.obls.append(Obl(kind, desc, s.func.name if s.func else '', ok, detail, s.cfg)); return ok
    def proves(s, st, g, to=4000):
        g = z3.simplify(g)
        if z3.is_true(g): return True
        if z3.is_false(g) and not st.pc: return False
        if time.time() > s.end: raise Unsupported('time budget')
        S = z3.Solver(); S.set('timeout', to); S.add(*st.pc); S.add(z3.Not(g)); t = time.time(); r = S.check(); s.tz3 += time.time() - t; s.nq += 1
        if r == z3.unknown: s.nto += 1
        s.model = S.model() if r == z3.sat else None
        return r == z3.unsat
    def feasible(s, st):
        S = z3.Solver(); S.set('timeout', 3000); S.add(*st.pc); t = time.time(); r = S.check(); s.tz3 += time.time() - t; s.nq += 1
        return r != z3.unsat
    def oblige(s, st, g, kind, desc):
        ok = s.proves(st, g)
        s.rec(kind, desc, ok, '' if ok else 'goal: %s\npath: %s\nmodel: %s' % (str(z3.simplify(g))[:400], str(st.pc)[-900:], str(s.model)[:400]))
    def err(s, st, g):
        t = st.copy(); t.pc.append(g)
        if s.feasible(t): s.errs.append(t)
    # ------------------------------------------------------------ ring elements
    def fresh(s, st, rows, cols, maxlen, p):
        n = s.name(p); L = z3.Int('len_' + n); st.pc += [L >= 0] + ([L <= maxlen] if maxlen is not None else [])
        s.syms[n] = Sym(n, rows, cols, L)
        return MX(El([(1, I(0), ((n, False),))]), rows, cols, L)
    def wlen(s, w): return simp(sum([s.syms[a].len for a, t in w], I(0)) - (len(w) - 1)) if w else I(1)
    def mk(s, st, e, rows, cols, *bounds):
        e = s.norm(st, e)
        if not e.t: return MX(e, rows, cols, I(0))
        if len(e.t) == 1 and len(e.t[0][2]) == 1 and abs(e.t[0][0]) == 1 and z3.is_int_value(e.t[0][1]) and e.t[0][1].as_long() == 0:
            L = s.syms[e.t[0][2][0][0]].len; st.pc += [L <= b for b in bounds]; return MX(e, rows, cols, L)
        L = s.int('len'); bs = list(bounds)
        mx = I(0)
        for c, x, w in e.t: b = simp(x + s.wlen(w)); mx = z3.If(b > mx, b, mx)
        st.pc += [L >= 0, L <= mx] + [L <= b for b in bounds]
        return MX(e, rows, cols, L)
    def norm(s, st, e):
        todo = list(e.t); out = []; n = 0
        while todo:
            n += 1
            if n > 4000: raise Unsupported('rewriting does not end')
            c, x, w = todo.pop()
            for lhs, rhs in st.rules:
                i = sub(w, lhs)
                if i >= 0:
                    for c2, x2, w2 in rhs.t: todo.append((c * c2, simp(x + x2), w[:i] + w2 + w[i + len(lhs):]))
                    break
            else:
                for j, (c3, x3, w3) in enumerate(out):
                    if w3 == w and (z3.eq(x, x3) or s.proves(st, x == x3)): out[j] = (c3 + c, x3, w3); break
                else: out.append((c, x, w))
        s.ring += 1
        return El([t for t in out if t[0]])
    def hsym(s, st, w, n):
        """H(w, n) as a word, n > 0"""
        if len(w) == 1 and s.syms[w[0][0]].h:
            w0, n0 = s.syms[w[0][0]].h; return s.hsym(st, tw(w0) if w[0][1] else w0, simp(n0 + n))
        t = tw(w); fl = t < w
        if fl: w = t
        for n2, nm in s.H.get(w, []):
            if z3.eq(n2, n) or s.proves(st, n2 == n): return ((nm, fl),)
        f, l = w[0], w[-1]; rows = s.syms[f[0]].cols if f[1] else s.syms[f[0]].rows; cols = s.syms[l[0]].rows if l[1] else s.syms[l[0]].cols
        nm = s.name('H'); L = z3.Int('len_' + nm); s.syms[nm] = Sym(nm, rows, cols, L, (w, n)); s.H.setdefault(w, []).append((n, nm))
        s.Hfacts(st, nm)
        return ((nm, fl),)
    def Hfacts(s, st, nm):
        w, n = s.syms[nm].h; L = s.syms[nm].len; b = simp(s.wlen(w) - n)
        st.pc += [L >= 0, z3.Or(L <= b, L <= 0)]
    def rsh(s, st, e, n):
        n = simp(n) if isinstance(n, z3.ExprRef) else I(n); out = []
        for c, x, w in s.norm(st, e).t:
            if s.proves(st, x >= n): out.append((c, simp(x - n), w)); continue
            if not s.proves(st, x <= n): raise Split(x <= n)
            m = simp(n - x)
            if s.proves(st, s.wlen(w) <= m): continue
            if not w: raise Unsupported('shift of the identity')
            h = s.hsym(st, w, m); s.Hfacts(st, h[0][0])
            out.append((c, I(0), h))
        return s.norm(st, El(out))
    def trunc(s, st, e, n):
        e = s.norm(st, e); n = simp(n) if isinstance(n, z3.ExprRef) else I(n)
        return s.norm(st, e - s.rsh(st, e, n).sh(n))
    def addrule(s, st, a, b, n, prefer=None):
        """a = b (mod x^n); returns the cofactor symbol"""
        d = s.norm(st, a - b); R = None
        f = [t for t in d.t if abs(t[0]) == 1 and t[2] and (z3.is_int_value(t[1]) and t[1].as_long() == 0 or s.proves(st, t[1] == 0))]
        f = [t for t in f if not any(u is not t and sub(u[2], t[2]) >= 0 for u in d.t)]
        if not f: return None
        def newest(t): return max(int(x[0].split('#')[1]) for x in t[2])
        f.sort(key=lambda t: (prefer is not None and any(x[0] == prefer for x in t[2]), newest(t), len(t[2])))
        lead = f[-1]
        rest = El([t for t in d.t if t is not lead]); rest = -rest if lead[0] == 1 else rest
        if n is not None:
            w = lead[2]; fst, lst = w[0], w[-1]
            rows = s.syms[fst[0]].cols if fst[1] else s.syms[fst[0]].rows; cols = s.syms[lst[0]].rows if lst[1] else s.syms[lst[0]].cols
            R = s.fresh(st, rows, cols, None, 'R').el; rest = rest + R.sh(n)
        st.rules.append((lead[2], rest)); 
        if tw(lead[2]) != lead[2]: st.rules.append((tw(lead[2]), rest.T))
        return R
    def iszero(s, st, e, n):
        d = s.norm(st, e)
        left = [t for t in d.t if n is None or not s.proves(st, t[1] >= n)]
        return not left, 'not shown to vanish%s: %s' % ('' if n is None else ' modulo x^(%s)' % n, El(left))
    def eqmod(s, st, a, b, n, kind, desc):
        ok, why = s.iszero(st, a - b, n); s.rec(kind, desc, ok, '' if ok else why + '\nrules: ' + '; '.join('%s -> %s' % (El([(1, I(0), l)]), r) for l, r in st.rules[:12]))
    def inv0(s, st, e):
        e = s.norm(st, e); k = []
        for c, x, w in e.t:
            if s.proves(st, x >= 1): continue
            if not s.proves(st, x == 0): return z3.Bool(s.name('inv0'))
            k.append((c, w))
        k = tuple(sorted(k)); kt = tuple(sorted((c, tw(w)) for c, w in k)); k = min(k, kt)
        return z3.Bool('inv0_%s' % (k,))
    # ------------------------------------------------------------ values
    def input(s, st, ty, nm):
        if ty in ('Z', 'U'):
            v = s.int(nm)
            if ty == 'U': st.pc.append(v >= 0)
            return v
        if ty == 'B': return z3.Bool(s.name(nm))
        if ty in (('mat', 'P'), ('mat', 'F')):
            r, c = s.int('rows_' + nm), s.int('cols_' + nm); st.pc += [r >= 0, c >= 0]
            return s.fresh(st, r, c, I(1) if ty[1] == 'F' else None, nm)
        if ty == 'P': return s.fresh(st, I(1), I(1), None, nm)
        if ty == ('vec', 'P'):
            # a vector of polynomials is a matrix with one column
            r = s.int('len_' + nm); st.pc.append(r >= 0); return s.fresh(st, r, I(1), None, nm)
        if ty == ('vec', 'Z'): return s.vl(st, nm)
        if ty == ('uptr', ('rec', 'mat_lzz_pX_lmultiplier')):
            r, c = s.int('rows_' + nm), s.int('cols_' + nm); st.pc += [r >= 0, c >= 0]
            return Opq('mat_lzz_pX_lmultiplier', a=s.fresh(st, r, c, None, nm), dB=s.int('dB'))
        if ty == ('vec', ('mat', 'F')):
            r, c, l = s.int('rows_' + nm), s.int('cols_' + nm), s.int('n_' + nm); st.pc += [r >= 0, c >= 0, l >= 0]; return s.vm(l, r, c, nm)
        if ty == ('vec', 'F'):
            l = s.int('n_' + nm); st.pc.append(l >= 0); return Opq('vecF', name=s.name(nm), len=l, ratio=None)
        if ty == 'F': return Opq('F', name=s.name(nm))
        return Opq('in', name=s.name(nm), ty=ty)
    def vm(s, ln, r, c, nm):
        n = s.name(nm); return VM(ln, r, c, lambda ex, st, k: ex.csym(st, (n, str(simp(k))), r, c, I(1)))
    def vmeq(s, st, a, b, lo, hi):
        """equal elements for every index in [lo, hi)"""
        if a is b: return True
        k = s.int('k'); t = st.copy(); t.pc += [k >= lo, k < hi, k >= 0]
        if not s.feasible(t): return True
        if not s.proves(t, z3.And(a.rows == b.rows, a.cols == b.cols, k < a.len, k < b.len)): return False
        return s.cases(t, lambda u: s.iszero(u, a.f(s, u, k).el - b.f(s, u, k).el, None)[0])
    def cases(s, st, g, depth=0):
        """g under a complete case distinction"""
        try: return g(st.copy())
        except Split as e:
            if depth > 5: raise Unsupported('case splits')
            for c in (e.g, z3.Not(e.g)):
                t = st.copy(); t.pc.append(c)
                if s.feasible(t) and not s.cases(t, g, depth + 1): return False
            return True
    def vl(s, st, nm, ln=None, inst=()):
        n = s.name(nm)
        if ln is None: ln = z3.Int('n_' + n); st.pc.append(ln >= 0)
        f = z3.Function('v_' + n, z3.IntSort(), z3.IntSort())
        return VL(('v', n), ln, f, inst)
    def elem(s, st, v, i):
        for g in v.inst: st.pc += [g(v.f, i), g(v.f, simp(i - 1))]
        return v.f(i)
    def key(s, st, e):
        """canonical key of a ring element"""
        return tuple(sorted((w, c, str(x)) for c, x, w in s.norm(st, el(e)).t))
    def csym(s, st, key, rows, cols, maxlen=None):
        """matrix determined by its key (function application on matrices)"""
        if key not in s.cs: s.cs[key] = s.fresh(st, rows, cols, maxlen, key[0])
        m = s.cs[key]; L = m.len; st.pc += [L >= 0] + ([L <= maxlen] if maxlen is not None else [])
        return m
    def cvec(s, st, key, ln, inst=()):
        """integer vector determined by its key"""
        if key not in s.cv: s.cv[key] = VL(key, ln, z3.Function('v_' + s.name(key[0]), z3.IntSort(), z3.IntSort()), inst)
        return s.cv[key]
    def rdeg(s, st, m): return s.cvec(st, ('rdeg', s.key(st, m)), m.rows, [lambda f, i: z3.And(f(i) >= -1, f(i) < m.len)])
    def forall(s, v, g):
        """g(i) for every index of v, as an assumption"""
        i = s.int('i'); return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v.len), g(i)))
    def all(s, st, v, g):
        """proves g(i) for every index of v"""
        i = s.int('i'); t = st.copy(); t.pc += [i >= 0, i < v.len]
        for x in (g(i),): return s.proves(t, x)
    def vleq(s, st, a, b):
        if a is b or a.term == b.term: return True
        if not s.proves(st, a.len == b.len): return False
        if a.f is None or b.f is None: return s.proves(st, a.len == 0)
        i = s.int('i'); t = st.copy(); t.pc += [i >= 0, i < a.len]
        return s.proves(t, s.elem(t, a, i) == s.elem(t, b, i))
    def default(s, ty):
        if ty in (('mat', 'P'), ('mat', 'F')): return MX(ZERO, I(0), I(0), I(0))
        if ty == ('vec', 'P'): return MX(ZERO, I(0), I(1), I(0))
        if ty == ('vec', 'Z'): return VL(('empty',), I(0))
        return Junk()
    def load(s, st, x):
        if isinstance(x, Loc): return st.store[x.i]
        if isinstance(x, Frag): return x.val
        return x
    def alloc(s, st, v):
        s.n += 1; st.store[s.n] = v; return Loc(s.n)
    def toint(s, v):
        if isinstance(v, bool): return I(int(v))
        if z3.is_bool(v): return z3.If(v, I(1), I(0))
        if not isinstance(v, z3.ExprRef): raise Unsupported('integer expected, got %s' % type(v).__name__)
        return v
    def tobool(s, v):
        if isinstance(v, z3.ExprRef): return v if z3.is_bool(v) else v != 0
        raise Unsupported('condition')
    # ------------------------------------------------------------ expressions
    def ev(s, st, n): return s.load(st, s.lv(st, n))
    def lv(s, st, n):
        k = n['kind']; inn = n.get('inner', [])
        if k in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr', 'ImplicitCastExpr', 'CXXFunctionalCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr'):
            x = s.lv(st, inn[0])
            ck = n.get('castKind', '')
            if ck in ('IntegralToBoolean',): return s.tobool(s.load(st, x))
            if ck in ('IntegralCast',): return s.toint(s.load(st, x))
            if ck in ('IntegralToFloating', 'FloatingToIntegral', 'FloatingCast'): raise Unsupported('floating point')
            return x
        if k == 'CXXDefaultArgExpr':
            if inn: return s.lv(st, inn[0])
            raise Unsupported('default argument')
        if k == 'IntegerLiteral': return I(int(n['value']))
        if k == 'CXXBoolLiteralExpr': return z3.BoolVal(bool(n['value']))
        if k == 'DeclRefExpr':
            r = n['referencedDecl']
            if r['kind'] == 'EnumConstantDecl': return I(s.prog.enums[r['name']]) if r['name'] in s.prog.enums else z3.Int('enum_' + r['name'])
            if r['id'] in st.env: return st.env[r['id']]
            raise Unsupported('name %s' % r.get('name'))
        if k == 'UnaryOperator':
            op = n['opcode']
            if op == '&': return ('addr', s.lv(st, inn[0]))
            if op in ('++', '--'):
                x = s.lv(st, inn[0]); v = s.load(st, x)
                if isinstance(x, Frag): s.dirty(st, x); return x
                w = simp(v + (1 if op == '++' else -1)); st.store[x.i] = w
                return v if n.get('isPostfix') else w
            v = s.ev(st, inn[0])
            if op == '!': return z3.Not(s.tobool(v))
            if op == '-': return -s.toint(v)
            if op == '+': return v
            if op == '*': return s.lv(st, inn[0])
            raise Unsupported('operator ' + op)
        if k == 'BinaryOperator':
            op = n['opcode']
            if op == '=': 
                x = s.lv(st, inn[0]); v = s.ev(st, inn[1]); s.assign(st, x, v); return x
            if op == ',': s.lv(st, inn[0]); return s.lv(st, inn[1])
            if op in ('&&', '||'):
                a = s.tobool(s.ev(st, inn[0])); g = a if op == '&&' else z3.Not(a); k0 = len(st.pc); st.pc.append(g)
                b = s.tobool(s.ev(st, inn[1])); st.pc[k0:] = [z3.Implies(g, h) for h in st.pc[k0 + 1:]]
                return z3.And(a, b) if op == '&&' else z3.Or(a, b)
            a = s.lv(st, inn[0]); b = s.lv(st, inn[1])
            if isinstance(a, tuple) and isinstance(b, tuple):
                same = isinstance(a[1], Loc) and isinstance(b[1], Loc) and a[1].i == b[1].i
                return z3.BoolVal(same if op == '==' else not same)
            a = s.load(st, a); b = s.load(st, b)
            if op == '&&': return z3.And(s.tobool(a), s.tobool(b))
            if op == '||': return z3.Or(s.tobool(a), s.tobool(b))
            return s.binop(st, op, s.toint(a), s.toint(b))
        if k == 'CompoundAssignOperator':
            x = s.lv(st, inn[0]); b = s.ev(st, inn[1]); a = s.load(st, x)
            if isinstance(x, Frag): s.dirty(st, x); return x
            st.store[x.i] = s.binop(st, n['opcode'][:-1], s.toint(a), s.toint(b)); return x
        if k == 'ConditionalOperator':
            c = s.tobool(s.ev(st, inn[0])); a = s.ev(st, inn[1]); b = s.ev(st, inn[2])
            if isinstance(a, z3.ExprRef): return z3.If(c, a, b)
            raise Unsupported('conditional of matrices')
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            ty = deep(strip_ref(parse_type(qt(n)))); args = [a for a in inn if not (a['kind'] == 'CXXDefaultArgExpr')]
            if not args: return s.default(ty)
            if ty == ('vec', 'Z') and len(args) in (1, 2):
                v = s.ev(st, args[0])
                if isinstance(v, VL): return v
                if isinstance(v, z3.ExprRef): return s.vl(st, 'vec', v)
            if ty[0] == 'rec':
                if len(args) == 1 and strip_ref(parse_type(qt(args[0]))) == ty:
                    v = s.ev(st, args[0])
                    if isinstance(v, Opq): return v
                for c in AREG.all:
                    if c.cls == ty[1] and c.name == ty[1] and len(c.names) == len(args): return s.apply(st, c, args, ty[1], None)
            if len(args) == 1: return s.ev(st, args[0])
            if ty == ('vec', 'F'):
                ds = [d for d in [s.ev(st, a) for a in args if 'INIT_SIZE' not in str(a.get('type'))] if isinstance(d, z3.ExprRef)]
                if len(ds) == 1: return Opq('vecF', name=s.name('v'), len=ds[0], ratio=None, w=(), f=lambda ex, t, k: Opq('F', name='0'))
            if ty == ('mat', 'P') or ty == ('mat', 'F'):
                ds = [s.ev(st, a) for a in args if 'INIT_SIZE' not in str(a.get('type'))]
                ds = [d for d in ds if isinstance(d, z3.ExprRef)]
                if len(ds) == 2: return MX(ZERO, ds[0], ds[1], I(0))
            raise Unsupported('constructor ' + qt(n))
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'): return s.call(st, n)
        if k == 'ArraySubscriptExpr': raise Unsupported('raw array')
        raise Unsupported('expression ' + k)
    def binop(s, st, op, a, b):
        if op == '+': return simp(a + b)
        if op == '-': return simp(a - b)
        if op == '*': return simp(a * b)
        if op in ('<', '>', '<=', '>=', '==', '!='): return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
        if op == '>>' and z3.is_int_value(simp(b)): b = I(2 ** simp(b).as_long()); op = '/'
        if op == '<<' and z3.is_int_value(simp(b)): return simp(a * 2 ** simp(b).as_long())
        if op in ('/', '%'):
            # operands have to be nonnegative here (C rounds towards zero)
            s.oblige(st, z3.And(a >= 0, b > 0), 'pre', 'division of nonnegative integers')
            q, r = s.int('q'), s.int('r'); st.pc += [a == b * q + r, r >= 0, r < b, q >= 0]
            return q if op == '/' else r
        raise Unsupported('operator ' + op)
    def unit(s, st, i, n):
        """unit column vector number i of length n"""
        return s.csym(st, ('unit', str(simp(i)), str(simp(n))), n, I(1), I(1))
    def incl(s, st, n):
        """the first n of n + 1 unit columns"""
        n = simp(n); return s.csym(st, ('incl', str(n)), simp(n + 1), n, I(1))
    def zent(s, st, m):
        """predicate: entry (i, j) of m is zero"""
        return z3.Function('zent_%s' % (s.key(st, m),), z3.IntSort(), z3.IntSort(), z3.BoolSort())
    def entry(s, st, m, i, j):
        e = s.mk(st, s.unit(st, j, m.cols).T * m.T * s.unit(st, i, m.rows), I(1), I(1), m.len); e.ent = (m, i, j); return e
    def dirty(s, st, x):
        """an entry of the container was written: nothing is known about the container any more (dimensions stay)"""
        v = st.store[x.loc.i]
        if isinstance(v, MX): st.store[x.loc.i] = s.fresh(st, v.rows, v.cols, None, 'd')
        elif isinstance(v, VL): st.store[x.loc.i] = s.vl(st, 'd', v.len)
        else: st.store[x.loc.i] = Junk()
    def assign(s, st, x, v):
        if isinstance(x, Frag) and x.idx is not None and isinstance(v, MX) and isinstance(st.store[x.loc.i], VM):
            o = st.store[x.loc.i]; i = x.idx
            if not s.proves(st, z3.And(v.rows == o.rows, v.cols == o.cols)): raise Unsupported('element of other dimensions')
            def f(ex, t, k):
                if ex.proves(t, k == i): return v
                if ex.proves(t, k != i): return o.f(ex, t, k)
                raise Split(k == i)
            st.store[x.loc.i] = VM(o.len, o.rows, o.cols, f, o.w + ((i, v),)); return
        if isinstance(x, Frag) and x.idx is not None and isinstance(v, Opq) and v.kind == 'F' and isinstance(st.store[x.loc.i], Opq) and getattr(st.store[x.loc.i], 'f', None):
            o = st.store[x.loc.i]; i = x.idx
            def f(ex, t, k):
                if ex.proves(t, k == i): return v
                if ex.proves(t, k != i): return o.f(ex, t, k)
                raise Split(k == i)
            st.store[x.loc.i] = Opq('vecF', name=s.name('v'), len=o.len, ratio=None, f=f, w=o.w + ((i, v),)); return
        if isinstance(x, Frag) and x.row is not None and isinstance(v, MX):
            o = st.store[x.loc.i]; g = getattr(o, 'grow', None)
            if g is not None and s.proves(st, z3.And(x.row == g.rows, v.rows == g.cols, v.cols == 1)):
                st.store[x.loc.i] = s.mk(st, s.incl(st, g.rows) * g + s.unit(st, g.rows, simp(g.rows + 1)) * v.T, o.rows, o.cols); return
        if isinstance(x, Frag): s.dirty(st, x); return
        if not isinstance(x, Loc): raise Unsupported('assignment')
        if isinstance(v, (Junk,)): pass
        st.store[x.i] = v
    def argof(s, st, a):
        x = s.lv(st, a); return x
    def call(s, st, n):
        inn = n['inner']; k = n['kind']
        if k == 'CXXMemberCallExpr':
            me = strip(inn[0])
            while me['kind'] not in ('MemberExpr',): me = strip(me['inner'][0])
            name = me['name']; ob = me['inner'][0]; o = s.lv(st, ob); ov = s.load(st, o); args = inn[1:]
            return s.method(st, n, name, o, ov, args, ob)
        cal = strip(inn[0])
        while cal['kind'] == 'ImplicitCastExpr': cal = strip(cal['inner'][0])
        if cal['kind'] != 'DeclRefExpr': raise Unsupported('indirect call')
        r = cal['referencedDecl']; name = r['name']; typ = norm_type(r['type']['qualType']); args = inn[1:]
        if k == 'CXXOperatorCallExpr':
            if name == 'operator[]':
                o = s.lv(st, args[0]); v = s.load(st, o); i = s.ev(st, args[1])
                if isinstance(o, Frag) and o.row is not None:
                    m = st.store[o.loc.i]; i = s.toint(i); s.oblige(st, z3.And(i >= 0, i < m.cols), 'bounds', 'column index in range'); return Frag(o.loc, s.entry(st, m, o.row, i))
                if isinstance(o, Frag): return Frag(o.loc, None)
                if isinstance(v, MX) and isinstance(o, Loc) and getattr(s.c, 'entries', False) and deep(strip_ref(parse_type(norm_type(qt(strip_casts(args[0])).replace('const ', '')))))[0] == 'mat':
                    i = s.toint(i); s.oblige(st, z3.And(i >= 0, i < v.rows), 'bounds', 'row index in range'); return Frag(o, None, row=i)
                if isinstance(v, VM):
                    s.oblige(st, z3.And(i >= 0, i < v.len), 'bounds', 'vector index in range'); m = v.f(s, st, i)
                    if isinstance(o, Loc): s.reads.append((o.i, i)); return Frag(o, m, i)
                    return m
                if isinstance(v, Opq) and v.kind == 'vecF' and getattr(v, 'f', None):
                    s.oblige(st, z3.And(i >= 0, i < v.len), 'bounds', 'vector index in range'); e = v.f(s, st, i)
                    if isinstance(o, Loc): s.reads.append((o.i, i)); return Frag(o, e, i)
                    return e
                if isinstance(v, Opq) and v.kind == 'vecF':
                    s.oblige(st, z3.And(i >= 0, i < v.len), 'bounds', 'vector index in range'); return Frag(o, Opq('F', name=(v.name, str(simp(i))), vec=v, idx=simp(i))) if isinstance(o, Loc) else Opq('F', name=(v.name, str(simp(i))), vec=v, idx=simp(i))
                if isinstance(v, VL) and v.f is not None:
                    s.oblige(st, z3.And(i >= 0, i < v.len), 'bounds', 'vector index in range')
                    return Frag(o, s.elem(st, v, i)) if isinstance(o, Loc) else s.elem(st, v, i)
                if isinstance(o, Loc): return Frag(o, None)
                raise Unsupported('element of a temporary')
            if name == 'operator=':
                x = s.lv(st, args[0]); v = s.ev(st, args[1]); s.assign(st, x, v); return x
            if name == 'operator<<':
                z = args[0]
                while strip_casts(z)['kind'] == 'CXXOperatorCallExpr': z = strip_casts(z)['inner'][1]
                z = strip_casts(z)
                if z['kind'] == 'DeclRefExpr' and z['referencedDecl'].get('name') in ('cout', 'cerr'): return None
            if name == 'operator->' or name == 'operator*' and len(args) == 1: return s.lv(st, args[0])
        if name in ('min', 'max') and len(args) == 2:
            a, b = (s.toint(s.ev(st, x)) for x in args); return simp(z3.If(a <= b, a, b) if name == 'min' else z3.If(a >= b, a, b))
        if name == 'move' and len(args) == 1: return s.lv(st, args[0])
        if name == 'swap' and len(args) == 2:
            a, b = s.lv(st, args[0]), s.lv(st, args[1]); va, vb = s.load(st, a), s.load(st, b); s.assign(st, a, vb); s.assign(st, b, va); return None
        if name in ('LogicError', 'Error', 'ResourceError', 'InvModError', 'ArithmeticError', 'InputError'):
            raise Err()
        if name == 'iota' and len(args) == 3:
            x = s.whole(st, args[0], args[1]); v = s.load(st, x); a = s.toint(s.ev(st, args[2])); s.assign(st, x, VL(('iota', str(simp(a))), v.len, lambda j: a + j)); return None
        if name == 'find' and len(args) == 3:
            x = s.whole(st, args[0], args[1]); v = s.load(st, x); a = s.toint(s.ev(st, args[2])); q, j = s.int('pos'), s.int('j')
            if not isinstance(v, VL) or v.f is None: raise Unsupported('find')
            s.elem(st, v, q); st.pc += [q >= 0, q <= v.len, z3.Implies(q < v.len, v.f(q) == a), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < q), v.f(j) != a))]
            return ('itp', x.i, v, q)
        if k == 'CXXOperatorCallExpr' and name in ('operator==', 'operator!=', 'operator-') and len(args) == 2:
            P = [s.itpos(st, s.load(st, s.lv(st, a))) for a in args]
            if None not in P and P[0][:1] == P[1][:1]: return {'operator==': P[0][1] == P[1][1], 'operator!=': P[0][1] != P[1][1], 'operator-': simp(P[0][1] - P[1][1])}[name]
        if name == 'reverse' and len(args) == 2:
            x = s.whole(st, args[0], args[1]); v = s.load(st, x); L = v.len
            if v.f is None: raise Unsupported('reverse')
            s.assign(st, x, VL(('rev', s.name('r')), L, lambda j: v.f(L - 1 - j), [lambda f, i, g=g: z3.And(g(v.f, L - 1 - i), g(v.f, L - 2 - i), g(v.f, L - 1)) for g in v.inst])); return None
        if name == 'transform': return s.transform(st, args)
        if name == 'for_each': return s.for_each(st, args)
        c = AREG.find(None, name, typ)
        if c is None: c = s.generic(name, len(args))
        if c is None:
            f = s.inlinable(name, typ)
            if f is not None: return s.inline(st, f, args)
            raise Unsupported('no contract for %s%s' % (name, typ))
        return s.apply(st, c, args, name, None)
    def itpos(s, st, x):
        """(vector location, position) of an iterator; the vector has to be unchanged since"""
        if not isinstance(x, tuple): return None
        if x[0] == 'itp': return (x[1], x[3]) if st.store.get(x[1]) is x[2] else None
        if x[0] == 'it' and isinstance(x[2], Loc): return (x[2].i, I(0) if x[1] == 'begin' else st.store[x[2].i].len)
        return None
    def inlinable(s, name, typ):
        """a helper without a contract, defined in the loaded sources: executed in place"""
        for f in s.prog.byname.get(name, []):
            if f.type == typ and f.cls is None and not (s.func and f.key == s.func.key): return f
        return None
    def inline(s, st, f, args):
        s.depth += 1
        if s.depth > 6: raise Unsupported('call depth')
        s.inl.add(f.key)
        xs = [s.lv(st, a) for a in args if a['kind'] != 'CXXDefaultArgExpr']
        if len(xs) != len(f.params): raise Unsupported('default arguments of ' + f.name)
        env = st.env; st.env = {}
        for p, x in zip(f.params, xs):
            st.env[p['id']] = x if parse_type(qt(p))[0] == 'ref' and isinstance(x, (Loc, Frag)) else s.alloc(st, s.load(st, x))
        rs = s.stmt(st.copy(), f.body)
        rs = [(k, t, v) for k, t, v in rs if s.feasible(t)]
        live = [(k, t, v) for k, t, v in rs if k in ('norm', 'ret')]
        for k, t, v in rs:
            if k == 'err': s.errs.append(t)
        if len(live) != 1: raise Unsupported('inlined function with %d paths' % len(live))
        k, t, v = live[0]; v = s.load(t, v) if v is not None else None
        st.pc, st.store, st.rules, st.preds = t.pc, t.store, t.rules, t.preds; st.env = env; s.depth -= 1
        return v
    def generic(s, name, n): return None
    def lam(s, st, n):
        """(parameters, body) of a lambda expression"""
        n = strip_casts(n)
        while n['kind'] not in ('LambdaExpr',):
            k = [x for x in n.get('inner', []) if x.get('kind')]
            if len(k) != 1: return None
            n = strip_casts(k[0])
        ps = []; 
        def walk(x):
            if x.get('kind') == 'CXXMethodDecl' and x.get('name') == 'operator()': ps.extend(y for y in x['inner'] if y.get('kind') == 'ParmVarDecl'); return
            for y in x.get('inner', []): walk(y)
        walk(n); return ps, [x for x in n['inner'] if x.get('kind') == 'CompoundStmt'][-1]
    def whole(s, st, a, b):
        """location of the vector whose whole range [begin, end) is given"""
        a, b = s.lv(st, a), s.lv(st, b)
        if not (isinstance(a, tuple) and isinstance(b, tuple) and a[:2] == ('it', 'begin') and b[:2] == ('it', 'end') and isinstance(a[2], Loc) and a[2].i == b[2].i): raise Unsupported('iterator range')
        return a[2]
    def for_each(s, st, args):
        x = s.whole(st, args[0], args[1]); v = s.load(st, x); lb = s.lam(st, args[2])
        if not isinstance(v, VL) or lb is None: raise Unsupported('for_each')
        if v.f is None: return None
        ps, body = lb; i = s.int('i'); t = st.copy(); l = s.alloc(t, s.elem(t, v, i)); t.env[ps[0]['id']] = l
        if parse_type(qt(ps[0]))[0] != 'ref': raise Unsupported('for_each by value')
        rs = s.stmt(t, body)
        if len(rs) != 1: raise Unsupported('for_each body')
        u = rs[0][1]; r = u.store[l.i]
        if any(u.store[k] is not w for k, w in st.store.items()): raise Unsupported('for_each body with other effects')
        st.store[x.i] = VL(('map', s.name('m')), v.len, lambda j: z3.substitute(r, (i, j if isinstance(j, z3.ExprRef) else I(j))), v.inst and ())
        return None
    def transform(s, st, args):
        x = s.whole(st, args[0], args[1]); a = s.load(st, x)
        if len(args) != 5: raise Unsupported('std::transform')
        y, o = s.lv(st, args[2]), s.lv(st, args[3])
        if not all(isinstance(q, tuple) and q[:2] == ('it', 'begin') for q in (y, o)): raise Unsupported('std::transform')
        b, c = s.load(st, y[2]), s.load(st, o[2]); op = qt(args[4])
        if 'minus' in op: g = lambda p, q: p - q
        elif 'plus' in op: g = lambda p, q: p + q
        else: raise Unsupported('std::transform with ' + op)
        s.oblige(st, z3.And(b.len >= a.len, c.len >= a.len), 'bounds', 'std::transform: ranges are long enough')
        if not s.proves(st, c.len == a.len): raise Unsupported('std::transform of a part')
        if a.f is None: return None
        st.store[o[2].i] = VL(('map', s.name('t')), c.len, lambda i: g(s.elem(st, a, i), s.elem(st, b, i)))
        return None
    def apply(s, st, c, args, name, this):
        s.used_c.add(repr(c))
        vals = {}; locs = {}
        argn = [a for a in args]
        for nm, a in zip(c.names, argn):
            if a['kind'] == 'CXXDefaultArgExpr' and not a.get('inner'):
                f = find_func(s.prog, c); i = c.names.index(nm)
                d = s.prog.default(f, i) if f else next((v for (n_, t_, i_), v in s.prog.defaults.items() if n_ == c.name and i_ == i), None)
                if d is None: raise Unsupported('default argument of ' + name)
                x = s.lv(st, d)
            else: x = s.lv(st, a)
            locs[nm] = x; vals[nm] = s.load(st, x)
            t = c.key[2][c.names.index(nm)]
            if t in ('Z',): vals[nm] = s.toint(vals[nm])
            elif t == 'B': vals[nm] = s.tobool(vals[nm])
            elif t in (('mat', 'P'), ('mat', 'F')) and not isinstance(vals[nm], MX): raise Unsupported('argument %s of %s is not known' % (nm, name))
        for o, i in c.noalias:
            if isinstance(locs.get(o), Loc) and isinstance(locs.get(i), Loc) and locs[o].i == locs[i].i: s.rec('pre', '%s: %s must not alias %s' % (name, o, i), False)
        if this is not None: vals['this'] = this
        E = AE(s, st, vals, 'call', locs=locs, where=name)
        c.fn(E)
        for nm, v in E.out.items():
            x = locs[nm]
            if isinstance(x, (Loc, Frag)): s.assign(st, x, v)
            else: raise Unsupported('output argument')
        return E.ret
    def method(s, st, n, name, o, ov, args, ob):
        if isinstance(ov, MX):
            if name in ('NumRows', 'length') : return ov.rows
            if name == 'NumCols': return ov.cols
            if name == 'swap':
                b = s.lv(st, args[0]); vb = s.load(st, b)
                if isinstance(b, Frag) and isinstance(o, Frag): raise Unsupported('swap of entries')
                s.assign(st, b, ov); s.assign(st, o, vb); return None
            if name in ('SetDims', 'SetLength'):
                r, c = s.toint(s.ev(st, args[0])), s.toint(s.ev(st, args[1])) if name == 'SetDims' else ov.cols; z = not ov.el.t
                if s.proves(st, z3.And(ov.rows == r, ov.cols == c)): return None
                if name == 'SetDims' and isinstance(o, Loc) and s.proves(st, z3.And(ov.cols == c, r == ov.rows + 1)):
                    w = s.fresh(st, r, c, None, 'grown'); w.grow = ov; s.assign(st, o, w); return None
                s.assign(st, o, MX(ZERO, r, c, I(0)) if z else s.fresh(st, r, c, None, 'sd')); return None
            if name == 'kill': s.assign(st, o, MX(ZERO, I(0), I(0), I(0))); return None
        if isinstance(ov, VL):
            if name in ('size', 'length'): return ov.len
            if name in ('begin', 'end'): return ('it', name, o)
            if name == 'empty': return ov.len == 0
            if name == 'clear': s.assign(st, o, VL(('empty',), I(0))); return None
            if name in ('push_back', 'emplace_back') and len(args) == 1 and isinstance(o, Loc):
                a = s.toint(s.ev(st, args[0])); L = ov.len; of = (lambda j: I(0)) if ov.f is None else ov.f
                s.assign(st, o, VL(('push', s.name('p')), simp(L + 1), lambda j: z3.If(j == L, a, of(j)), [lambda f, i, g=g: z3.And(g(of, i), g(of, L - 1)) for g in ov.inst])); return None
            if name == 'resize' and len(args) == 1:
                n = s.toint(s.ev(st, args[0]))
                if not s.proves(st, n == ov.len): s.assign(st, o, s.vl(st, 'rs', n))
                return None
            if name == 'swap' and len(args) == 1:
                b = s.lv(st, args[0]); vb = s.load(st, b)
                if isinstance(vb, VL): s.assign(st, b, ov); s.assign(st, o, vb); return None
        if isinstance(ov, VM) or isinstance(ov, Opq) and ov.kind == 'vecF':
            if name == 'length': return ov.len
            if name == 'kill': s.assign(st, o, Junk()); return None
        if isinstance(ov, Opq) or ov is None or isinstance(ov, Junk):
            cls = ov.kind if isinstance(ov, Opq) else None
            t = norm_type(qt(strip(ob)))
            for cname in ([cls] if cls else []):
                for c in AREG.all:
                    if c.cls == cname and c.name == name and len(c.names) == len(args): return s.apply(st, c, args, name, ov)
        if isinstance(o, Frag): s.dirty(st, o); return None
        raise Unsupported('method %s of %s' % (name, type(ov).__name__))
    # ------------------------------------------------------------ statements
    def stmt(s, st, n, depth=0):
        if n['kind'] in ('CompoundStmt',): return s.stmt1(st, n)
        snap = st.copy(); no, ne = len(s.obls), len(s.errs)
        try: return s.stmt1(st, n)
        except Split as e:
            if depth > 5: raise Unsupported('case splits')
            del s.obls[no:]; del s.errs[ne:]; out = []
            for g in (e.g, z3.Not(e.g)):
                t = snap.copy(); t.pc.append(g)
                if s.feasible(t): out += s.stmt(t, n, depth + 1)
            return out
    def stmt1(s, st, n):
        """returns [(kind, state, value)], kind in norm, ret, break, continue, err"""
        if time.time() > s.end: raise Unsupported('time budget')
        k = n['kind']; inn = n.get('inner', [])
        try:
            if k == 'CompoundStmt':
                cur = [st]; out = []
                for c in inn:
                    nxt = []
                    for t in cur:
                        for kk, u, v in s.stmt(t, c):
                            if kk == 'norm': nxt.append(u)
                            else: out.append((kk, u, v))
                    cur = nxt
                return out + [('norm', t, None) for t in cur]
            if k == 'DeclStmt':
                for d in inn:
                    if d['kind'] != 'VarDecl': continue
                    init = [x for x in d.get('inner', []) if x.get('kind')]; ty = parse_type(qt(d))
                    if ty[0] == 'other' and 'desugaredQualType' in d['type']: ty = parse_type(d['type']['desugaredQualType'])
                    if init:
                        x = s.lv(st, init[0])
                        if ty[0] == 'ref' and isinstance(x, (Loc, Frag)): st.env[d['id']] = x; continue
                        v = s.load(st, x)
                        if ty == 'Z' and v is not None: v = s.toint(v)
                        st.env[d['id']] = s.alloc(st, v)
                    else: st.env[d['id']] = s.alloc(st, s.default(deep(strip_ref(ty))))
                return [('norm', st, None)]
            if k == 'ReturnStmt':
                return [('ret', st, s.ev(st, inn[0]) if inn else None)]
            if k == 'IfStmt':
                c = s.tobool(s.ev(st, inn[0])); out = []
                for g, b in ((c, inn[1]), (z3.Not(c), inn[2] if len(inn) > 2 else None)):
                    t = st.copy(); t.pc.append(g)
                    if z3.is_false(z3.simplify(g)) or not s.feasible(t): continue
                    out += s.stmt(t, b) if b else [('norm', t, None)]
                return out
            if k in ('WhileStmt', 'ForStmt', 'DoStmt', 'CXXForRangeStmt'): return s.loop(st, n)
            if k == 'SwitchStmt': return s.switch(st, n)
            if k == 'BreakStmt': return [('break', st, None)]
            if k == 'ContinueStmt': return [('continue', st, None)]
            if k == 'NullStmt': return [('norm', st, None)]
            if k == 'CXXThrowExpr' or k == 'ExprWithCleanups' and inn and inn[0]['kind'] == 'CXXThrowExpr': return [('err', st, None)]
            s.lv(st, n)
            return [('norm', st, None)]
        except Err:
            return [('err', st, None)]
    def switch(s, st, n):
        v = s.toint(s.ev(st, n['inner'][0])); body = n['inner'][1]['inner']; flat = []; labels = []
        def put(c):
            while c['kind'] in ('CaseStmt', 'DefaultStmt'):
                if c['kind'] == 'CaseStmt': labels.append((s.toint(s.ev(st, c['inner'][0])), len(flat))); c = c['inner'][-1]
                else: labels.append((None, len(flat))); c = c['inner'][0]
            flat.append(c)
        for c in body: put(c)
        out = []; cs = [l for l, _ in labels if l is not None]
        def runfrom(t, i):
            r = []
            cur = [t]
            for c in flat[i:]:
                nxt = []
                for u in cur:
                    for kk, w, val in s.stmt(u, c):
                        if kk == 'norm': nxt.append(w)
                        elif kk == 'break': r.append(('norm', w, None))
                        else: r.append((kk, w, val))
                cur = nxt
            return r + [('norm', u, None) for u in cur]
        dflt = False
        for l, i in labels:
            t = st.copy(); t.pc.append(v == l if l is not None else z3.And(*[v != x for x in cs])); dflt |= l is None
            if s.feasible(t): out += runfrom(t, i)
        if not dflt:
            t = st.copy(); t.pc.append(z3.And(*[v != x for x in cs]))
            if s.feasible(t): out.append(('norm', t, None))
        return out
    def modified(s, st, n, acc, decls):
        """locations that a statement may modify (by name): None when unknown"""
        k = n.get('kind'); inn = n.get('inner', [])
        def base(e):
            e = strip(e)
            while e['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'ArraySubscriptExpr', 'MemberExpr', 'CXXOperatorCallExpr', 'CXXMemberCallExpr', 'MaterializeTemporaryExpr', 'UnaryOperator', 'CXXBindTemporaryExpr', 'ExprWithCleanups') and e.get('inner'):
                if e['kind'] == 'CXXOperatorCallExpr':
                    if len(e['inner']) < 2: break
                    e = strip(e['inner'][1])
                else: e = strip(e['inner'][0])
            return e['referencedDecl']['id'] if e['kind'] == 'DeclRefExpr' and 'referencedDecl' in e else None
        def whole(e): return strip_casts(e)['kind'] == 'DeclRefExpr'
        def mark(e):
            b = base(e)
            if b is not None: acc[b] = acc.get(b, False) or whole(e)
        if k in ('BinaryOperator', 'CompoundAssignOperator') and n['opcode'].endswith('=') and n['opcode'] not in ('==', '!=', '<=', '>='): mark(inn[0])
        elif k == 'UnaryOperator' and n['opcode'] in ('++', '--'): mark(inn[0])
        elif k == 'CXXOperatorCallExpr':
            cal = strip_casts(inn[0]); nm = cal.get('referencedDecl', {}).get('name', '')
            if nm.endswith('=') and nm not in ('operator==', 'operator!=', 'operator<=', 'operator>=') or nm in ('operator++', 'operator--'): mark(inn[1])
        elif k == 'CXXMemberCallExpr':
            me = strip_casts(inn[0])
            if me['kind'] == 'MemberExpr' and not qt(me['inner'][0]).startswith('const '): mark(me['inner'][0])
            for a in inn[1:]: 
                if a.get('valueCategory') == 'lvalue' and not qt(a).startswith('const '): mark(a)
        elif k == 'CallExpr':
            for a in inn[1:]:
                if a.get('valueCategory') == 'lvalue' and 'const' not in qt(a): mark(a)
        elif k == 'VarDecl' and inn and '&' in qt(n) and 'const' not in qt(n) and not n.get('name', '').startswith('__'): mark(inn[-1])   # a reference set up inside the loop: its target may be modified
        elif k == 'CXXForRangeStmt':
            ds = [d for x in inn if isinstance(x, dict) and x.get('kind') == 'DeclStmt' for d in x.get('inner', [])]
            if any('&' in qt(d) and 'const' not in qt(d) and not d.get('name', '').startswith('__') for d in ds):
                for d in ds:
                    if d.get('name', '').startswith('__range') and d.get('inner'): mark(d['inner'][-1])
        for c in inn:
            if isinstance(c, dict) and c.get('kind'): s.modified(st, c, acc, decls)
    def loop(s, st, n):
        k = n['kind']; inn = n['inner']
        if k == 'CXXForRangeStmt': init, cond, inc, body = None, None, None, n
        elif k == 'ForStmt':
            init, _, cond, inc, body = [x if x and x.get('kind') else None for x in inn]
        elif k == 'WhileStmt': init, cond, inc, body = None, inn[0], None, inn[1]
        else: raise Unsupported('do loop')
        if init:
            r = s.stmt(st, init)
            if len(r) != 1: raise Unsupported('loop initialization')
            st = r[0][1]
        acc = {}; s.modified(st, n, acc, {})
        ids = {d: w for d, w in acc.items() if d in st.env}
        names = {}
        for f in [s.func.node]: collect(f, names)
        name_of = {d: names.get(d, '?') for d in st.env}
        inv = s.c.loop if s.func is s.func0 else None
        def view(t):
            v = {}
            for d, x in t.env.items():
                if d in names: v[names[d]] = s.load(t, x)
            return v
        def havoc(t):
            for d, w in ids.items():
                x = t.env[d]
                if isinstance(x, Frag): s.dirty(t, x); continue
                if not isinstance(x, Loc): continue
                v = t.store[x.i]
                if isinstance(v, MX):
                    if w: r, c = s.int('rows'), s.int('cols'); t.pc += [r >= 0, c >= 0]
                    else: r, c = v.rows, v.cols
                    t.store[x.i] = s.fresh(t, r, c, None, names.get(d, 'h'))
                elif isinstance(v, VL): t.store[x.i] = s.vl(t, names.get(d, 'h'), None if w else v.len)
                elif isinstance(v, z3.ExprRef): t.store[x.i] = z3.Bool(s.name('b')) if z3.is_bool(v) else s.int(names.get(d, 'h'))
                elif isinstance(v, Opq) and not w: pass   # operations on opaque objects leave them unchanged
                else: t.store[x.i] = Junk()
        if s.func is s.func0:
            for b in getattr(s.c, 'blocks', ()):
                m = s.block(st, n, b, ids, names)
                if m is not None: return m
        entry = inv and cond is not None and {direction(inc), inv.dir} != {'u', 'd'} and inv_applies(inv, view(st))
        if not entry:
            for fn in (s.maploop, s.filterloop, s.gatherloop):
                m = fn(st, k, cond, inc, body, ids)
                if m is not None: return m
            # no invariant: the loop is summarized by forgetting what it may modify; it must not leave the function
            if contains(n, ('ReturnStmt', 'CXXThrowExpr', 'GotoStmt')): raise Unsupported('loop without invariant leaves the function')
            if ids: s.lost = True
            havoc(st); return [('norm', st, None)]
        s.loops += 1
        pre = view(st)
        inv(AE(s, st, pre, 'check', where='loop'), pre) if False else inv(mkE(s, st, 'check'), view(st), s.pre)
        t = st.copy(); havoc(t); inv(mkE(s, t, 'assume'), view(t), s.pre)
        out = []
        b = t.copy(); c = s.tobool(s.ev(b, cond)); b.pc.append(c)
        if s.feasible(b):
            for kk, u, v in s.stmt(b, body):
                if kk in ('norm', 'continue'):
                    if inc: s.lv(u, inc)
                    inv(mkE(s, u, 'check'), view(u), s.pre)
                elif kk == 'break': out.append(('norm', u, None))
                else: out.append((kk, u, v))
        e = t.copy(); c = s.tobool(s.ev(e, cond)); e.pc.append(z3.Not(c))
        if s.feasible(e): out.append(('norm', e, None))
        return out

    def block(s, st, n, b, ids, names):
        """statement contract b for the loop nest n"""
        rd = {}; reads_of(n, rd); inner = {}; collect(n, inner); decl = {}; decls_of(s.func.node, decl)
        free = {names[d]: d for d in rd if d in names and d not in inner}
        if set(free) != set(b.names) or any(d not in st.env for d in free.values()): return None
        locs = {}
        for nm, d in free.items():
            x = st.env[d]
            if not isinstance(x, Loc): return None
            locs[nm] = x
        vals = {nm: st.store[x.i] for nm, x in locs.items()}
        big = [x.i for nm, x in locs.items() if not isinstance(vals[nm], z3.ExprRef)]
        if len(big) != len(set(big)): return None
        f = Func(); g = s.func
        for a in Func.__slots__: setattr(f, a, getattr(g, a, None))
        f.name = g.name + ' (loop nest)'; f.cls = None; f.inits = []; f.body = n; f.type = 'void ()'; f.params = []; ctor = f.ctor = False
        for nm in b.names:
            d = free[nm]; t = norm_type(qt(decl[d])); ref = isinstance(parse_type(t), tuple); t = t.rstrip('&').replace('const ', '').strip()
            if d in ids and not ref: return None
            t = (t + ' &' if d in ids else 'const ' + t + ' &') if ref else t
            f.params.append(dict(decl[d], type={'qualType': t}))
        key = (n.get('id'), id(b))
        if key not in s.blk:
            from .verify import _verify, REG
            from .execu import Exec
            from .prover import Ctx
            from .ntl import Builtins
            r = Result(); c = C(f.name, [], b.names, b.spec, s.c.prop, s.c.file); c.key = (None, f.name, ())
            ctx = Ctx(8000); ctx.budget_end = s.end; bi = Builtins(); ex = Exec(s.prog, ctx, REG, bi); ex.func = f; ex.unred = False; ex.nounroll = False; ex.cfg = s.cfg
            try: _verify(ex, ctx, c, f, {}, r); ok = all(o.ok for o in ex.obls)
            except (Unsupported, MergeError) as e: ok = False; s.blkwhy = str(e)
            s.nq += ctx.nq; s.tz3 += ctx.tz3; s.lemmas |= bi.used; s.used_c |= ex.used_contracts; s.inl |= ex.inlined; s.loops += ex.loops
            s.blk[key] = ok
            if ok: s.obls += ex.obls
            elif os.environ.get('PMLV_DEBUG'): print('block', b.names, getattr(s, 'blkwhy', ''), [(o.kind, o.desc, o.detail[:600]) for o in ex.obls if not o.ok][:3])
        if not s.blk[key]: return None
        E = AE(s, st, vals, 'call', locs=locs, where='loop nest'); b.effect(E)
        for nm, v in E.out.items(): s.assign(st, locs[nm], v)
        return [('norm', st, None)]
    def counter(s, st, k, cond, inc, body):
        """(location, lo, hi) of a loop for (i = lo; i < hi; ++i) that only ends by its condition"""
        if k != 'ForStmt' or cond is None or inc is None: return None
        c = strip_casts(cond); i = strip_casts(inc)
        if c['kind'] != 'BinaryOperator' or c['opcode'] not in ('<', '!=') or i['kind'] != 'UnaryOperator' or i['opcode'] != '++': return None
        d = strip_casts(c['inner'][0]).get('referencedDecl', {}).get('id'); v = strip_casts(i['inner'][0]).get('referencedDecl', {}).get('id')
        if d is None or d != v or not isinstance(st.env.get(d), Loc): return None
        if contains(body, ('ReturnStmt', 'BreakStmt', 'ContinueStmt', 'CXXThrowExpr', 'GotoStmt')): return None
        kl = st.env[d].i; lo = st.store[kl]; hi = s.toint(s.ev(st, c['inner'][1]))
        if c['opcode'] == '!=' and not s.proves(st, lo <= hi): return None
        return d, kl, lo, hi
    def filterloop(s, st, k, cond, inc, body, ids):
        """for (i = lo; i < hi; ++i) if (g(i)) v.push_back(i): the increasing list of the i with g(i)"""
        m = s.counter(st, k, cond, inc, body)
        if m is None: return None
        d, kl, lo, hi = m; b = single(body)
        if b['kind'] != 'IfStmt' or len(b['inner']) != 2 or set(ids) - {d} and len(set(ids) - {d}) != 1: return None
        c = strip_casts(single(b['inner'][1]))
        if c['kind'] != 'CXXMemberCallExpr': return None
        me = strip_casts(c['inner'][0])
        if me['kind'] != 'MemberExpr' or me['name'] not in ('emplace_back', 'push_back') or len(c['inner']) != 2: return None
        v = strip_casts(me['inner'][0]).get('referencedDecl', {}).get('id'); x = st.env.get(v)
        if not isinstance(x, Loc) or not isinstance(st.store[x.i], VL) or not s.proves(st, st.store[x.i].len == 0): return None
        kk = s.int('k'); t = st.copy(); t.pc += [kk >= lo, kk < hi]; t.store[kl] = kk; g = s.tobool(s.ev(t, b['inner'][0])); a = s.toint(s.ev(t, c['inner'][1]))
        if any(t.store[y] is not w for y, w in st.store.items() if y != kl) or not s.proves(t, a == kk): return None
        G = lambda i: z3.substitute(g, (kk, i if isinstance(i, z3.ExprRef) else I(i)))
        n = s.int('n'); st.pc += [n >= 0, z3.Or(n <= hi - lo, n == 0)]
        r = s.vl(st, 'filt', n); r.inst = (lambda f, j: z3.Implies(z3.And(j >= 0, j < n), z3.And(f(j) >= lo, f(j) < hi, G(f(j)), z3.Implies(j > 0, f(j - 1) < f(j)))),)
        st.preds.append(('FILT', r, lo, hi, G)); st.store[x.i] = r; st.store[kl] = simp(z3.If(hi > lo, hi, lo)); s.loops += 1
        return [('norm', st, None)]
    def gatherloop(s, st, k, cond, inc, body, ids):
        """for (i = 0; i < hi; ++i) { a[i] = e(i); M[i].swap(B[r(i)]); }: elementwise definition of integer vectors, rows of M taken from B"""
        m = s.counter(st, k, cond, inc, body)
        if m is None: return None
        d, kl, lo, hi = m; todo = body['inner'] if body['kind'] == 'CompoundStmt' else [body]
        if not s.proves(st, lo == 0): return None
        kk = s.int('k'); t = st.copy(); t.pc += [kk >= lo, kk < hi]; t.store[kl] = kk; new = {}; P = []
        def idx(e):
            """(location, index) of an element expression"""
            e = strip_casts(e)
            if e['kind'] != 'CXXOperatorCallExpr' or strip_casts(e['inner'][0]).get('referencedDecl', {}).get('name') != 'operator[]': return None
            y = st.env.get(strip_casts(e['inner'][1]).get('referencedDecl', {}).get('id'))
            return (y.i, s.toint(s.ev(t, e['inner'][2]))) if isinstance(y, Loc) else None
        for c in todo:
            c = strip_casts(c); a = b = None; sw = False
            if c['kind'] == 'BinaryOperator' and c['opcode'] == '=': a, b = c['inner']
            elif c['kind'] == 'CXXOperatorCallExpr' and strip_casts(c['inner'][0]).get('referencedDecl', {}).get('name') == 'operator=': a, b = c['inner'][1:]
            elif c['kind'] == 'CXXMemberCallExpr' and strip_casts(c['inner'][0]).get('name') == 'swap': a, b = strip_casts(c['inner'][0])['inner'][0], c['inner'][1]; sw = True
            elif c['kind'] == 'CallExpr' and strip_casts(c['inner'][0]).get('referencedDecl', {}).get('name') == 'swap': a, b = c['inner'][1:]; sw = True
            if a is None: return None
            L = idx(a)
            if L is None or not s.proves(t, L[1] == kk) or L[0] in new: return None
            o = st.store[L[0]]
            if isinstance(o, VL) and not sw:
                s.oblige(t, kk < o.len, 'bounds', 'vector index in range'); e = s.toint(s.ev(t, b))
                if not s.proves(st, o.len == hi): return None
                new[L[0]] = VL(('map', s.name('g')), o.len, lambda j, e=e: z3.substitute(e, (kk, j if isinstance(j, z3.ExprRef) else I(j))))
            elif isinstance(o, MX):
                R = idx(b)
                if R is None or R[0] in new or R[0] == L[0]: return None
                B = st.store[R[0]]
                if not isinstance(B, MX) or not s.proves(st, z3.And(o.rows == hi, o.cols == B.cols)): return None
                s.oblige(t, z3.And(R[1] >= 0, R[1] < B.rows), 'bounds', 'row index in range')
                if sw:
                    # swapped rows: each source row is taken once (the indices are increasing)
                    if not any(p[0] == 'FILT' and s.proves(t, R[1] == p[1].f(kk)) for p in st.preds): return None
                    new[R[0]] = s.fresh(st, B.rows, B.cols, None, 'd')
                g = s.fresh(st, o.rows, o.cols, B.len, 'rows'); new[L[0]] = g; P.append(('GATHER', g, B, lambda j, e=R[1]: z3.substitute(e, (kk, j if isinstance(j, z3.ExprRef) else I(j)))))
            else: return None
        # no statement may read what the loop writes
        rd = {}
        for c in todo: reads_of(c, rd)
        for y in new:
            ds = [q for q, x in st.env.items() if isinstance(x, Loc) and x.i == y]
            if sum(rd.get(q, 0) for q in ds) != 1: return None
        for y, v in new.items(): st.store[y] = v
        st.preds += P; st.store[kl] = simp(z3.If(hi > lo, hi, lo)); s.loops += 1
        return [('norm', st, None)]
    def maploop(s, st, k, cond, inc, body, ids):
        """for (k = lo; k < hi; ++k) whose body only replaces element k of vectors of matrices: an elementwise map"""
        if k != 'ForStmt' or cond is None or inc is None: return None
        c = strip_casts(cond); i = strip_casts(inc)
        if c['kind'] != 'BinaryOperator' or c['opcode'] not in ('<', '!=') or i['kind'] != 'UnaryOperator' or i['opcode'] != '++': return None
        l = strip_casts(c['inner'][0]); d = l.get('referencedDecl', {}).get('id'); v = strip_casts(i['inner'][0]).get('referencedDecl', {}).get('id')
        if d is None or d != v or not isinstance(st.env.get(d), Loc): return None
        if contains(body, ('ReturnStmt', 'BreakStmt', 'ContinueStmt', 'CXXThrowExpr', 'GotoStmt')): return None
        kl = st.env[d].i; lo = st.store[kl]; hi = s.toint(s.ev(st, c['inner'][1]))
        if c['opcode'] == '!=' and not s.proves(st, lo <= hi): return None
        others = [x for x in ids if x != d]
        def isv(v): return isinstance(v, VM) or isinstance(v, Opq) and getattr(v, 'f', None) is not None
        if not others or not all(isinstance(st.env[x], Loc) and isv(st.store[st.env[x].i]) for x in others): return None
        snap = st.copy()
        def run(base, kk):
            t = snap.copy(); t.pc = list(base.pc) + [kk >= lo, kk < hi]; t.rules = list(base.rules); t.preds = list(base.preds); t.store[kl] = kk; s.reads = []
            rs = s.stmt(t, body)
            if len(rs) != 1 or rs[0][0] != 'norm': raise Unsupported('map loop with several paths')
            return rs[0][1]
        kk = s.int('k'); u = run(snap, kk)
        locs = [st.env[x].i for x in others]
        for x, w in st.store.items():
            if x != kl and x not in locs and u.store[x] is not w: raise Unsupported('map loop with other effects')
        if not z3.eq(simp(u.store[kl]), kk): return None
        for x in locs:
            o, w = st.store[x], u.store[x]
            if not isv(w): return None
            if any(not s.proves(u, j == kk) for j, _ in w.w[len(o.w):]) or any(y == x and not s.proves(u, j == kk) for y, j in s.reads): return None
        for x in locs:
            def f(ex, t, j, x=x, o=st.store[x]):
                if ex.proves(t, z3.And(j >= lo, j < hi)):
                    no = len(ex.obls); ne = len(ex.errs)
                    try: w = run(t, j)
                    finally: del ex.obls[no:]; del ex.errs[ne:]
                    t.pc[:] = w.pc; t.rules[:] = w.rules
                    return w.store[x].f(ex, t, j)
                if ex.proves(t, z3.Or(j < lo, j >= hi)): return o.f(ex, t, j)
                raise Split(z3.And(j >= lo, j < hi))
            o = st.store[x]; st.store[x] = VM(o.len, o.rows, o.cols, f) if isinstance(o, VM) else Opq('vecF', name=s.name('v'), len=o.len, ratio=None, f=f, w=())
        st.store[kl] = simp(z3.If(hi > lo, hi, lo)); s.loops += 1
        return [('norm', st, None)]

def single(n):
    while n['kind'] == 'CompoundStmt' and len(n.get('inner', [])) == 1: n = n['inner'][0]
    return n
def reads_of(n, acc):
    if n.get('kind') == 'DeclRefExpr' and 'referencedDecl' in n: d = n['referencedDecl']['id']; acc[d] = acc.get(d, 0) + 1
    for c in n.get('inner', []):
        if isinstance(c, dict): reads_of(c, acc)
def mkE(ex, st, mode): return AE(ex, st, {}, mode, where='loop')
def inv_applies(inv, view):
    return all(v in view and view[v] is not None for v in getattr(inv, 'vars', ()))
def direction(inc):
    """'u' for a loop counting up, 'd' for one counting down, '-' otherwise"""
    if not inc: return '-'
    o = strip(inc).get('opcode', ''); return 'u' if o in ('++', '+=') else 'd' if o in ('--', '-=') else '-'
def invariant(*vars, dir='-'):
    """loop invariant over the named variables, for a loop in the given direction"""
    def deco(f): f.vars = vars; f.dir = dir; return f
    return deco
class Err(Exception): pass
class Split(Exception):
    """case distinction needed: the statement is executed once under the condition and once under its negation"""
    def __init__(s, g): s.g = g
def sub(w, l):
    n = len(l)
    if not n: return -1
    for i in range(len(w) - n + 1):
        if w[i:i + n] == l: return i
    return -1
def strip_casts(e):
    e = strip(e)
    while e['kind'] in ('ImplicitCastExpr', 'ParenExpr') and e.get('inner'): e = strip(e['inner'][0])
    return e
def contains(n, kinds):
    if n.get('kind') in kinds: return True
    return any(contains(c, kinds) for c in n.get('inner', []) if isinstance(c, dict))
def decls_of(n, acc):
    if n.get('kind') in ('VarDecl', 'ParmVarDecl'): acc[n['id']] = n
    for c in n.get('inner', []):
        if isinstance(c, dict): decls_of(c, acc)
def collect(n, names):
    if n.get('kind') in ('VarDecl', 'ParmVarDecl') and 'name' in n: names[n['id']] = n['name']
    for c in n.get('inner', []):
        if isinstance(c, dict): collect(c, names)

def verify_alg(prog, c, cfg, timeout_ms=8000, budget=None):
    import traceback
    t0 = time.time(); r = Result(); f = find_func(prog, c)
    if f is None: r.status = 'missing'; r.why = 'no definition of %r in the current source' % c; return r
    ex = AX(prog, c, budget or c.budget); ex.func = ex.func0 = f; ex.cfg = ','.join('%s is %s' % kv for kv in sorted(cfg.items()))
    try: _run(ex, c, f, cfg, r)
    except Unsupported as e: r.status = 'undecided'; r.why = 'Unsupported: %s' % e
    except (KeyError, AttributeError, TypeError, IndexError, ValueError, z3.Z3Exception, RecursionError, AssertionError) as e:
        r.status = 'undecided'; r.why = 'internal: ' + ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]
    r.obls = ex.obls
    if r.status == 'ok' and any(not o.ok for o in r.obls):
        r.status = 'failed'
        if ex.nto or c.aux or ex.lost:
            # time-out, auxiliary contract, or a loop without invariant: no evidence against the code
            r.status = 'undecided'; r.why = 'not discharged: ' + '; '.join(o.desc for o in r.obls if not o.ok)[:300]
    r.time = time.time() - t0; r.nq = ex.nq; r.tz3 = ex.tz3; r.ring = ex.ring; r.used = {x for x in ex.lemmas}; r.contracts = ex.used_c; r.inlined = ex.inl; r.loops = ex.loops
    return r

def _run(ex, c, f, cfg, r):
    st = St(); pre = {}; locs = {}
    for nm, p in zip(c.names, f.params):
        ty = parse_type(qt(p))
        if ty[0] == 'other' and 'desugaredQualType' in p['type']: ty = parse_type(p['type']['desugaredQualType'])
        b = cfg.get(nm, nm); isref = ty[0] == 'ref'; t = deep(strip_ref(ty))
        if isref and b in locs: x = locs[b]
        else:
            v = ex.input(st, parse_type('unsigned long') if ty == 'U' else t, b); x = ex.alloc(st, v)
            if isref: locs[b] = x
        if isref: locs[nm] = x
        st.env[p['id']] = x; pre[nm] = st.store[x.i]
    ex.pre = pre; prest = dict(st.store)
    E = AE(ex, st, pre, 'pre'); c.fn(E); rai = E.rai; touched = E.touched
    if not ex.feasible(st): raise Unsupported('vacuous precondition')
    ex.rec('vacuity', 'precondition is satisfiable (not refuted)', True)
    nok = 0
    rs = ex.stmt(st.copy(), f.body)
    for k, t, v in rs:
        if k == 'err': ex.errs.append(t); continue
        if k not in ('norm', 'ret'): raise Unsupported('control flow at end')
        if not ex.feasible(t): continue
        nok += 1; r.paths += 1
        final = {nm: t.store[x.i] for nm, x in locs.items()}
        if rai:
            g = z3.Not(z3.Or(*rai)); ex.oblige(t, g, 'raises', 'no normal return when the documented error condition holds'); t.pc.append(g)
            if not ex.feasible(t): continue
        todo = [t]; n = 0
        while todo:
            t = todo.pop(); n += 1; no = len(ex.obls); snap = t.copy()
            if n > 30: raise Unsupported('case splits')
            try: E = AE(ex, t, pre, 'post', final=final, ret=v); c.fn(E)
            except Split as e:
                del ex.obls[no:]
                for g in (e.g, z3.Not(e.g)):
                    u = snap.copy(); u.pc.append(g)
                    if ex.feasible(u): todo.append(u)
        for nm, x in locs.items():
            if any(locs[m].i == x.i and m in E.touched for m in locs): continue
            a, b = prest[x.i], t.store[x.i]
            if a is b: continue
            if isinstance(a, MX) and isinstance(b, MX): ex.eqmod(t, a.el, b.el, None, 'frame', 'frame: %s unchanged' % nm)
            elif isinstance(a, VL) and isinstance(b, VL): ex.rec('frame', 'frame: %s unchanged' % nm, a.term == b.term)
            else: ex.rec('frame', 'frame: %s unchanged' % nm, False)
    for t in ex.errs:
        if not ex.feasible(t): continue
        ex.oblige(t, z3.Or(*rai) if rai else z3.BoolVal(False), 'raises', 'an error is raised only under the documented condition')
    if nok == 0: raise Unsupported('no feasible normal path')
