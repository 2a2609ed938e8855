"""Third layer of the verifier: classical verification conditions with explicit loop invariants.

For functions that shuffle polynomials inside vectors (subproduct trees, Chinese remaindering): integers are z3 integers, polynomials are
elements of an uninterpreted sort with the ring operations and remainders as functions, vectors are z3 arrays with a length. Loop
invariants are given in the contract as formulas over the program's variables; every invariant is checked on entry and after the body,
callers see contracts only, and the algebraic facts used about polynomials are listed as lemmas. Same clang AST as the other layers."""
import z3, time, traceback, os
from .front import parse_type, norm_type, split_targs
from .execu import Obl, strip, qt
from .verify import C, argtypes, deep, strip_ref, find_func, Result
from .alg import strip_casts, collect, contains, direction
from .prover import Unsupported
PS = z3.DeclareSort('Poly'); I = z3.IntVal; IS = z3.IntSort(); AP = z3.ArraySort(IS, PS); AAP = z3.ArraySort(IS, AP); AI = z3.ArraySort(IS, IS)
KS = z3.DeclareSort('K'); AK = z3.ArraySort(IS, KS); K0 = z3.Const('K0', KS); K1 = z3.Const('K1', KS); ZERO = z3.Const('ZERO', PS)
MS = z3.DeclareSort('MatF'); QS = z3.DeclareSort('MatP'); AM = z3.ArraySort(IS, MS)   # matrices over F_p, polynomial matrices
RL = 40000000
def fn(name, *sorts): return z3.Function(name, *sorts)
MUL = fn('MUL', PS, PS, PS); ADD = fn('ADD', PS, PS, PS); SUB = fn('SUB', PS, PS, PS); REM = fn('REM', PS, PS, PS); INVM = fn('INVM', PS, PS, PS); DIFF = fn('DIFF', PS, PS)
DEG = fn('DEG', PS, IS); NZ = fn('NZ', PS, z3.BoolSort()); COPR = fn('COPR', PS, PS, z3.BoolSort())
KMUL = fn('KMUL', KS, KS, KS); KNEG = fn('KNEG', KS, KS); KINV = fn('KINV', KS, KS); EV = fn('EV', PS, KS, KS); CO = fn('CO', PS, IS, KS); SETC = fn('SETC', PS, IS, KS, PS); LIN = fn('LIN', KS, PS); KADD = fn('KADD', KS, KS, KS)
REV = fn('REV', PS, IS, PS); INVT = fn('INVT', PS, IS, PS); MULT = fn('MULT', PS, PS, IS, PS)
MMUL = fn('MMUL', MS, MS, MS); MADD = fn('MADD', MS, MS, MS); MNEG = fn('MNEG', MS, MS); MINV = fn('MINV', MS, MS); MUNIT = fn('MUNIT', MS, z3.BoolSort()); MZ = fn('MZ', MS, z3.BoolSort()); MROWS = fn('MROWS', MS, IS); MCOLS = fn('MCOLS', MS, IS)
MSC = fn('MSC', MS, KS, MS)
QCO = fn('QCO', QS, IS, MS); QDEG = fn('QDEG', QS, IS); QROWS = fn('QROWS', QS, IS); QCOLS = fn('QCOLS', QS, IS)
RLEN = fn('RLEN', PS, IS); ISN = fn('ISN', PS, z3.BoolSort()); SETR = fn('SETR', PS, IS, KS, PS); NORM = fn('NORM', PS, PS); RESZ = fn('RESZ', PS, IS, PS)   # coefficient vector of a polynomial: length, writing an entry, normalization, changing the length
def raw_ax():
    p = z3.Const('p', PS); i, j, n = z3.Ints('i j n'); k = z3.Const('k', KS); F = z3.ForAll
    return [('the length of a coefficient vector is nonnegative', F([p], RLEN(p) >= 0, patterns=[RLEN(p)])),
            ('writing one coefficient', F([p, j, k, i], CO(SETR(p, j, k), i) == z3.If(i == j, k, CO(p, i)), patterns=[CO(SETR(p, j, k), i)])), ('writing keeps the length', F([p, j, k], RLEN(SETR(p, j, k)) == RLEN(p), patterns=[SETR(p, j, k)])),
            ('changing the length', F([p, n], RLEN(RESZ(p, n)) == n, patterns=[RESZ(p, n)])), ('a changed length keeps the old coefficients', F([p, n, i], imp_(z3.And(i >= 0, i < n, i < RLEN(p)), CO(RESZ(p, n), i) == CO(p, i)), patterns=[CO(RESZ(p, n), i)])),
            ('the result of normalize is normalized', F([p], ISN(NORM(p)), patterns=[NORM(p)])), ('normalization', F([p, i], CO(NORM(p), i) == z3.If(z3.And(i >= 0, i < RLEN(p)), CO(p, i), K0), patterns=[CO(NORM(p), i)]))]
def poly_ax(a):
    """facts about a given normalized polynomial"""
    i = z3.Int('i'); return [DEG(a) >= -1, RLEN(a) == DEG(a) + 1, NZ(a) == (DEG(a) >= 0), z3.ForAll([i], z3.Implies(z3.Or(i < 0, i > DEG(a)), CO(a, i) == K0), patterns=[CO(a, i)])]
def imp_(a, b): return z3.Implies(a, b)
class Raw:
    """pointer to the coefficients of the polynomial at a place"""
    def __init__(s, ref): s.ref = ref; s.key = ref.key; s.path = ref.path
class z3term:
    def __init__(s, t): s.t = t
class RawEl:
    def __init__(s, ref, i): s.ref = ref; s.i = i
class Rep:
    """the coefficient vector (rep) of the polynomial at a place"""
    def __init__(s, ref): s.ref = ref
BS = z3.DeclareSort('Biv'); BZ = fn('BZ', BS, z3.BoolSort()); BDX = fn('BDX', BS, IS); BMUL = fn('BMUL', BS, BS, BS); B0 = z3.Const('B0', BS); KR = fn('KR', BS, IS, PS); UNKR = fn('UNKR', PS, IS, BS); BIV = ('rec', 'zz_pXY')   # bivariate polynomials
def sort_type(v): return {FS: FFT, BS: BIV, IS: 'Z', PS: 'P', KS: 'F', MS: ('mat', 'F'), QS: ('mat', 'P'), z3.BoolSort(): 'B'}[v.sort()]
def axioms():
    a, b, f = z3.Consts('a b f', PS); x, y = z3.Consts('x y', KS); A = z3.ForAll
    return [('(f mod ab) mod a = f mod a', A([f, a, b], REM(REM(f, MUL(a, b)), a) == REM(f, a), patterns=[REM(REM(f, MUL(a, b)), a)])),
            ('(f mod ab) mod b = f mod b', A([f, a, b], REM(REM(f, MUL(a, b)), b) == REM(f, b), patterns=[REM(REM(f, MUL(a, b)), b)])),
            ('(f mod a) mod a = f mod a', A([f, a], REM(REM(f, a), a) == REM(f, a), patterns=[REM(REM(f, a), a)])),
            ('ab is nonzero exactly when a and b are', A([a, b], NZ(MUL(a, b)) == z3.And(NZ(a), NZ(b)), patterns=[NZ(MUL(a, b)), MUL(a, b)])),
            ('multiplication is commutative', A([a, b], MUL(a, b) == MUL(b, a), patterns=[MUL(a, b)])),
            ('multiplication in F_p is commutative', A([x, y], KMUL(x, y) == KMUL(y, x), patterns=[KMUL(x, y)])),
            ('addition is commutative', A([a, b], ADD(a, b) == ADD(b, a), patterns=[ADD(a, b)]))]
def has_q(g):
    if z3.is_quantifier(g): return True
    return any(has_q(c) for c in g.children()) if z3.is_and(g) or z3.is_or(g) or z3.is_not(g) or z3.is_implies(g) else False
class VP:
    """vector of polynomials"""
    def __init__(s, ln, a): s.len = ln; s.a = a; s.fresh = False
    def ty(s): return ('vec', 'F' if s.a.sort().range() == KS else ('mat', 'F') if s.a.sort().range() == MS else 'P')
    def __getitem__(s, i): return z3.Select(s.a, i)
class VV:
    """vector of vectors of polynomials"""
    def __init__(s, ln, lens, a): s.len = ln; s.lens = lens; s.a = a
    def n(s, i): return z3.Select(s.lens, i)
    def at(s, i, j): return z3.Select(z3.Select(s.a, i), j)
class VM(VV):
    """matrix of polynomials, by entries"""
    def __init__(s, rows, cols, a): VV.__init__(s, rows, z3.K(IS, cols), a); s.cols = cols
    def n(s, i): return s.cols
class MF:
    """matrix of scalars, by entries"""
    def __init__(s, rows, cols, a): s.len = rows; s.cols = cols; s.a = a
class VMF:
    """vector of matrices of scalars, by entries"""
    def __init__(s, ln, rows, cols, a): s.len = ln; s.rows = rows; s.cols = cols; s.a = a
    def r(s, k): return z3.Select(s.rows, k)
    def c(s, k): return z3.Select(s.cols, k)
    def at(s, k, i, j): return z3.Select(z3.Select(z3.Select(s.a, k), i), j)
AAK = z3.ArraySort(IS, AK); AAAK = z3.ArraySort(IS, AAK); MDEG = z3.Function('MDEG', AAP, IS, IS, IS)   # degree of a matrix given by entries
def vv(v, ln, lens, a): return VM(ln, v.cols, a) if isinstance(v, VM) else VV(ln, lens, a)
def vty(v): return ('vec', ('mat', 'F')) if isinstance(v, VMF) else sort_type(v) if isinstance(v, z3.ExprRef) else v.ty() if isinstance(v, VP) else ('mat', 'P') if isinstance(v, VM) else ('vec', ('vec', 'P'))
FS = z3.DeclareSort('FftRep'); FFT = ('rec', 'fftRep'); FP = fn('FP', FS, PS); FK = fn('FK', FS, IS); FR = fn('FR', PS, IS, FS); NPT = fn('NPT', IS, IS); POW2 = fn('POW2', IS, IS)   # FFT representations: polynomial and size; NextPowerOfTwo
def fft_ax():
    p, q = z3.Consts('p q', PS); k, i, n = z3.Ints('k i n'); A = z3.ForAll
    return [('2^NextPowerOfTwo(x) >= x', A([k], z3.And(NPT(k) >= 0, POW2(NPT(k)) >= k), patterns=[NPT(k)])), ('an FFT representation of size k determines polynomials of degree < 2^k', A([p, k], z3.And(FP(FR(p, k)) == p, FK(FR(p, k)) == k), patterns=[FR(p, k)])),
            ('degree of a product', A([p, q], z3.And(DEG(MUL(p, q)) >= -1, DEG(MUL(p, q)) <= z3.If(z3.Or(DEG(p) < 0, DEG(q) < 0), -1, DEG(p) + DEG(q))), patterns=[MUL(p, q)])),
            ('no coefficient of a product beyond its degree', A([p, q, i], z3.Implies(i > DEG(MUL(p, q)), CO(MUL(p, q), i) == K0), patterns=[CO(MUL(p, q), i)])), ('degree after normalization', A([p], z3.And(DEG(NORM(p)) < RLEN(p), DEG(NORM(p)) >= -1), patterns=[NORM(p)]))]
QUO = z3.Function('QUO', IS, IS, IS)   # quotient of nonnegative by positive integers
class Ref:
    """place: variable key and index path"""
    def __init__(s, key, path=()): s.key = key; s.path = tuple(path)
class St:
    def __init__(s): s.pc = []; s.v = {}; s.env = {}
    def copy(s): t = St(); t.pc = list(s.pc); t.v = dict(s.v); t.env = dict(s.env); return t
class HReg:
    def __init__(s): s.by = {}; s.all = []
HREG = HReg()
class HC(C):
    def __init__(s, *a, loops=(), dirs='', lemma=(), fields=None, theory=None, aliased=False, result=None, entries=False, **k): C.__init__(s, *a, **k); s.aliased = aliased; s.result = result; s.theory = theory; s.entries = entries; s.loops = tuple(loops); s.dirs = dirs; s.lemma = tuple(lemma); s.fields = fields or {}; s.trust = ''
def _hrepr(s):
    from .verify import REG
    return C.__repr__(s) + (' [explicit invariants]' if s.key in REG.by else '')
HC.__repr__ = _hrepr
def hcontract(sig, names, prop, file, cls=None, assumed=False, **kw):
    i = sig.index('('); nm = sig[:i].strip(); types = split_targs(sig[i + 1:sig.rindex(')')])
    def deco(f):
        c = HC(nm, types, names, f, prop, file, cls, **kw); c.assumed = assumed; c.alg = False; c.hoare = True; HREG.by[(c.cls, c.name, len(c.names))] = c; HREG.all.append(c); return f
    return deco
class HE:
    """contract environment: pre/post values by name; mode 'pre', 'post' (callee) or 'call'"""
    def __init__(s, ex, st, old, new, mode, ret=None): s.ex = ex; s.st = st; s.old = old; s.new = new; s.mode = mode; s.ret = ret; s.sets = set()
    def requires(s, g, d=''):
        if s.mode == 'call': s.ex.oblige(s.st, g, 'pre', 'precondition: ' + d); s.st.pc.append(g)
        elif s.mode == 'pre': s.st.pc.append(g)
    def assigns(s, *names): s.sets |= set(names)
    def ensures(s, g, d='postcondition'):
        if s.mode == 'call': s.st.pc.append(g() if callable(g) else g)
        elif s.mode == 'post':
            g = g() if callable(g) else g
            s.ex.oblige(s.st, g, 'post', d)
    def lemma(s, text): s.ex.lemmas.add('lemma: ' + text)

class HX:
    def __init__(s, prog, c, budget): s.prog = prog; s.c = c; s.obls = []; s.k = 0; s.nq = 0; s.tz3 = 0; s.nto = 0; s.lemmas = set(); s.used_c = set(); s.end = time.time() + budget; s.ax = axioms() + (c.theory() if c.theory else []); s.loopn = 0; s.loops = 0; s.fname = ''; s.usedntl = set()
    def name(s, p): s.k += 1; return '%s!%d' % (p, s.k)
    def proves(s, st, g, rl=None):
        if time.time() > s.end: raise Unsupported('time budget')
        # deterministic resource limit instead of a time-out: the verdict does not depend on the load of the machine
        S = z3.SimpleSolver(); S.set('rlimit', rl or RL); S.set('smt.mbqi', False); S.add(*[a for _, a in s.ax]); S.add(*st.pc); S.add(z3.Not(g)); t = time.time(); r = S.check(); s.tz3 += time.time() - t; s.nq += 1
        if os.environ.get('PMLV_RL'): print('RL', S.statistics().get_key_value('rlimit count'), '%.2f' % (time.time() - t), r)
        return r == z3.unsat
    def oblige(s, st, g, kind, d):
        ok = s.proves(st, g); s.obls.append(Obl(kind, d, s.fname, ok, '' if ok else 'goal: %s' % str(g)[:600], '')); return ok
    def feasible(s, st):
        # quantifier-free part only: a path kept by mistake only adds obligations
        S = z3.SimpleSolver(); S.set('rlimit', 1000000); S.add(*[g for g in st.pc if not has_q(g)]); s.nq += 1; return S.check() != z3.unsat
    # ---- values
    def fresh(s, st, ty, nm):
        n = s.name(nm)
        if ty in ('Z', 'U'):
            v = z3.Int(n)
            if ty == 'U': st.pc.append(v >= 0)
            return v
        if ty == 'B': return z3.Bool(n)
        if ty == 'P': return z3.Const(n, PS)
        if ty == 'F': return z3.Const(n, KS)
        if ty == BIV: return z3.Const(n, BS)
        if ty == FFT: return z3.Const(n, FS)
        if ty == ('mat', 'F'): v = z3.Const(n, MS); st.pc += [MROWS(v) >= 0, MCOLS(v) >= 0]; return v
        if ty == ('mat', 'P') and s.c.entries: l, q = z3.Int('rows_' + n), z3.Int('cols_' + n); st.pc += [l >= 0, q >= 0]; return VM(l, q, z3.Const(n, AAP))
        if ty == ('mat', 'P'): v = z3.Const(n, QS); st.pc += [QROWS(v) >= 0, QCOLS(v) >= 0]; return v
        if ty == ('vec', ('mat', 'F')) and s.c.entries:
            l = z3.Int('len_' + n); v = VMF(l, z3.Const('rows_' + n, AI), z3.Const('cols_' + n, AI), z3.Const(n, AAAK)); k = z3.Int(s.name('k')); st.pc += [l >= 0, z3.ForAll([k], z3.And(v.r(k) >= 0, v.c(k) >= 0), patterns=[v.r(k), v.c(k)])]; return v
        if ty == ('vec', ('mat', 'F')): l = z3.Int('len_' + n); st.pc.append(l >= 0); return VP(l, z3.Const(n, AM))
        if ty == ('vec', 'F'): l = z3.Int('len_' + n); st.pc.append(l >= 0); return VP(l, z3.Const(n, AK))
        if ty == ('vec', 'P'): l = z3.Int('len_' + n); st.pc.append(l >= 0); return VP(l, z3.Const(n, AP))
        if ty == ('vec', ('vec', 'P')): l = z3.Int('len_' + n); st.pc.append(l >= 0); return VV(l, z3.Const('lens_' + n, AI), z3.Const(n, AAP))
        raise Unsupported('type %s' % (ty,))
    def default(s, st, ty):
        v = s.fresh(st, ty, 'd')
        if isinstance(v, (VP, VV)): st.pc.append(v.len == 0)
        if isinstance(v, VP): v.fresh = True
        return v
    def get(s, st, x):
        if isinstance(x, RawEl): return CO(s.get(st, x.ref), x.i)
        if not isinstance(x, Ref): return x
        v = st.v[x.key]
        if not x.path: return v
        if isinstance(v, VP): return v[x.path[0]]
        if isinstance(v, VMF):
            k = x.path[0]; m = z3.Select(v.a, k)
            if len(x.path) == 1: return MF(v.r(k), v.c(k), m)
            return VP(v.c(k), z3.Select(m, x.path[1])) if len(x.path) == 2 else v.at(*x.path)
        if len(x.path) == 2: return v.at(*x.path)
        return VP(v.n(x.path[0]), z3.Select(v.a, x.path[0]))
    def put(s, st, x, w):
        if isinstance(x, RawEl):
            if z3.is_int_value(w) and w.as_long() in (0, 1): w = K1 if w.as_long() else K0
            if w.sort() != KS: raise Unsupported('coefficient value')
            s.put(st, x.ref, SETR(s.get(st, x.ref), x.i, w)); return
        if not isinstance(x, Ref): raise Unsupported('assignment to a temporary')
        v = st.v[x.key]; p = x.path
        if not p: st.v[x.key] = w
        elif isinstance(v, VP): st.v[x.key] = VP(v.len, z3.Store(v.a, p[0], w))
        elif isinstance(v, VMF):
            k = p[0]
            if len(p) == 1: st.v[x.key] = VMF(v.len, z3.Store(v.rows, k, w.len), z3.Store(v.cols, k, w.cols), z3.Store(v.a, k, w.a))
            elif len(p) == 3: m = z3.Select(v.a, k); st.v[x.key] = VMF(v.len, v.rows, v.cols, z3.Store(v.a, k, z3.Store(m, p[1], z3.Store(z3.Select(m, p[1]), p[2], w))))
            else: raise Unsupported('assignment of a row')
        elif len(p) == 2: st.v[x.key] = vv(v, v.len, v.lens, z3.Store(v.a, p[0], z3.Store(z3.Select(v.a, p[0]), p[1], w)))
        elif isinstance(v, VM): raise Unsupported('assignment of a row')
        else: st.v[x.key] = VV(v.len, z3.Store(v.lens, p[0], w.len), z3.Store(v.a, p[0], w.a))
    def length(s, v): return v.len
    # ---- expressions
    def ev(s, st, n): return s.get(st, s.lv(st, n))
    def int(s, v):
        if z3.is_bool(v): return z3.If(v, I(1), I(0))
        return v
    def bool(s, v): return v if z3.is_bool(v) else v != 0
    def lv(s, st, n):
        k = n['kind']; inn = [x for x in n.get('inner', []) if x.get('kind')]
        if k in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr', 'ImplicitCastExpr', 'CXXFunctionalCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr'):
            x = s.lv(st, inn[0])
            if n.get('castKind') == 'IntegralToBoolean': return s.bool(s.get(st, x))
            return x
        if k == 'IntegerLiteral': return I(int(n['value']))
        if k == 'CXXBoolLiteralExpr': return z3.BoolVal(bool(n['value']))
        if k == 'DeclRefExpr':
            d = n['referencedDecl']['id']
            if d in st.env: return st.env[d]
            raise Unsupported('name %s' % n['referencedDecl'].get('name'))
        if k == 'CXXThisExpr': return ('this',)
        if k == 'MemberExpr':
            if strip_casts(inn[0])['kind'] == 'CXXThisExpr' and 'this.' + n['name'] in st.v: return Ref('this.' + n['name'])
            if n['name'] == 'rep' and deep(strip_ref(parse_type(qt(inn[0])))) == 'P':
                x = s.lv(st, inn[0])
                if isinstance(x, Ref): return Rep(x)
            raise Unsupported('member ' + n['name'])
        if k == 'ArraySubscriptExpr':
            x = s.lv(st, inn[0]); i = s.ev(st, inn[1])
            if not isinstance(x, Raw): raise Unsupported('subscript')
            s.oblige(st, z3.And(i >= 0, i < RLEN(s.get(st, x.ref))), 'bounds', 'index in range'); return RawEl(x.ref, i)
        if k == 'UnaryOperator':
            op = n['opcode']
            if op == '&': return ('addr', s.lv(st, inn[0]))
            if op in ('++', '--'):
                x = s.lv(st, inn[0]); v = s.get(st, x); w = v + 1 if op == '++' else v - 1; s.put(st, x, w); return v if n.get('isPostfix') else w
            v = s.ev(st, inn[0])
            if op == '!': return z3.Not(s.bool(v))
            if op == '-': return -s.int(v)
            raise Unsupported('operator ' + op)
        if k == 'BinaryOperator':
            op = n['opcode']
            if op == '=': x = s.lv(st, inn[0]); s.put(st, x, s.ev(st, inn[1])); return x
            a, b = s.ev(st, inn[0]), s.ev(st, inn[1])
            if op in ('==', '!=') and isinstance(a, tuple) and isinstance(b, tuple):   # addresses of whole variables
                if not all(isinstance(x[1], Ref) and not x[1].path for x in (a, b)): raise Unsupported('address')
                return z3.BoolVal((a[1].key == b[1].key) == (op == '=='))
            if op == '&&': return z3.And(s.bool(a), s.bool(b))
            if op == '||': return z3.Or(s.bool(a), s.bool(b))
            return s.arith(st, op, s.int(a), s.int(b))
        if k == 'CompoundAssignOperator':
            x = s.lv(st, inn[0]); s.put(st, x, s.arith(st, n['opcode'][:-1], s.int(s.get(st, x)), s.int(s.ev(st, inn[1])))); return x
        if k == 'ConditionalOperator': return z3.If(s.bool(s.ev(st, inn[0])), s.ev(st, inn[1]), s.ev(st, inn[2]))
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            ty = deep(strip_ref(parse_type(qt(n)))); a = [x for x in inn if x['kind'] != 'CXXDefaultArgExpr']
            if not a: return s.default(st, ty)
            if len(a) == 1: return s.ev(st, a[0])
            ds = [s.ev(st, x) for x in a if 'INIT_SIZE' not in str(x.get('type'))]
            if ty in (('vec', 'P'), ('vec', 'F')) and len(ds) == 1: v = s.fresh(st, ty, 'v'); st.pc.append(v.len == ds[0]); return v
            if ty == FFT and len(ds) == 1: s.oblige(st, ds[0] >= 0, 'pre', 'nonnegative size'); return FR(z3.Const(s.name('p'), PS), ds[0])
            raise Unsupported('constructor')
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'): return s.call(st, n, inn)
        raise Unsupported('expression ' + k)
    def arith(s, st, op, a, b):
        if op in '+-*' and len(op) == 1: return {'+': a + b, '-': a - b, '*': a * b}[op]
        if op in ('<', '>', '<=', '>=', '==', '!='): return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
        if op == '>>' and z3.is_int_value(b): op, b = '/', I(2 ** b.as_long())
        if op == '<<' and z3.is_int_value(b): return a * 2 ** b.as_long()
        if op in ('/', '%') and z3.is_int_value(b) and b.as_long() > 0:
            s.oblige(st, a >= 0, 'arithmetic', 'division of a nonnegative integer'); return a / b if op == '/' else a % b
        if op in ('/', '%'):
            s.oblige(st, z3.And(a >= 0, b > 0), 'arithmetic', 'division of a nonnegative by a positive integer'); q, r = QUO(a, b), a - QUO(a, b) * b; st.pc += [r >= 0, r < b, q >= 0]; return q if op == '/' else r
        if op == '&' and z3.is_int_value(b) and b.as_long() == 1: return a % 2
        raise Unsupported('operator ' + op)
    def index(s, st, o, i):
        v = s.get(st, o)
        if isinstance(v, z3.ExprRef) and v.sort() == PS: s.oblige(st, z3.And(i >= 0, i < RLEN(v)), 'bounds', 'index in range'); return RawEl(o, i)
        s.oblige(st, z3.And(i >= 0, i < v.len), 'bounds', 'index in range')
        if isinstance(o, Ref): return Ref(o.key, o.path + (i,))
        return v[i]
    def call(s, st, n, inn):
        if n['kind'] == 'CXXMemberCallExpr':
            me = strip_casts(inn[0]); name = me['name']; ob = [x for x in me['inner'] if x.get('kind')][0]; args = inn[1:]
            if strip_casts(ob)['kind'] == 'CXXThisExpr': return s.apply(st, s.c.cls, name, args)
            o = s.lv(st, ob)
            if isinstance(o, Rep):
                if name == 'elts': return Raw(o.ref)
                if name == 'length': return RLEN(s.get(st, o.ref))
                if name == 'SetLength': m = s.ev(st, args[0]); s.oblige(st, m >= 0, 'pre', 'nonnegative length'); s.put(st, o.ref, RESZ(s.get(st, o.ref), m)); return None
                raise Unsupported('method of rep: ' + name)
            if name == 'normalize' and isinstance(o, Ref): s.put(st, o, NORM(s.get(st, o))); return None
            v = s.get(st, o)
            if isinstance(v, z3.ExprRef) and v.sort() == BS and not args:
                if name in ('is_zero', 'degX'): s.used_c.add('zz_pXY::%s()' % name); return BZ(v) if name == 'is_zero' else BDX(v)
                if name == 'zero': s.used_c.add('zz_pXY::zero()'); s.put(st, o, B0); return None
            if isinstance(v, MF):
                if name in ('NumRows', 'NumCols'): return v.len if name == 'NumRows' else v.cols
                if name == 'SetDims':
                    r, q = s.ev(st, args[0]), s.ev(st, args[1]); s.oblige(st, z3.And(r >= 0, q >= 0), 'pre', 'nonnegative dimensions'); s.put(st, o, MF(r, q, z3.Const(s.name('dims'), AAK))); return None
                raise Unsupported('method ' + name)
            if isinstance(v, VMF):
                if name == 'length': return v.len
                if name == 'SetLength':
                    m = s.ev(st, args[0]); s.oblige(st, m >= 0, 'pre', 'nonnegative length'); w = s.fresh(st, ('vec', ('mat', 'F')), 'sl'); w.len = m; i = z3.Int(s.name('i'))
                    st.pc.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v.len, i < m), z3.And(w.r(i) == v.r(i), w.c(i) == v.c(i), z3.Select(w.a, i) == z3.Select(v.a, i))), patterns=[z3.Select(w.a, i), w.r(i)])); s.put(st, o, w); return None
                raise Unsupported('method ' + name)
            if isinstance(v, VM):
                if name in ('NumRows', 'NumCols'): return v.len if name == 'NumRows' else v.cols
                if name == 'SetDims':
                    r, q = s.ev(st, args[0]), s.ev(st, args[1]); s.oblige(st, z3.And(r >= 0, q >= 0), 'pre', 'nonnegative dimensions'); s.put(st, o, VM(r, q, z3.Const(s.name('dims'), AAP))); return None
                raise Unsupported('method ' + name)
            if isinstance(v, z3.ExprRef) and v.sort() == MS:
                if name in ('NumRows', 'NumCols'): return MROWS(v) if name == 'NumRows' else MCOLS(v)
                if name == 'SetDims': r, q = s.ev(st, args[0]), s.ev(st, args[1]); s.oblige(st, z3.And(r >= 0, q >= 0), 'pre', 'nonnegative dimensions'); w = z3.Const(s.name('dims'), MS); st.pc += [MROWS(w) == r, MCOLS(w) == q]; s.put(st, o, w); return None
            if name == 'SetLength' and isinstance(v, z3.ExprRef) and v.sort() == PS: m = s.ev(st, args[0]); s.oblige(st, m >= 0, 'pre', 'nonnegative length'); s.put(st, o, RESZ(v, m)); return None
            if isinstance(v, (VP, VV)):
                if name in ('length', 'size'): return v.len
                if name == 'elts' and isinstance(o, Ref) and not o.path: return ('elts', o)
                if name == 'SetLength':
                    m = s.ev(st, args[0]); s.oblige(st, m >= 0, 'pre', 'nonnegative length')
                    if s.proves(st, m == v.len, 300000): return None
                    w = s.fresh(st, v.ty() if isinstance(v, VP) else ('vec', ('vec', 'P')), 'sl'); w.len = m; i = z3.Int(s.name('i')); st.pc.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v.len), z3.And(z3.Select(w.a, i) == z3.Select(v.a, i), *([z3.Select(w.lens, i) == z3.Select(v.lens, i)] if isinstance(v, VV) else []))), patterns=[z3.Select(w.a, i)]))
                    if isinstance(v, VP) and v.fresh and v.ty()[1] in ('F', 'P'): st.pc.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m), w[i] == (K0 if v.ty()[1] == 'F' else ZERO)), patterns=[w[i]]))   # default-constructed entries are zero
                    s.put(st, o, w); return None
                if name == 'swap': b = s.lv(st, args[0]); w = s.get(st, b); s.put(st, b, v); s.put(st, o, w); return None
            raise Unsupported('method ' + name)
        cal = strip_casts(inn[0]); name = cal.get('referencedDecl', {}).get('name', ''); args = inn[1:]
        if name == 'operator[]': return s.index(st, s.lv(st, args[0]), s.ev(st, args[1]))
        if name == 'operator=':
            x = s.lv(st, args[0]); w = s.ev(st, args[1])
            if isinstance(w, z3.ExprRef) and w.sort() == IS and isinstance(x, Ref):   # assignment of an integer to a polynomial or a scalar
                o = s.get(st, x)
                if isinstance(o, z3.ExprRef) and o.sort() in (PS, KS):
                    if not (z3.is_int_value(w) and (w.as_long() == 0 or o.sort() == KS and w.as_long() == 1)): raise Unsupported('assignment of an integer')
                    w = ZERO if o.sort() == PS else K1 if w.as_long() else K0
            s.put(st, x, w); return x
        if name == 'swap' and len(args) == 2:
            a, b = s.lv(st, args[0]), s.lv(st, args[1]); va, vb = s.get(st, a), s.get(st, b); s.put(st, a, vb); s.put(st, b, va); return None
        ty = lambda a: deep(strip_ref(parse_type(qt(strip_casts(a)))))
        if name in ('min', 'max') and len(args) == 2: a, b = s.int(s.ev(st, args[0])), s.int(s.ev(st, args[1])); return z3.If(b < a, b, a) if name == 'min' else z3.If(a < b, b, a)
        if name in ('LogicError', 'Error', 'ArithmeticError', 'InputError', 'ResourceError'): s.oblige(st, z3.BoolVal(False), 'raises', 'no error is raised under the precondition'); st.pc.append(z3.BoolVal(False)); return None
        if not s.c.entries and (args and ty(args[0]) in (('mat', 'F'), ('mat', 'P'), ('vec', ('mat', 'F'))) or len(args) == 2 and ty(args[1]) == ('mat', 'F')): return s.matop(st, name, args, [ty(a) for a in args])
        if name == 'to_kronecker' and len(args) == 3 and ty(args[1]) == BIV:
            a, D = s.ev(st, args[1]), s.ev(st, args[2]); s.used_c.add('to_kronecker(zz_pX &, const zz_pXY &, long)'); s.oblige(st, z3.And(D >= 0, BDX(a) <= D), 'pre', 'coefficients of degree at most the bound'); s.put(st, s.lv(st, args[0]), KR(a, D)); return None
        if name == 'from_kronecker' and len(args) == 3 and ty(args[0]) == BIV:
            a, D = s.ev(st, args[1]), s.ev(st, args[2]); s.used_c.add('from_kronecker(zz_pXY &, const zz_pX &, long)'); s.oblige(st, D >= 0, 'pre', 'nonnegative degree bound'); s.put(st, s.lv(st, args[0]), UNKR(a, D)); return None
        if s.c.entries and name == 'clear' and len(args) == 1 and ty(args[0]) == ('mat', 'P'): x = s.lv(st, args[0]); v = s.get(st, x); s.used_c.add('clear(Mat<zz_pX> &)'); s.put(st, x, VM(v.len, v.cols, z3.K(IS, z3.K(IS, ZERO)))); return None
        if s.c.entries and name == 'conv' and len(args) == 2 and ty(args[0]) == ('mat', 'P') and ty(args[1]) == ('mat', 'F'):
            w = s.ev(st, args[1]); s.used_c.add('conv(Mat<zz_pX> &, const Mat<zz_p> &)'); q = VM(w.len, w.cols, z3.Const(s.name('conv'), AAP)); i, j, x = z3.Ints('i j x')
            st.pc.append(z3.ForAll([i, j, x], z3.Implies(z3.And(i >= 0, i < w.len, j >= 0, j < w.cols), CO(q.at(i, j), x) == z3.If(x == 0, z3.Select(z3.Select(w.a, i), j), K0)), patterns=[CO(q.at(i, j), x)])); st.pc.append(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < w.len, j >= 0, j < w.cols), ISN(q.at(i, j))), patterns=[ISN(q.at(i, j))])); s.put(st, s.lv(st, args[0]), q); return None
        if name == 'NextPowerOfTwo' and len(args) == 1: s.usedntl.add(name); return NPT(s.ev(st, args[0]))
        if name == 'TofftRep' and len(args) == 3 and ty(args[0]) == FFT:
            p, k = s.ev(st, args[1]), s.ev(st, args[2]); s.usedntl.add(name); s.oblige(st, z3.And(k >= 0, DEG(p) < POW2(k)), 'pre', 'the polynomial is determined by its FFT representation'); s.put(st, s.lv(st, args[0]), FR(p, k)); return None
        if name == 'mul' and len(args) == 3 and ty(args[0]) == FFT:
            a, b = s.ev(st, args[1]), s.ev(st, args[2]); s.usedntl.add('mul of FFT representations'); s.oblige(st, z3.And(FK(a) == FK(b), DEG(MUL(FP(a), FP(b))) < POW2(FK(a))), 'pre', 'FFT representations of the same size, large enough for the product'); s.put(st, s.lv(st, args[0]), FR(MUL(FP(a), FP(b)), FK(a))); return None
        if name == 'FromfftRep' and len(args) == 4 and ty(args[1]) == FFT:
            x = s.lv(st, args[0]); a, lo, hi = (s.ev(st, q) for q in args[1:]); s.usedntl.add(name)
            if not (isinstance(x, tuple) and x[0] == 'elts'): raise Unsupported('target of FromfftRep')
            v = s.get(st, x[1]); s.oblige(st, z3.And(lo >= 0, hi - lo + 1 <= v.len, DEG(FP(a)) < POW2(FK(a))), 'pre', 'the target is large enough'); w = VP(v.len, z3.Const(s.name('fft'), v.a.sort())); i = z3.Int(s.name('i'))
            st.pc.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v.len), w[i] == z3.If(i <= hi - lo, CO(FP(a), lo + i), v[i])), patterns=[w[i]])); s.put(st, x[1], w); return None
        P3 = {'mul': MUL, 'add': ADD, 'sub': SUB, 'rem': REM}; P2 = {'operator*': MUL, 'operator+': ADD, 'operator-': SUB, 'operator%': REM}
        def val(a):
            v = s.ev(st, a)
            if not (isinstance(v, z3.ExprRef) and v.sort() == PS): raise Unsupported('operand of %s is not a polynomial' % name)
            return v
        def sc(a):
            v = s.ev(st, a)
            if isinstance(v, z3.ExprRef) and v.sort() == KS: return v
            if isinstance(v, z3.ExprRef) and z3.is_int_value(v) and v.as_long() in (0, 1): return K1 if v.as_long() else K0
            raise Unsupported('scalar operand of ' + name)
        def isK(a): return deep(strip_ref(parse_type(qt(strip_casts(a))))) == 'F'
        if name in ('operator*', 'operator/', 'operator-') and any(isK(a) for a in args) or name == 'operator+' and all(isK(a) for a in args):
            s.usedntl.add('zz_p ' + name)
            if name == 'operator-' and len(args) == 1: return KNEG(sc(args[0]))
            a, b = sc(args[0]), sc(args[1])
            if name == 'operator*': return KMUL(a, b)
            if name == 'operator+': return KADD(a, b)
            if name == 'operator/':
                s.oblige(st, b != K0, 'pre', 'division by a nonzero element'); return KINV(b) if a is K1 else KMUL(a, KINV(b))
            raise Unsupported(name)
        if name == 'mul' and len(args) == 3 and isK(args[0]): s.usedntl.add('zz_p mul'); x = s.lv(st, args[0]); s.put(st, x, KMUL(sc(args[1]), sc(args[2]))); return None
        if name == 'div' and len(args) == 3 and isK(args[0]): s.usedntl.add('zz_p div'); x = s.lv(st, args[0]); a, b = sc(args[1]), sc(args[2]); s.oblige(st, b != K0, 'pre', 'division by a nonzero element'); s.put(st, x, KINV(b) if a is K1 else KMUL(a, KINV(b))); return None
        if name == 'inv' and len(args) in (1, 2) and isK(args[-1]):
            s.usedntl.add('zz_p inv'); a = sc(args[-1]); s.oblige(st, a != K0, 'pre', 'inverse of a nonzero element')
            if len(args) == 1: return KINV(a)
            s.put(st, s.lv(st, args[0]), KINV(a)); return None
        if name == 'SetCoeff' and len(args) == 3: s.usedntl.add(name); x = s.lv(st, args[0]); i = s.ev(st, args[1]); s.oblige(st, i >= 0, 'pre', 'nonnegative index'); s.put(st, x, SETC(s.get(st, x), i, sc(args[2]))); return None
        if name == 'coeff' and len(args) == 2: s.usedntl.add(name); return CO(val(args[0]), s.ev(st, args[1]))
        if name == 'reverse' and len(args) == 2: s.usedntl.add(name); return REV(val(args[0]), s.ev(st, args[1]))
        if name == 'InvTrunc' and len(args) == 2: s.usedntl.add(name); return INVT(val(args[0]), s.ev(st, args[1]))
        if name == 'MulTrunc' and len(args) == 3: s.usedntl.add(name); return MULT(val(args[0]), val(args[1]), s.ev(st, args[2]))
        def op(f, a, b):
            s.usedntl.add(name)
            if f is REM: s.oblige(st, NZ(b), 'pre', 'remainder by a nonzero polynomial')
            return f(a, b)
        if name in ('operator==', 'operator!=', 'IsZero') and ty(args[0]) == 'P' and (len(args) == 1 or str(s.ev(st, args[1])) == '0'): s.usedntl.add('comparison with 0'); b = z3.Not(NZ(val(args[0]))); return b if name != 'operator!=' else z3.Not(b)
        if name == 'deg' and len(args) == 1 and s.c.entries and ty(args[0]) == ('mat', 'P'): v = s.ev(st, args[0]); s.used_c.add('deg(const Mat<zz_pX> &)'); st.pc.append(MDEG(v.a, v.len, v.cols) >= -1); return MDEG(v.a, v.len, v.cols)
        if name == 'deg' and len(args) == 1: s.usedntl.add(name); return DEG(val(args[0]))
        if name in P2 and len(args) == 2: return op(P2[name], val(args[0]), val(args[1]))
        if name in P3 and len(args) == 3: x = s.lv(st, args[0]); s.put(st, x, op(P3[name], val(args[1]), val(args[2]))); return None
        if name == 'operator*=' and isK(args[0]): x = s.lv(st, args[0]); s.put(st, x, KMUL(s.get(st, x), sc(args[1]))); return x
        if name == 'operator+=' and isK(args[0]): x = s.lv(st, args[0]); s.put(st, x, KADD(s.get(st, x), sc(args[1]))); return x
        if name in ('operator*=', 'operator+=', 'operator-=', 'operator%='): x = s.lv(st, args[0]); s.put(st, x, op(P2[name[:-1]], s.get(st, x), val(args[1]))); return x
        if name == 'MulMod' and len(args) == 3: a, b, f = map(val, args); return op(REM, MUL(a, b), f)
        if name == 'MulMod' and len(args) == 4: x = s.lv(st, args[0]); a, b, f = map(val, args[1:]); s.put(st, x, op(REM, MUL(a, b), f)); return None
        if name == 'InvMod' and len(args) in (2, 3):
            a, f = map(val, args[-2:]); s.oblige(st, COPR(a, f), 'pre', 'InvMod of an invertible residue'); s.usedntl.add(name)
            if len(args) == 2: return INVM(a, f)
            s.put(st, s.lv(st, args[0]), INVM(a, f)); return None
        if name == 'diff' and len(args) == 1: s.usedntl.add(name); return DIFF(val(args[0]))
        if name == 'diff' and len(args) == 2: s.usedntl.add(name); s.put(st, s.lv(st, args[0]), DIFF(val(args[1]))); return None
        return s.apply(st, None, name, args)
    def matop(s, st, name, args, ts):
        """operations on matrices over F_p and conversions of polynomial matrices"""
        MF, MP, VM = ('mat', 'F'), ('mat', 'P'), ('vec', ('mat', 'F'))
        def dims(a, b, what): s.oblige(st, z3.And(MROWS(a) == MROWS(b), MCOLS(a) == MCOLS(b)) if what != '*' else MCOLS(a) == MROWS(b), 'pre', 'dimensions agree')
        def lens(v): return v.len
        s.usedntl.add('Mat<zz_p> ' + name)
        if name in ('mul', 'operator*', 'add', 'operator+') and all(t == MF for t in ts):
            a, b = s.ev(st, args[-2]), s.ev(st, args[-1]); m = name in ('mul', 'operator*'); dims(a, b, '*' if m else '+'); r = (MMUL if m else MADD)(a, b)
            if len(args) == 2: return r
            s.put(st, s.lv(st, args[0]), r); return None
        if name == 'mul' and ts == [MF, MF, 'F'] or name == 'operator*' and ts == [MF, 'F'] or name == 'operator*=' and ts == [MF, 'F']:
            r = MSC(s.ev(st, args[-2]), s.ev(st, args[-1]))
            if name == 'operator*': return r
            s.put(st, s.lv(st, args[0]), r); return None
        if name in ('operator*=', 'operator+='):
            x = s.lv(st, args[0]); a, b = s.get(st, x), s.ev(st, args[1]); dims(a, b, '*' if '*' in name else '+'); s.put(st, x, (MMUL if '*' in name else MADD)(a, b)); return x
        if name in ('negate', 'operator-', 'inv') and all(t == MF for t in ts) and len(args) == (1 if name == 'operator-' else 2):
            a = s.ev(st, args[-1])
            if name == 'inv': s.oblige(st, z3.And(MROWS(a) == MCOLS(a), MUNIT(a)), 'pre', 'inverse of an invertible matrix')
            r = (MINV if name == 'inv' else MNEG)(a)
            if len(args) == 1: return r
            s.put(st, s.lv(st, args[0]), r); return None
        if name == 'deg' and ts == [MP]: s.usedntl.discard('Mat<zz_p> deg'); s.used_c.add('deg(const Mat<zz_pX> &)'); return QDEG(s.ev(st, args[0]))
        if name == 'conv':
            s.usedntl.discard('Mat<zz_p> conv'); i = z3.Int(s.name('i'))
            if ts[:2] == [VM, MP] and len(args) == 3:
                s.used_c.add('conv(Vec<Mat<zz_p>> &, const Mat<zz_pX> &, long)'); a, n = s.ev(st, args[1]), s.ev(st, args[2]); s.oblige(st, n >= 0, 'pre', 'nonnegative order')
                v = VP(n, z3.Const(s.name('conv'), AM)); st.pc.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), v[i] == QCO(a, i)), patterns=[v[i]])); s.put(st, s.lv(st, args[0]), v); return None
            if ts[0] == MP and ts[1] in (MF, VM):
                v = s.ev(st, args[1])
                if ts[1] == MF: v = VP(I(1), z3.K(IS, v))
                ln = v.len
                if len(args) == 3: n = s.ev(st, args[2]); ln = z3.If(n < ln, n, ln)
                s.used_c.add('conv(Mat<zz_pX> &, const %s &%s)' % ('Mat<zz_p>' if ts[1] == MF else 'Vec<Mat<zz_p>>', ', long' if len(args) == 3 else '')); s.oblige(st, ln >= 1, 'pre', 'at least one coefficient')
                s.oblige(st, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v.len), z3.And(MROWS(v[i]) == MROWS(v[0]), MCOLS(v[i]) == MCOLS(v[0])))), 'pre', 'coefficients of the same dimensions')
                q = s.fresh(st, MP, 'q'); st.pc += [QROWS(q) == MROWS(v[0]), QCOLS(q) == MCOLS(v[0]), z3.ForAll([i], z3.And(z3.Implies(z3.And(i >= 0, i < ln), QCO(q, i) == v[i]), z3.Implies(i >= ln, MZ(QCO(q, i)))), patterns=[QCO(q, i)])]
                s.put(st, s.lv(st, args[0]), q); return None
        return s.apply(st, None, name, args)
    def apply(s, st, cls, name, args):
        c = HREG.by.get((cls, name, len(args)))
        if c is None: raise Unsupported('no contract for ' + name)
        s.used_c.add(repr(c)); old = {}; locs = {}
        for nm, a in zip(c.names, args): locs[nm] = s.lv(st, a); old[nm] = s.get(st, locs[nm])
        if cls:
            for f in c.fields: locs[f] = Ref('this.' + f); old[f] = st.v['this.' + f]
        E = HE(s, st, old, dict(old), 'probe'); c.fn(E); new = dict(old)
        for nm in sorted(E.sets):
            v = old[nm]; new[nm] = s.fresh(st, vty(v), nm)
        ret = None
        if c.result: ret = s.fresh(st, c.result, 'res')
        E = HE(s, st, old, new, 'call', ret); c.fn(E)
        for nm in sorted(E.sets): s.put(st, locs[nm], new[nm])
        return E.ret
    # ---- statements
    def run(s, st, n):
        if time.time() > s.end: raise Unsupported('time budget')
        k = n['kind']; inn = [x for x in n.get('inner', []) if x.get('kind')]
        if k == 'CompoundStmt':
            cur = [st]; out = []
            for c in inn:
                nxt = []
                for t in cur:
                    for kk, u, v in s.run(t, c):
                        if kk == 'norm': nxt.append(u)
                        else: out.append((kk, u, v))
                cur = nxt
            return out + [('norm', t, None) for t in cur]
        if k == 'DeclStmt':
            for d in inn:
                if d['kind'] != 'VarDecl': continue
                init = [x for x in d.get('inner', []) if x.get('kind')]; ty = parse_type(qt(d))
                if ty[0] == 'ref':
                    x = s.lv(st, init[0])
                    if isinstance(x, Ref): st.env[d['id']] = x; continue
                    ty = ty[1]
                if init:
                    x = s.lv(st, init[0])
                    if isinstance(x, Raw): st.env[d['id']] = x; continue
                key = s.name(d['name']); v = s.get(st, x) if init else s.default(st, deep(ty))
                if ty in ('Z', 'U') and init: v = s.int(v)
                st.v[key] = v; st.env[d['id']] = Ref(key)
            return [('norm', st, None)]
        if k == 'ReturnStmt': return [('ret', st, s.ev(st, inn[0]) if inn else None)]
        if k == 'IfStmt':
            c = s.bool(s.ev(st, inn[0])); out = []
            for g, b in ((c, inn[1]), (z3.Not(c), inn[2] if len(inn) > 2 else None)):
                t = st.copy(); t.pc.append(g)
                if not s.feasible(t): continue
                out += s.run(t, b) if b else [('norm', t, None)]
            return out
        if k in ('ForStmt', 'WhileStmt', 'DoStmt'): return s.loop(st, n)
        if k == 'NullStmt': return [('norm', st, None)]
        if k in ('BreakStmt', 'ContinueStmt', 'SwitchStmt', 'CXXForRangeStmt'): raise Unsupported(k)
        s.lv(st, n); return [('norm', st, None)]
    def view(s, st):
        v = {}
        for d, x in st.env.items():
            if d in s.names and isinstance(x, Ref): v[s.names[d]] = s.get(st, x)
        for k, x in st.v.items():
            if k.startswith('this.'): v[k[5:]] = x
        return View(v)
    def writes(s, n, acc):
        """(declaration or field, row expression or None) of every place a statement may write"""
        k = n.get('kind'); inn = [x for x in n.get('inner', []) if isinstance(x, dict) and x.get('kind')]
        def place(e):
            path = []; e = strip_casts(e)
            while e['kind'] == 'CXXOperatorCallExpr' and strip_casts(e['inner'][0]).get('referencedDecl', {}).get('name') == 'operator[]': path.insert(0, e['inner'][2]); e = strip_casts(e['inner'][1])
            if e['kind'] == 'DeclRefExpr': acc.append((e['referencedDecl']['id'], path))
            elif e['kind'] == 'ArraySubscriptExpr' and strip_casts(e['inner'][0])['kind'] == 'DeclRefExpr': acc.append((strip_casts(e['inner'][0])['referencedDecl']['id'], path))
            elif e['kind'] == 'MemberExpr' and strip_casts(e['inner'][0])['kind'] != 'CXXThisExpr': place(e['inner'][0])
            elif e['kind'] == 'MemberExpr': acc.append(('this.' + e['name'], path))
        if k in ('BinaryOperator', 'CompoundAssignOperator') and n['opcode'].endswith('=') and n['opcode'] not in ('==', '!=', '<=', '>='): place(inn[0])
        elif k == 'UnaryOperator' and n['opcode'] in ('++', '--'): place(inn[0])
        elif k == 'CXXOperatorCallExpr':
            nm = strip_casts(inn[0]).get('referencedDecl', {}).get('name', '')
            if nm.endswith('=') and nm not in ('operator==', 'operator!=', 'operator<=', 'operator>='): place(inn[1])
        elif k == 'CXXMemberCallExpr':
            me = strip_casts(inn[0])
            if me['kind'] == 'MemberExpr' and me.get('name') not in ('length', 'size', 'NumRows', 'NumCols'): place(me['inner'][0]); 
            for a in inn[1:]:
                if a.get('valueCategory') == 'lvalue': place(a)
        elif k == 'CallExpr':
            for a in inn[1:]:
                if a.get('valueCategory') == 'lvalue' and 'const' not in qt(a): place(a)
        elif k == 'VarDecl' and inn and parse_type(qt(n))[0] == 'ref' and 'const' not in qt(n): place(inn[-1])   # a reference set up inside the loop: its target may be written
        elif k == 'VarDecl' and parse_ptr(n) and inn:   # a pointer set up inside the loop: its target may be written
            e = strip_casts(inn[0])
            if e['kind'] == 'CXXMemberCallExpr': place(strip_casts(e['inner'][0])['inner'][0])
        for c in inn: s.writes(c, acc)
    def loop(s, st, n):
        raw = n['inner']
        if n['kind'] == 'ForStmt': init, _, cond, inc, body = [x if x and x.get('kind') else None for x in raw]
        elif n['kind'] == 'DoStmt': init, cond, inc, body = None, raw[1], None, raw[0]
        else: init, cond, inc, body = None, raw[0], None, raw[-1]
        num = s.loopid[n['id']]
        if num >= len(s.c.loops): raise Unsupported('loop without invariant')
        inv = s.c.loops[num]; d = direction(inc)
        if num < len(s.c.dirs) and {d, s.c.dirs[num]} == {'u', 'd'}: raise Unsupported('loop %d runs in the other direction than the one the invariant is written for' % num)
        if init:
            r = s.run(st, init); st = r[0][1]
        if contains(body, ('ReturnStmt', 'BreakStmt', 'ContinueStmt')): raise Unsupported('loop with early exit')
        acc = []; s.writes(n, acc); s.loops += 1
        keys = {}
        for d, path in acc:
            key = d if isinstance(d, str) and d.startswith('this.') else st.env[d].key if d in st.env else None
            if key is None: continue
            if isinstance(d, str) and not d.startswith('this.') and isinstance(st.env[d], Raw) and len(st.env[d].path) == 1: path = [z3term(st.env[d].path[0])]   # pointer to the coefficients of one entry
            elif isinstance(d, str) and not d.startswith('this.') and st.env[d].path: path = [z3term(x) for x in st.env[d].path] + path   # reference to a part
            keys.setdefault(key, []).append(path)
        written = {k for k in keys}
        def inv_expr(e):
            if isinstance(e, z3term): return True
            ids = {}; collect_refs(e, ids); return all((x in st.env and st.env[x].key not in written) or ids[x] not in ('VarDecl', 'ParmVarDecl') for x in ids)
        def pv(t, e): return e.t if isinstance(e, z3term) else s.ev(t, e)
        def havoc(t):
            for key, paths in keys.items():
                v = t.v[key]
                if isinstance(v, VM) and all(p for p in paths):
                    paths = [p[:2] for p in paths]   # a coefficient of an entry
                    if any(len(p) == 1 for p in paths): t.v[key] = VM(v.len, v.cols, z3.Const(s.name('h'), AAP)); continue
                if isinstance(v, VMF) and all(p and len(p) in (1, 3) for p in paths):
                    if all(len(p) == 3 for p in paths): t.v[key] = VMF(v.len, v.rows, v.cols, z3.Const(s.name('h'), AAAK))
                    else: w = s.fresh(t, ('vec', ('mat', 'F')), 'h'); w.len = v.len; t.v[key] = w
                    continue
                if isinstance(v, VV) and all(p and len(p) == 2 and inv_expr(p[0]) and inv_expr(p[1]) for p in paths):
                    for p in paths:
                        r, q = pv(t, p[0]), pv(t, p[1]); w = t.v[key]; t.v[key] = vv(w, w.len, w.lens, z3.Store(w.a, r, z3.Store(z3.Select(w.a, r), q, z3.Const(s.name('ent'), PS))))
                    continue
                if isinstance(v, VV) and all(p and len(p) >= 1 and inv_expr(p[0]) for p in paths):
                    for p in paths:
                        r = pv(t, p[0]); w = t.v[key]
                        if len(p) == 2: t.v[key] = vv(w, w.len, w.lens, z3.Store(w.a, r, z3.Const(s.name('row'), AP)))
                        else: l = z3.Int(s.name('len')); t.pc.append(l >= 0); t.v[key] = VV(w.len, z3.Store(w.lens, r, l), z3.Store(w.a, r, z3.Const(s.name('row'), AP)))
                    continue
                if isinstance(v, VP) and all(p and len(p) == 1 and inv_expr(p[0]) for p in paths):
                    for p in paths: t.v[key] = VP(v.len, z3.Store(t.v[key].a, pv(t, p[0]), z3.Const(s.name('h'), v.a.sort().range())))
                    continue
                if isinstance(v, VP) and all(p and len(p) == 1 for p in paths): t.v[key] = VP(v.len, z3.Const(s.name('h'), v.a.sort())); continue
                if isinstance(v, VV) and all(p and len(p) == 2 for p in paths): t.v[key] = vv(v, v.len, v.lens, z3.Const(s.name('h'), AAP)); continue
                if isinstance(v, VV) and not isinstance(v, VM) and all(p for p in paths): t.v[key] = VV(v.len, z3.Const(s.name('hl'), AI), z3.Const(s.name('h'), AAP)); continue
                t.v[key] = s.fresh(t, vty(v), 'h')
        def check(t, what):
            L = inv(s.view(t), s.old)
            t.pc += [g for d, g in L if d == 'def']   # instances of the definition of a specification function
            for d, g in L:
                if d != 'def':
                    ok = s.oblige(t, g, 'invariant', 'loop %d: %s (%s)' % (num, d, what))
                    if not ok and d == 'index' and what == 'on entry': raise Unsupported('loop %d starts at another index than the one the invariant is written for' % num)
        check(st, 'on entry')
        t = st.copy(); havoc(t)
        for d, g in inv(s.view(t), s.old): t.pc.append(g)
        if n['kind'] == 'DoStmt':   # the invariant holds whenever the body starts
            out = []
            for kk, u, v in s.run(t, body):
                if kk != 'norm': raise Unsupported('loop body leaves the function')
                g = s.bool(s.ev(u, cond)); e = u.copy(); e.pc.append(z3.Not(g)); u.pc.append(g); check(u, 'preserved')
                if s.feasible(e): out.append(('norm', e, None))
            return out
        b = t.copy(); b.pc.append(s.bool(s.ev(b, cond)))
        if s.feasible(b):
            for kk, u, v in s.run(b, body):
                if kk != 'norm': raise Unsupported('loop body leaves the function')
                if inc: s.lv(u, inc)
                check(u, 'preserved')
        e = t.copy(); e.pc.append(z3.Not(s.bool(s.ev(e, cond))))
        return [('norm', e, None)]
class View:
    def __init__(s, d): s._m = d
    def __getattr__(s, n):
        try: return s._m[n]
        except KeyError: raise Unsupported('the invariant names %s, which the code does not have' % n)
def parse_ptr(n): return '*' in qt(n)
def number_loops(n, acc):
    if n.get('kind') in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'): acc[n['id']] = len(acc)
    for c in n.get('inner', []):
        if isinstance(c, dict): number_loops(c, acc)
def collect_refs(n, acc):
    if n.get('kind') == 'DeclRefExpr' and 'referencedDecl' in n: acc[n['referencedDecl']['id']] = n['referencedDecl'].get('kind')
    for c in n.get('inner', []):
        if isinstance(c, dict): collect_refs(c, acc)

def verify_hoare(prog, c, cfg, timeout_ms=8000, budget=None):
    t0 = time.time(); r = Result(); f = find_func(prog, c)
    if f is None: r.status = 'missing'; r.why = 'no definition of %r in the current source' % c; return r
    ex = HX(prog, c, budget or c.budget); ex.fname = f.name; ex.names = {}; ex.loopid = {}; collect(f.node, ex.names); number_loops(f.body, ex.loopid)
    try:
        st = St(); old = {}; keys = {}; shared = {}
        for fl, ty in c.fields.items(): st.v['this.' + fl] = ex.default(st, ty) if f.ctor else ex.fresh(st, ty, fl); old[fl] = st.v['this.' + fl]; keys[fl] = 'this.' + fl
        for nm, p in zip(c.names, f.params):
            ty = parse_type(qt(p)); t = deep(strip_ref(ty))
            if nm in cfg or nm in cfg.values():   # shared object
                o = cfg.get(nm, nm)
                if o not in shared: shared[o] = ex.name(o); st.v[shared[o]] = ex.fresh(st, t, o)
                st.env[p['id']] = Ref(shared[o]); old[nm] = st.v[shared[o]]
                if nm not in cfg: keys[nm] = shared[o]
                continue
            v = ex.fresh(st, t, nm); key = ex.name(nm); st.v[key] = v; st.env[p['id']] = Ref(key); old[nm] = v
            if ty[0] == 'ref': keys[nm] = key
        ex.old = View(dict(old))
        E = HE(ex, st, old, old, 'pre'); c.fn(E); sets = E.sets
        ex.obls.append(Obl('vacuity', 'precondition is satisfiable (not refuted)', f.name, ex.feasible(st), '', ''))
        n = live = 0
        for kk, t, v in ex.run(st.copy(), f.body):
            n += 1; new = {nm: t.v[k] for nm, k in keys.items()}
            if ex.proves(t, z3.BoolVal(False), 3000000): continue   # an exit that cannot be reached
            live += 1
            HEp = HE(ex, t, old, {**old, **new}, 'post', v); c.fn(HEp)
            for nm, k in keys.items():
                if nm not in sets and t.v[k] is not st.v[k]: ex.obls.append(Obl('frame', 'frame: %s unchanged' % nm, f.name, False, '', ''))
        if not n: raise Unsupported('no path')
        ex.obls.append(Obl('vacuity', 'some exit is reachable: false does not follow there from the axioms, the preconditions and the invariants', f.name, live > 0, '', ''))
        r.paths = n
        if len(ex.loopid) != len(c.loops): raise Unsupported('%d loops, invariants for %d' % (len(ex.loopid), len(c.loops)))
    except Unsupported as e: r.status = 'undecided'; r.why = 'Unsupported: %s' % e
    except (KeyError, AttributeError, TypeError, IndexError, ValueError, z3.Z3Exception, RecursionError, AssertionError) as e:
        r.status = 'undecided'; r.why = 'internal: ' + ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]
    r.obls = ex.obls
    if r.status == 'ok' and any(not o.ok for o in r.obls):
        r.status = 'failed'
        if ex.nto or c.aux: r.status = 'undecided'; r.why = 'not discharged: ' + '; '.join(o.desc for o in r.obls if not o.ok)[:300]
    r.time = time.time() - t0; r.nq = ex.nq; r.tz3 = ex.tz3; r.ring = 0; r.used = {'NTL zz_pX ' + x for x in ex.usedntl} | {x for x in ex.lemmas} | ({'lemma: ' + t for t, _ in ex.ax} if ex.obls else set()); r.contracts = ex.used_c; r.inlined = set(); r.loops = ex.loops
    return r
