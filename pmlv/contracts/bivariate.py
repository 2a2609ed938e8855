"""C20: bivariate polynomials (lzz_pXY) and sequences (lzz_pX_seq)"""
from .lib import *
from ..loops import mkred
from .utils import V, VF
F = 'ntl-extras/lzz_pXY/src/lzz_pXY.cpp'
H = 'ntl-extras/lzz_pXY/lzz_pXY.h'
XY = 'zz_pXY'
Z0 = z3.IntVal(0)

def inv(ex, f):
    """the last coefficient is not zero; outside the range coefficients are taken as zero"""
    r = f['rep']; i = freshvar('i'); L = r.len
    pl = ex.polylen(r.get(i)); fs = free_ints(L)
    nm = pl.decl().name()
    fact = z3.ForAll(fs + [i], z3.Implies(z3.Or(i < 0, i >= L), pl == 0), patterns=[pl])
    ex.ctx.axiom(nm, fact)
    top = z3.Or(L <= 0, z3.substitute(pl, (i, simp(L - 1))) > 0)
    ex.ctx.axiom(L.decl().name(), z3.ForAll(fs, top, patterns=[L]) if fs else top)
    return {**f, 'rep': Vec(L, r.get, 'P', tot=True)}
def free_ints(L): return [c for c in L.children()] if z3.is_app(L) else []
clsinv(XY)(inv)

def rep(a): return a.f['rep']
def tot(E, a):
    """total coefficient function (i, k) of a bivariate polynomial or a vector of polynomials"""
    r = rep(a) if isinstance(a, Rec) else a
    def f(i, k):
        c = E.ex.tcoef(r.get(i))(k)
        return c if r.tot else rite(simp(z3.And(i >= 0, i < r.len)), c, R0)
    return f
def xy(f): return Rec(XY, {'rep': NPoly(lambda i: P(lambda k: f(i, k)))})
def both(sig, names, out, spec, file=F, noalias=()):
    """contract of the reference form and of the value-returning form"""
    t = sig[1]
    @contract('%s(%s)' % (sig[0], ', '.join(['%s &' % XY] + t)), ' '.join([out] + names), 'C20', file, noalias=noalias)
    def _(E): E.sets(out, spec(E))
    @contract('%s(%s)' % (sig[0], ', '.join(t)), ' '.join(names), 'C20', H)
    def _(E): E.returns(spec(E))
CXY = 'const %s &' % XY
def s_add(E): a, b = tot(E, E['a']), tot(E, E['b']); return xy(lambda i, k: a(i, k) + b(i, k))
def s_sub(E): a, b = tot(E, E['a']), tot(E, E['b']); return xy(lambda i, k: a(i, k) - b(i, k))
def s_mul(E):
    a, b = tot(E, E['a']), tot(E, E['b'])
    return xy(lambda i, k: rsum(Z0, simp(i + 1), lambda u: rsum(Z0, simp(k + 1), lambda v: a(u, v) * b(simp(i - u), simp(k - v)))))
def s_scal(E): a, b = tot(E, E['a']), E['b']; return xy(lambda i, k: a(i, k) * b)
def s_shx(E): a, s = tot(E, E['a']), E['i']; return xy(lambda i, k: rite(simp(k >= s), a(i, simp(k - s)), R0))
def s_shy(E): a, s = tot(E, E['a']), E['i']; return xy(lambda i, k: rite(simp(i >= s), a(simp(i - s), k), R0))
def s_trx(E):
    E.requires(E['i'] >= 0, 'nonnegative truncation order'); a, s = tot(E, E['a']), E['i']; return xy(lambda i, k: rite(simp(k < s), a(i, k), R0))
def s_try(E):
    E.requires(E['i'] >= 0, 'nonnegative truncation order'); a, s = tot(E, E['a']), E['i']; return xy(lambda i, k: rite(simp(i < s), a(i, k), R0))
both(('add', [CXY, CXY]), ['a', 'b'], 'c', s_add)
both(('sub', [CXY, CXY]), ['a', 'b'], 'c', s_sub)
both(('mul_naive', [CXY, CXY]), ['a', 'b'], 'c', s_mul)
both(('mul', [CXY, 'const zz_p']), ['a', 'b'], 'c', s_scal)
both(('shift_x', [CXY, 'long']), ['a', 'i'], 'b', s_shx)
both(('shift_y', [CXY, 'long']), ['a', 'i'], 'b', s_shy)
both(('trunc_x', [CXY, 'long']), ['a', 'i'], 'b', s_trx)
both(('trunc_y', [CXY, 'long']), ['a', 'i'], 'b', s_try)
for op, sp in (('operator+', s_add), ('operator-', s_sub)):
    @contract('%s(%s, %s)' % (op, CXY, CXY), 'a b', 'C20', H)
    def _(E, sp=sp): E.returns(sp(E))
@contract('operator*(%s, const zz_p)' % CXY, 'a b', 'C20', H)
def _(E): E.returns(s_scal(E))
@contract('normalize()', '', 'C20', F, cls=XY, noinv=True)
def _(E): E.sets('this', xy(tot(E, Vec(rep(E['this']).len, rep(E['this']).get, 'P'))))
@contract('%s(const %s &)' % (XY, V), 'c', 'C20', F, cls=XY)
def _(E): E.sets('this', xy(tot(E, E['c'])))
@contract('%s(const zz_pX &)' % XY, 'c', 'C20', F, cls=XY)
def _(E): c = pc(E, E['c']); E.sets('this', xy(lambda i, k: rite(simp(i == 0), c(k), R0)))
@contract('is_zero()', '', 'C20', F, cls=XY)
def _(E): E.returns(rep(E['this']).len == 0)
@contract('zero()', '', 'C20', F, cls=XY)
def _(E): E.sets('this', xy(lambda i, k: R0))
@contract('degY()', '', 'C20', F, cls=XY)
def _(E): E.returns(simp(rep(E['this']).len - 1))
def maxdeg(E, r, sh):
    i = freshvar('i'); return mkred(E.ex, 'max', z3.IntVal(-1), [([i], simp(rng(i, 0, r.len)), simp(pdeg(E, r.get(i)) + sh(i)))])
@contract('degX()', '', 'C20', F, cls=XY)
def _(E): E.returns(maxdeg(E, rep(E['this']), lambda i: 0))
@contract('tdeg()', '', 'C20', F, cls=XY)
def _(E):
    r = rep(E['this']); d = E.result('Z'); E.ensures(d >= -1)
    E.ensures(forall(1, lambda i: z3.Implies(z3.And(rng(i, 0, r.len), pdeg(E, r.get(i)) >= 0), pdeg(E, r.get(i)) + i <= d)))
    E.ensures(z3.Or(z3.And(d == -1, r.len == 0), exists(1, lambda i: z3.And(rng(i, 0, r.len), pdeg(E, r.get(i)) >= 0, pdeg(E, r.get(i)) + i == d))))
def s_eval(E):
    a, pt = rep(E['f']), E['point']; A = tot(E, E['f'])
    return P(lambda i: rite(simp(z3.And(i >= 0, i < a.len)), E.ex.bi.f_eval(E.ex, E.st, [], [a.get(i), pt], None, None), R0))
@contract('evaluate(zz_pX &, %s, const zz_p &)' % CXY, 'value f point', 'C20', F)
def _(E): E.sets('value', s_eval(E))
@contract('evaluate(%s, const zz_p &)' % CXY, 'f point', 'C20', H)
def _(E): E.returns(s_eval(E))
@contract('SetCoeff(%s &, long, const zz_pX &)' % XY, 'x i c', 'C20', F)
def _(E):
    x, c, s = tot(E, E['x']), pc(E, E['c']), E['i']; E.raises(s < 0)
    E.sets('x', xy(lambda i, k: rite(simp(i == s), c(k), x(i, k))))

# ------------------------------------------------------------ Kronecker substitution
def s_tok(E, a):
    r = rep(a) if isinstance(a, Rec) else a; D = E['stepX']; f = tot(E, a); w = simp(D + 1)
    E.requires(D >= 0, 'nonnegative degree bound')
    E.requires(forall(1, lambda i: z3.Implies(rng(i, 0, r.len), plen(E, r.get(i)) <= w)), 'coefficients of degree at most the bound')
    return P(lambda t: rite(simp(z3.And(t >= 0, t < w * r.len)), f(t / w, t % w), R0))
@contract('to_kronecker(zz_pX &, const %s &, long)' % V, 'out a stepX', 'C20', F)
def _(E): E.sets('out', s_tok(E, E['a']))
@contract('to_kronecker(zz_pX &, %s, long)' % CXY, 'out a stepX', 'C20', F)
def _(E): E.sets('out', s_tok(E, E['a']))
def s_fromk(E):
    c = pc(E, E['a']); w = simp(E['stepX'] + 1); E.requires(E['stepX'] >= 0, 'nonnegative degree bound')
    return lambda i, k: rite(simp(z3.And(k >= 0, k < w)), c(simp(i * w + k)), R0)
@contract('from_kronecker(%s &, const zz_pX &, long)' % V, 'out a stepX', 'C20', F, assumed=True)
def _(E): f = s_fromk(E); E.sets('out', NPoly(lambda i: P(lambda k: f(i, k))))
@contract('from_kronecker(%s &, const zz_pX &, long)' % XY, 'out a stepX', 'C20', F)
def _(E): E.sets('out', xy(s_fromk(E)))
@contract('mul_kronecker(%s &, %s, %s)' % (XY, CXY, CXY), 'c a b', 'C20', F, assumed=True)
def _(E): E.sets('c', s_mul(E))
for nm in ('mul_kronecker', 'mul', 'operator*'):
    @contract('%s(%s, %s)' % (nm, CXY, CXY), 'a b', 'C20', H)
    def _(E): E.returns(s_mul(E))
@contract('mul(%s &, %s, %s)' % (XY, CXY, CXY), 'c a b', 'C20', H)
def _(E): E.sets('c', s_mul(E))
def s_eq(E):
    a, b = rep(E['a']), rep(E['b']); A, B = tot(E, E['a']), tot(E, E['b'])
    return z3.And(a.len == b.len, forall(2, lambda i, k: E.ctx.req(A(i, k), B(i, k))))

# ------------------------------------------------------------ sequences
SQ = 'ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp'
VV = 'Vec<Vec<zz_pX>>'
CV, CVV, CX = 'const %s &' % V, 'const %s &' % VV, 'const zz_pX &'
def conv_(E, a, b, k): return rsum(Z0, simp(k + 1), lambda v: a(v) * b(simp(k - v)))
def sq_poly(E, tr):
    S, a = E['S'], pc(E, E['a'])
    return vec(S.len, lambda i: P(lambda k: rite(simp(k < E['d']), conv_(E, pc(E, S.get(i)), a, k), R0) if tr else conv_(E, pc(E, S.get(i)), a, k)))
def sq_biv(E, tr=False):
    S, r = E['S'], rep(E['f']); f = tot(E, E['f']); s = tot(E, S)
    n = simp(z3.If(z3.Or(r.len == 0, S.len - r.len + 1 <= 0), 0, S.len - r.len + 1))
    def c(i, k):
        v = rsum(Z0, r.len, lambda t: conv_(E, lambda u: f(t, u), lambda u: E.ex.tcoef(S.get(simp(i + t)))(u), k))
        return rite(simp(k < E['d']), v, R0) if tr else v
    return vec(n, lambda i: P(lambda k: c(i, k)))
@contract('mul(%s, %s)' % (CV, CX), 'S a', 'C20', SQ)
def _(E): E.returns(sq_poly(E, False))
@contract('mulTrunc(%s, %s, const long)' % (CV, CX), 'S a d', 'C20', SQ)
def _(E): E.requires(E['d'] >= 0, 'nonnegative order'); E.returns(sq_poly(E, True))
@contract('mul(%s, %s)' % (CV, CXY), 'S f', 'C20', SQ)
def _(E): E.returns(sq_biv(E))
@contract('add(%s, %s)' % (CV, CV), 'S T', 'C20', SQ)
def _(E):
    S, T = E['S'], E['T']; n = simp(z3.If(S.len <= T.len, S.len, T.len))
    E.returns(vec(n, lambda i: P(lambda k: pc(E, S.get(i))(k) + pc(E, T.get(i))(k))))
@contract('index_non_zero(%s)' % CV, 'S', 'C20', SQ)
def _(E):
    S = E['S']; r = E.result('Z'); z = lambda i: plen(E, S.get(i)) == 0
    E.ensures(z3.Implies(S.len == 0, r == -1)); E.ensures(z3.Implies(S.len > 0, z3.And(r >= 0, r <= S.len, z3.Implies(r < S.len, z3.Not(z(r))), forall(1, lambda i: z3.Implies(rng(i, 0, r), z(i))))))
@contract('is_zero_seq(%s)' % CV, 'S', 'C20', SQ)
def _(E): S = E['S']; E.returns(forall(1, lambda i: z3.Implies(rng(i, 0, S.len), plen(E, S.get(i)) == 0)))
@contract('valuation(%s)' % CX, 'a', 'C20', SQ)
def _(E):
    a = E['a']; c = E.ex.seal(a)[1]; r = E.result('Z'); L = plen(E, a); z = lambda i: E.ctx.isz(c(i))
    E.ensures(z3.Implies(L == 0, r == -1)); E.ensures(z3.Implies(L > 0, z3.And(r >= 0, r < L, z3.Not(z(r)), forall(1, lambda i: z3.Implies(rng(i, 0, r), z(i))))))
@contract('shift(%s &, const long)' % V, 'S s', 'C20', SQ)
def _(E):
    S, s = E['S'], E['s']; E.requires(s >= 0, 'nonnegative shift')
    E.sets('S', vec(simp(z3.If(s >= S.len, 0, S.len - s)), lambda i: S.get(simp(i + s))))
def lens(E, S, m): E.requires(forall(1, lambda i: z3.Implies(rng(i, 0, S.len), S.get(i).len == m)), 'equal lengths')
@contract('mul(%s, %s)' % (CVV, CX), 'S a', 'C20', SQ)
def _(E):
    S, a = E['S'], pc(E, E['a'])
    E.returns(Vec(S.len, lam(1, lambda i: vec(S.get(i).len, lambda j: P(lambda k: conv_(E, pc(E, S.get(i).get(j)), a, k)))), ('vec', 'P')))
@contract('mulTrunc(%s, %s, const long)' % (CVV, CX), 'S a d', 'C20', SQ)
def _(E):
    S, a = E['S'], pc(E, E['a']); E.requires(E['d'] >= 0, 'nonnegative order')
    E.returns(Vec(S.len, lam(1, lambda i: vec(S.get(i).len, lambda j: P(lambda k: rite(simp(k < E['d']), conv_(E, pc(E, S.get(i).get(j)), a, k), R0)))), ('vec', 'P')))
@contract('add(%s, %s)' % (CVV, CVV), 'S T', 'C20', SQ)
def _(E):
    S, T = E['S'], E['T']; mn = lambda a, b: simp(z3.If(a <= b, a, b))
    E.returns(Vec(mn(S.len, T.len), lam(1, lambda i: vec(mn(S.get(i).len, T.get(i).len), lambda j: P(lambda k: pc(E, S.get(i).get(j))(k) + pc(E, T.get(i).get(j))(k)))), ('vec', 'P')))
