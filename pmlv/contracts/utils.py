"""C04: coefficient-level operations (mat_lzz_pX_utils)"""
from .lib import *
F = X + 'mat_lzz_pX_utils.cpp'
V, M, VF, MF, VM = 'Vec<zz_pX>', 'Mat<zz_pX>', 'Vec<zz_p>', 'Mat<zz_p>', 'Vec<Mat<zz_p>>'
VL = 'std::vector<long>'
def tc(E, f): return P(f)

def zeropoly(): return P(lambda k: R0)
def onepoly(): return P(lambda k: rite(simp(k == 0), R1, R0))

@contract('clear(%s &)' % M, 'x', 'C04', F)
def _(E): E.sets('x', like(E['x'], lambda i, j: zeropoly()))
@contract('clear(%s &, long, long, long, long)' % M, 'x r c nr nc', 'C04', F)
def _(E):
    x, r, c, nr, nc = E['x'], E['r'], E['c'], E['nr'], E['nc']
    E.requires(z3.And(r >= 0, c >= 0), 'window offsets are nonnegative')
    def f(i, j):
        u = co(E, x.get(i, j)); w = z3.And(i >= r, i < r + nr, j >= c, j < c + nc)
        return P(lambda k: rite(w, R0, u(k)))
    E.sets('x', like(x, f))
@contract('ident(%s &, long)' % M, 'x n', 'C04', F)
def _(E):
    n = E['n']; E.requires(n >= 0, 'dimension is nonnegative')
    E.sets('x', mat(n, n, lambda i, j: P(lambda k: rite(simp(z3.And(i == j, k == 0)), R1, R0))))
@contract('ident_mat_zz_pX(long)', 'n', 'C04', F)
def _(E):
    n = E['n']; E.requires(n >= 0, 'dimension is nonnegative')
    E.returns(mat(n, n, lambda i, j: P(lambda k: rite(simp(z3.And(i == j, k == 0)), R1, R0))))

def isone(E, p): return z3.And(plen(E, p) == 1, E.ctx.req(pc(E, p)(z3.IntVal(0)), R1))
@contract('IsZero(const %s &)' % V, 'a', 'C04', F)
def _(E):
    a = E['a']; E.returns(forall(1, lambda i: z3.Implies(rng(i, 0, a.len), plen(E, a.get(i)) == 0)))
@contract('IsZero(const %s &)' % M, 'a', 'C04', F)
def _(E):
    a = E['a']; E.returns(forall(2, lambda i, j: z3.Implies(z3.And(rng(i, 0, a.rows), rng(j, 0, a.cols)), plen(E, a.get(i, j)) == 0)))
def isid(E, a):
    return forall(2, lambda i, j: z3.Implies(z3.And(rng(i, 0, a.rows), rng(j, 0, a.cols)), z3.If(i == j, isone(E, a.get(i, j)), plen(E, a.get(i, j)) == 0)))
@contract('IsIdent(const %s &)' % M, 'a', 'C04', F)
def _(E):
    a = E['a']; E.returns(z3.And(a.rows == a.cols, isid(E, a)))
@contract('IsIdent(const %s &, long)' % M, 'a n', 'C04', F)
def _(E):
    a, n = E['a'], E['n']; E.returns(z3.And(a.rows == n, a.cols == n, isid(E, a)))
@contract('IsConstant(const %s &)' % M, 'a', 'C04', F)
def _(E):
    a = E['a']; E.returns(forall(2, lambda i, j: z3.Implies(z3.And(rng(i, 0, a.rows), rng(j, 0, a.cols)), plen(E, a.get(i, j)) <= 1)))
@contract('deg(const %s &)' % V, 'a', ['C04', 'C05'], F)
def _(E):
    a = E['a']; d = E.result('Z'); L = lambda i: plen(E, a.get(i))
    E.ensures(d >= -1)
    E.ensures(forall(1, lambda i: z3.Implies(rng(i, 0, a.len), L(i) - 1 <= d)))
    E.ensures(z3.Or(d == -1, exists(1, lambda i: z3.And(rng(i, 0, a.len), L(i) - 1 == d))))
@contract('deg(const %s &)' % M, 'a', ['C04', 'C05'], F)
def _(E):
    a = E['a']; d = E.result('Z'); degspec(E, a, d)

def reg(name, spec, T, extra, req=None, file=F, prop='C04', val=True, op=None):
    """in-place/three-address form name(x, a, extra...), value form and operators"""
    ex = [e for e in extra.split() if e]
    tys = ''.join(', long' for _ in ex)
    @contract('%s(%s &, const %s &%s)' % (name, T, T, tys), ' '.join(['x', 'a'] + ex), prop, file)
    def _(E):
        if req: req(E)
        E.sets('x', spec(E, E['a'], *[E[e] for e in ex]))
    for nm in ([name] if val else []) + ([op] if op else []):
        @contract('%s(const %s &%s)' % (nm, T, tys), ' '.join(['a'] + ex), prop, file)
        def _(E):
            if req: req(E)
            E.returns(spec(E, E['a'], *[E[e] for e in ex]))
    if op:
        @contract('%s=(%s &%s)' % (op, T, tys), ' '.join(['a'] + ex), prop, file)
        def _(E):
            if req: req(E)
            v = spec(E, E['a'], *[E[e] for e in ex]); E.sets('a', v); E.returns(v)

def sh(E, u, n): return P(lambda k: rite(simp(z3.And(k >= 0, k - n >= 0)), u(k - n), R0))
def tr(E, u, n): return P(lambda k: rite(simp(k < n), u(k), R0))
def s_left(E, a, n): return like(a, lambda *ij: sh(E, co(E, a.get(*ij)), n))
def s_right(E, a, n): return like(a, lambda *ij: sh(E, co(E, a.get(*ij)), -n))
def s_trunc(E, a, n): return like(a, lambda *ij: tr(E, co(E, a.get(*ij)), n))
def n0(E): E.requires(E['n'] >= 0, 'order is nonnegative')
for T in (V, M):
    reg('trunc', s_trunc, T, 'n', n0)
    reg('LeftShift', s_left, T, 'n', op='operator<<')
    reg('RightShift', s_right, T, 'n', op='operator>>')
def one(which, fn):
    def spec(E, a, r, n):
        def f(i, j):
            u = co(E, a.get(i, j)); w = fn(E, u, n); c = simp((i if which == 'row' else j) == r)
            return P(lambda k: rite(c, w.coef(k), u(k)))
        return like(a, f)
    return spec
def inr(E): n0(E) if False else None; E.requires(rng(E['r'], 0, E['a'].rows), 'row index in range')
def inc(E): E.requires(rng(E['r'], 0, E['a'].cols), 'column index in range')
reg('truncRow', one('row', tr), M, 'r n', lambda E: (inr(E), n0(E)))
reg('truncCol', one('col', tr), M, 'r n', lambda E: (inc(E), n0(E)))
neg = lambda E, u, n: sh(E, u, -n)
reg('LeftShiftRow', one('row', sh), M, 'r n', inr)
reg('RightShiftRow', one('row', neg), M, 'r n', inr)
reg('LeftShiftCol', one('col', sh), M, 'r n', inc)
reg('RightShiftCol', one('col', neg), M, 'r n', inc)

def s_transpose(E, a): return mat(a.cols, a.rows, lambda i, j: a.get(j, i))
reg('transpose', s_transpose, M, '')
def s_mirror(E, a): return vec(a.len, lambda i: a.get(a.len - 1 - i))
reg('mirror', s_mirror, V, '')

def rv(u, m): return P(lambda k: rite(simp(z3.And(k >= 0, k <= m)), u(m - k), R0))
reg('reverse', lambda E, a, hi: like(a, lambda i, j: rv(co(E, a.get(i, j)), hi)), M, 'hi', lambda E: E.requires(E['hi'] >= -1, 'bound is at least -1'))
def regrev(name, pickh, dim):
    def spec(E, a, hi):
        return like(a, lambda i, j: rv(co(E, a.get(i, j)), hi.get(pickh(i, j))))
    def req(E):
        E.requires(E['hi'].len == dim(E['a']), 'one bound per row/column')
        E.requires(forall(1, lambda i: z3.Implies(rng(i, 0, E['hi'].len), E['hi'].get(i) >= -1)), 'bounds are at least -1')
    @contract('%s(%s &, const %s &, const %s &)' % (name, M, M, VL), 'x a hi', 'C04', F)
    def _(E): req(E); E.sets('x', spec(E, E['a'], E['hi']))
    @contract('%s(const %s &, const %s &)' % (name, M, VL), 'a hi', 'C04', F)
    def _(E): req(E); E.returns(spec(E, E['a'], E['hi']))
regrev('row_reverse', lambda i, j: i, lambda a: a.rows)
regrev('col_reverse', lambda i, j: j, lambda a: a.cols)
def degrev(E, a):
    d = E.ghost('d'); degspec(E, a, d, E.requires)
    return like(a, lambda i, j: rv(co(E, a.get(i, j)), d))

# coefficients
def s_coeff(E, a, i): return like(a, lambda u, v: rite(simp(i >= 0), co(E, a.get(u, v))(i), R0), 'F')
@contract('GetCoeff(%s &, const %s &, long)' % (MF, M), 'x a i', 'C04', F)
def _(E): E.sets('x', s_coeff(E, E['a'], E['i']))
@contract('coeff(const %s &, long)' % M, 'a i', 'C04', F)
def _(E): E.returns(s_coeff(E, E['a'], E['i']))
@contract('SetCoeff(%s &, long, const %s &)' % (M, MF), 'x i a', 'C04', F)
def _(E):
    x, i, a = E['x'], E['i'], E['a']
    E.requires(i >= 0, 'index is nonnegative'); E.raises(Not_(same_shape(x, a)))
    def f(u, v):
        c = co(E, x.get(u, v)); return P(lambda k: rite(simp(k == i), a.get(u, v), c(k)))
    E.sets('x', like(x, f))

# evaluation
def ev(E, p, a):
    c = pc(E, p); return rsum(0, plen(E, p), lambda u: c(u) * RF('pow', (a,), (u,)))
@contract('eval(%s &, const %s &, const zz_p &)' % (MF, M), 'x a pt', 'C04', F)
def _(E): E.sets('x', like(E['a'], lambda i, j: ev(E, E['a'].get(i, j), E['pt']), 'F'))
@contract('eval(const %s &, const zz_p &)' % M, 'a pt', 'C04', F)
def _(E): E.returns(like(E['a'], lambda i, j: ev(E, E['a'].get(i, j), E['pt']), 'F'))

# conversions
def s_const(E, a): return mat(a.rows, a.cols, lambda i, j: P(lambda k: rite(simp(k == 0), a.get(i, j), R0)))
@contract('conv(%s &, const %s &)' % (M, MF), 'x a', 'C04', F)
def _(E): E.sets('x', s_const(E, E['a']))
@contract('conv(const %s &)' % MF, 'a', 'C04', F)
def _(E): E.returns(s_const(E, E['a']))
def s_tovec(E, a, n): return vec(n, lambda k: mat(a.rows, a.cols, lambda i, j: co(E, a.get(i, j))(k), 'F'), ('mat', 'F'))
def s_fromvec(E, x0, v, n):
    # dimensions of the first coefficient; without coefficients the output keeps its dimensions
    d = v.get(z3.IntVal(0))
    return mat(If_(n <= 0, x0.rows, d.rows), If_(n <= 0, x0.cols, d.cols), lambda i, j: P(lambda k: rite(simp(z3.And(k >= 0, k < n)), v.get(k).get(i, j), R0)))
def allsame(E, v):
    d = v.get(z3.IntVal(0))
    E.requires(forall(1, lambda k: z3.Implies(rng(k, 0, v.len), z3.And(v.get(k).rows == d.rows, v.get(k).cols == d.cols))), 'all coefficients have the same dimensions')
@contract('conv(%s &, const %s &, long)' % (VM, M), 'x a n', 'C04', F)
def _(E): n0(E); E.sets('x', s_tovec(E, E['a'], E['n']))
@contract('conv(const %s &, long)' % M, 'a n', 'C04', F)
def _(E): n0(E); E.returns(s_tovec(E, E['a'], E['n']))
@contract('conv(%s &, const %s &, long)' % (M, VM), 'x a n', 'C04', F)
def _(E): n0(E); allsame(E, E['a']); E.sets('x', s_fromvec(E, E['x'], E['a'], simp(imin(E['n'], E['a'].len))))
@contract('conv(%s &, const %s &)' % (M, VM), 'x a', 'C04', F, assumed=True)
def _(E): allsame(E, E['a']); E.sets('x', s_fromvec(E, E['x'], E['a'], E['a'].len))
@contract('conv(%s &, const %s &)' % (VM, M), 'x a', 'C04', F, assumed=True)
def _(E):
    d = E.out('x', VM); a = E['a']; degspec(E, a, simp(d.len - 1))
    E.ensures(d.len >= 0)
    w = s_tovec(E, a, d.len)
    E.sets('x', w)
