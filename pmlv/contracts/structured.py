"""C01: structured matrices over F_p"""
from .lib import *
S = 'ntl-extras/structured_lzz_p/src/'
MP = 'ntl-extras/lzz_pX_middle_product/src/lzz_pX_middle_product.cpp'
VF, MF = 'Vec<zz_p>', 'Mat<zz_p>'

def npt(ex, n):
    from ..ntl import Builtins
    return Builtins().f_NextPowerOfTwo(ex, None, None, [n], None, None)
def fft(ex, n, f, k=None):
    """FFT representation (residue modulo X^(2^k)-1) of sum_{i<n} f(i) X^i, 2^k >= n"""
    k = npt(ex, n) if k is None else npt(ex, k)
    return Rec('fftRep', {'k': k, 'v': Vec(ex.pow2(None, k), lam(1, lambda i: rite(simp(i < n), f(i), R0)), 'F')})

@contract('type_of_prime()', '', ['C19'], 'ntl-extras/lzz_p_extra/src/lzz_p_extra.cpp', assumed=True)
def _(E): E.result('Z')      # classification of the modulus; no property depends on the value

# ------------------------------------------------------------ transposed products
def tmul(E, lo=1):
    na, a = E.ptr('a'); nc, c = E.ptr('c'); nb, _ = E.ptr('b')
    sa, sb = E['sa'], E['sb']
    E.requires(z3.And(sa >= 1, sb >= lo), 'sizes are positive')
    E.requires(z3.And(na >= sa, nb >= sb, nc >= sa + sb - 1, E['sc'] == sa + sb - 1), 'arrays are large enough')
    E.disjoint('b', sb, 'a', sa); E.disjoint('b', sb, 'c', sa + sb - 1)
    E.pwrites('b', sb, lambda j: rsum(0, sa, lambda i: a(i) * c(i + j)))
def read_karx():
    import re, os
    from ..build import REPO
    m = re.search(r'#define\s+KARX\s+\(?(\d+)', open(os.path.join(REPO, 'ntl-extras/lzz_pX_middle_product/lzz_pX_middle_product.h')).read())
    return int(m.group(1)) if m else 32
KARX = read_karx()
def karstk(E, N):
    """scratch size: karstk(N) = 4h-1 + (h >= KARX ? karstk(h) : 0) with h = (N+1)/2, nondecreasing (recursive definition and its
    monotonicity are used as lemmas; Kar_stk_size itself is compared with the recurrence by the bounded driver of C08)"""
    f = E.ctx.zf('karstk', 1)
    if 'karstk' not in E.ctx.axioms:
        x = z3.Int('x!ks'); y = z3.Int('y!ks'); h = (x + 1) / 2
        E.ctx.axiom('karstk', z3.ForAll([x], z3.Implies(x >= 1, z3.And(f(x) >= 4 * h - 1, z3.Implies(h >= KARX, f(x) == 4 * h - 1 + f(h)))), patterns=[f(x)]))
        E.ctx.axiom('karstk', z3.ForAll([x, y], z3.Implies(z3.And(x >= 1, x <= y), f(x) <= f(y)), patterns=[z3.MultiPattern(f(x), f(y))]))
    return E.ctx.zapp('karstk', [N])
@contract('tPlainMul2(zz_p *, long, const zz_p *, long, const zz_p *, long, long)', 'b sb a sa c sc use_long', ['C08'], MP, unred=True)
def _(E): tmul(E, 0)
def tkar(E):
    tmul(E)
    ns, _ = E.ptr('stk'); sa, sb = E['sa'], E['sb']; N = simp(imax(sa, sb))
    E.requires(z3.Or(sa < KARX, sb < KARX, ns >= karstk(E, N)), 'scratch space is large enough')
    E.disjoint('b', sb, 'stk', ns); E.disjoint('a', sa, 'stk', ns); E.disjoint('c', sa + sb - 1, 'stk', ns)
    E.pwrites('stk', ns, None)
@contract('tKarMul_aux(zz_p *, long, const zz_p *, long, const zz_p *, long, zz_p *, long)', 'b sb a sa c sc stk use_long', ['C08'], MP)
def _(E): tkar(E)
@contract('tKarMul_aux(zz_p *, long, const zz_p *, long, const zz_p *, long, zz_p *)', 'b sb a sa c sc stk', ['C08'], MP)
def _(E): tkar(E)
@contract('Kar_stk_size(long)', 'N', ['C08'], MP, assumed=True)
def _(E):
    E.returns(karstk(E, E['N']))

# ------------------------------------------------------------ Hankel, Toeplitz
def ht_fields(ex, f):
    n, m = f['n'], f['m']; g = f['data'].get; L = simp(n + m - 1)
    d = Vec(L, g, 'F'); r = lambda i: g(n + m - 2 - i)
    return {**f, 'n': n, 'm': m, 'data': d, 'data_rev': Vec(L, lam(1, r), 'F'), 'fft_data': fft(ex, L, r)}
def dims(E):
    t = E['this']; E.requires(z3.And(t.f['n'] >= 1, t.f['m'] >= 1), 'positive dimensions')
    return t.f['n'], t.f['m'], t.f
def products(cls, file, dense, mats=True, hard=(), dimfn=dims):
    """dense(E, f) gives the entry function; registers to_dense, getters, products"""
    @contract('NumRows()', '', 'C01', file, cls=cls)
    def _(E): E.returns(dimfn(E)[0])
    @contract('NumCols()', '', 'C01', file, cls=cls)
    def _(E): E.returns(dimfn(E)[1])
    @contract('to_dense(%s &)' % MF, 'D', 'C01', file, cls=cls, assumed='to_dense' in hard)
    def _(E):
        n, m, f = dimfn(E); e = dense(f); E.sets('D', mat(n, m, e, 'F'))
    @contract('to_dense()', '', 'C01', file, cls=cls)
    def _(E):
        n, m, f = dimfn(E); e = dense(f); E.returns(mat(n, m, e, 'F'))
    def vr(E):
        n, m, f = dimfn(E); e = dense(f); x = E['x']; E.raises(x.len != m)
        return vec(n, lambda i: rsum(0, m, lambda u: e(i, u) * x.get(u)), 'F')
    def vl(E):
        n, m, f = dimfn(E); e = dense(f); x = E['x']; E.raises(x.len != n)
        return vec(m, lambda j: rsum(0, n, lambda u: x.get(u) * e(u, j)), 'F')
    def mr(E):
        n, m, f = dimfn(E); e = dense(f); x = E['x']; E.raises(x.rows != m)
        return mat(n, x.cols, lambda i, j: rsum(0, m, lambda u: e(i, u) * x.get(u, j)), 'F')
    def ml(E):
        n, m, f = dimfn(E); e = dense(f); x = E['x']; E.raises(x.cols != n)
        return mat(x.rows, m, lambda i, j: rsum(0, n, lambda u: x.get(i, u) * e(u, j)), 'F')
    for T, R, L in ((VF, vr, vl),) + (((MF, mr, ml),) if mats else ()):
        for nm, fn in (('mul_right', R), ('mul_left', L)):
            @contract('%s(%s &, const %s &)' % (nm, T, T), 'r x', 'C01', file, cls=cls, assumed=nm in hard)
            def _(E, fn=fn): E.sets('r', fn(E))
            @contract('%s(const %s &)' % (nm, T), 'x', 'C01', file, cls=cls)
            def _(E, fn=fn): E.returns(fn(E))
for cls, ent in (('hankel_lzz_p', lambda f: lambda i, j: f['data'].get(f['m'] + f['n'] - 2 - i - j)),
                 ('toeplitz_lzz_p', lambda f: lambda i, j: f['data'].get(f['m'] + i - 1 - j))):
    F = S + cls + '.cpp'
    clsinv(cls)(ht_fields)
    @contract('%s(const %s &, long, long)' % (cls, VF), 'input rows cols', 'C01', F, cls=cls)
    def _(E, cls=cls):
        d, n, m = E['input'], E['rows'], E['cols']
        E.requires(z3.And(n >= 1, m >= 1, d.len == n + m - 1), 'positive dimensions, data of length rows+cols-1')
        E.sets('this', Rec(cls, ht_fields(E.ex, {**E['this'].f, 'n': n, 'm': m, 'data': d})))
    products(cls, F, ent)

# ------------------------------------------------------------ lower triangular Toeplitz
LT = 'lower_triangular_toeplitz_lzz_p'
def lt_fields(ex, f):
    n = f['n']; g = f['data'].get; c = lambda i: rite(simp(z3.And(i >= 0, i < n)), g(i), R0)
    return {**f, 'data': Vec(n, g, 'F'), 'dataX': P(c), 'fft': fft(ex, n, c, simp(n + n - 1))}
clsinv(LT)(lt_fields)
@contract('%s(const %s &)' % (LT, VF), 'input', 'C01', S + LT + '.cpp', cls=LT)
def _(E):
    d = E['input']; E.requires(d.len >= 1, 'nonempty data')
    E.sets('this', Rec(LT, lt_fields(E.ex, {**E['this'].f, 'n': d.len, 'data': d})))
def sqdims(E):
    t = E['this']; E.requires(t.f['n'] >= 1, 'positive dimension'); return t.f['n'], t.f['n'], t.f
products(LT, S + LT + '.cpp', lambda f: lambda i, j: rite(simp(i >= j), f['data'].get(i - j), R0), mats=False, dimfn=sqdims)

# ------------------------------------------------------------ circulant
def emod(ex, a, b):
    """a mod b, b >= 1"""
    return a % b
def left(n, m):
    r = n % m
    return simp(If_(r == 0, m, r))
def crow_fields(ex, f):
    n, m = f['n'], f['m']; g = f['data'].get
    p1 = lambda i: rite(simp(i == 0), g(m - 1), g(i - 1)); p2 = lambda i: g(m - 1 - i)
    return {**f, 'data': Vec(m, g, 'F'), 'fft1': fft(ex, m, p1, simp(m + m - 1)), 'fft3': fft(ex, m, p2, simp(m + m - 1)),
            'fft2': fft(ex, m, p2, simp(m + left(n, m) - 1))}
def ccol_fields(ex, f):
    n, m = f['n'], f['m']; g = f['data'].get
    p1 = lambda i: rite(simp(i == 0), g(z3.IntVal(0)), g(n - i)); p2 = lambda i: g(i)
    return {**f, 'data': Vec(n, g, 'F'), 'fft1': fft(ex, n, p1, simp(n + n - 1)), 'fft3': fft(ex, n, p2, simp(n + n - 1)),
            'fft2': fft(ex, n, p2, simp(n + left(m, n) - 1))}
for cls, fl, which, ent in (('circulant_row_lzz_p', crow_fields, 'm', lambda f: lambda i, j: f['data'].get((i - j - 1) % f['m'])),
                            ('circulant_column_lzz_p', ccol_fields, 'n', lambda f: lambda i, j: f['data'].get(f['n'] - 1 - (j - i - 1) % f['n']))):
    F = S + cls + '.cpp'
    clsinv(cls)(fl)
    @contract('%s(const %s &, long)' % (cls, VF), 'input k', 'C01', F, cls=cls)
    def _(E, cls=cls, fl=fl, which=which):
        d, k = E['input'], E['k']
        E.requires(z3.And(d.len >= 1, k >= 1), 'positive dimensions')
        nm = {'n': k, 'm': d.len} if which == 'm' else {'n': d.len, 'm': k}
        E.sets('this', Rec(cls, fl(E.ex, {**E['this'].f, **nm, 'data': d})))
    products(cls, F, ent, mats=False, hard=('mul_right', 'mul_left'))

# ------------------------------------------------------------ Sylvester
SY = 'sylvester_lzz_p'
def sy_fields(ex, f):
    a, b = ex.tcoef(f['a']), ex.tcoef(f['b']); da, db = simp(ex.polylen(f['a']) - 1), simp(ex.polylen(f['b']) - 1)
    rev = lambda c, d: P(lambda k: rite(simp(z3.And(k >= 0, k <= d)), c(d - k), R0))
    return {**f, 'n': simp(da + db), 'revA': rev(a, da), 'revB': rev(b, db)}
clsinv(SY)(sy_fields)
def sydims(E):
    t = E['this']; f = t.f; E.requires(z3.And(pdeg(E, f['a']) >= 0, pdeg(E, f['b']) >= 0, f['n'] >= 1), 'nonzero polynomials, not both constant')
    return f['n'], f['n'], {**f, 'da': pdeg(E, f['a']), 'db': pdeg(E, f['b']), 'ca': pc(E, f['a']), 'cb': pc(E, f['b'])}
@contract('%s(const zz_pX &, const zz_pX &)' % SY, 'A B', 'C01', S + SY + '.cpp', cls=SY)
def _(E):
    E.requires(z3.And(pdeg(E, E['A']) >= 0, pdeg(E, E['B']) >= 0), 'nonzero polynomials')
    z = P(lambda k: R0)
    E.sets('this', Rec(SY, {**sy_fields(E.ex, {**E['this'].f, 'a': E['A'], 'b': E['B']}), 'invA': z, 'invB': z, 'singular': z3.IntVal(-1)}))
products(SY, S + SY + '.cpp', lambda f: lambda i, j: rite(simp(j < f['db']), rite(simp(i >= j), f['ca'](i - j), R0), rite(simp(i >= j - f['db']), f['cb'](i - j + f['db']), R0)), dimfn=sydims)

# ------------------------------------------------------------ middle product of polynomials
def s_middle(E, a, c, dA, dB):
    u, v = pc(E, a), pc(E, c)
    return P(lambda k: rite(simp(z3.And(k >= 0, k <= dB)), rsum(0, dA + 1, lambda t: u(t) * rite(simp(dA + k - t >= 0), v(dA + k - t), R0)), R0))
for nm in ('middle_FFT', 'middle_product'):
    @contract('%s(zz_pX &, const zz_pX &, const zz_pX &, long, long)' % nm, 'b a c dA dB', 'C08', MP)
    def _(E, nm=nm):
        a, c, dA, dB = E['a'], E['c'], E['dA'], E['dB']
        E.requires(z3.And(dA >= 0, dB >= (0 if nm == 'middle_FFT' else -1), pdeg(E, a) <= dA, pdeg(E, c) <= dA + dB), 'deg(a) <= dA, deg(c) <= dA + dB')
        E.sets('b', s_middle(E, a, c, dA, dB))
