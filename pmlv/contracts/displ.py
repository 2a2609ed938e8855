"""C21: displacement-structured matrices over F_p; C02: structured matrices over F_p[x]"""
from .lib import *
from .utils import V, M, VF, MF, VL
from .helpers import rinv
S = 'ntl-extras/structured_lzz_p/src/'; SH = 'ntl-extras/structured_lzz_p/structured_lzz_p.h'
SX = 'ntl-extras/structured_lzz_pX/src/'; SXH = 'ntl-extras/structured_lzz_pX/structured_lzz_pX.h'
# ------------------------------------------------------------ displacement operators
# Z_c: Z_c[0][n-1] = c, ones below the diagonal
def up(a, n, c):     # Z_c A: row i is row i-1 of A, row 0 is c times the last row
    return lambda i, j: rite(simp(i == 0), c * a(n - 1, j) if c is not R0 else R0, a(i - 1, j))
def upT(a, n):       # Z_0^t A
    return lambda i, j: rite(simp(i == n - 1), R0, a(i + 1, j))
def rt(a, n, c):     # A Z_c: column j is column j+1 of A, the last one is c times the first
    return lambda i, j: rite(simp(j == n - 1), c * a(i, 0) if c is not R0 else R0, a(i, j + 1))
def rtT(a, n):       # A Z_0^t
    return lambda i, j: rite(simp(j == 0), R0, a(i, j - 1))
def phi(nm, file, hdr, et, prop, spec):
    T = MF if et == 'F' else M
    def val(E):
        A = E['A']; m, n = A.rows, A.cols; E.requires(z3.And(m >= 1, n >= 1), 'nonempty matrix')
        if et == 'F': a = A.get; z = R0
        l, r = spec
        if et == 'F':
            x, y = l(a, m), r(a, n); return mat(m, n, lambda i, j: x(i, j) - y(i, j), 'F')
        def ent(i, j):
            def cf(k):
                a = lambda u, v: co(E, A.get(u, v))(k)
                return l(a, m)(i, j) - r(a, n)(i, j)
            return P(cf)
        return mat(m, n, ent)
    @contract('%s(%s &, const %s &)' % (nm, T, T), 'res A', prop, file)
    def _(E): E.sets('res', val(E))
    @contract('%s(const %s &)' % (nm, T), 'A', prop, hdr)
    def _(E): E.returns(val(E))
PL = (lambda a, m: up(a, m, R1), lambda a, n: rt(a, n, R0)); MI = (lambda a, m: up(a, m, R0), lambda a, n: rt(a, n, R1))
phi('toeplitz_lzz_p_phi_plus', S + 'toeplitz_like_plus_lzz_p.cpp', SH, 'F', 'C21', PL)
phi('toeplitz_lzz_p_phi_minus', S + 'toeplitz_like_minus_lzz_p.cpp', SH, 'F', 'C21', MI)
phi('hankel_lzz_p_phi_plus', S + 'hankel_like_plus_lzz_p.cpp', SH, 'F', 'C21', (lambda a, m: up(a, m, R1), rtT))
phi('hankel_lzz_p_phi_minus', S + 'hankel_like_minus_lzz_p.cpp', SH, 'F', 'C21', (upT, lambda a, n: rt(a, n, R1)))
phi('toeplitz_lzz_pX_phi_minus', SX + 'toeplitz_like_minus_lzz_pX.cpp', SXH, 'P', 'C02', MI)
phi('toeplitz_lzz_pX_phi_plus', SX + 'toeplitz_like_plus_lzz_pX.cpp', SXH, 'P', 'C02', PL)
# ------------------------------------------------------------ Toeplitz-like and Hankel-like matrices given by generators
from .structured import lt_fields, crow_fields, ccol_fields
LT = 'lower_triangular_toeplitz_lzz_p'; CC = 'circulant_column_lzz_p'; CR = 'circulant_row_lzz_p'
def recs(n, cls, mk): return Vec(n, lam(1, lambda i: Rec(cls, mk(i))), ('rec', cls))
def like_class(cls, lname, rname, kind, ctor):
    """kind: (left factor class, right factor class, flip: None, 'in' or 'out')"""
    file = S + cls + '.cpp'; lc, rc, flip = kind
    def facs(f):
        m, n = f['m'], f['n']; return ctor(m, n, f['G'].get, f['H'].get)
    def fields(ex, f):
        m, n = f['m'], f['n']; al = f['G'].cols; dl, dr = facs(f)
        def mk(c, d, i, f0):
            g = lam(1, lambda j: d(i, j), 'k')
            if c == LT: nn = m if c == lc else n; return lt_fields(ex, {**f0, 'n': nn, 'data': Vec(nn, g, 'F')})
            base = {**f0, 'n': m, 'm': n}
            return crow_fields(ex, {**base, 'data': Vec(n, g, 'F')}) if c == CR else ccol_fields(ex, {**base, 'data': Vec(m, g, 'F')})
        return {**f, 'G': Mat(m, al, f['G'].get, 'F'), 'H': Mat(n, al, f['H'].get, 'F'),
                lname: recs(al, lc, lambda i: mk(lc, dl, i, {})), rname: recs(al, rc, lambda i: mk(rc, dr, i, {}))}
    clsinv(cls)(fields)
    @contract('%s(const %s &, const %s &)' % (cls, MF, MF), 'U V', 'C21', file, cls=cls)
    def _(E):
        U, V = E['U'], E['V']; E.requires(z3.And(U.rows >= 1, V.rows >= 1, U.cols == V.cols), 'positive dimensions, as many generators on both sides')
        E.sets('this', Rec(cls, fields(E.ex, {**E['this'].f, 'm': U.rows, 'n': V.rows, 'G': U, 'H': V})))
    def ent(c, d, n):
        if c == LT: return lambda i: lambda a, b: rite(simp(a >= b), d(i, a - b), R0)
        if c == CR: return lambda i: lambda a, b: d(i, (a - b - 1) % n)
        return lambda i: lambda a, b: d(i, n - 1 - (b - a - 1) % n)
    def dims(E):
        f = E['this'].f; E.requires(z3.And(f['m'] >= 1, f['n'] >= 1, f['G'].cols >= 0), 'positive dimensions'); m, n = f['m'], f['n']; dl, dr = facs(f)
        A, B = ent(lc, dl, n if lc == CR else m), ent(rc, dr, n if rc == CR else m); inner = m if lc == LT else n
        return f, m, n, A, B, inner
    @contract('NumRows()', '', 'C21', file, cls=cls)
    def _(E): E.returns(dims(E)[1])
    @contract('NumCols()', '', 'C21', file, cls=cls)
    def _(E): E.returns(dims(E)[2])
    @contract('NumGens()', '', 'C21', file, cls=cls)
    def _(E): E.returns(dims(E)[0]['G'].cols)
    def dense(E):
        f, m, n, A, B, inner = dims(E)
        def e(a, b):
            if flip == 'in': b = n - 1 - b
            if flip == 'out': a = m - 1 - a
            return rsum(0, f['G'].cols, lambda i: rsum(0, inner, lambda u: A(i)(a, u) * B(i)(u, b)))
        return f, m, n, e
    @contract('to_dense(%s &)' % MF, 'D', 'C21', file, cls=cls)
    def _(E): f, m, n, e = dense(E); E.sets('D', mat(m, n, e, 'F'))
    def vr(E):
        f, m, n, e = dense(E); x = E['x']; E.requires(x.len == n, 'length of the input')
        return vec(m, lambda a: rsum(0, n, lambda v: e(a, v) * x.get(v)), 'F')
    @contract('mul_right(%s &, const %s &)' % (VF, VF), 'r x', 'C21', file, cls=cls)
    def _(E): E.sets('r', vr(E))
    @contract('mul_right(%s &, const %s &)' % (MF, MF), 'r x', 'C21', file, cls=cls)
    def _(E):
        f, m, n, e = dense(E); x = E['x']; E.requires(x.rows == n, 'rows of the input'); E.sets('r', mat(m, x.cols, lambda a, b: rsum(0, n, lambda v: e(a, v) * x.get(v, b)), 'F'))
    @contract('mul_left(%s &, const %s &)' % (VF, VF), 'r x', 'C21', file, cls=cls)
    def _(E):
        f, m, n, e = dense(E); x = E['x']; E.requires(x.len == m, 'length of the input'); E.sets('r', vec(n, lambda b: rsum(0, m, lambda v: x.get(v) * e(v, b)), 'F'))
    @contract('mul_left(%s &, const %s &)' % (MF, MF), 'r x', 'C21', file, cls=cls)
    def _(E):
        f, m, n, e = dense(E); x = E['x']; E.requires(x.cols == m, 'columns of the input'); E.sets('r', mat(x.rows, n, lambda a, b: rsum(0, m, lambda v: x.get(a, v) * e(v, b)), 'F'))
like_class('toeplitz_like_plus_lzz_p', 'circulant_G', 'lower_triangular_toeplitz_H', (CC, LT, None), lambda m, n, G, H: (lambda i, j: G((n + j) % m, i), lambda i, j: H(n - 1 - j, i)))
like_class('hankel_like_plus_lzz_p', 'circulant_G', 'lower_triangular_toeplitz_H', (CC, LT, 'in'), lambda m, n, G, H: (lambda i, j: G((n + j) % m, i), lambda i, j: H(j, i)))
like_class('toeplitz_like_minus_lzz_p', 'toeplitz_G', 'circulant_H', (LT, CR, None), lambda m, n, G, H: (lambda i, j: -G(j, i), lambda i, j: H((n - 2 - j) % n, i)))
like_class('hankel_like_minus_lzz_p', 'lower_triangular_toeplitz_G', 'circulant_H', (LT, CR, 'out'), lambda m, n, G, H: (lambda i, j: -G(m - 1 - j, i), lambda i, j: H((n - 2 - j) % n, i)))
# ------------------------------------------------------------ Cauchy matrices on geometric progressions
from .structured import ht_fields
CG = 'cauchy_geometric_lzz_p'; FCG = S + CG + '.cpp'
def pw(a, k): return RF('pow', (a,), (k,))
def cg_fields(ex, f):
    m, n = f['m'], f['n']; t = f['t'].f if isinstance(f['t'], Rec) else {}
    return {**f, 't': Rec('toeplitz_lzz_p', ht_fields(ex, {**t, 'n': m, 'm': n})), 'powers_irho': Vec(m, f['powers_irho'].get, 'F')}
clsinv(CG)(cg_fields)
def cgd(E):
    f = E['this'].f; m, n = f['m'], f['n']; E.requires(z3.And(m >= 1, n >= 1), 'positive dimensions'); T = f['t'].f['data'].get; p = f['powers_irho'].get
    return f, m, n, lambda i, j: T(n + i - 1 - j), p
@contract('NumRows()', '', 'C21', FCG, cls=CG)
def _(E): E.returns(cgd(E)[1])
@contract('NumCols()', '', 'C21', FCG, cls=CG)
def _(E): E.returns(cgd(E)[2])
@contract('to_dense(%s &)' % MF, 'D', 'C21', FCG, cls=CG)
def _(E):
    f, m, n, T, p = cgd(E); d = lambda i, j: f['u1'] * pw(f['rho'], i) - f['v1'] * pw(f['rho'], j)
    E.requires(forall(2, lambda i, j: z3.Implies(z3.And(rng(i, 0, m), rng(j, 0, n)), z3.Not(E.ctx.isz(d(i, j))))), 'the two progressions are disjoint')
    E.sets('D', mat(m, n, lambda i, j: rinv(d(i, j)), 'F'))
for simple in ('', '_simple'):
    q = (lambda p, i, e: e) if simple else (lambda p, i, e: p(i) * e)
    @contract('mul_right%s(%s &, const %s &)' % (simple, VF, VF), 'r x', 'C21', FCG, cls=CG)
    def _(E, q=q):
        f, m, n, T, p = cgd(E); x = E['x']; E.raises(x.len != n); E.sets('r', vec(m, lambda i: q(p, i, rsum(0, n, lambda u: T(i, u) * x.get(u))), 'F'))
    @contract('mul_right%s(%s &, const %s &)' % (simple, MF, MF), 'r x', 'C21', FCG, cls=CG)
    def _(E, q=q):
        f, m, n, T, p = cgd(E); x = E['x']; E.raises(x.rows != n); E.sets('r', mat(m, x.cols, lambda i, j: q(p, i, rsum(0, n, lambda u: T(i, u) * x.get(u, j))), 'F'))
    @contract('mul_left%s(%s &, const %s &)' % (simple, VF, VF), 'r x', 'C21', FCG, cls=CG)
    def _(E, q=q):
        f, m, n, T, p = cgd(E); x = E['x']; E.requires(x.len == n if False else x.len == m, 'length'); E.sets('r', vec(n, lambda j: rsum(0, m, lambda u: q(p, u, x.get(u) * T(u, j))), 'F'))
    @contract('mul_left%s(%s &, const %s &)' % (simple, MF, MF), 'r x', 'C21', FCG, cls=CG)
    def _(E, q=q):
        f, m, n, T, p = cgd(E); x = E['x']; E.requires(x.cols == m, 'dimensions'); E.sets('r', mat(x.rows, n, lambda i, j: rsum(0, m, lambda u: q(p, u, x.get(i, u) * T(u, j))), 'F'))
@contract('%s(const zz_p &, const zz_p &, const zz_p &, long, long)' % CG, 'a1 b1 q mm nn', 'C21', FCG, cls=CG, assumed=True)
def _(E):
    a, b, q, m, n = E['a1'], E['b1'], E['q'], E['mm'], E['nn']; E.requires(z3.And(m >= 1, n >= 1), 'positive dimensions')
    E.requires(z3.Not(E.ctx.isz(q)), 'nonzero ratio'); iq = rinv(q)
    d = lambda k: a - b * pw(iq, m - 1) * pw(q, m + n - 2 - k)
    E.requires(forall(1, lambda k: z3.Implies(rng(k, 0, m + n - 1), z3.Not(E.ctx.isz(d(k))))), 'the two progressions are disjoint')
    E.sets('this', Rec(CG, cg_fields(E.ex, {**E['this'].f, 'm': m, 'n': n, 'u1': a, 'v1': b, 'rho': q, 'sqrt_rho': R0, 't': Rec('toeplitz_lzz_p', {'data': vec(m + n - 1, lambda k: rinv(d(k)), 'F')}),
         'powers_irho': vec(m, lambda i: pw(iq, i), 'F')})))
