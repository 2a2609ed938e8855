"""matrix-level contracts: truncated inversion, series solutions, division (C10, C11) over the operations proved under C03, C04, C07, C08"""
import z3
from ..alg import *
from .lib import X, P, co, like, lam, Mat, Vec, rite, R0
M = 'Mat<zz_pX>'; MF = 'Mat<zz_p>'
U = X + 'mat_lzz_pX_utils.cpp'; AR = X + 'mat_lzz_pX_arith.cpp'; MU = X + 'mat_lzz_pX_multiply.cpp'; MP = X + 'mat_lzz_pX_middle_product.cpp'
INV = X + 'mat_lzz_pX_inv_trunc.cpp'; LS = X + 'mat_lzz_pX_linsolve.cpp'; DIV = X + 'mat_lzz_pX_division.cpp'
HI = 'ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_inverse.h'
def base(sig, names, file, tr): return acontract(sig, names, [], file, assumed=True, trust=tr)
def zmax(a, b): return z3.If(a >= b, a, b)
# ---- operations whose entry-level contracts are proved under other properties
@base('trunc(%s &, const %s &, long)' % (M, M), 'c a n', U, 'C04')
def _(E):
    a, n = E['a'], E['n']; E.requires(n >= 0, 'nonnegative order'); E.sets('c', E.trunc(a, n), a.rows, a.cols, n, a.len)
@base('RightShift(%s &, const %s &, long)' % (M, M), 'c a n', U, 'C04')
def _(E):
    a, n = E['a'], E['n']; E.requires(n >= 0, 'nonnegative shift'); E.sets('c', E.rsh(a, n), a.rows, a.cols, zmax(a.len - n, I(0)))
@base('LeftShift(%s &, const %s &, long)' % (M, M), 'c a n', U, 'C04')
def _(E):
    a, n = E['a'], E['n']; E.requires(n >= 0, 'nonnegative shift'); E.sets('c', a.sh(n), a.rows, a.cols, a.len + n)
@base('transpose(%s &, const %s &)' % (M, M), 'c a', U, 'C04')
def _(E): a = E['a']; E.sets('c', a.T, a.cols, a.rows, a.len)
@base('GetCoeff(%s &, const %s &, long)' % (MF, M), 'c a i', U, 'C04')
def _(E): a, i = E['a'], E['i']; E.requires(i >= 0, 'index'); E.sets('c', E.trunc(E.rsh(a, i), 1), a.rows, a.cols, I(1))
@base('deg(const %s &)' % M, 'a', 'ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp', 'C05')
def _(E): E.newval('return', simp(E['a'].len - 1))
@base('ident(%s &, long)' % M, 'a n', U, 'C04')
def _(E): E.requires(E['n'] >= 0, 'size'); E.sets('a', ONE, E['n'], E['n'], I(1))
@base('conv(%s &, const %s &)' % (M, MF), 'c a', U, 'C04')
def _(E): a = E['a']; E.sets('c', a.el, a.rows, a.cols, I(1))
@base('clear(%s &)' % M, 'a', U, 'C04')
def _(E): E.sets('a', ZERO, E['a'].rows, E['a'].cols)
@base('IsZero(const %s &)' % M, 'a', U, 'C04')
def _(E): b = isz(E.ex, E.st, E['a']); E.st.pc.append(b == (E['a'].len == 0)); E.newval('return', b)
def isz(ex, st, a): return z3.Bool('isz_%s' % (ex.key(st, a),))
def same(E, a, b): E.requires(z3.And(a.rows == b.rows, a.cols == b.cols), 'same dimensions')
def inner(E, a, b): E.requires(a.cols == b.rows, 'inner dimensions agree')
for t1, t2 in ((M, M), (M, MF), (MF, M), (MF, MF)):
    tc = MF if t1 == t2 == MF else M
    @base('add(%s &, const %s &, const %s &)' % (tc, t1, t2), 'c a b', AR, 'C03')
    def _(E): a, b = E['a'], E['b']; same(E, a, b); E.sets('c', a + b, a.rows, a.cols, zmax(a.len, b.len))
    @base('sub(%s &, const %s &, const %s &)' % (tc, t1, t2), 'c a b', AR, 'C03')
    def _(E): a, b = E['a'], E['b']; same(E, a, b); E.sets('c', a - b, a.rows, a.cols, zmax(a.len, b.len))
    if (t1, t2) != (M, M):
        @base('mul(%s &, const %s &, const %s &)' % (tc, t1, t2), 'c a b', AR, 'C03')
        def _(E): a, b = E['a'], E['b']; inner(E, a, b); E.sets('c', a * b, a.rows, b.cols, zmax(a.len, b.len))
@base('negate(%s &, const %s &)' % (M, M), 'c a', AR, 'C03')
def _(E): a = E['a']; E.sets('c', -a, a.rows, a.cols, a.len)
@base('add_LeftShift(%s &, const %s &, const %s &, long)' % (M, M, M), 'c a b k', AR, 'C03')
def _(E):
    a, b, k = E['a'], E['b'], E['k']; same(E, a, b); E.requires(k >= 0, 'shift'); E.sets('c', a + b.sh(k), a.rows, a.cols, zmax(a.len, b.len + k))
def mulc(E, pos=True):
    a, b = E['a'], E['b']; inner(E, a, b); E.sets('c', a * b, a.rows, b.cols, zmax(a.len + b.len - 1, I(0)))
@base('multiply(%s &, const %s &, const %s &, long)' % (M, M, M), 'c a b p', MU, 'C07')
def _(E): mulc(E)
@base('mul_trunc(%s &, const %s &, const %s &, long, long)' % (M, M, M), 'c a b d p', MU, 'C07')
def _(E): a, b, d = E['a'], E['b'], E['d']; inner(E, a, b); E.requires(d >= 0, 'order'); E.sets('c', E.trunc(a * b, d), a.rows, b.cols, d)
@base('middle_product(%s &, const %s &, const %s &, long, long, long)' % (M, M, M), 'b a c dA dB p', MP, 'C08')
def _(E):
    a, c, dA, dB = E['a'], E['c'], E['dA'], E['dB']; inner(E, a, c)
    E.requires(z3.And(dA >= 0, dB >= 0), 'degree bounds are nonnegative'); E.requires(a.len <= dA + 1, 'deg(a) <= dA'); E.requires(c.len <= dA + dB + 1, 'deg(c) <= dA + dB')
    E.sets('b', E.trunc(E.rsh(a * c, dA), dB + 1), a.rows, c.cols, dB + 1)
@base('type_of_prime()', '', 'ntl-extras/lzz_p_extra/lzz_p_extra.h', 'read off the definition')
def _(E):
    v = E.ex.int('tp'); E.fact(z3.And(v >= 0, v <= 2)); E.newval('return', v)
@base('is_FFT_ready(long)', 'k', 'ntl-extras/lzz_p_extra/lzz_p_extra.h', 'any value')
def _(E): E.newval('return', z3.Bool(E.ex.name('fft')))
@base('NextPowerOfTwo(long)', 'k', '', 'NTL, any value')
def _(E): E.newval('return', E.ex.int('npt'))
LM = 'mat_lzz_pX_lmultiplier'
@base('get_lmultiplier(const %s &, long)' % M, 'a dB', X + 'mat_lzz_pX_lmultiplier.cpp', 'assumed; bounded check under C07')
def _(E): E.newval('return', Opq(LM, a=E['a'], dB=E['dB']))
@acontract('multiply(%s &, const %s &)' % (M, M), 'c b', [], X + 'mat_lzz_pX_lmultiplier.cpp', cls=LM, assumed=True, trust='assumed; bounded check under C07')
def _(E):
    m, b = E['this'], E['b']; inner(E, m.a, b); E.requires(b.len <= m.dB + 1, 'degree bound of the multiplier'); E.sets('c', m.a * b, m.a.rows, b.cols, zmax(m.a.len + b.len - 1, I(0)))
@acontract('multiply(const %s &)' % M, 'b', [], X + 'mat_lzz_pX_lmultiplier.cpp', cls=LM, assumed=True, trust='assumed; bounded check under C07')
def _(E):
    m, b = E['this'], E['b']; inner(E, m.a, b); E.requires(b.len <= m.dB + 1, 'degree bound of the multiplier'); E.sets('return', m.a * b, m.a.rows, b.cols, zmax(m.a.len + b.len - 1, I(0)))
@base('inv(%s &, const %s &)' % (MF, MF), 'x a', '', 'NTL: inverse of a constant matrix')
def _(E):
    a = E['a']; E.raises(z3.Or(a.rows != a.cols, z3.Not(E.inv0(a)))); x = E.new('x', a.rows, a.rows, I(1)); E.inverse(x, a, None)
# ------------------------------------------------------------ C10
def nonzero(E, a):
    E.ex.lemmas.add('lemma: a matrix with at least one row whose constant coefficient is invertible is nonzero')
    E.st.pc.append(z3.Implies(z3.And(a.rows >= 1, E.inv0(a)), a.len >= 1))
def s_inv(E, a='a', m='m', x='x', th=None):
    a, m = E[a], E[m]; E.requires(z3.Or(m >= 1, z3.And(m == 0, a.len == 0)), 'positive order'); E.requires(a.rows >= 1, 'nonempty matrix'); nonzero(E, a)
    if th: E.requires(z3.Or(E[th] == -1, E[th] >= 1), 'threshold is -1 or positive')
    E.raises(z3.Or(a.rows != a.cols, z3.Not(E.inv0(a))))
    x = E.new(x, a.rows, a.rows, m); E.inverse(x, a, m)
TI = '(%s &, const %s &, long' % (M, M)
@acontract('plain_inv_trunc%s)' % TI, 'x a m', [], INV, assumed=True, trust='C10')
def _(E): s_inv(E)
for nm in ('FFT', 'geometric'):
    @acontract('newton_inv_trunc_%s%s, long)' % (nm, TI), 'x a m thresh', 'C10', INV, assumed=True, trust='assumed; bounded')
    def _(E): s_inv(E, th='thresh')
@invariant('n', 'thresh', 'all_deg')
def inv_degrees(E, v, pre):
    n, t, ad = v['n'], v['thresh'], v['all_deg']; n0 = pre['n']
    E.fact(z3.And(ad.len >= 0, n >= z3.If(n0 >= 1, 1, 0)), 'current degree')
    E.fact(z3.Implies(ad.len == 0, n == n0), 'first degree')
    E.every(ad, lambda f, i: f(i) >= z3.If(n0 >= 1, 1, 0), 'positive degrees'); E.every(ad, lambda f, i: z3.Implies(i == 0, f(i) >= n0), 'the first one reaches n')
    E.every(ad, lambda f, i: f(i) <= 2 * z3.If(i == ad.len - 1, n, f(i + 1)), 'at most doubling')
@acontract('degrees(long, long)', 'n thresh', 'C10', INV, loop=inv_degrees)
def _(E):
    n, t = E['n'], E['thresh']; E.requires(z3.And(n >= 0, t >= 1), 'positive arguments')
    ln = E.ex.int('ndeg'); v = E.newval('return', E.ex.vl(E.st, 'all_deg', ln)); ln = v.len; E.fact(ln >= 1)
    E.every(v, lambda f, i: f(i) >= z3.If(n >= 1, 1, 0), 'positive degrees'); E.every(v, lambda f, i: z3.Implies(i < ln - 1, f(i + 1) <= 2 * f(i)), 'at most doubling'); E.every(v, lambda f, i: z3.Implies(i == ln - 1, f(i) >= n), 'the last one reaches n')
@invariant('x', 'a', 'k', 'idx', 'all_deg', 'm', dir='u')
def inv_newton(E, v, pre):
    x, a, k, idx, ad = v['x'], v['a'], v['k'], v['idx'], v['all_deg']
    E.fact(z3.And(x.rows == a.rows, x.cols == a.rows, x.len <= k), 'dimensions and degree of the partial inverse')
    E.fact(z3.And(idx >= 1, idx <= ad.len, k >= 1), 'index range'); E.fact(k == E.ex.elem(E.st, ad, idx - 1), 'current precision')
    E.inverse(x, a, k, 'loop invariant: x is the inverse of a modulo x^k')
@acontract('newton_inv_trunc_middle_product%s, long)' % TI, 'x a m thresh', 'C10', INV, loop=inv_newton)
def _(E): s_inv(E, th='thresh')
@acontract('inv_trunc%s)' % TI, 'x a m', 'C10', INV)
def _(E): s_inv(E)
@acontract('inv_trunc(const %s &, long)' % M, 'a m', 'C10', HI)
def _(E): s_inv(E, x='return')
# ---- series solutions
def s_ser(E, A='A', b='b', u='u', th=None):
    A, b, p = E[A], E[b], E['prec']; E.requires(p >= 1, 'positive precision'); E.requires(z3.And(A.rows >= 1, A.rows == b.rows), 'dimensions'); nonzero(E, A)
    if th: E.requires(z3.Or(E[th] == -1, E[th] >= 1), 'threshold is -1 or positive')
    E.raises(z3.Or(A.rows != A.cols, z3.Not(E.inv0(A))))
    u = E.new(u, A.cols, b.cols, p); E.eqmod(A * u, b, p, 'A u = b modulo x^prec')
TS = '(%s &, const %s &, const %s &, long' % (M, M, M)
@acontract('solve_DAC%s, const std::unique_ptr<%s> &, long)' % (TS, LM), 'sol A b prec invA thresh', 'C10', LS, noalias=[('sol', 'A'), ('sol', 'b')])
def _(E):
    A, b, p, i, t = E['A'], E['b'], E['prec'], E['invA'], E['thresh']
    E.requires(z3.And(p >= 1, t >= 1), 'positive precision'); E.requires(z3.And(A.rows >= 1, A.rows == A.cols, A.rows == b.rows), 'dimensions')
    E.requires(z3.And(A.len <= p, b.len <= p), 'deg(A), deg(b) < prec'); E.requires(z3.And(i.a.rows == A.rows, i.a.cols == A.rows, i.dB == t - 1), 'multiplier by the inverse')
    E.req_inverse(i.a, A, z3.If(p <= t, p, t))
    u = E.new('sol', A.cols, b.cols, p); E.eqmod(A * u, b, p, 'A sol = b modulo x^prec')
@acontract('solve_series_low_precision%s, long)' % TS, 'u A b prec thresh', 'C10', LS)
def _(E): s_ser(E, th='thresh')
def zero_spec(E):
    u = E['u']; E.requires(u.rows == E['r']); E.requires(u.cols == E['s']); E.sets('u', like(u, lambda i, j: P(lambda k: R0)))
def zero_eff(E):
    u = E['u']; E.requires(z3.And(u.rows == E['r'], u.cols == E['s']), 'dimensions'); E.sets('u', ZERO, u.rows, u.cols)
def upd_spec(E):
    u, b, d, h = E['upper'], E['b'], E['dA'], E['shift']
    E.requires(z3.And(u.rows == E['r'], u.cols == E['s'], b.rows == E['r'], b.cols == E['s'], h >= 0, d >= 0))
    def ent(i, j):
        cb, cu = co(E, b.get(i, j)), co(E, u.get(i, j))
        return P(lambda k: rite(simp(k <= d), cb(k + h) - cu(k), cu(k)))
    E.sets('upper', like(u, ent))
def upd_eff(E):
    u, b, d, h = E['upper'], E['b'], E['dA'], E['shift']; n = simp(d + 1)
    E.requires(z3.And(u.rows == E['r'], u.cols == E['s'], b.rows == E['r'], b.cols == E['s'], h >= 0, d >= 0), 'dimensions and degrees')
    E.sets('upper', E.trunc(E.rsh(b, h) - u, n) + E.rsh(u, n).sh(n), u.rows, u.cols, zmax(n, u.len))
@invariant('u', 'A', 'b', 'sol', 'shift', 'it', 'lenA', 'dA', 'nb', 'r', 's', 'multI', 'multA', dir='u')
def inv_high(E, v, pre):
    u, A, b, sol, sh, it, L = v['u'], v['A'], v['b'], v['sol'], v['shift'], v['it'], v['lenA']
    E.fact(z3.And(it >= 1, sh == it * L, sh >= L), 'position in the expansion')
    E.fact(z3.And(u.rows == A.cols, u.cols == b.cols, sol.rows == A.cols, sol.cols == b.cols, u.len <= sh, sol.len <= L), 'dimensions and degrees')
    E.eqmod(A * u, b - E.rsh(b, sh).sh(sh) + E.rsh(A * sol, L).sh(sh), None, 'loop invariant: residue of the partial solution')
@acontract('solve_series_high_precision%s)' % TS, 'u A b prec', 'C10', LS, loop=inv_high, blocks=[Block('u r s prec', zero_spec, zero_eff), Block('upper b r s dA shift', upd_spec, upd_eff)])
def _(E): s_ser(E)
@acontract('solve_series%s)' % TS, 'u A b prec', 'C10', LS)
def _(E): s_ser(E)
def col_spec(E):
    m, b, n = E['bmat'], E['b'], E['n']; E.requires(z3.And(m.rows == n, m.cols == 1, b.len == n)); E.sets('bmat', like(m, lambda i, j: b.get(i)))
def col_eff(E):
    m, b, n = E['bmat'], E['b'], E['n']; E.requires(z3.And(m.rows == n, m.cols == 1, b.rows == n), 'dimensions'); E.sets('bmat', b.el, n, I(1), b.len)
def uncol_spec(E):
    m, u, n = E['umat'], E['u'], E['n']; E.requires(z3.And(m.rows == n, m.cols == 1, u.len == n)); E.sets('u', Vec(u.len, lam(1, lambda i: m.get(i, z3.IntVal(0))), 'P')); E.sets('umat', like(m, lambda i, j: u.get(i)))
def uncol_eff(E):
    m, u, n = E['umat'], E['u'], E['n']; E.requires(z3.And(m.rows == n, m.cols == 1, u.rows == n), 'dimensions'); E.sets('u', m.el, n, I(1), m.len); E.sets('umat', u.el, n, I(1), u.len)
@acontract('solve_series(Vec<zz_pX> &, const %s &, const Vec<zz_pX> &, long)' % M, 'u A b prec', 'C10', LS, blocks=[Block('n bmat b', col_spec, col_eff), Block('n u umat', uncol_spec, uncol_eff)])
def _(E): s_ser(E)
