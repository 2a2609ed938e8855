"""C10: truncated inversion of a polynomial matrix by the coefficient recurrence (verification conditions with explicit invariants)"""
import z3
from ..hoare import *
from .crt import A, R, imp
INV = 'ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp'
# Z(k): coefficients of the inverse series, given by the recurrence Z(0) = a_0^{-1}, Z(k) = -S(k, min(k, d)) Z(0); S(k, j) = sum of Z(k-i) a_i for i = 1..j
Z = z3.Function('Z', QS, IS, MS); S = z3.Function('S', QS, IS, IS, MS)
def mn(a, b): return z3.If(b < a, b, a)
def ax():
    a, b, c, s = z3.Consts('a b c s', MS); q = z3.Const('q', QS); i = z3.Int('i'); F = z3.ForAll
    return [('coefficients of a polynomial matrix have its dimensions', F([q, i], z3.And(MROWS(QCO(q, i)) == QROWS(q), MCOLS(QCO(q, i)) == QCOLS(q)), patterns=[QCO(q, i)])),
            ('dimensions of a product', F([a, b], z3.And(MROWS(MMUL(a, b)) == MROWS(a), MCOLS(MMUL(a, b)) == MCOLS(b)), patterns=[MMUL(a, b)])),
            ('dimensions of a sum', F([a, b], z3.And(MROWS(MADD(a, b)) == MROWS(a), MCOLS(MADD(a, b)) == MCOLS(a)), patterns=[MADD(a, b)])),
            ('dimensions of an opposite and of an inverse', F([a], z3.And(MROWS(MNEG(a)) == MROWS(a), MCOLS(MNEG(a)) == MCOLS(a), MROWS(MINV(a)) == MCOLS(a), MCOLS(MINV(a)) == MROWS(a)), patterns=[MNEG(a), MINV(a)])),
            ('addition of matrices is commutative (same dimensions)', F([a, b], imp(MROWS(a) == MROWS(b), MCOLS(a) == MCOLS(b), MADD(a, b) == MADD(b, a)), patterns=[MADD(a, b)])),
            ('multiplication of matrices is associative', F([a, b, c], MMUL(MMUL(a, b), c) == MMUL(a, MMUL(b, c)), patterns=[MMUL(MMUL(a, b), c)])),
            ('(-a) b = -(a b)', F([a, b], MMUL(MNEG(a), b) == MNEG(MMUL(a, b)), patterns=[MMUL(MNEG(a), b)])),
            ('a (-b) = -(a b)', F([a, b], MMUL(a, MNEG(b)) == MNEG(MMUL(a, b)), patterns=[MMUL(a, MNEG(b))])),
            ('s a^{-1} a = s for invertible a', F([s, a], imp(MUNIT(a), MCOLS(s) == MCOLS(a), MMUL(s, MMUL(MINV(a), a)) == s), patterns=[MMUL(s, MMUL(MINV(a), a))])),
            ('(-s) + s = 0', F([s], MZ(MADD(MNEG(s), s)), patterns=[MADD(MNEG(s), s)]))]
def defs(a, k, j):
    """instances of the recurrences"""
    return ('def', z3.And(Z(a, 0) == MINV(QCO(a, 0)), imp(k >= 1, QDEG(a) >= 1, z3.And(Z(a, k) == MNEG(MMUL(S(a, k, mn(k, QDEG(a))), Z(a, 0))), S(a, k, 1) == MMUL(Z(a, k - 1), QCO(a, 1)))),
                          imp(j >= 2, j <= k, S(a, k, j) == MADD(S(a, k, j - 1), MMUL(Z(a, k - j), QCO(a, j))))))
def done(v, a, k): n = QROWS(a); return A(1, lambda t: imp(R(t, 0, k), z3.And(v.x_coeffs[t] == Z(a, t), MROWS(Z(a, t)) == n, MCOLS(Z(a, t)) == n)), lambda t: ('alt', v.x_coeffs[t], Z(a, t)))
def lens(v, a, o): return ('lengths', z3.And(v.x_coeffs.len == o.m, v.a_coeffs.len >= mn(QDEG(a) + 1, o.m)))
def k0(v, o): a = o.a; return [defs(a, v.k, 1), ('index', z3.And(v.k >= 1, v.k <= o.m)), lens(v, a, o), ('coefficients done', done(v, a, v.k)), ('the identity for the coefficients done', ident(a, v.k))]
def k1(v, o):
    a = o.a; n = QROWS(a); x = v.x_coeffs[v.k]
    return [defs(a, v.k, v.i), defs(a, v.k, v.i - 1), ('index', z3.And(v.i >= 2, v.i <= v.minkd + 1)), lens(v, a, o), ('coefficients done', done(v, a, v.k)), ('the identity for the coefficients done', ident(a, v.k)), ('partial sum', z3.And(x == S(a, v.k, v.i - 1), MROWS(x) == n, MCOLS(x) == n))]
def ident(a, m): return A(1, lambda k: imp(R(k, 1, m), MZ(MADD(MMUL(Z(a, k), QCO(a, 0)), S(a, k, mn(k, QDEG(a)))))), lambda k: Z(a, k))
@hcontract('plain_inv_trunc(Mat<zz_pX> &, const Mat<zz_pX> &, long)', 'x a m', 'C10', INV, loops=(k0, k1), dirs='uu', theory=ax, aliased=True)
def _(E):
    a, m = E.old['a'], E.old['m']; E.requires(z3.And(m >= 1, QROWS(a) == QCOLS(a), QROWS(a) >= 1, MUNIT(QCO(a, 0)), QDEG(a) >= 0), 'a square, a(0) invertible (hence a nonzero), positive order'); E.assigns('x')
    if E.mode not in ('call', 'post'): return
    x = E.new['x']; E.st.pc.append(defs(a, I(0), I(1))[1]); E.lemma('Z(0) a_0 = 1 and Z(k) a_0 + sum_{i=1..min(k,d)} Z(k-i) a_i = 0 for 1 <= k < m, with Z(k) the coefficients of x, say x a = 1 mod z^m; for square matrices then also a x = 1 mod z^m')
    E.ensures(z3.And(QROWS(x) == QROWS(a), QCOLS(x) == QCOLS(a)), 'dimensions'); E.ensures(QCO(x, 0) == MINV(QCO(a, 0)), 'constant coefficient')
    E.ensures(z3.Implies(QDEG(a) >= 1, A(1, lambda k: imp(R(k, 0, m), QCO(x, k) == Z(a, k)), lambda k: QCO(x, k))), 'coefficients of the inverse series')
    E.ensures(z3.Implies(QDEG(a) >= 1, ident(a, m)), 'coefficients of x a'); E.ensures(A(1, lambda k: imp(k >= z3.If(QDEG(a) == 0, 1, m), MZ(QCO(x, k))), lambda k: QCO(x, k)), 'no coefficient beyond the order')
