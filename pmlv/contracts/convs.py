"""C04: a polynomial matrix as the vector of its coefficient matrices (verification conditions with explicit invariants, matrices by entries)"""
import z3
from ..hoare import *
from .crt import A, R, imp
F = 'ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp'
def mn(a, b): return z3.If(b < a, b, a)
def dims(v, o, b): return ('dimensions', A(1, lambda t: imp(R(t, 0, b), z3.And(v.matp.r(t) == o.pmat.len, v.matp.c(t) == o.pmat.cols)), lambda t: ('alt', v.matp.r(t), v.matp.c(t))))
def done(v, o, lo, hi, i0, i1, j0, j1, what): return (what, A(3, lambda t, i, j: imp(R(t, lo, hi), R(i, i0, i1), R(j, j0, j1), v.matp.at(t, i, j) == CO(o.pmat.at(i, j), t)), lambda t, i, j: v.matp.at(t, i, j)))
def ln(o): return MDEG(o.pmat.a, o.pmat.len, o.pmat.cols) + 1
def base(v, o, b): return [('length', v.matp.len == ln(o)), dims(v, o, b), done(v, o, I(0), mn(v.k, ln(o)), I(0), o.pmat.len, I(0), o.pmat.cols, 'coefficients done')]
def l0(v, o): return [('index', v.k >= 0)] + base(v, o, mn(v.k, ln(o)))
def l1(v, o): return [('index', R(v.kk, 0, v.k_bound + 1))] + base(v, o, v.k + v.kk)
def blk(v, o): return base(v, o, v.k + v.k_bound) + [done(v, o, v.k, v.k + v.k_bound, I(0), v.i, I(0), o.pmat.cols, 'rows of the block done')]
def row(v, o): return [done(v, o, v.k, v.k + v.k_bound, v.i, v.i + 1, I(0), v.j, 'entries of the row done')]
def l2(v, o): return [('index', R(v.i, 0, o.pmat.len + 1))] + blk(v, o)
def l3(v, o): return [('index', R(v.j, 0, o.pmat.cols + 1))] + blk(v, o) + row(v, o)
def l4(v, o): return [('index', R(v.kk, 0, v.k_bound + 1))] + blk(v, o) + row(v, o) + [done(v, o, v.k, v.k + v.kk, v.i, v.i + 1, v.j, v.j + 1, 'coefficients of the entry done')]
@hcontract('conv(Vec<Mat<zz_p>> &, const Mat<zz_pX> &)', 'matp pmat', 'C04', F, loops=(l0, l1, l2, l3, l4), dirs='uuuuu', entries=True)
def _(E):
    a = E.old['pmat']; E.assigns('matp'); n = MDEG(a.a, a.len, a.cols) + 1
    if E.mode in ('call', 'post'):
        v = E.new['matp']; E.ensures(v.len == n, 'deg + 1 coefficients'); E.ensures(A(1, lambda t: imp(R(t, 0, n), z3.And(v.r(t) == a.len, v.c(t) == a.cols)), lambda t: v.r(t)), 'dimensions of the coefficients')
        E.ensures(A(3, lambda t, i, j: imp(R(t, 0, n), R(i, 0, a.len), R(j, 0, a.cols), v.at(t, i, j) == CO(a.at(i, j), t)), lambda t, i, j: v.at(t, i, j)), 'entry (i, j) of coefficient t is coefficient t of entry (i, j)')
# ---- the other direction
def full(p, o, i, j, x): return CO(p.at(i, j), x) == z3.If(R(x, 0, o.matp.len), o.matp.at(x, i, j), K0)
def norm(p, i0, i1, j1): return ('entries done are normalized', A(2, lambda i, j: imp(R(i, i0, i1), R(j, 0, j1), ISN(p.at(i, j))), lambda i, j: ISN(p.at(i, j))))
def m_(o): return o.matp.r(0)
def n_(o): return o.matp.c(0)
def fbase(v, o): return [('dimensions', z3.And(v.pmat.len == m_(o), v.pmat.cols == n_(o))), ('rows done', A(3, lambda i, j, x: imp(R(i, 0, v.i), R(j, 0, n_(o)), full(v.pmat, o, i, j, x)), lambda i, j, x: CO(v.pmat.at(i, j), x))), norm(v.pmat, I(0), v.i, n_(o))]
def frow(v, o, hi): return norm(v.pmat, v.i, v.i + 1, hi), ('entries of the row done', A(2, lambda j, x: imp(R(j, 0, hi), full(v.pmat, o, v.i, j, x)), lambda j, x: CO(v.pmat.at(v.i, j), x)))
def lens(v, o, lo, hi): return ('lengths', A(1, lambda j: imp(R(j, lo, hi), RLEN(v.pmat.at(v.i, j)) == o.matp.len), lambda j: v.pmat.at(v.i, j)))
def raw(v, o, lo, hi, b, what='coefficients written'): return (what, A(2, lambda j, x: imp(R(j, lo, hi), R(x, 0, b), CO(v.pmat.at(v.i, j), x) == o.matp.at(x, v.i, j)), lambda j, x: CO(v.pmat.at(v.i, j), x)))
def f0(v, o): return [('index', R(v.i, 0, m_(o) + 1))] + fbase(v, o)
def fb(v, o): return fbase(v, o) + list(frow(v, o, mn(v.j, n_(o))))
def f1(v, o): return [('index', v.j >= 0)] + fb(v, o)
def f2(v, o): return [('index', R(v.jj, 0, v.j_bound + 1))] + fb(v, o) + [lens(v, o, v.j, v.j + v.jj)]
def f3(v, o): return [('index', v.k >= 0)] + fb(v, o) + [lens(v, o, v.j, v.j + v.j_bound), raw(v, o, v.j, v.j + v.j_bound, mn(v.k, o.matp.len))]
def f4(v, o): return [('index', R(v.jj, 0, v.j_bound + 1))] + fb(v, o) + [lens(v, o, v.j, v.j + v.j_bound), raw(v, o, v.j, v.j + v.j_bound, mn(v.k, o.matp.len)), raw(v, o, v.j, v.j + v.jj, v.k + v.k_bound, 'block written')]
def f5(v, o): e = v.j + v.jj; return [('index', R(v.kk, 0, v.k_bound + 1))] + [lens(v, o, e, e + 1), raw(v, o, e, e + 1, v.k + v.kk)]
def f6(v, o): e = v.j + v.jj; return [('index', R(v.jj, 0, v.j_bound + 1))] + fbase(v, o) + list(frow(v, o, e)) + [lens(v, o, e, v.j + v.j_bound), raw(v, o, e, v.j + v.j_bound, o.matp.len)]
def fax(): return raw_ax() + [('coefficients of zero', z3.ForAll([z3.Int('i')], CO(ZERO, z3.Int('i')) == K0, patterns=[CO(ZERO, z3.Int('i'))])), ('zero is normalized', ISN(ZERO))]
@hcontract('conv(Mat<zz_pX> &, const Vec<Mat<zz_p>> &)', 'pmat matp', 'C04', F, loops=(f0, f1, f2, f3, f4, f5, f6), dirs='uuuuuuu', entries=True, theory=fax)
def _(E):
    w = E.old['matp']; E.requires(A(1, lambda t: imp(R(t, 0, w.len), z3.And(w.r(t) == w.r(0), w.c(t) == w.c(0))), lambda t: ('alt', w.r(t), w.c(t))), 'all coefficients have the same dimensions'); E.assigns('pmat')
    if E.mode in ('call', 'post'):
        p, p0 = E.new['pmat'], E.old['pmat']; E.ensures(z3.And(p.len == z3.If(w.len == 0, p0.len, w.r(0)), p.cols == z3.If(w.len == 0, p0.cols, w.c(0))), 'dimensions of the coefficients; kept when there is none')
        E.ensures(A(3, lambda i, j, x: imp(R(i, 0, p.len), R(j, 0, p.cols), CO(p.at(i, j), x) == z3.If(R(x, 0, w.len), w.at(x, i, j), K0)), lambda i, j, x: CO(p.at(i, j), x)), 'coefficient t of entry (i, j) is entry (i, j) of coefficient t; no other coefficient')
        E.ensures(z3.Implies(w.len > 0, norm(p, I(0), p.len, p.cols)[1]), 'entries are normalized')
# ---- evaluation of a matrix given by its coefficients (Horner)
HORN = z3.Function('HORN', AM, KS, IS, IS, MS)   # HORN(a, t, n, k) = sum_{k <= i < n} a_i t^(i-k)
def hax():
    a, b = z3.Consts('a b', MS); t = z3.Const('t', KS); Q = z3.ForAll
    return [('dimensions of a sum', Q([a, b], z3.And(MROWS(MADD(a, b)) == MROWS(a), MCOLS(MADD(a, b)) == MCOLS(a)), patterns=[MADD(a, b)])), ('addition of matrices is commutative', Q([a, b], imp(MROWS(a) == MROWS(b), MCOLS(a) == MCOLS(b), MADD(a, b) == MADD(b, a)), patterns=[MADD(a, b)])),
            ('dimensions of a multiple', Q([a, t], z3.And(MROWS(MSC(a, t)) == MROWS(a), MCOLS(MSC(a, t)) == MCOLS(a)), patterns=[MSC(a, t)]))]
def horn(o, k): return HORN(o.matp.a, o.pt, o.matp.len, k)
def hdef(o, k): return ('def', z3.And(horn(o, o.matp.len - 1) == o.matp[o.matp.len - 1], imp(R(k, 0, o.matp.len - 1), horn(o, k) == MADD(MSC(horn(o, k + 1), o.pt), o.matp[k]))))
def h0(v, o): return [hdef(o, v.d), ('index', R(v.d, -1, o.matp.len - 1)), ('value of the higher coefficients', v.evmat == horn(o, v.d + 1)), ('dimensions', z3.And(MROWS(v.evmat) == MROWS(o.matp[0]), MCOLS(v.evmat) == MCOLS(o.matp[0])))]
@hcontract('eval(Mat<zz_p> &, const Vec<Mat<zz_p>> &, const zz_p &)', 'evmat matp pt', 'C04', F, loops=(h0,), dirs='d', theory=hax)
def _(E):
    o = View(E.old); m = o.matp; E.requires(A(1, lambda i: imp(R(i, 0, m.len), z3.And(MROWS(m[i]) == MROWS(m[0]), MCOLS(m[i]) == MCOLS(m[0]))), lambda i: m[i]), 'coefficients of the same dimensions'); E.assigns('evmat'); E.lemma('HORN(a, t, n, k) = sum_{k <= i < n} a_i t^(i-k): HORN(.., n-1) = a_(n-1), HORN(.., k) = t HORN(.., k+1) + a_k')
    if E.mode in ('call', 'post'):
        e = E.new['evmat']; E.ensures(imp(m.len == 0, z3.And(MROWS(e) == 0, MCOLS(e) == 0)), 'no coefficient: empty matrix'); E.ensures(imp(m.len >= 1, z3.And(MROWS(e) == MROWS(m[0]), MCOLS(e) == MCOLS(m[0]), e == horn(o, I(0)))), 'sum of the coefficients times the powers of the point')
