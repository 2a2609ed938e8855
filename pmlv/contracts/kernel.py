"""C14: kernel bases (matrix level)"""
import z3
from ..alg import *
from .lib import X
from .matalg import base, M, MF, U, inner
from .bases import V, VF, FO, lemma, preds, same_el, INT, order_of, distinct
KER = X + 'mat_lzz_pX_kernel.cpp'
# KB(P, F, s, t, piv): P is a basis of the left kernel of F in s-ordered weak Popov form, t its s-row degree, piv its s-pivot indices
def nonneg(v): return v
@base('coeff(const %s &, long)' % M, 'a i', U, 'C04')
def _(E): a, i = E['a'], E['i']; E.requires(i >= 0, 'index'); E.sets('return', E.trunc(E.rsh(a, i), 1), a.rows, a.cols, I(1))
@acontract('gauss(%s &)' % MF, 'a', [], 'NTL', assumed=True, trust='NTL')
def _(E):
    a = E['a']; r = z3.Int('rank_%s' % (E.ex.key(E.st, a),)); E.st.pc += [r >= 0, r <= a.rows, r <= a.cols]; E.new('a', a.rows, a.cols, I(1)); E.newval('return', r)
@base('amplitude(%s)' % V, 's', FO.replace('/src/', '/').replace('.cpp', '.h'), 'C05')
def _(E):
    s = E['s']; E.requires(s.len >= 1, 'nonempty shift'); a = E.newval('return', E.ex.int('amp')); i, j = E.ex.int('i'), E.ex.int('j')
    E.st.pc += [a >= 0, z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < s.len, j >= 0, j < s.len), s.f(i) - s.f(j) <= a))]
@base('element_of_order(zz_p &, long, long, bool)', 'a n trials strict', 'ntl-extras/lzz_p_extra/src/lzz_p_extra.cpp', 'C06')
def _(E):
    r = Opq('F', name=E.ex.name('r')); E.newval('a', r); E.st.pc.append(z3.Or(zero(r), order_of(r) >= E['n']))
def zero(r): return z3.Bool('zero_%s' % (r.name,))
@acontract('IsZero(zz_p)', 'a', [], 'NTL', assumed=True, trust='NTL')
def _(E): E.newval('return', zero(E['a']))
@acontract('modulus()', '', [], 'NTL', assumed=True, trust='NTL')
def _(E): p = z3.Int('modulus'); E.st.pc.append(p >= 2); E.newval('return', p)
def kb_eq(ex, st, f, P, F, s, t, piv): return same_el(ex, st, f[0], P) and same_el(ex, st, f[1], F) and ex.vleq(st, f[2], s) and (t is None or ex.vleq(st, f[3], t)) and (piv is None or f[4] is not None and ex.vleq(st, f[4], piv))
@pred('KB')
def _(ex, st, args):
    P, F, s, t, piv = args
    if any(kb_eq(ex, st, f, *args) for f in preds(st, 'KB')): return True
    if ex.proves(st, F.len == 0) and same_el(ex, st, P, ONE):
        if not ex.proves(st, P.rows == F.rows): return False, 'dimension of the identity'
        i = ex.int('i'); u = st.copy(); u.pc += [i >= 0, i < F.rows]
        if ex.vleq(st, s, t) and (piv is None or ex.proves(u, z3.And(piv.len == F.rows, piv.f(i) == i))): lemma(ex, 'the identity is the Popov basis of the kernel of the zero matrix, for every shift'); return True
        return False, 'shift or pivots of the identity'
    if ex.proves(st, P.rows == 0):
        ok = ex.proves(st, t.len == 0) and (piv is None or ex.proves(st, piv.len == 0))
        if ok and ex.proves(st, z3.And(F.rows == 1, F.len >= 1)): lemma(ex, 'a nonzero matrix with one row has trivial left kernel'); return True
        if ok and ex.proves(st, z3.Int('rank_%s' % (ex.key(st, ex.trunc(st, el(F), I(1))),)) == F.rows): lemma(ex, 'full row rank of the constant coefficient implies a trivial left kernel'); return True
        return False, 'trivial kernel not justified'
    for g, B, r in preds(st, 'GATHER'):
        if not same_el(ex, st, g, P): continue
        for w, lo, hi, G in preds(st, 'FILT'):
            for f in preds(st, 'AB') + preds(st, 'IB'):
                ib = len(f) == 7; N, s0, T = (f[4], f[5], f[6]) if ib else f[2:5]
                if not same_el(ex, st, f[0], B) or not isinstance(N, z3.ExprRef): continue
                if not ib and not same_el(ex, st, f[1], F): continue
                if ib and not ex.vmeq(st, f[1], VM(N, F.rows, F.cols, lambda e, u, k: e.csym(u, ('ev', e.key(u, F), f[2].name, str(simp(k))), F.rows, F.cols, I(1))), f[3], f[3] + N): continue
                if not ex.vleq(st, s0, s): continue
                u = st.copy(); k = ex.int('k'); u.pc += [k >= 0, k < w.len]; ex.elem(u, w, k)
                if not ex.proves(st, z3.And(lo == 0, hi == F.rows, P.rows == w.len, P.cols == F.rows)): return False, 'range of the selected rows'
                if not ex.proves(u, z3.And(r(k) == w.f(k), t.len == w.len, t.f(k) == T.f(w.f(k)))): return False, 'rows or row degree do not match the selection'
                if piv is not None and not ex.proves(u, z3.And(piv.len == w.len, piv.f(k) == w.f(k))): return False, 'pivot indices do not match the selection'
                u = st.copy(); i, j = ex.int('i'), ex.int('j'); u.pc += [i >= 0, i < F.rows, j >= 0, j < F.rows]
                d = F.len - 1
                if not ex.proves(u, z3.Implies(G(i), T.f(i) - s.f(j) + d < N)): return False, 'a selected row need not be in the kernel: its degree plus deg(F) can reach the order'
                if not ex.proves(u, z3.Implies(T.f(i) - s.f(i) <= F.cols * d, G(i))): return False, 'a row of the kernel can be missed: its pivot degree can be as large as cols(F) deg(F)'
                lemma(ex, 'the pivot degrees of the s-Popov kernel basis are at most cols(F) deg(F); a row p of a basis at order N (or N points) with rdeg_s(p) - min(s) + deg(F) < N satisfies p F = 0, and the rows of an s-ordered weak Popov basis that lie in the kernel form an s-ordered weak Popov kernel basis as soon as they include all rows of pivot degree at most cols(F) deg(F)'); return True
    return False, 'no fact about kernel bases matches'
def s_ker(E, piv='pivind', s='shift', t='shift', keep=True):
    F, sh = E['pmat'], E[s]; E.requires(z3.And(F.rows >= 1, F.cols >= 1), 'nonempty matrix'); E.requires(sh.len == F.rows, 'one shift per row')
    n = E.ex.int('kdim')
    if E.mode in ('call', 'pre'): E.st.pc += [n >= 0, n <= F.rows]
    else: n = E.final['kerbas'].rows
    P = E.new('kerbas', n, F.rows)
    T = E.newval(t, E.ex.vl(E.st, 'rdeg', n) if E.mode in ('call', 'pre') else None) if t else None
    pv = E.newval(piv, E.ex.vl(E.st, 'piv', n) if E.mode in ('call', 'pre') else None) if piv else None
    if not keep: E.new('pmat', E.ex.int('r'), E.ex.int('c')) if E.mode in ('call', 'pre') else E.touched.add('pmat')
    E.pred('KB', P, F, sh, T, pv)
for nm in ('approximation', 'interpolation'):
    @acontract('kernel_basis_via_%s(%s &, %s &, const %s &, %s &)' % (nm, M, V, M, V), 'kerbas pivind pmat shift', 'C14', KER, noalias=[('kerbas', 'pmat'), ('pivind', 'shift')])
    def _(E): s_ker(E)
    @acontract('kernel_basis_zls_via_%s(%s &, %s &, %s &)' % (nm, M, M, V), 'kerbas pmat shift', 'C14', KER, assumed=True, trust='assumed; bounded')
    def _(E): s_ker(E, piv=None, keep=False)
@acontract('kernel_basis(%s &, const %s &, const %s &)' % (M, M, V), 'kerbas pmat shift', 'C14', KER)
def _(E): s_ker(E, piv=None, t=None)
# ---- verification of a candidate
from .matalg import isz
def form(ex, st, f, P, s): return z3.Bool('form_%s_%s_%s' % (simp(f), ex.key(st, P), s.term))
@base('is_row_polmatform(const PolMatForm, const %s &, const %s &)' % (M, V), 'f P s', FO, 'C05')
def _(E): E.newval('return', form(E.ex, E.st, E['f'], E['P'], E['s']))
@acontract('is_kernel_basis(%s &, const %s &, const %s &, const PolMatForm &, const bool)' % (M, M, V), 'kerbas pmat shift form randomized', 'C14', KER)
def _(E):
    P, F = E['kerbas'], E['pmat']; E.requires(z3.Not(E['randomized']), 'deterministic verification'); r = E.newval('return', z3.Bool('r'))
    if E.mode == 'post': E.ex.oblige(E.st, r == z3.And(P.cols == F.rows, form(E.ex, E.st, E['form'], P, E['shift']), isz(E.ex, E.st, P * F)), 'post', 'true exactly when the dimensions and the form are right and kerbas pmat = 0')
