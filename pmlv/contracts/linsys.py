"""C16: linear systems over F_p(x) (matrix level)"""
import z3
from ..alg import *
from .lib import X, P, co, like, lam, Mat, Vec, rite, R0, rng
from .matalg import base, M, LS, zmax
from .bases import V, FO, lemma, preds, same_el
from . import kernel
PX = 'zz_pX'
ASSUME['KB'] = lambda ex, st, a: ex.addrule(st, a[0] * a[1], ZERO, None)
@acontract('IsZero(const zz_pX &)', 'a', [], 'NTL', assumed=True, trust='NTL')
def _(E):
    a = E['a']
    if not hasattr(a, 'ent'): raise Unsupported('IsZero of a polynomial')
    m, i, j = a.ent; E.newval('return', E.ex.zent(E.st, m)(i, j))
@base('row_pivots(%s &, %s &, const %s &, const %s &)' % (V, V, M, V), 'pivind pivdeg pmat shift', FO, 'C05')
def _(E):
    m, s = E['pmat'], E['shift']; E.requires(s.len == m.cols, 'one shift per column'); Z = E.ex.zent(E.st, m)
    E.newval('pivind', E.ex.vl(E.st, 'piv', m.rows, [lambda f, i: z3.Implies(z3.And(i >= 0, i < m.rows), z3.Or(f(i) == -1, z3.And(f(i) >= 0, f(i) < m.cols, z3.Not(Z(i, f(i))))))])); E.newval('pivdeg', E.ex.vl(E.st, 'pdeg', m.rows))
def stack(ex, st, A, b): return ex.incl(st, A.cols) * A.T + ex.unit(st, A.cols, simp(A.cols + 1)) * b.T
@pred('NOSOL')
def _(ex, st, args):
    """A u = den b has no solution with den nonzero"""
    A, b = args
    for f in preds(st, 'KB'):
        K, F = f[0], f[1]
        if not same_el(ex, st, F, stack(ex, st, A, b)): continue
        i = ex.int('i'); t = st.copy(); t.pc += [i >= 0, i < K.rows]
        if ex.proves(t, ex.zent(st, K)(i, A.cols)):
            lemma(ex, 'if the last entry of every row of a basis of the left kernel of [A | b]^T is zero, then A u = den b has no solution with den nonzero'); return True
        return False, 'a kernel row may have a nonzero last entry'
    return False, 'no kernel basis of the augmented matrix'
def row_spec(E):
    u, K, r, n = E['u'], E['kerbas'], E['row'], E['n']; E.requires(z3.And(u.len == n, r >= 0, r < K.rows, n <= K.cols))
    def ent(j):
        c = co(E, K.get(r, j)); return P(lambda k: -c(k))
    E.sets('u', Vec(u.len, lam(1, ent), 'P'))
def row_eff(E):
    u, K, r, n = E['u'], E['kerbas'], E['row'], E['n']; E.requires(z3.And(u.rows == n, r >= 0, r < K.rows, n + 1 == K.cols), 'dimensions')
    E.sets('u', -(E.ex.incl(E.st, n).T * K.T * E.ex.unit(E.st, r, K.rows)), n, I(1), K.len)
@invariant('row', 'kerbas', 'n', 'pivind')
def inv_row(E, v, pre):
    r, K, n = v['row'], v['kerbas'], v['n']; E.fact(z3.And(r >= 0, r <= K.rows), 'row index'); i = E.ex.int('i')
    Z = E.ex.zent(E.st, K); E.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < r), Z(i, n))), 'the last entries of the rows seen so far are zero')
@acontract('linsolve_via_kernel(Vec<zz_pX> &, zz_pX &, const %s &, const Vec<zz_pX> &)' % M, 'u den A b', 'C16', LS, loop=inv_row, entries=True, blocks=[Block('u n kerbas row', row_spec, row_eff)])
def _(E):
    A, b = E['A'], E['b']; E.requires(z3.And(A.rows >= 1, A.rows == b.rows), 'dimensions'); E.touched |= {'u', 'den'}
    if E.mode == 'call': raise Unsupported('linsolve_via_kernel as a callee')
    if E.mode != 'post': return
    r = simp(E.retv)
    if not z3.is_int_value(r): raise Unsupported('returned value')
    E.ex.rec('post', 'returns 0 or 1', r.as_long() in (0, 1))
    if r.as_long() == 0: E.pred('NOSOL', A, b); return
    u = E.new('u', A.cols, I(1)); d = E.final['den']
    if not hasattr(d, 'ent'): raise Unsupported('denominator')
    E.eqmod(A * u, b * d, None, 'A u = den b')
    m, i, j = d.ent; E.fact(z3.Not(E.ex.zent(E.st, m)(i, j)), 'the denominator is nonzero')
