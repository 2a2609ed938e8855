"""C19: field, vector and univariate helpers"""
from .lib import *
from .utils import V, M, VF, MF, VL
FM = 'ntl-extras/mat_lzz_p_extra/src/mat_lzz_p_extra.cpp'
HM = 'ntl-extras/mat_lzz_p_extra/mat_lzz_p_extra.h'
FV = 'ntl-extras/vec_lzz_p_extra/src/vec_lzz_p_extra.cpp'
HV = 'ntl-extras/vec_lzz_p_extra/vec_lzz_p_extra.h'
FP = 'ntl-extras/lzz_p_extra/src/lzz_p_extra.cpp'
FX = 'ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp'
HX = 'ntl-extras/lzz_pX_extra/lzz_pX_extra.h'
def rinv(x): return RF('inv', (x,))
def allunits(E, a): E.requires(forall(1, lambda i: z3.Implies(rng(i, 0, a.len), z3.Not(E.ctx.isz(a.get(i))))), 'entries are nonzero')
def s_inv(E): a = E['a']; allunits(E, a); return vec(a.len, lambda i: rinv(a.get(i)), 'F')
@contract('inv_naive(%s &, const %s &)' % (VF, VF), 'x a', 'C19', FV)
def _(E): E.sets('x', s_inv(E))
@contract('inv(%s &, const %s &)' % (VF, VF), 'x a', 'C19', FV, assumed=True)
def _(E): E.sets('x', s_inv(E))
for nm in ('inv',):
    @contract('%s(const %s &)' % (nm, VF), 'a', 'C19', HV)
    def _(E): E.returns(s_inv(E))
@contract('Z_lzz_p(long, const zz_p &)', 'n c', 'C19', FM)
def _(E):
    n, c = E['n'], E['c']; E.requires(n >= 1, 'positive size')
    E.returns(mat(n, n, lambda i, j: rite(simp(z3.And(i == 0, j == n - 1)), c, rite(simp(i == j + 1), R1, R0)), 'F'))
@contract('J_lzz_p(long)', 'n', 'C19', FM)
def _(E):
    n = E['n']; E.requires(n >= 0, 'size')
    E.returns(mat(n, n, lambda i, j: rite(simp(i + j == n - 1), R1, R0), 'F'))
@contract('diagonal_matrix(const %s &)' % VF, 'd', 'C19', FM)
def _(E):
    d = E['d']; E.returns(mat(d.len, d.len, lambda i, j: rite(simp(i == j), d.get(i), R0), 'F'))
@contract('clear(%s &, long, long, long, long)' % MF, 'x r c nr nc', 'C19', FM)
def _(E):
    x, r, c, nr, nc = E['x'], E['r'], E['c'], E['nr'], E['nc']
    E.requires(z3.And(r >= 0, c >= 0), 'window offsets are nonnegative')
    E.sets('x', like(x, lambda i, j: rite(z3.And(i >= r, i < r + nr, j >= c, j < c + nc), R0, x.get(i, j)), 'F'))
