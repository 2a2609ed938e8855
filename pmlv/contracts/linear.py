"""C17: block joining and collapsing"""
from .lib import *
from .utils import V, M, VF, MF, VL
F = X + 'mat_lzz_pX_linearization.cpp'
H = 'ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h'
def s_join(E):
    a, b = E['a'], E['b']; E.raises(a.rows != b.rows)
    return mat(a.rows, simp(a.cols + b.cols), lambda i, j: P(lambda k: rite(simp(j < a.cols), pc(E, a.get(i, j))(k), pc(E, b.get(i, simp(j - a.cols)))(k))))
def s_coll(E, cons):
    a, d, s = E['a'], E['d'], E['s']; t = a.cols
    E.requires(z3.And(s >= 1, d >= 1), 'positive block sizes'); E.raises(t % s != 0)
    E.requires(forall(2, lambda i, j: z3.Implies(z3.And(rng(i, 0, a.rows), rng(j, 0, a.cols)), plen(E, a.get(i, j)) <= d)), 'degree less than d')
    r = simp(t / s); n, q = (r, s) if cons else (s, r)
    pos = (lambda i, u: i * s + u) if cons else (lambda i, u: i + u * s)
    return mat(a.rows, n, lambda j, i: P(lambda e: rite(simp(z3.And(e >= 0, e < q * d)), pc(E, a.get(j, simp(pos(i, e / d))))(simp(e % d)), R0)))
@contract('horizontal_join(%s &, const %s &, const %s &)' % (M, M, M), 'c a b', 'C17', F)
def _(E): E.sets('c', s_join(E))
@contract('horizontal_join(const %s &, const %s &)' % (M, M), 'a b', 'C17', H)
def _(E): E.returns(s_join(E))
for nm, cons in (('collapse_consecutive_columns', True), ('collapse_nonconsecutive_columns', False)):
    @contract('%s(%s &, const %s &, long, long)' % (nm, M, M), 'c a d s', 'C17', F, assumed=True)
    def _(E, cons=cons): E.sets('c', s_coll(E, cons))
    @contract('%s(const %s &, long, long)' % (nm, M), 'a d s', 'C17', H)
    def _(E, cons=cons): E.returns(s_coll(E, cons))
