"""C15: determinants by expansion (polynomials as elements of a commutative ring)"""
import itertools
from .lib import *
DT = X + 'mat_lzz_pX_determinant.cpp'
def perms(n):
    for p in itertools.permutations(range(n)): yield p, (-1) ** sum(p[i] > p[j] for i in range(n) for j in range(i + 1, n))
def leibniz(A, n):
    r = R0
    for p, s in perms(n):
        t = RC(s)
        for i in range(n): t = t * A(z3.IntVal(i), z3.IntVal(p[i]))
        r = r + t
    return r
@contract('determinant_expansion_by_minors(zz_pX &, const Mat<zz_pX> &)', 'det a', 'C15', DT, ring=True)
def _(E):
    a = E['a']; n = a.rows; E.requires(z3.And(a.cols == n, n >= 1, n <= 4), 'square matrix of dimension 1 to 4')
    E.sets('det', rite(n == 1, leibniz(a.get, 1), rite(n == 2, leibniz(a.get, 2), rite(n == 3, leibniz(a.get, 3), leibniz(a.get, 4)))))
# ------------------------------------------------------------ determinants by evaluation and interpolation (matrix level)
from ..alg import acontract, Opq, el, MX, I, simp as asimp
from .bases import M, MF, GEN, GEO, CRT, VF, lemma, evat
P = 'zz_pX'
def dkey(ex, st, m): return ('det', ex.key(st, m))
@acontract('determinant(zz_p &, const %s &)' % MF, 'd a', [], 'NTL', assumed=True, trust='NTL')
def _(E): a = E['a']; E.requires(a.rows == a.cols, 'square matrix'); E.newval('d', Opq('F', name=dkey(E.ex, E.st, a)))
@acontract('clear(%s &)' % P, 'd', [], 'NTL', assumed=True, trust='NTL')
def _(E): E.newval('d', Opq('poly', key=0))
for cls, fn in ((GEN, 'get_general_points'), (GEO, 'get_geometric_points')):
    @acontract(fn + '(long)', 'n', [], CRT + 'lzz_pX_Multipoint.cpp', assumed=True, trust='C09')
    def _(E, cls=cls):
        n = E['n']; E.requires(n >= 1, 'at least one point'); E.newval('return', Opq(cls, vec=E.ex.name('pts'), off=I(0), n=n, ratio=None, maxlen=n if cls == GEO else None))
    @acontract('interpolate(%s &, const %s &)' % (P, VF), 'f v', [], CRT + 'lzz_pX_Multipoint.cpp', cls=cls, assumed=True, trust='C09')
    def _(E):
        o, v, ex, st = E['this'], E['v'], E.ex, E.st; E.requires(v.len == o.n, 'as many values as points')
        k = ex.int('k'); t = st.copy(); t.pc += [k >= 0, k < o.n]; e = v.f(ex, t, k) if getattr(v, 'f', None) else None; r = Opq('poly', key=None)
        for m in list(ex.mats):
            if isinstance(e, Opq) and e.name == dkey(ex, t, evat(ex, t, m, o.vec, o.off + k)) and ex.proves(st, z3.And(m.rows >= 1, m.rows == m.cols, z3.Or(m.len == 0, m.rows * (m.len - 1) + 1 <= o.n))):
                lemma(ex, 'det(P)(x) = det(P(x)) and deg det(P) <= dim(P) deg(P); interpolation at more points than the degree is unique (contract of interpolate, C09)'); r = Opq('poly', key=ex.key(st, m))
        E.newval('f', r)
@acontract('prepare_degree(long)', 'd', [], CRT + 'lzz_pX_Multipoint.cpp', cls=GEO, assumed=True, trust='C09')
def _(E): E.newval('return', None)
for fn in ('general', 'geometric'):
    @acontract('determinant_via_evaluation_%s(%s &, const %s &)' % (fn, P, M), 'det pmat', 'C15', DT)
    def _(E):
        a = E['pmat']; E.requires(z3.And(a.rows >= 1, a.rows == a.cols), 'nonempty square matrix'); E.ex.mats = [a]; r = E.newval('det', None)
        if E.mode == 'post':
            k = getattr(r, 'key', None)
            if k == 0: E.ex.oblige(E.st, a.len == 0, 'post', 'det is zero only for the zero matrix here')
            else: E.ex.rec('post', 'det = det(pmat)', k is not None and k == E.ex.key(E.st, a))
