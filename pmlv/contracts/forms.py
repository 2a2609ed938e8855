"""C05, C06: degrees, pivots, leading matrices and form predicates (mat_lzz_pX_forms)"""
from .lib import *
from ..loops import mkred, argmax_last
from .utils import V, M, VF, MF, VL
F = X + 'mat_lzz_pX_forms.cpp'
H = 'ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_forms.h'
ML = 'Mat<long>'

class W:
    """row-wise or column-wise view of a matrix: vectors u = 0..nv-1, entries t = 0..ne-1"""
    def __init__(s, E, a, way, shift=None):
        s.E = E; s.way = way; s.a = a
        s.nv, s.ne = (a.rows, a.cols) if way == 'row' else (a.cols, a.rows)
        s.sh = shift
        s.d = lambda u, t: pdeg(E, a.get(u, t) if way == 'row' else a.get(t, u))
        s.p = lambda u, t: a.get(u, t) if way == 'row' else a.get(t, u)
    def s_(s, t): return s.sh.get(t) if s.sh is not None else z3.IntVal(0)
    def sd(s, u, t): return simp(s.d(u, t) + s.s_(t))
    def minshift(s):
        j = freshvar('j'); z = z3.IntVal(0)
        return mkred(s.E.ex, 'min', s.sh.get(z), [([j], simp(rng(j, 0, s.sh.len)), s.sh.get(j))])
    def zero(s): return simp(s.minshift() - 1) if s.sh is not None else z3.IntVal(-1)
    def deg(s, u):
        """shifted degree of vector u"""
        j = freshvar('j')
        return mkred(s.E.ex, 'max', s.zero(), [([j], simp(z3.And(rng(j, 0, s.ne), s.d(u, j) >= 0)), s.sd(u, j))])
    def piv(s, u):
        j = freshvar('j')
        return argmax_last(s.E.ex, j, simp(z3.And(rng(j, 0, s.ne), s.d(u, j) >= 0)), s.sd(u, j))
    def pivdeg(s, u):
        q = s.piv(u); return simp(If_(q < 0, z3.IntVal(-1), s.d(u, q)))
    def lead(s):
        a, E = s.a, s.E
        def f(i, j):
            u, t = (i, j) if s.way == 'row' else (j, i)
            return rite(simp(z3.And(s.d(u, t) >= 0, s.sd(u, t) == s.deg(u))), pc(E, a.get(i, j))(pdeg(E, a.get(i, j))), R0)
        return mat(a.rows, a.cols, f, 'F')
def view(E, way, shifted):
    a = E['pmat']; w = W(E, a, way, E['shift'] if shifted else None)
    if shifted:
        E.raises(E['shift'].len != w.ne)
        E.requires(z3.Or(E['shift'].len != w.ne, w.ne >= 1), 'the shift is not empty')
    return w
VV = lambda w, f: vec(w.nv, f, 'Z')
PAIR = 'std::pair<%s,%s>' % (VL, VL)
for way in ('row', 'col'):
    for shifted in (False, True):
        st, sn = (', const %s &' % VL, ' shift') if shifted else ('', '')
        @contract('%s_degree(%s &, const %s &%s)' % (way, VL, M, st), 'deg pmat' + sn, ['C05'], F, noalias=[('deg', 'shift')] if shifted else [])
        def _(E, way=way, shifted=shifted):
            w = view(E, way, shifted); E.sets('deg', VV(w, w.deg))
        @contract('%s_degree(const %s &%s)' % (way, M, st), 'pmat' + sn, ['C05'], H)
        def _(E, way=way, shifted=shifted):
            w = view(E, way, shifted); E.returns(VV(w, w.deg))
        @contract('%s_pivots(%s &, %s &, const %s &%s)' % (way, VL, VL, M, st), 'pivind pivdeg pmat' + sn, ['C05'], F, noalias=[('pivind', 'pivdeg')] + ([('pivind', 'shift'), ('pivdeg', 'shift')] if shifted else []))
        def _(E, way=way, shifted=shifted):
            w = view(E, way, shifted); E.sets('pivind', VV(w, w.piv)); E.sets('pivdeg', VV(w, w.pivdeg))
        @contract('%s_pivots(const %s &%s)' % (way, M, st), 'pmat' + sn, ['C05'], H)
        def _(E, way=way, shifted=shifted):
            w = view(E, way, shifted); E.returns(Rec('pair', {'first': VV(w, w.piv), 'second': VV(w, w.pivdeg)}))
        @contract('%s_leading_matrix(%s &, const %s &%s)' % (way, MF, M, st), 'lmat pmat' + sn, ['C05'], F)
        def _(E, way=way, shifted=shifted):
            w = view(E, way, shifted); E.sets('lmat', w.lead())
        @contract('%s_leading_matrix(const %s &%s)' % (way, M, st), 'pmat' + sn, ['C05'], H)
        def _(E, way=way, shifted=shifted):
            w = view(E, way, shifted); E.returns(w.lead())
@contract('degree_matrix(%s &, const %s &)' % (ML, M), 'degmat pmat', ['C05'], F)
def _(E): a = E['pmat']; E.sets('degmat', mat(a.rows, a.cols, lambda i, j: pdeg(E, a.get(i, j)), 'Z'))
@contract('degree_matrix(const %s &)' % M, 'pmat', ['C05'], H)
def _(E): a = E['pmat']; E.returns(mat(a.rows, a.cols, lambda i, j: pdeg(E, a.get(i, j)), 'Z'))
for way in ('row', 'col'):
    def s_dm(E, way):
        w = view(E, way, True); a = E['pmat']; z = w.zero()
        def f(i, j):
            d = pdeg(E, a.get(i, j)); return simp(If_(d < 0, z, d + E['shift'].get(j if way == 'row' else i)))
        return mat(a.rows, a.cols, f, 'Z')
    @contract('degree_matrix_%sshifted(%s &, const %s &, const %s &)' % (way, ML, M, VL), 'degmat pmat shift', ['C05'], F)
    def _(E, way=way, f=s_dm): E.sets('degmat', f(E, way))
    @contract('degree_matrix_%sshifted(const %s &, const %s &)' % (way, M, VL), 'pmat shift', ['C05'], H)
    def _(E, way=way, f=s_dm): E.returns(f(E, way))

# ------------------------------------------------------------ C06: forms
def f_nozero(w): return forall(1, lambda u: z3.Implies(rng(u, 0, w.nv), w.piv(u) != -1))
def f_reduced(w): return w.E.ex.rank(w.lead()) == w.nv
def f_wpopov(w): return z3.And(f_nozero(w), forall(2, lambda u, v: z3.Implies(z3.And(0 <= u, u < v, v < w.nv), w.piv(u) != w.piv(v))))
def f_owpopov(w): return z3.And(f_nozero(w), forall(1, lambda u: z3.Implies(z3.And(0 <= u, u + 1 < w.nv), w.piv(u) < w.piv(u + 1))))
def f_popov(w):
    E = w.E
    def monic(u):
        p = w.p(u, w.piv(u)); return E.ctx.req(pc(E, p)(pdeg(E, p)), R1)
    return z3.And(f_owpopov(w), forall(1, lambda u: z3.Implies(rng(u, 0, w.nv), monic(u))),
                  forall(2, lambda u, v: z3.Implies(z3.And(rng(u, 0, w.nv), rng(v, 0, w.nv), u != v), w.d(v, w.piv(u)) < w.pivdeg(u))))
FORMS = [('reduced', f_reduced), ('weak_popov', f_wpopov), ('ordered_weak_popov', f_owpopov), ('popov', f_popov)]
for way in ('row', 'col'):
    for shifted in (False, True):
        st, sn = (', const %s &' % VL, ' shift') if shifted else ('', '')
        for nm, fm in FORMS:
            @contract('is_%s_%s(const %s &%s)' % (way, nm, M, st), 'pmat' + sn, ['C06'], F)
            def _(E, way=way, shifted=shifted, fm=fm):
                E.returns(fm(view(E, way, shifted)))
        @contract('is_%s_polmatform(const PolMatForm, const %s &%s)' % (way, M, st), 'form pmat' + sn, ['C06'], F)
        def _(E, way=way, shifted=shifted):
            f = E['form']; a = E['pmat']; w = W(E, a, way, E['shift'] if shifted else None)
            bad = z3.Or(f < 0, f > 4)
            if shifted:
                E.raises(z3.Or(bad, z3.And(f != 0, E['shift'].len != w.ne)))
                E.requires(z3.Or(E['shift'].len != w.ne, w.ne >= 1), 'the shift is not empty')
            else: E.raises(bad)
            E.returns(z3.And(*[z3.Implies(f == k + 1, fm(w)) for k, (nm, fm) in enumerate(FORMS)]))
        @contract('get_%s_polmatform(const %s &%s)' % (way, M, st), 'pmat' + sn, ['C06'], F)
        def _(E, way=way, shifted=shifted):
            w = view(E, way, shifted); r = z3.IntVal(0)
            for k, (nm, fm) in enumerate(FORMS): r = z3.If(fm(w), k + 1, r)
            E.returns(r)
