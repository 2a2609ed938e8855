"""matrix-level contracts: division with remainder (C11), approximant bases (C12)"""
import z3
from ..alg import *
from .lib import X
from .matalg import base, M, MF, U, AR, inner, same, zmax, s_ser, LS
from . import matalg
FO = X + 'mat_lzz_pX_forms.cpp'; DIV = X + 'mat_lzz_pX_division.cpp'; PMB = X + 'mat_lzz_pX_pmbasis.cpp'; APP = X + 'mat_lzz_pX_approximant.cpp'
V = 'std::vector<long>'
def lemma(ex, t): ex.lemmas.add('lemma: ' + t)
def preds(st, name): return [p[1:] for p in st.preds if p[0] == name]
def same_el(ex, st, a, b): return ex.iszero(st, el(a) - el(b), None)[0]
# ------------------------------------------------------------ C11
@base('row_degree(%s &, const %s &)' % (V, M), 'r a', FO, 'C05')
def _(E): E.newval('r', E.ex.rdeg(E.st, E['a']))
def rowrev(E, a, h): return E.ex.csym(E.st, ('rrev', E.ex.key(E.st, a), h.term), a.rows, a.cols)
@base('row_reverse(%s &, const %s &, const %s &)' % (M, M, V), 'c a h', U, 'C04')
def _(E):
    a, h = E['a'], E['h']; E.requires(h.len == a.rows, 'one bound per row'); r = rowrev(E, a, h); E.newval('c', r); E.pred('rowrev', r, a, h)
@base('reverse(%s &, const %s &, long)' % (M, M), 'c a h', U, 'C04')
def _(E):
    a, h = E['a'], E['h']; r = E.ex.csym(E.st, ('rev', E.ex.key(E.st, a), str(simp(h))), a.rows, a.cols, h + 1); E.newval('c', r); E.pred('rev', r, a, h)
@pred('rdeg_lt')
def _(ex, st, args):
    """row i of R has degree less than b(i)"""
    R, b = args; r = ex.rdeg(st, R); i = ex.int('i'); t = st.copy(); t.pc += [i >= 0, i < b.len]
    if ex.proves(t, ex.elem(t, r, i) < ex.elem(t, b, i)): return True
    for Br, B, h in preds(st, 'rowrev'):
        for Ar, A, k in preds(st, 'rowrev'):
            for Q, W, d in preds(st, 'rev'):
                if not same_el(ex, st, R, A - B * Q): continue
                t = st.copy(); i = ex.int('i'); t.pc += [i >= 0, i < h.len]
                if not ex.vleq(st, h, b) or not ex.proves(t, z3.And(k.len == h.len, d >= 0, ex.elem(t, k, i) == ex.elem(t, h, i) + d, W.len <= d + 1, ex.elem(t, h, i) >= ex.elem(t, ex.rdeg(t, B), i), ex.elem(t, k, i) >= ex.elem(t, ex.rdeg(t, A), i))): continue
                if not ex.iszero(st, Br * W - Ar, d + 1)[0]: continue
                lemma(ex, 'if rev(B,r) U = rev(A,r+d) mod x^(d+1) then row i of A - B rev(U,d) has degree < r(i) (substitute 1/x for x)'); return True
    return False, 'no instance of the reversal lemma found'
@invariant('d', 'rdegA', 'rdegB', 'i', dir='u')
def inv_d(E, v, pre):
    d, a, b, i = v['d'], v['rdegA'], v['rdegB'], v['i']; k = E.ex.int('k')
    E.fact(i >= 1, 'index'); E.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < i), a.f(k) - b.f(k) <= d)), 'd bounds the differences of the row degrees seen so far')
@acontract('quo_rem(%s &, %s &, const %s &, const %s &)' % (M, M, M, M), 'Q R A B', 'C11', DIV, loop=inv_d, noalias=[('Q', 'A'), ('Q', 'B'), ('R', 'A'), ('R', 'B')])
def _(E):
    A, B = E['A'], E['B']; E.requires(z3.And(B.rows >= 1, B.rows == B.cols, A.rows == B.rows), 'dimensions')
    rb = E.ex.rdeg(E.st, B); E.requires(z3.And(E.inv0(rowrev(E, B, rb)), E.ex.forall(rb, lambda i: rb.f(i) >= 0)), 'B is row reduced')
    Q = E.new('Q', B.cols, A.cols); R = E.new('R', A.rows, A.cols)
    E.eqmod(A, B * Q + R, None, 'A = B Q + R'); E.pred('rdeg_lt', R, rb)
# ------------------------------------------------------------ C12: approximant bases
# AB(P, F, N, s, t): P is a basis, in s-ordered weak Popov form, of the approximants of F at order N, and t is its s-row degree
ASSUME['AB'] = lambda ex, st, a: ex.addrule(st, a[0] * a[1], ZERO, a[2]) if isinstance(a[2], z3.ExprRef) else None
def ab_eq(ex, st, f, P, F, N, s, t):
    if isinstance(N, VL) or isinstance(f[2], VL): return isinstance(N, VL) and isinstance(f[2], VL) and same_el(ex, st, f[0], P) and ex.vleq(st, f[2], N) and ex.vleq(st, f[3], s) and (t is None or ex.vleq(st, f[4], t)) and same_el(ex, st, f[1], F)
    return same_el(ex, st, f[0], P) and ex.proves(st, f[2] == N) and ex.vleq(st, f[3], s) and (t is None or ex.vleq(st, f[4], t)) and ex.iszero(st, el(f[1]) - F, N)[0]
@pred('AB')
def _(ex, st, args):
    P, F, N, s, t = args; fs = preds(st, 'AB')
    if any(ab_eq(ex, st, f, P, F, N, s, t) for f in fs): return True
    for f1 in fs:
        for f2 in fs:
            if f1 is f2 or isinstance(N, VL) or not ex.proves(st, f1[2] + f2[2] == N): continue
            if not (ex.vleq(st, f1[3], s) and ex.vleq(st, f2[3], f1[4]) and ex.vleq(st, f2[4], t)): continue
            if not same_el(ex, st, f2[0] * f1[0], P) or not ex.iszero(st, el(f1[1]) - F, f1[2])[0]: continue
            if not ex.iszero(st, f1[0] * F - el(f2[1]).sh(f1[2]), N)[0]: continue
            lemma(ex, 'divide and conquer: P1 basis for (F, N1, s) with row degree t, P2 basis for (x^-N1 P1 F, N2, t) => P2 P1 basis for (F, N1+N2, s), ordered weak Popov (Beckermann-Labahn; Giorgi-Jeannerod-Villard)'); return True
    return False, 'no basis fact or divide-and-conquer instance matches; facts: %s' % '; '.join('(%s | %s | %s)' % (f[0].el, el(f[1]), f[2]) for f in fs)
@pred('ABPopov')
def _(ex, st, args):
    P, F, N, s, t = args; fs = preds(st, 'AB')
    if any(ab_eq(ex, st, f, P, F, N, s, t) for f in preds(st, 'ABPopov')): return True
    for f1 in fs:
        if not ab_eq(ex, st, f1, f1[0], F, N, s, t): continue
        for L, P0, s0 in preds(st, 'LM'):
            if not same_el(ex, st, L * P, P0): continue
            if not ex.all(st, s0, lambda i: s0.f(i) == s.f(i) - t.f(i)): continue
            if not any(ab_eq(ex, st, f2, P0, F, N, s0, None) for f2 in fs): continue
            lemma(ex, 'if delta = t - s are the minimal degrees of (F, N, s) and P is a (-delta)-reduced basis, then lm(P)^-1 P is the s-Popov basis (Sarkar-Storjohann; Jeannerod-Neiger-Schost-Villard)'); return True
    return False, 'no instance of the Popov normalization lemma'
@base('row_leading_matrix(%s &, const %s &, const %s &)' % (MF, M, V), 'c a s', FO, 'C05')
def _(E):
    a, s = E['a'], E['s']; E.requires(s.len == a.cols, 'one shift per column'); r = E.new('c', a.rows, a.cols, I(1)); E.pred('LM', r, a, s)
    if E.mode == 'call' and any(same_el(E.ex, E.st, f[0], a) and E.ex.vleq(E.st, f[3], s) for f in preds(E.st, 'AB')) or E.mode == 'call' and any(same_el(E.ex, E.st, f[0], a) and E.ex.vleq(E.st, f[5], s) for f in preds(E.st, 'IB')):
        lemma(E.ex, 'the leading matrix of a reduced matrix is invertible'); E.st.pc.append(E.inv0(r))
def s_app(E, order, popov=False, deg=True):
    F, s = E['pmat'], E['shift']; E.requires(s.len == F.rows, 'one shift per row')
    if isinstance(order, z3.ExprRef): E.requires(order >= 1, 'positive order')
    P = E.new('appbas', F.rows, F.rows, order + 1 if deg and not popov and isinstance(order, z3.ExprRef) else None)
    t = E.newval('shift', E.ex.vl(E.st, 'rdeg', F.rows) if E.mode in ('call', 'pre') else None)
    E.pred('ABPopov' if popov else 'AB', P, F, order, s, t)
TA = '(%s &, const %s &, const long, %s &)' % (M, M, V)
NA = [('appbas', 'pmat')]
for nm in ('mbasis_rescomp', 'mbasis_resupdate'):
    @acontract(nm + TA, 'appbas pmat order shift', 'C12', PMB, assumed=True, trust='assumed; bounded')
    def _(E): s_app(E, E['order'])
@acontract('mbasis' + TA, 'appbas pmat order shift', 'C12', 'ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_approximant.h', noalias=NA)
def _(E): s_app(E, E['order'])
@acontract('pmbasis' + TA, 'appbas pmat order shift', 'C12', PMB, noalias=NA)
def _(E): s_app(E, E['order'])
@acontract('popov_mbasis' + TA, 'appbas pmat order shift', 'C12', PMB, noalias=NA)
def _(E): s_app(E, E['order'], True)
@acontract('popov_pmbasis' + TA, 'appbas pmat order shift', 'C12', PMB, noalias=NA)
def _(E): s_app(E, E['order'], True)
# ---- orders given per column
TV = '(%s &, const %s &, const %s &, %s &, bool)' % (M, M, V, V)
@acontract('appbas_iterative' + TV, 'appbas pmat order shift ow', 'C12', APP, assumed=True, trust='assumed; bounded')
def _(E): E.requires(E['order'].len == E['pmat'].cols, 'one order per column'); s_app(E, E['order'])
@acontract('popov_appbas_iterative' + TV, 'appbas pmat order shift ow', 'C12', APP, noalias=NA + [('shift', 'order')])
def _(E): E.requires(E['order'].len == E['pmat'].cols, 'one order per column'); s_app(E, E['order'], True)
@acontract('approximant_basis(%s &, %s &, const %s &, const %s &, const %s &, const PolMatForm, const bool, const bool)' % (M, V, M, V, V), 'appbas rdeg pmat order shift form row_wise generic', 'C12', APP, noalias=NA + [('rdeg', 'order'), ('rdeg', 'shift')])
def _(E):
    F, s, o = E['pmat'], E['shift'], E['order']; E.requires(z3.And(s.len == F.rows, o.len == F.cols), 'one shift per row, one order per column')
    pop = E.ex.prog.enums['POPOV']; fm = E['form']
    E.raises(z3.Or(z3.Not(E['row_wise']), E['generic'], fm > pop))
    P = E.new('appbas', F.rows, F.rows); t = E.newval('rdeg', E.ex.vl(E.st, 'rdeg', F.rows))
    if E.mode in ('post', 'call'):
        if E.ex.proves(E.st, fm == pop): E.pred('ABPopov', P, F, o, s, t)
        elif E.ex.proves(E.st, fm < pop): E.pred('AB', P, F, o, s, t)
        else: raise Split(fm == pop)
# ------------------------------------------------------------ C13: interpolant bases
# IB(P, E, pts, off, n, s, t): P is a basis, in s-ordered weak Popov form, of the row vectors p with p(pts[k]) E[k] = 0 for
# off <= k < off+n, and t is its s-row degree
INT = X + 'mat_lzz_pX_interpolant.cpp'; INH = 'ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_interpolant.h'; CRT = 'ntl-extras/lzz_pX_CRT/src/'
VMF = 'Vec<Mat<zz_p>>'; VF = 'Vec<zz_p>'
def evat(ex, st, P, vec, k): return ex.csym(st, ('ev', ex.key(st, P), vec, str(simp(k))), P.rows, P.cols, I(1))
def evm(ex, P, vec, n, off=I(0)): return VM(n, P.rows, P.cols, lambda e, st, k: evat(e, st, P, vec, off + k))
def distinct(p): return z3.Bool('distinct_%s' % (p.name,))
def order_of(r): return z3.Int('order_%s' % (r.name,))
def ib_eq(ex, st, f, P, Ev, pts, off, n, s, t):
    return same_el(ex, st, f[0], P) and f[2].name == pts.name and ex.proves(st, z3.And(f[3] == off, f[4] == n)) and ex.vleq(st, f[5], s) and (t is None or ex.vleq(st, f[6], t)) and ex.vmeq(st, f[1], Ev, off, off + n)
@pred('IB')
def _(ex, st, args):
    P, Ev, pts, off, n, s, t = args; fs = preds(st, 'IB')
    if any(ib_eq(ex, st, f, *args) for f in fs): return True
    for f1 in fs:
        for f2 in fs:
            if f1 is f2 or not ib_eq(ex, st, f1, f1[0], Ev, pts, off, f1[4], s, None): continue
            if f2[2].name != pts.name or not ex.proves(st, z3.And(f2[3] == off + f1[4], f1[4] + f2[4] == n)): continue
            if not (ex.vleq(st, f2[5], f1[6]) and ex.vleq(st, f2[6], t) and same_el(ex, st, f2[0] * f1[0], P)): continue
            k = ex.int('k'); u = st.copy(); u.pc += [k >= f2[3], k < f2[3] + f2[4]]
            if not ex.cases(u, lambda w: ex.iszero(w, f2[1].f(ex, w, k).el - evat(ex, w, f1[0], pts.name, k) * Ev.f(ex, w, k), None)[0]): continue
            lemma(ex, 'divide and conquer for interpolants: P1 basis on the first points with row degree t, P2 t-basis for P1(x_k) E_k on the others => P2 P1 basis on all points, ordered weak Popov (Beckermann-Labahn; Jeannerod-Neiger-Schost-Villard)'); return True
    return False, 'no basis fact or divide-and-conquer instance matches'
@pred('IBPopov')
def _(ex, st, args):
    P, Ev, pts, off, n, s, t = args; fs = preds(st, 'IB')
    if any(ib_eq(ex, st, f, *args) for f in preds(st, 'IBPopov')): return True
    for f1 in fs:
        if not ib_eq(ex, st, f1, f1[0], Ev, pts, off, n, s, t): continue
        for L, P0, s0 in preds(st, 'LM'):
            if not same_el(ex, st, L * P, P0) or not ex.all(st, s0, lambda i: s0.f(i) == s.f(i) - t.f(i)): continue
            if not any(ib_eq(ex, st, f2, P0, Ev, pts, off, n, s0, None) for f2 in fs): continue
            lemma(ex, 'if delta = t - s are the minimal degrees of the module for s and P is a (-delta)-reduced basis, then lm(P)^-1 P is its s-Popov basis (Sarkar-Storjohann; Jeannerod-Neiger-Schost-Villard)'); return True
    return False, 'no instance of the Popov normalization lemma'
def s_int(E, off=None, n=None, const=False, popov=False, fn='IB'):
    Ev, pts, s = E['evals'], E['pts'], E['shift']; off = I(0) if off is None else E[off]; n = pts.len if n is None else E[n]
    E.requires(z3.And(off >= 0, n >= 1, off + n <= pts.len, off + n <= Ev.len), 'range of points'); E.requires(s.len == Ev.rows, 'one shift per row'); E.requires(distinct(pts), 'pairwise distinct points')
    P = E.new('intbas', Ev.rows, Ev.rows, None if popov else n + 1)
    t = E.newval('shift', E.ex.vl(E.st, 'rdeg', Ev.rows) if E.mode in ('call', 'pre') else None)
    if not const:
        fr = E.ex.vm(Ev.len, Ev.rows, Ev.cols, 'evals')
        def f(ex, st, k):
            if ex.proves(st, z3.Or(k < off, k >= off + n)): return Ev.f(ex, st, k)
            if ex.proves(st, z3.And(k >= off, k < off + n)): return fr.f(ex, st, k)
            raise Split(z3.And(k >= off, k < off + n))
        new = E.newval('evals', VM(Ev.len, Ev.rows, Ev.cols, f))
        if E.mode == 'post':
            E.ex.rec('frame', 'evaluations outside the range of points are unchanged', isinstance(new, VM) and E.ex.proves(E.st, z3.And(new.len == Ev.len, new.rows == Ev.rows, new.cols == Ev.cols)) and E.ex.vmeq(E.st, new, Ev, I(0), off) and E.ex.vmeq(E.st, new, Ev, off + n, Ev.len))
    E.pred('IBPopov' if popov else 'IB', P, Ev, pts, off, n, s, t)
TI = '(%s &, %s &, const %s &, %s &' % (M, VMF, VF, V)
@acontract('mbasis_rescomp(%s &, const %s &, const %s &, %s &, long, long)' % (M, VMF, VF, V), 'intbas evals pts shift offset order', 'C13', INT, assumed=True, trust='assumed; bounded')
def _(E): s_int(E, 'offset', 'order', const=True)
@acontract('mbasis_resupdate%s, long, long)' % TI, 'intbas evals pts shift offset order', 'C13', INT, assumed=True, trust='assumed; bounded')
def _(E): s_int(E, 'offset', 'order')
@acontract('mbasis%s, long, long)' % TI, 'intbas evals pts shift offset order', 'C13', INH)
def _(E): s_int(E, 'offset', 'order')
@acontract('mbasis%s)' % TI, 'intbas evals pts shift', 'C13', INH)
def _(E): s_int(E)
@acontract('pmbasis%s, long, long)' % TI, 'intbas evals pts shift offset order', 'C13', INT)
def _(E): s_int(E, 'offset', 'order')
@acontract('popov_mbasis%s)' % TI, 'intbas evals pts shift', 'C13', INT)
def _(E): s_int(E, popov=True)
def geo(E):
    pts, r = E['pts'], E['r']
    if E.mode == 'pre': pts.ratio = r.name
    elif E.mode == 'call': E.ex.rec('pre', 'precondition of %s: the points are in geometric progression of ratio r^2' % E.where, pts.ratio == r.name)
@acontract('pmbasis_geometric(%s &, %s &, const %s &, const zz_p &, %s &, long, long)' % (M, VMF, VF, V), 'intbas evals pts r shift offset order', 'C13', INT)
def _(E): geo(E); E.requires(order_of(E['r']) >= 2 * E['order'] - 1, 'order of r'); s_int(E, 'offset', 'order')
GEN = 'zz_pX_Multipoint_General'; GEO = 'zz_pX_Multipoint_Geometric'
def ctor(cls, sig, names, tr): return acontract('%s(%s)' % (cls, sig), names, [], CRT + 'lzz_pX_Multipoint.cpp', cls=cls, assumed=True, trust=tr)
@ctor(GEN, 'const %s &' % VF, 'q', 'C09')
def _(E): q = E['q']; E.requires(distinct(q), 'pairwise distinct points'); E.newval('return', Opq(GEN, vec=q.name, off=I(0), n=q.len, ratio=q.ratio, maxlen=None))
@ctor(GEN, 'const %s &, long, long' % VF, 'q off n', 'C09')
def _(E): q, o, n = E['q'], E['off'], E['n']; E.requires(z3.And(o >= 0, n >= 0, o + n <= q.len), 'range'); E.requires(distinct(q), 'pairwise distinct points'); E.newval('return', Opq(GEN, vec=q.name, off=o, n=n, ratio=q.ratio, maxlen=None))
@ctor(GEO, 'const zz_p &, long', 'r d', 'C09')
def _(E): r, d = E['r'], E['d']; E.requires(z3.And(d >= 1, order_of(r) >= 2 * d - 1), 'order of r'); E.newval('return', Opq(GEO, vec=('geo', r.name), off=I(0), n=d, ratio=r.name, maxlen=d))
@ctor(GEO, 'const zz_p &, const zz_p &, long', 'r s d', 'C09')
def _(E):
    r, s, d = E['r'], E['s'], E['d']; E.requires(z3.And(d >= 1, order_of(r) >= 2 * d - 1), 'order of r')
    g = getattr(s, 'vec', None) is not None and s.vec.ratio == r.name
    E.newval('return', Opq(GEO, vec=s.vec.name if g else ('geo', r.name, s.name), off=s.idx if g else I(0), n=d, ratio=r.name, maxlen=d))
for cls in (GEN, GEO):
    @acontract('evaluate_matrix(%s &, const %s &)' % (VMF, M), 'val f', [], CRT + 'lzz_pX_Multipoint.cpp', cls=cls, assumed=True, trust='C09')
    def _(E):
        o, P = E['this'], E['f']
        if o.maxlen is not None: E.requires(P.len <= o.maxlen, 'degree less than the number of points')
        E.newval('val', evm(E.ex, P, o.vec, o.n, o.off))
    @acontract('get_points(%s &)' % VF, 'p', [], CRT + 'lzz_pX_Multipoint.cpp', cls=cls, assumed=True, trust='C09')
    def _(E):
        o = E['this']; E.requires(o.off == 0, ''); p = Opq('vecF', name=o.vec, len=o.n, ratio=o.ratio); E.st.pc.append(distinct(p)); E.newval('p', p)
def s_intm(E, popov=False):
    F, pts, s = E['pmat'], E['pts'], E['shift']; E.requires(pts.len >= 1, 'at least one point'); E.requires(s.len == F.rows, 'one shift per row'); E.requires(distinct(pts), 'pairwise distinct points')
    P = E.new('intbas', F.rows, F.rows, None if popov else pts.len + 1); t = E.newval('shift', E.ex.vl(E.st, 'rdeg', F.rows) if E.mode in ('call', 'pre') else None)
    E.pred('IBPopov' if popov else 'IB', P, evm(E.ex, F, pts.name, pts.len), pts, I(0), pts.len, s, t)
TM = '(%s &, const %s &, const %s &, %s &)' % (M, M, VF, V)
@acontract('pmbasis' + TM, 'intbas pmat pts shift', 'C13', INT, noalias=[('intbas', 'pmat')])
def _(E): s_intm(E)
@acontract('popov_pmbasis' + TM, 'intbas pmat pts shift', 'C13', INT, noalias=[('intbas', 'pmat')])
def _(E): s_intm(E, True)
@acontract('pmbasis_geometric(%s &, const %s &, const zz_p &, const long, %s &, %s &)' % (M, M, V, VF), 'intbas pmat r order shift pts', 'C13', INT, noalias=[('intbas', 'pmat')])
def _(E):
    F, r, n, s = E['pmat'], E['r'], E['order'], E['shift']; E.requires(n >= 1, 'at least one point'); E.requires(F.len <= n, 'deg(pmat) < order'); E.requires(s.len == F.rows, 'one shift per row'); E.requires(order_of(r) >= 2 * n - 1, 'order of r')
    pts = Opq('vecF', name=('geo', r.name), len=n, ratio=r.name); q = E.newval('pts', pts)
    if E.mode == 'call': E.st.pc.append(distinct(pts))
    if E.mode == 'post': E.ex.rec('post', 'pts are the points r^(2i)', isinstance(q, Opq) and q.name == pts.name and E.ex.proves(E.st, q.len == n))
    P = E.new('intbas', F.rows, F.rows, n + 1); t = E.newval('shift', E.ex.vl(E.st, 'rdeg', F.rows) if E.mode in ('call', 'pre') else None)
    E.pred('IB', P, evm(E.ex, F, pts.name, n), pts, I(0), n, s, t)
