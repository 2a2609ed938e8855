"""C09: evaluation and interpolation at general points by subproduct trees (verification conditions with explicit invariants)"""
import z3
from ..hoare import *
from .crt import A, R, imp, ADJ, adj, tree_ok, CF, ND, F18, VPT, VVT, SEP, deg_ax
FG = 'ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_General.cpp'; CLS = 'zz_pX_Multipoint_General'; VKT = ('vec', 'F')
FIELDS = {'n': 'Z', 'pts': VKT, 'tree': VVT, 'cofactors': VKT, 'reverse_root': 'P', 'inverse_root': 'P'}
# GP(C, T, a, c): T(a) = 0 and C(a) = c T'(a)
GP = z3.Function('GP', PS, PS, KS, KS, z3.BoolSort()); DIST = z3.Function('DIST', AK, IS, z3.BoolSort()); TEV = z3.Function('TEV', AK, AK, IS, IS, PS); TIN = z3.Function('TIN', AK, PS, IS, IS, KS); RT = z3.Function('ROOT', PS, KS)
def ev_ax():
    f, g, h, t, u = z3.Consts('f g h t u', PS); a, c, d = z3.Consts('a c d', KS); F = z3.ForAll; q, p = z3.Const('q', AP), z3.Const('p', AK); n, k = z3.Ints('n k')
    D = 'with GP(C, T, a, c) for: T(a) = 0 and C(a) = c T\'(a)'
    return [('the constant coefficient of f mod (x-a) is f(a)', F([f, a], CO(REM(f, LIN(a)), 0) == EV(f, a), patterns=[CO(REM(f, LIN(a)), 0)])),
            ('setting coefficients 0 and 1 of the zero polynomial to -a and 1 gives x-a', F([a], SETC(SETC(ZERO, 0, KNEG(a)), 1, K1) == LIN(a), patterns=[SETC(SETC(ZERO, 0, KNEG(a)), 1, K1)])),
            ('x-a is nonzero of degree 1 with root a', F([a], z3.And(NZ(LIN(a)), DEG(LIN(a)) == 1, RT(LIN(a)) == a), patterns=[LIN(a)])),
            ('a constant has degree at most 0', F([c], DEG(SETC(ZERO, 0, c)) <= 0, patterns=[SETC(ZERO, 0, c)])),
            ('v (1/d) d = v for nonzero d', F([c, d], imp(d != K0, KMUL(KMUL(c, KINV(d)), d) == c), patterns=[KMUL(KMUL(c, KINV(d)), d)])),
            (D + ': GP(c, x-a, a, c)', F([a, c], GP(SETC(ZERO, 0, c), LIN(a), a, c), patterns=[GP(SETC(ZERO, 0, c), LIN(a), a, c)])),
            (D + ': GP(C, T, a, c) implies GP(C T2 + C2 T, T T2, a, c) (Leibniz rule)', F([f, t, g, u, a, c], imp(GP(f, t, a, c), GP(ADD(MUL(f, u), MUL(g, t)), MUL(t, u), a, c)), patterns=[z3.MultiPattern(GP(f, t, a, c), ADD(MUL(f, u), MUL(g, t)))])),
            (D + ': GP(C, T, a, c) implies GP(C2 T + C T2, T2 T, a, c) (Leibniz rule)', F([f, t, g, u, a, c], imp(GP(f, t, a, c), GP(ADD(MUL(g, t), MUL(f, u)), MUL(u, t), a, c)), patterns=[z3.MultiPattern(GP(f, t, a, c), ADD(MUL(g, t), MUL(f, u)))])),
            (D + ': GP(C, T, a, c) implies C(a) = c T\'(a)', F([f, t, a, c], imp(GP(f, t, a, c), EV(f, a) == KMUL(c, EV(DIFF(t), a))), patterns=[GP(f, t, a, c)]))]
def ctor_ax():
    f = z3.Const('f', PS); a = z3.Const('a', KS); F = z3.ForAll; q, p = z3.Const('q', AP), z3.Const('p', AK); n = z3.Int('n')
    return [('x-p_k are pairwise coprime and squarefree for distinct points p_k', F([q, p, n], imp(DIST(p, n), A(1, lambda k: imp(R(k, 0, n), z3.Select(q, k) == LIN(z3.Select(p, k))), lambda k: z3.Select(q, k)), SEP(q, n)), patterns=[z3.MultiPattern(SEP(q, n), DIST(p, n))])),
            ('f mod (x-a) is invertible modulo x-a exactly when f(a) is nonzero', F([f, a], COPR(REM(f, LIN(a)), LIN(a)) == (EV(f, a) != K0), patterns=[COPR(REM(f, LIN(a)), LIN(a))]))]
def tev_ax():
    f, m = z3.Consts('f m', PS); p, c = z3.Consts('p c', AK); n, s, k = z3.Ints('n s k')
    return ('for distinct points with master polynomial M, if f has degree < n and f(p_k) = c_k M\'(p_k), then rev(f, n-1) / rev(M, n) mod x^s has coefficients sum_k c_k p_k^i (s <= n)',
            lambda f, m, p, c, n, s: imp(DIST(p, n), A(1, lambda k: imp(R(k, 0, n), EV(f, z3.Select(p, k)) == KMUL(z3.Select(c, k), EV(DIFF(m), z3.Select(p, k))))), DEG(f) < n, s <= n, MULT(REV(f, n - 1), INVT(REV(m, n), n), s) == TEV(p, c, n, s)))
TINL = 'for the master polynomial M of n distinct points, (rev(f rev(M, n) mod x^n, n-1))(p_k) = t_k M\'(p_k), where t is the transposed interpolation of f'
def tin_ax():
    f, m = z3.Consts('f m', PS)
def leaves(t, n, p): return A(1, lambda k: imp(R(k, 0, n), t.at(0, k) == LIN(p[k])), lambda k: ('alt', t.at(0, k), p[k]))
def obj(E, X): return z3.And(tree_ok(X['tree'], X['n']), X['pts'].len == X['n'], leaves(X['tree'], X['n'], X['pts']))
def root(t): return t.at(t.len - 1, 0)
def full(X):
    t, n, p, c = X['tree'], X['n'], X['pts'], X['cofactors']
    return z3.And(c.len == n, DEG(root(t)) == n, DIST(p.a, n), A(1, lambda k: imp(R(k, 0, n), z3.And(EV(DIFF(root(t)), p[k]) != K0, c[k] == KINV(EV(DIFF(root(t)), p[k])))), lambda k: c[k]), X['reverse_root'] == REV(root(t), n), X['inverse_root'] == INVT(X['reverse_root'], n))
# ---- up_tree
def updef(t, n, c):
    return z3.And(A(1, lambda k: imp(R(k, 0, n), CF(0, k) == SETC(ZERO, 0, c[k])), lambda k: CF(0, k)),
                  A(3, lambda i, i1, j: imp(ADJ(i, i1), i1 == i + 1, R(i, 0, t.len - 1), j >= 0, 2 * j + 1 < t.n(i), CF(i1, j) == ADD(MUL(CF(i, 2 * j), t.at(i, 2 * j + 1)), MUL(CF(i, 2 * j + 1), t.at(i, 2 * j)))), lambda i, i1, j: [ADJ(i, i1), CF(i1, j)]),
                  A(3, lambda i, i1, j: imp(ADJ(i, i1), i1 == i + 1, R(i, 0, t.len - 1), 2 * j == t.n(i) - 1, CF(i1, j) == CF(i, 2 * j)), lambda i, i1, j: [ADJ(i, i1), CF(i1, j)]),
                  A(1, lambda k: ND(0, k) == k, lambda k: ND(0, k)), A(3, lambda i, i1, k: imp(ADJ(i, i1), i1 == i + 1, R(i, 0, t.len - 1), ND(i1, k) == ND(i, k) / 2), lambda i, i1, k: [ADJ(i, i1), ND(i1, k)]))
def up_inv(t, c, n, i):
    return [('ancestors of the leaves', A(1, lambda k: imp(R(k, 0, n), R(ND(i, k), 0, t.n(i))), lambda k: ND(i, k))),
            ('values of the combinations at level i', A(1, lambda k: imp(R(k, 0, n), GP(CF(i, ND(i, k)), t.at(i, ND(i, k)), RT(t.at(0, k)), c[k])), lambda k: ('alt', ND(i, k), t.at(0, k)))),
            ('the combinations at level i have smaller degree than the nodes', A(1, lambda j: imp(R(j, 0, t.n(i)), DEG(CF(i, j)) < DEG(t.at(i, j))), lambda j: CF(i, j)))]
def u0(v, o): n = o.coeffs.len; return [('index', z3.And(v.i >= 0, v.i <= n)), ('length', v.combinations.len == n), ('leaves done', A(1, lambda k: imp(R(k, 0, v.i), v.combinations[k] == CF(0, k)), lambda k: v.combinations[k])), ('leaves to do', A(1, lambda k: imp(R(k, v.i, n), v.combinations[k] == ZERO), lambda k: v.combinations[k]))]
def u1(v, o):
    t = v.tree; return [adj(v.i), ('index', z3.And(v.i >= 0, v.i <= t.len - 1)), ('length', v.combinations.len == o.coeffs.len), ('combinations at level i', A(1, lambda k: imp(R(k, 0, t.n(v.i)), v.combinations[k] == CF(v.i, k)), lambda k: v.combinations[k]))] + up_inv(t, o.coeffs, o.coeffs.len, v.i)
def u2(v, o):
    t = v.tree; i, j = v.i, v.j
    return [adj(i), ('index', z3.And(j >= 0, 2 * j <= v.len)), ('length', v.combinations.len == o.coeffs.len), ('level i+1 done', A(1, lambda k: imp(R(k, 0, j), v.combinations[k] == CF(i + 1, k)), lambda k: v.combinations[k])),
            ('level i still to do', A(1, lambda k: imp(k >= 2 * j, k < v.len, v.combinations[k] == CF(i, k)), lambda k: v.combinations[k]))]
@hcontract('up_tree(zz_pX &, const Vec<Vec<zz_pX>> &, const Vec<zz_p> &)', 'f tree coeffs', 'C09', FG, loops=(u0, u1, u2), dirs='uuu', theory=lambda: ev_ax() + deg_ax())
def _(E):
    t, c = E.old['tree'], E.old['coeffs']; n = c.len; E.assigns('f'); E.requires(tree_ok(t, n), 'subproduct tree'); E.requires(A(1, lambda k: imp(R(k, 0, n), t.at(0, k) == LIN(RT(t.at(0, k)))), lambda k: t.at(0, k)), 'linear leaves')
    if E.mode == 'pre': E.st.pc.append(updef(t, n, c)); E.lemma('definition by recursion of the combination at the nodes of the tree and of the ancestors of its leaves')
    if E.mode in ('post', 'call'):
        E.ensures(A(1, lambda k: imp(R(k, 0, n), EV(E.new['f'], RT(t.at(0, k))) == KMUL(c[k], EV(DIFF(root(t)), RT(t.at(0, k))))), lambda k: t.at(0, k)), 'f(p_k) = c_k M\'(p_k)'); E.ensures(DEG(E.new['f']) < DEG(root(t)), 'deg(f) < deg(M)')
# ---- evaluate
def e0(v, o):
    t = v.tree; return [adj(v.i), ('index', z3.And(v.i >= -1, v.i <= t.len - 2)), ('length', z3.And(v.remainders.len == o.n, v.val.len == o.n)), ('remainders modulo the nodes of level i+1', A(1, lambda k: imp(R(k, 0, t.n(v.i + 1)), v.remainders[k] == REM(o.f, t.at(v.i + 1, k))), lambda k: v.remainders[k]))]
def e1(v, o):
    t = v.tree; i, j = v.i, v.j
    return [adj(i), ('index', z3.And(j >= -1, 2 * (j + 1) <= v.len)), ('length', v.remainders.len == o.n), ('nodes of level i+1 still to do', A(1, lambda k: imp(k >= 0, k <= j, v.remainders[k] == REM(o.f, t.at(i + 1, k))), lambda k: v.remainders[k])),
            ('nodes of level i done', A(1, lambda k: imp(k >= 2 * (j + 1), k < v.len, v.remainders[k] == REM(o.f, t.at(i, k))), lambda k: v.remainders[k]))]
def e2(v, o): return [('index', z3.And(v.i >= 0, v.i <= o.n)), ('length', v.val.len == o.n), ('values done', A(1, lambda k: imp(R(k, 0, v.i), v.val[k] == EV(o.f, o.pts[k])), lambda k: v.val[k]))]
@hcontract('evaluate(Vec<zz_p> &, const zz_pX &)', 'val f', 'C09', FG, cls=CLS, fields=FIELDS, loops=(e0, e1, e2), dirs='ddu', theory=ev_ax)
def _(E):
    n, f, p = E.old['n'], E.old['f'], E.old['pts']; E.assigns('val'); E.requires(obj(E, E.old), 'subproduct tree over the points'); v = E.new['val']
    if E.mode in ('call', 'post'): E.ensures(v.len == n, 'one value per point'); E.ensures(A(1, lambda k: imp(R(k, 0, n), v[k] == EV(f, p[k])), lambda k: v[k]), 'val[i] = f(p_i)')
# ---- interpolate
def i0(v, o): return [('index', z3.And(v.i >= 0, v.i <= o.n)), ('length', v.coeffs.len == o.n), ('coefficients done', A(1, lambda k: imp(R(k, 0, v.i), v.coeffs[k] == KMUL(o.val[k], o.cofactors[k])), lambda k: v.coeffs[k]))]
@hcontract('interpolate(zz_pX &, const Vec<zz_p> &)', 'f val', 'C09', FG, cls=CLS, fields=FIELDS, loops=(i0,), dirs='u', theory=ev_ax)
def _(E):
    n, v, p = E.old['n'], E.old['val'], E.old['pts']; E.assigns('f'); E.requires(obj(E, E.old), 'subproduct tree over the points'); E.requires(full(E.old), 'cofactors'); E.requires(v.len == n, 'one value per point'); f = E.new['f']
    if E.mode == 'post': E.ensures(A(1, lambda k: imp(R(k, 0, n), EV(f, p[k]) == v[k])), 'f(p_i) = val[i]'); E.ensures(DEG(f) < n, 'deg(f) < n')
# ---- transposes
@hcontract('t_evaluate(zz_pX &, const Vec<zz_p> &, long)', 'f val output_size', 'C09', FG, cls=CLS, fields=FIELDS, theory=ev_ax)
def _(E):
    n, v, p, s, t = E.old['n'], E.old['val'], E.old['pts'], E.old['output_size'], E.old['tree']; E.assigns('f'); E.requires(obj(E, E.old), 'subproduct tree over the points'); E.requires(full(E.old), 'cofactors'); E.requires(z3.And(v.len == n, s >= -1, s <= n), 'one value per point, at most n coefficients asked')
    if E.mode == 'pre':
        text, g = tev_ax(); E.lemma(text); f = z3.Const('ff', PS); m = z3.Int('mm')
        E.st.pc.append(z3.ForAll([f, m], imp(A(1, lambda k: imp(R(k, 0, n), EV(f, p[k]) == KMUL(v[k], EV(DIFF(root(t)), p[k]))), lambda k: t.at(0, k)), DEG(f) < n, m <= n, MULT(REV(f, n - 1), INVT(REV(root(t), n), n), m) == TEV(p.a, v.a, n, m)), patterns=[MULT(REV(f, n - 1), INVT(REV(root(t), n), n), m)]))
    if E.mode == 'post': E.ensures(E.new['f'] == TEV(p.a, v.a, n, z3.If(s == -1, n, s)), 'f = sum_k val_k / (1 - p_k x) mod x^s')
def t0(v, o): return [('index', z3.And(v.i >= 0, v.i <= o.n)), ('length', v.val.len == o.n), ('values done', A(1, lambda k: imp(R(k, 0, v.i), v.val[k] == TIN(o.pts.a, o.f, o.n, k)), lambda k: v.val[k])),
                      ('values to do', A(1, lambda k: imp(R(k, v.i, o.n), v.val[k] == EV(v.rev_num, o.pts[k])), lambda k: v.val[k])), ('numerator', v.rev_num == REV(MULT(o.f, o.reverse_root, o.n), o.n - 1))]
@hcontract('t_interpolate(Vec<zz_p> &, const zz_pX &)', 'val f', 'C09', FG, cls=CLS, fields=FIELDS, loops=(t0,), dirs='u', theory=ev_ax)
def _(E):
    n, f, p, t = E.old['n'], E.old['f'], E.old['pts'], E.old['tree']; E.assigns('val'); E.requires(obj(E, E.old), 'subproduct tree over the points'); E.requires(full(E.old), 'cofactors')
    if E.mode == 'pre':
        E.lemma(TINL); k = z3.Int('k'); w = REV(MULT(f, REV(root(t), n), n), n - 1)
        E.st.pc.append(z3.ForAll([k], imp(R(k, 0, n), KMUL(EV(w, p[k]), KINV(EV(DIFF(root(t)), p[k]))) == TIN(p.a, f, n, k)), patterns=[p[k]]))
    v = E.new['val']
    if E.mode == 'post': E.ensures(z3.And(v.len == n, A(1, lambda k: imp(R(k, 0, n), v[k] == TIN(p.a, f, n, k)))), 'val = transposed interpolation of f')
# ---- constructors
def q_inv(P): return lambda v, o: [('index', z3.And(v.i >= 0, v.i <= v.n)), ('length', z3.And(v.qpol.len == v.n, v.n == v.pts.len)), ('distinct points', DIST(v.pts.a, v.n)), ('leaves done', A(1, lambda k: imp(R(k, 0, v.i), v.qpol[k] == LIN(v.pts[k])), lambda k: v.qpol[k])), ('leaves to do', A(1, lambda k: imp(R(k, v.i, v.n), v.qpol[k] == ZERO), lambda k: v.qpol[k]))]
def c_inv(v, o): return [('index', z3.And(v.i >= 0, v.i <= v.n)), ('length', v.cofactors.len == v.n), ('nonzero', A(1, lambda k: imp(R(k, 0, v.n), z3.And(v.qpol[k] == LIN(v.pts[k]), EV(DIFF(root(v.tree)), v.pts[k]) != K0)), lambda k: v.pts[k])), ('inverses done', A(1, lambda k: imp(R(k, 0, v.i), v.cofactors[k] == KINV(EV(DIFF(root(v.tree)), v.pts[k]))), lambda k: v.cofactors[k])),
                         ('to do', A(1, lambda k: imp(R(k, v.i, v.n), v.cofactors[k] == EV(DIFF(root(v.tree)), v.pts[k])), lambda k: v.cofactors[k]))]
GS = z3.Const('selected_points', AK)
def p_inv(v, o): return [('def', imp(A(1, lambda k: imp(R(k, 0, v.n), v.pts[k] == z3.Select(GS, k)), lambda k: v.pts[k]), DIST(GS, v.n), DIST(v.pts.a, v.n))), ('index', z3.And(v.i >= 0, v.i <= v.n)), ('length', z3.And(v.pts.len == v.n, v.n == o.length)), ('points', A(1, lambda k: imp(R(k, 0, v.i), z3.And(v.pts[k] == o.q[o.offset + k], v.pts[k] == z3.Select(GS, k))), lambda k: v.pts[k]))]
def ctor(sig, names, loops, pt, ln, pre):
    @hcontract(sig, names, 'C09', FG, cls=CLS, fields=FIELDS, loops=loops, dirs='uuu', theory=lambda: ev_ax() + deg_ax() + ctor_ax())
    def _(E):
        n = ln(E.old); E.assigns(*FIELDS); E.requires(z3.And(n >= 1, pre(E.old)), 'at least one point')
        # the points are pairwise distinct
        if E.mode == 'pre' and 'offset' in E.old: E.st.pc.append(A(1, lambda k: imp(R(k, 0, n), z3.Select(GS, k) == pt(E.old, k)), lambda k: z3.Select(GS, k))); E.requires(DIST(GS, n), 'pairwise distinct points')
        else: E.requires(DIST(E.old['q'].a, n), 'pairwise distinct points')
        if E.mode == 'post':
            X = E.new; E.ensures(z3.And(X['n'] == n, X['pts'].len == n, A(1, lambda k: imp(R(k, 0, n), X['pts'][k] == pt(E.old, k)), lambda k: X['pts'][k])), 'points'); E.ensures(tree_ok(X['tree'], n), 'subproduct tree'); E.ensures(leaves(X['tree'], n, X['pts']), 'leaves x - p_k'); E.ensures(full(X), 'cofactors, reversed root and its inverse')
ctor('zz_pX_Multipoint_General(const Vec<zz_p> &)', 'q', (q_inv(0), c_inv), lambda o, k: o['q'][k], lambda o: o['q'].len, lambda o: z3.BoolVal(True))
ctor('zz_pX_Multipoint_General(const Vec<zz_p> &, long, long)', 'q offset length', (p_inv, q_inv(0), c_inv), lambda o, k: o['q'][o['offset'] + k], lambda o: o['length'], lambda o: z3.And(o['offset'] >= 0, o['offset'] + o['length'] <= o['q'].len))
# ------------------------------------------------------------ base class: entrywise operations on vectors and matrices (entry level)
# the virtual operations are linear maps given by the object: value j of f is sum_u f_u MP(j, u), coefficient u of the interpolation is sum_j v_j IP(u, j)
from .lib import contract, mat, vec, P, RF, rsum, simp, rite, R0, forall, rng, pc, plen, co
from . import lib as L
II = z3.IntVal
B = 'zz_pX_Multipoint'; FB = 'ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint.cpp'
V_, M_, VF_ = 'Vec<zz_pX>', 'Mat<zz_pX>', 'Vec<zz_p>'; VVF = 'Vec<Vec<zz_p>>'; VMF = 'Vec<Mat<zz_p>>'
def mp(E, f, j, nm='MP'): c = pc(E, f); return rsum(0, plen(E, f), lambda u: c(u) * RF(nm, (), (j, u)))
def ip(E, v, n, nm, m): return P(lambda u: rite(simp(z3.And(u >= 0, u < m)), rsum(0, n, lambda j: v(j) * RF(nm, (), (u, j))), R0))
def n0(E): n = E['this'].f['n']; E.requires(n >= 0, 'number of points'); return n
def mp_ops(ev, evm, back, bk, extra):
    osz = 'output_size' if extra else None
    @contract('%s(%s &, const zz_pX &)' % (ev, VF_), 'val P', 'C09', FB, cls=B, assumed=True)
    def _(E): n = n0(E); E.sets('val', vec(n, lambda j: mp(E, E['P'], j, evm), 'F'))
    @contract('%s_vector(%s &, const %s &)' % (ev, VVF, V_), 'val f', 'C09', FB, cls=B)
    def _(E): n = n0(E); f = E['f']; E.sets('val', vec(n, lambda j: vec(f.len, lambda i: mp(E, f.get(i), j, evm), 'F'), ('vec', 'F')))
    @contract('%s_matrix(%s &, const %s &)' % (ev, VMF, M_), 'val f', 'C09', FB, cls=B)
    def _(E): n = n0(E); f = E['f']; E.sets('val', vec(n, lambda j: mat(f.rows, f.cols, lambda i, k: mp(E, f.get(i, k), j, evm), 'F'), ('mat', 'F')))
    sfx, nm = (', long', 'output_size') if extra else ('', '')
    size = (lambda E, n: E['output_size']) if extra else (lambda E, n: n)
    def pre(E):
        n = n0(E)
        if extra: E.requires(simp(z3.And(E['output_size'] >= 0, E['output_size'] <= n)), 'output size within the number of points')
        return n
    @contract('%s(zz_pX &, const %s &%s)' % (back, VF_, sfx), 'f val ' + nm, 'C09', FB, cls=B, assumed=True)
    def _(E): n = pre(E); v = E['val']; E.requires(v.len == n, 'as many values as points'); E.sets('f', ip(E, lambda j: v.get(j), n, bk, size(E, n)))
    @contract('%s_vector(%s &, const %s &%s)' % (back, V_, VVF, sfx), 'f val ' + nm, 'C09', FB, cls=B)
    def _(E):
        n = pre(E); v = E['val']; E.requires(v.len == n, 'as many values as points'); s = z3.If(n == 0, II(0), v.get(II(0)).len)
        E.requires(forall(1, lambda j: z3.Implies(rng(j, 0, n), v.get(j).len == s)), 'values of one length')
        E.sets('f', vec(s, lambda i: ip(E, lambda j: v.get(j).get(i), n, bk, size(E, n))))
    @contract('%s_matrix(%s &, const %s &%s)' % (back, M_, VMF, sfx), 'f val ' + nm, 'C09', FB, cls=B)
    def _(E):
        n = pre(E); v = E['val']; E.requires(v.len == n, 'as many values as points'); r = z3.If(n == 0, II(0), v.get(II(0)).rows); c = z3.If(n == 0, II(0), v.get(II(0)).cols)
        E.requires(forall(1, lambda j: z3.Implies(rng(j, 0, n), z3.And(v.get(j).rows == r, v.get(j).cols == c))), 'values of one shape')
        E.sets('f', mat(r, c, lambda i, k: ip(E, lambda j: v.get(j).get(i, k), n, bk, size(E, n))))
mp_ops('evaluate', 'MP', 'interpolate', 'IP', False)
mp_ops('t_interpolate', 'TI', 't_evaluate', 'TE', True)
@contract('length()', '', 'C09', FB, cls=B)
def _(E): E.returns(E['this'].f['n'])
