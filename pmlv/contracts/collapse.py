"""C17: collapsing columns of a polynomial matrix (verification conditions with explicit invariants, matrices by entries)"""
import z3
from ..hoare import *
from .crt import A, R, imp
F = 'ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp'; H = 'ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h'; MP = ('mat', 'P')
def ax():
    p = z3.Const('p', PS); i, j, n = z3.Ints('i j n'); k = z3.Const('k', KS); Q = z3.ForAll
    return [('writing one coefficient', Q([p, j, k, i], imp(j >= 0, CO(SETC(p, j, k), i) == z3.If(i == j, k, CO(p, i))), patterns=[CO(SETC(p, j, k), i)])), ('coefficients of zero', Q([i], CO(ZERO, i) == K0, patterns=[CO(ZERO, i)])),
            ('no coefficient beyond the length', Q([p, n, i], imp(z3.Or(i < 0, i >= n), CO(RESZ(p, n), i) == K0), patterns=[CO(RESZ(p, n), i)]))]
def make(nm, cons):
    # COL(a, d, s, j, i, x): coefficient x of entry (j, i) of the result, given by COL(.., k d + e) = coefficient e of the k-th collapsed entry, 0 <= e < d
    COL = z3.Function('COL' + nm[9:12], AAP, IS, IS, IS, IS, IS, KS)
    def sizes(o): r = QUO(o.a.cols, o.s); return (r, o.s) if cons else (o.s, r)
    def at(o, j, i, k, e):
        """definition at position k d + e, and products of bounds"""
        n, q = sizes(o); d, s, r = o.d, o.s, QUO(o.a.cols, o.s); pos = i * s + k if cons else i + k * s; u = i if cons else k
        return ('def', z3.And(imp(R(e, 0, d), k >= 0, COL(o.a.a, d, s, j, i, k * d + e) == CO(o.a.at(j, pos), e)), imp(R(k, 0, q), z3.And(k * d >= 0, k * d + d <= q * d, (k + 1) * d == k * d + d)), imp(R(u, 0, r), z3.And(u * s >= 0, u * s + s <= r * s)), imp(q >= 0, q * d >= 0)))
    def full(c, o, j, i, x): n, q = sizes(o); return CO(c.at(j, i), x) == z3.If(R(x, 0, q * o.d), COL(o.a.a, o.d, o.s, j, i, x), K0)
    def dims(v, o): return ('dimensions', z3.And(v.c.len == o.a.len, v.c.cols == sizes(o)[0]))
    def rows(v, o): return ('rows done', A(3, lambda j, i, x: imp(R(j, 0, v.j), R(i, 0, sizes(o)[0]), full(v.c, o, j, i, x)), lambda j, i, x: CO(v.c.at(j, i), x)))
    def row(v, o): return ('entries of the row done', A(2, lambda i, x: imp(R(i, 0, v.i), full(v.c, o, v.j, i, x)), lambda i, x: CO(v.c.at(v.j, i), x)))
    def ent(v, o, b): n, q = sizes(o); return ('coefficients of the entry done', A(1, lambda x: z3.And(imp(R(x, 0, b), CO(v.c.at(v.j, v.i), x) == COL(o.a.a, o.d, o.s, v.j, v.i, x)), imp(z3.Or(x < 0, x >= q * o.d), CO(v.c.at(v.j, v.i), x) == K0)), lambda x: CO(v.c.at(v.j, v.i), x)))
    def l0(v, o): return [at(o, I(0), I(0), I(0), I(0)), ('index', R(v.j, 0, o.a.len + 1)), dims(v, o), rows(v, o)]
    def l1(v, o): return [('index', R(v.i, 0, sizes(o)[0] + 1)), dims(v, o), row(v, o)]
    def l2(v, o): return [at(o, v.j, v.i, v.k, I(0)), ('index', R(v.k, 0, sizes(o)[1] + 1)), ent(v, o, v.k * o.d)]
    def l3(v, o): return [at(o, v.j, v.i, v.k, v.ell), ('index', R(v.ell, 0, o.d + 1)), ent(v, o, v.k * o.d + v.ell)]
    def spec(ret):
        def f(E):
            a, d, s = E.old['a'], E.old['d'], E.old['s']; E.requires(z3.And(s >= 1, d >= 1, a.cols == QUO(a.cols, s) * s, QUO(a.cols, s) >= 0), 'positive block sizes, s divides the number of columns')
            if not ret: E.assigns('c')
            if E.mode in ('call', 'post'):
                c = E.ret if ret else E.new['c']; o = View(E.old); n, q = sizes(o); E.lemma('COL(a, d, s, j, i, k d + e) is coefficient e of the k-th entry collapsed into entry (j, i), 0 <= e < d')
                E.ensures(z3.And(c.len == a.len, c.cols == n), 'dimensions'); E.ensures(A(3, lambda j, i, x: imp(R(j, 0, a.len), R(i, 0, n), full(c, o, j, i, x)), lambda j, i, x: CO(c.at(j, i), x)), 'coefficient k d + e of a collapsed entry is coefficient e of its k-th part; no other coefficient')
        return f
    M = 'Mat<zz_pX>'
    hcontract('%s(%s &, const %s &, long, long)' % (nm, M, M), 'c a d s', 'C17', F, loops=(l0, l1, l2, l3), dirs='uuuu', theory=ax, aliased=True, entries=True)(spec(False))
    hcontract('%s(const %s &, long, long)' % (nm, M), 'a d s', 'C17', H, theory=ax, entries=True, result=MP)(spec(True))
make('collapse_consecutive_columns', True); make('collapse_nonconsecutive_columns', False)
