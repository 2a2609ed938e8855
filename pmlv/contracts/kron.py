"""C20: inverse Kronecker substitution (verification conditions with explicit invariants)"""
import z3
from ..hoare import *
from .crt import A, R, imp
F = 'ntl-extras/lzz_pXY/src/lzz_pXY.cpp'; V = 'Vec<zz_pX>'
def mn(a, b): return z3.If(b < a, b, a)
def cell(c, a, D, u, j): return CO(c, j) == z3.If(R(j, 0, D), CO(a, u * D + j), K0)
def rows(v, o, hi): D = o.degX + 1; return A(2, lambda u, j: imp(R(u, 0, hi), z3.And(cell(v.c[u], o.a, D, u, j), ISN(v.c[u]))), lambda u, j: CO(v.c[u], j))
def norm(v, hi): return A(1, lambda u: imp(R(u, 0, hi), ISN(v.c[u])), lambda u: v.c[u])
def base(v, o, hi): return [('rows done', rows(v, o, hi)), ('rows normalized', norm(v, hi)), ('length', z3.And(v.c.len == v.degY + 1, hi >= 0, hi <= v.c.len))]
def k0(v, o): D = o.degX + 1; return base(v, o, v.i) + [('position', v.idx == mn(v.i * D, DEG(o.a) + 1))]
def k1(v, o):
    D = o.degX + 1; p = v.c[v.i]; return base(v, o, v.i) + [('row index', v.i < v.c.len), ('index', z3.And(v.j >= 0, v.j <= D)), ('position', v.idx == mn(v.i * D + v.j, DEG(o.a) + 1)), ('row length', RLEN(p) == D), ('coefficients copied', A(1, lambda t: imp(R(t, 0, v.j), CO(p, t) == CO(o.a, v.i * D + t)), lambda t: CO(p, t)))]
def k2(v, o):
    D = o.degX + 1; p = v.c[v.i]; return base(v, o, v.i) + [('row index', v.i < v.c.len), ('index', z3.And(v.j >= 0, v.j <= D)), ('position', v.idx == mn(v.i * D + D, DEG(o.a) + 1)), ('nothing left to copy', z3.Or(v.j == D, v.i * D + v.j > DEG(o.a))), ('row length', RLEN(p) == D), ('coefficients copied', A(1, lambda t: imp(R(t, 0, v.j), CO(p, t) == CO(o.a, v.i * D + t)), lambda t: CO(p, t)))]
@hcontract('from_kronecker(%s &, const zz_pX &, long)' % V, 'c a degX', 'C20', F, loops=(k0, k1, k2), dirs='uuu', theory=raw_ax)
def _(E):
    a, D = E.old['a'], E.old['degX'] + 1; E.assigns('c'); E.requires(z3.And(D >= 1, *poly_ax(a)), 'nonnegative degree bound, normalized polynomial')
    if E.mode not in ('call', 'post'): return
    c = E.new['c']; E.ensures(z3.If(DEG(a) < 0, c.len == 0, z3.And((c.len - 1) * D <= DEG(a), DEG(a) < c.len * D)), 'number of coefficients in Y')
    E.ensures(A(2, lambda u, j: imp(R(u, 0, c.len), cell(c[u], a, D, u, j)), lambda u, j: CO(c[u], j)), 'coefficient of every degree'); E.ensures(A(1, lambda u: imp(R(u, 0, c.len), ISN(c[u])), lambda u: c[u]), 'normalized coefficients')
def kax():
    a, b = z3.Consts('a b', BS); D = z3.Int('D'); Q = z3.ForAll
    return [('Kronecker substitution x -> x, y -> x^{D+1} is a ring morphism, inverted by cutting in blocks of D+1 coefficients for products of x-degree at most D', Q([a, b, D], imp(BDX(a) + BDX(b) <= D, UNKR(MUL(KR(a, D), KR(b, D)), D) == BMUL(a, b)), patterns=[UNKR(MUL(KR(a, D), KR(b, D)), D)])),
            ('a nonzero polynomial has nonnegative x-degree', Q([a], imp(z3.Not(BZ(a)), BDX(a) >= 0), patterns=[BDX(a)])),
            ('product by zero', Q([a, b], imp(z3.Or(BZ(a), BZ(b)), BMUL(a, b) == B0), patterns=[BMUL(a, b)])), ('multiplication of bivariate polynomials is commutative', Q([a, b], BMUL(a, b) == BMUL(b, a), patterns=[BMUL(a, b)]))]
XY = 'zz_pXY'
@hcontract('mul_kronecker(%s &, const %s &, const %s &)' % (XY, XY, XY), 'c a b', 'C20', F, theory=kax, aliased=True)
def _(E):
    a, b = E.old['a'], E.old['b']; E.assigns('c')
    if E.mode in ('call', 'post'): E.ensures(E.new['c'] == BMUL(a, b), 'c = a b')
@hcontract('mul_kronecker(const %s &, const %s &)' % (XY, XY), 'a b', 'C20', 'ntl-extras/lzz_pXY/lzz_pXY.h', theory=kax, result=BIV)
def _(E):
    if E.mode in ('call', 'post'): E.ensures(E.ret == BMUL(E.old['a'], E.old['b']), 'a b is returned')
