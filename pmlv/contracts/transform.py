"""C07: the naive transform (products of coefficients row by row), verification conditions with explicit invariants"""
import z3
from ..hoare import *
from .crt import A, R, imp
FT = 'ntl-extras/lzz_pX_CRT/src/lzz_pX_Transform_naive.cpp'; CLS = 'zz_pX_Transform_naive'; FIELDS = {'m': 'Z', 'n': 'Z'}; VKT = ('vec', 'F')
# rows t = 0..2m-2 of the products a_i b_j with i + j = t; START(m, t): position of the first one; EXL, EXR (m, x): the indices i, j of the product at position x
START = z3.Function('START', IS, IS, IS); EXL = z3.Function('EXL', IS, IS, IS); EXR = z3.Function('EXR', IS, IS, IS); SUMV = z3.Function('SUMV', AK, IS, IS, KS)
def rowlen(m, t): return z3.If(t < m, t + 1, 2 * m - 1 - t)
def row(m, t, s=None):
    """instances of the definitions at row t, and at entry s of it"""
    ok = R(t, 0, 2 * m - 1); g = [START(m, 0) == 0, imp(ok, START(m, t + 1) == START(m, t) + rowlen(m, t)), imp(ok, START(m, t) >= 0), imp(ok, START(m, t) + rowlen(m, t) <= m * m)]
    if s is not None: g += [imp(ok, R(s, 0, rowlen(m, t)), z3.And(EXL(m, START(m, t) + s) == z3.If(t < m, t, m - 1) - s, EXR(m, START(m, t) + s) == z3.If(t < m, 0, t - m + 1) + s))]
    return ('def', z3.And(*g))
def ax():
    p = z3.Const('p', PS); i, j, m, t = z3.Ints('i j m t'); k = z3.Const('k', KS); a = z3.Const('a', AK); F = z3.ForAll
    return [('writing one coefficient', F([p, j, k, i], imp(j >= 0, CO(SETC(p, j, k), i) == z3.If(i == j, k, CO(p, i))), patterns=[CO(SETC(p, j, k), i)])), ('coefficients of zero', F([i], CO(ZERO, i) == K0, patterns=[CO(ZERO, i)])),
            ('START(m, 0) = 0, START(m, t+1) = START(m, t) + number of products in row t, START(m, 2m-1) = m^2', z3.BoolVal(True)), ('position START(m, t) + s holds the product of index (t - j, j), j = max(0, t-m+1) + s', z3.BoolVal(True)),
            ('SUMV(v, p, 1) = v_p, SUMV(v, p, c+1) = SUMV(v, p, c) + v_(p+c)', z3.BoolVal(True))]
def sumdef(v, t, c): return ('def', z3.And(SUMV(v.a, t, 1) == v[t], imp(c >= 1, SUMV(v.a, t, c + 1) == KADD(SUMV(v.a, t, c), v[t + c]))))
def fwd(EX, right):
    def done(v, o): return A(1, lambda x: imp(R(x, 0, v.idx), v.val[x] == CO(o.P, EX(o.m, x))), lambda x: v.val[x])
    def base(v, o): return [('length', v.val.len == o.n), ('entries done', done(v, o))]
    def l0(v, o): return [row(o.m, v.i), ('index', z3.And(R(v.i, 0, o.m + 1), v.idx == START(o.m, v.i)))] + base(v, o)
    def l2(v, o): return [row(o.m, o.m - 1 + v.i), ('index', z3.And(R(v.i, 1, o.m + 1), v.idx == START(o.m, o.m - 1 + v.i)))] + base(v, o)
    if right:
        def l1(v, o): return [row(o.m, v.i, v.j), ('index', z3.And(R(v.j, 0, v.i + 2), v.idx == START(o.m, v.i) + v.j))] + base(v, o)
        def l3(v, o): return [row(o.m, o.m - 1 + v.i, v.j - v.i), ('index', z3.And(R(v.j, v.i, o.m + 1), v.idx == START(o.m, o.m - 1 + v.i) + v.j - v.i))] + base(v, o)
    else:
        def l1(v, o): return [row(o.m, v.i, v.i - v.j), ('index', z3.And(R(v.j, -1, v.i + 1), v.idx == START(o.m, v.i) + v.i - v.j))] + base(v, o)
        def l3(v, o): return [row(o.m, o.m - 1 + v.i, o.m - 1 - v.j), ('index', z3.And(R(v.j, v.i - 1, o.m), v.idx == START(o.m, o.m - 1 + v.i) + o.m - 1 - v.j))] + base(v, o)
    return l0, l1, l2, l3
for nm, EX in (('forward_left', EXL), ('forward_right', EXR)):
    r = nm.endswith('right')
    def mk(EX=EX):
        def spec(E):
            m, n, P = E.old['m'], E.old['n'], E.old['P']; E.requires(z3.And(m >= 1, n == m * m), 'n = m^2, m positive'); E.assigns('val'); E.lemma('START(m, 2m-1) = m^2')
            if E.mode == 'pre': E.st.pc += [START(m, 2 * m - 1) == n, row(m, I(0))[1], row(m, m)[1]]
            if E.mode in ('call', 'post'): v = E.new['val']; E.ensures(v.len == n, 'length'); E.ensures(A(1, lambda x: imp(R(x, 0, n), v[x] == CO(P, EX(m, x))), lambda x: v[x]), 'val[x] is the coefficient of P at the index of the product of position x')
        return spec
    hcontract('%s(Vec<zz_p> &, const zz_pX &)' % nm, 'val P', ['C07', 'C09'], FT, cls=CLS, fields=FIELDS, loops=fwd(EX, r), dirs='uuuu' if r else 'udud', theory=ax)(mk())
# backward: coefficient t of P is the sum of the entries of row t
def cdone(v, o, k): return A(1, lambda x: CO(v.P, x) == z3.If(R(x, 0, k), SUMV(o.val.a, START(o.m, x), rowlen(o.m, x)), K0), lambda x: CO(v.P, x))
def b0(v, o): return [row(o.m, v.i), sumdef(o.val, START(o.m, v.i), I(1)), ('index', z3.And(R(v.i, 0, o.m + 1), v.idx == START(o.m, v.i))), ('coefficients done', cdone(v, o, v.i))]
def b1(v, o): return [row(o.m, v.i), sumdef(o.val, START(o.m, v.i), v.j), ('index', z3.And(R(v.j, 1, v.i + 2), v.idx == START(o.m, v.i) + v.j)), ('partial sum', v.res == SUMV(o.val.a, START(o.m, v.i), v.j))]
def b2(v, o): return [row(o.m, v.i), sumdef(o.val, START(o.m, v.i), I(1)), ('index', z3.And(R(v.i, o.m, 2 * o.m), v.idx == START(o.m, v.i))), ('coefficients done', cdone(v, o, v.i))]
def b3(v, o): return [row(o.m, v.i), sumdef(o.val, START(o.m, v.i), v.j), ('index', z3.And(R(v.j, 1, 2 * o.m - v.i), v.idx == START(o.m, v.i) + v.j)), ('partial sum', v.res == SUMV(o.val.a, START(o.m, v.i), v.j))]
@hcontract('backward(zz_pX &, const Vec<zz_p> &)', 'P val', ['C07', 'C09'], FT, cls=CLS, fields=FIELDS, loops=(b0, b1, b2, b3), dirs='uuuu', theory=ax)
def _(E):
    m, n, v = E.old['m'], E.old['n'], E.old['val']; E.requires(z3.And(m >= 1, n == m * m, v.len == n), 'n = m^2 values, m positive'); E.assigns('P')
    if E.mode == 'pre': E.st.pc += [row(m, I(0))[1], row(m, m)[1]]
    if E.mode in ('call', 'post'): P = E.new['P']; E.ensures(A(1, lambda x: CO(P, x) == z3.If(R(x, 0, 2 * m - 1), SUMV(v.a, START(m, x), rowlen(m, x)), K0), lambda x: CO(P, x)), 'coefficient t of P is the sum of row t, for t < 2m-1; no other coefficient')
@hcontract('zz_pX_Transform_naive(long)', 'd', ['C07', 'C09'], FT, cls=CLS, fields=FIELDS)
def _(E):
    d = E.old['d']; E.requires(d >= 1, 'positive length'); E.assigns('m', 'n')
    if E.mode == 'post': E.ensures(z3.And(E.new['m'] == d, E.new['n'] == d * d), 'm = d, n = d^2')
