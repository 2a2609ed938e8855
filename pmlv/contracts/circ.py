"""C01: products of circulant matrices by vectors through FFT representations (verification conditions with explicit invariants)"""
import z3
from ..hoare import *
from .crt import A, R, imp
S = 'ntl-extras/structured_lzz_p/src/'; VF = 'Vec<zz_p>'
# PF(a, o, n) = sum_{i<n} a_(o+i) X^i; WI: witness of a difference
PF = z3.Function('PF', AK, IS, IS, PS); WI = z3.Function('WI', PS, AK, IS, IS, IS); RI = z3.Function('RI', IS, IS, IS)
ACC = z3.Function('ACC', PS, PS, AK, IS, IS, IS, IS, IS, KS)
def ax():
    p = z3.Const('p', PS); i, o, n = z3.Ints('i o n'); a = z3.Const('a', AK); Q = z3.ForAll; w = WI(p, a, o, n)
    x, y, z = z3.Consts('x y z', KS)
    return raw_ax() + fft_ax() + [('addition in F_p is commutative', Q([x, y], KADD(x, y) == KADD(y, x), patterns=[KADD(x, y)])), ('addition in F_p is associative', Q([x, y, z], KADD(KADD(x, y), z) == KADD(x, KADD(y, z)), patterns=[KADD(KADD(x, y), z)])),
        ('0 is neutral in F_p', Q([x], KADD(x, K0) == x, patterns=[KADD(x, K0)])), ('coefficients of PF(a, o, n)', Q([a, o, n, i], CO(PF(a, o, n), i) == z3.If(R(i, 0, n), a[o + i], K0), patterns=[CO(PF(a, o, n), i)])), ('degree of PF(a, o, n)', Q([a, o, n], imp(n >= 0, DEG(PF(a, o, n)) < n), patterns=[PF(a, o, n)])),
        ('normalized polynomials with the same coefficients are equal', Q([p, a, o, n], imp(CO(NORM(p), WI(NORM(p), a, o, n)) == CO(PF(a, o, n), WI(NORM(p), a, o, n)), NORM(p) == PF(a, o, n)), patterns=[z3.MultiPattern(NORM(p), PF(a, o, n))]))]
def mk(cls, sz, oth, long_side, chunk_side):
    """sz: name of the field with the length of the data, oth: the other dimension; long_side: product giving a vector of the other length"""
    F = S + cls + '.cpp'; FIELDS = {'n': 'Z', 'm': 'Z', 'fft1': FFT, 'fft2': FFT, 'fft3': FFT}
    def M(o): return getattr(o, sz)
    def N(o): return getattr(o, oth)
    def val(o, x): Q = MUL(FP(o.fft1), PF(o.input.a, I(0), M(o))); return KADD(CO(Q, x), CO(Q, x + M(o)))
    def ri(o, i): return ('def', z3.And(imp(R(i, 0, M(o)), RI(M(o), i) == i), imp(i >= M(o), RI(M(o), i) == RI(M(o), i - M(o)))))
    def rib(o, i): return z3.And(R(RI(M(o), i), 0, M(o)))
    def mn(a, b): return z3.If(b < a, b, a)
    def coefs(v, o, cnt, off): return [('length', RLEN(v.input_X) == cnt), ('coefficients', A(1, lambda x: imp(R(x, 0, v.i), CO(v.input_X, x) == o.input[x + off]), lambda x: CO(v.input_X, x)))]
    def res(v, o, hi): return ('entries done', A(1, lambda x: imp(R(x, 0, hi), v.res[x] == val(o, RI(M(o), x))), lambda x: v.res[x]))
    def a0(v, o): return [('index', R(v.i, 0, M(o) + 1))] + coefs(v, o, M(o), I(0))
    def a1(v, o): return [ri(o, v.i), ('index', R(v.i, 0, mn(N(o), M(o)) + 1)), ('length', v.res.len == N(o)), ('def', PF(o.input.a, I(0), M(o)) == PF(o.input.a, I(0), M(o))), res(v, o, v.i)]
    def a2(v, o): return [('index', z3.And(v.left >= 1, v.done + v.left == N(o), v.done >= M(o))), ('length', v.res.len == N(o)), res(v, o, v.done)]
    def a3(v, o): return [ri(o, v.i), ('index', z3.And(R(v.i, v.done, v.done + v.todo + 1))), ('length', v.res.len == N(o)), res(v, o, v.i)]
    INV1 = lambda E: z3.And(E[sz] >= 1, E[oth] >= 1, FK(E['fft1']) == NPT(2 * E[sz] - 1), DEG(FP(E['fft1'])) < E[sz])
    def spec1(ret):
        def f(E):
            o = View(E.old); E.requires(z3.And(INV1(E.old), o.input.len == M(o)), 'class invariant, matching length')
            if not ret: E.assigns('res')
            if E.mode == 'pre': E.st.pc.append(PF(o.input.a, I(0), M(o)) == PF(o.input.a, I(0), M(o)))
            if E.mode in ('call', 'post'):
                r = E.ret if ret else E.new['res']; E.lemma('RI(m, i) = i mod m, by RI(m, i) = RI(m, i - m)'); E.lemma('coefficient i plus coefficient i + m of the product with the polynomial of the circulant matrix is the entry i of the product with the matrix')
                E.ensures(r.len == N(o), 'length'); E.ensures(A(1, lambda x: imp(R(x, 0, N(o)), r[x] == val(o, RI(M(o), x))), lambda x: r[x]), 'entry x is the coefficient x mod m, plus the coefficient (x mod m) + m, of the product of the polynomials')
        return f
    KW = dict(cls=cls, fields=FIELDS, theory=ax, budget=60)
    hcontract('%s(%s &, const %s &)' % (long_side, VF, VF), 'res input', 'C01', F, loops=(a0, a1, a2, a3), dirs='uu u', aliased=True, **KW)(spec1(False))
    hcontract('%s(const %s &)' % (long_side, VF), 'input', 'C01', F, result=('vec', 'F'), **KW)(spec1(True))
    # ---- the other side: chunks of the size of the data, the last one first
    def lft(o): r = N(o) - QUO(N(o), M(o)) * M(o); return z3.If(r == 0, M(o), r)
    def nbl(o): r = N(o) - QUO(N(o), M(o)) * M(o); return z3.If(r == 0, QUO(N(o), M(o)) - 1, QUO(N(o), M(o)))
    def last(o, x): Q = MUL(FP(o.fft2), PF(o.input.a, nbl(o) * M(o), lft(o))); return z3.If(x < lft(o), KADD(CO(Q, x), CO(Q, x + M(o))), CO(Q, x))
    def acc(o, x, r): return ACC(FP(o.fft2), FP(o.fft3), o.input.a, M(o), nbl(o), lft(o), x, r)
    def chunk(o, x, r): Q = MUL(FP(o.fft3), PF(o.input.a, r * M(o), M(o))); return KADD(CO(Q, x), CO(Q, x + M(o)))
    def d0(o, x): return acc(o, x, I(0)) == last(o, x)
    def d1(o, x, r): return imp(r >= 0, acc(o, x, r + 1) == KADD(acc(o, x, r), chunk(o, x, r)))
    def nl(o, r): return z3.And(imp(R(r, 0, nbl(o)), r * M(o) >= 0, r * M(o) + M(o) <= nbl(o) * M(o)), imp(nbl(o) >= 0, nbl(o) * M(o) >= 0), (r + 1) * M(o) == r * M(o) + M(o))
    def dims(v, o): return [('length', z3.And(v.res.len == M(o)))]
    def sizes(v, o): return [('sizes', z3.And(v.nb == nbl(o), v.leftover == lft(o)))]
    def part(v, o, hi): return ('entries done', A(1, lambda x: imp(R(x, 0, hi), v.res[x] == acc(o, x, I(0))), lambda x: v.res[x]))
    def b0(v, o): return [('index', R(v.i, 0, lft(o) + 1))] + coefs(v, o, lft(o), nbl(o) * M(o))
    def b1(v, o): return [('def', d0(o, v.i)), ('index', R(v.i, 0, lft(o) + 1))] + dims(v, o) + [part(v, o, v.i)]
    def b2(v, o): return [('def', d0(o, v.i)), ('index', R(v.i, lft(o), M(o) + 1))] + dims(v, o) + [part(v, o, v.i)]
    def b3(v, o): return [('def', nl(o, v.r)), ('def', PF(o.input.a, v.r * M(o), M(o)) == PF(o.input.a, v.r * M(o), M(o))), ('index', R(v.r, 0, nbl(o) + 1))] + dims(v, o) + [('chunks added', A(1, lambda x: imp(R(x, 0, M(o)), v.res[x] == acc(o, x, v.r)), lambda x: v.res[x]))]
    def b4(v, o): return [('index', R(v.i, 0, M(o) + 1))] + coefs(v, o, M(o), v.r * M(o))
    def b5(v, o): return [('def', d1(o, v.i, v.r)), ('index', R(v.i, 0, M(o) + 1))] + dims(v, o) + [('chunk added', A(1, lambda x: imp(R(x, 0, M(o)), v.res[x] == acc(o, x, z3.If(x < v.i, v.r + 1, v.r))), lambda x: v.res[x]))]
    def INV2(E, o): return z3.And(E[sz] >= 1, E[oth] >= 1, FK(E['fft2']) == NPT(M(o) + lft(o) - 1), DEG(FP(E['fft2'])) < E[sz], FK(E['fft3']) == NPT(2 * M(o) - 1), DEG(FP(E['fft3'])) < E[sz])
    def spec2(ret):
        def f(E):
            o = View(E.old); E.requires(z3.And(INV2(E.old, o), o.input.len == N(o)), 'class invariant, matching length')
            if not ret: E.assigns('res')
            q = QUO(N(o), M(o))
            if E.mode == 'pre': E.st.pc += [imp(q == 0, q * M(o) == 0), nl(o, I(0)), (q - 1) * M(o) == q * M(o) - M(o), PF(o.input.a, nbl(o) * M(o), lft(o)) == PF(o.input.a, nbl(o) * M(o), lft(o)), q >= 0, R(N(o) - q * M(o), 0, M(o))]
            if E.mode in ('call', 'post'):
                r = E.ret if ret else E.new['res']; E.lemma('ACC(.., x, 0): coefficients x and x + m of the product for the last chunk of the input; ACC(.., x, r+1) = ACC(.., x, r) + those of chunk r'); E.lemma('the sum over the chunks of coefficient i plus coefficient i + m is the entry i of the product with the circulant matrix')
                E.ensures(r.len == M(o), 'length'); E.ensures(A(1, lambda x: imp(R(x, 0, M(o)), r[x] == acc(o, x, nbl(o))), lambda x: r[x]), 'entry x is the sum over the chunks of the input of coefficients x and x + m of the product of the polynomials')
        return f
    hcontract('%s(%s &, const %s &)' % (chunk_side, VF, VF), 'res input', 'C01', F, loops=(b0, b1, b2, b3, b4, b5), dirs='uuuuuu', aliased=True, **KW)(spec2(False))
    hcontract('%s(const %s &)' % (chunk_side, VF), 'input', 'C01', F, result=('vec', 'F'), **KW)(spec2(True))
mk('circulant_row_lzz_p', 'm', 'n', 'mul_right', 'mul_left')
mk('circulant_column_lzz_p', 'n', 'm', 'mul_left', 'mul_right')
