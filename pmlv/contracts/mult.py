"""C07, C08, C11: products, middle products and division of polynomial matrices"""
from .lib import *
from .utils import V, M, VF, MF, VL, VM
from .structured import s_middle
F = X + 'mat_lzz_pX_multiply.cpp'
FN = X + 'mat_lzz_pX_multiply_naive.cpp'
FT = X + 'mat_lzz_pX_multiply_transform.cpp'
FMP = X + 'mat_lzz_pX_middle_product.cpp'
H = 'ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_multiply.h'
TH = 'ntl-extras/mat_lzz_pX_extra/thresholds_matrix_multiply.h'
HP = 'ntl-extras/lzz_p_extra/lzz_p_extra.h'
CRT = 'ntl-extras/lzz_pX_CRT/src/'
TRS = [CRT + 'lzz_pX_Transform.cpp', CRT + 'lzz_pX_Transform_montgomery.cpp', CRT + 'lzz_pX_Transform_naive.cpp']
BS = z3.BoolSort()
def fftready(E, k): return E.ctx.zapp('fft_ready', [k], BS)
# thresholds: no property depends on their value
for sig, nm in (('max_degree_transform()', ''), ('max_degree_evaluate(long)', 'sz'), ('max_degree_waksman(long)', 'sz'), ('max_degree_mp_naive(long)', 'sz')):
    @contract(sig, nm, ['C07', 'C08'], TH, assumed=True)
    def _(E): E.result('Z')
@contract('is_FFT_ready(long)', 'k', ['C07', 'C08'], HP, assumed=True)
def _(E): E.returns(fftready(E, E['k']))

def mprod(E, a, b):
    return mat(a.rows, b.cols, lambda i, j: P(lambda k: rsum(0, a.cols, lambda t: rsum(0, k + 1, lambda u: pc(E, a.get(i, t))(u) * pc(E, b.get(t, j))(k - u)))))
def s_mul(E, pos=True):
    a, b = E['a'], E['b']
    E.requires(a.cols == b.rows, 'inner dimensions agree')
    if pos: E.requires(a.cols >= 1, 'positive inner dimension')
    return mprod(E, a, b)
T3 = '(%s &, const %s &, const %s &' % (M, M, M)
@contract('multiply_naive%s)' % T3, 'c a b', 'C07', FN)
def _(E): E.sets('c', s_mul(E))
@contract('multiply_waksman%s)' % T3, 'c a b', 'C07', FN, assumed=True)
def _(E):
    E.requires(z3.And(E['a'].rows >= 1, E['b'].cols >= 1), 'positive dimensions'); E.sets('c', s_mul(E))
def needfft(E): pass
for nm, f in (('evaluate_FFT', 'mat_lzz_pX_multiply_evaluate_FFT.cpp'), ('evaluate_dense', 'mat_lzz_pX_multiply_evaluate_dense.cpp'), ('3_primes', 'mat_lzz_pX_multiply_3_primes.cpp')):
    @contract('multiply_%s%s)' % (nm, T3), 'c a b', 'C07', X + f, assumed=True)
    def _(E, nm=nm):
        a, b = E['a'], E['b']
        E.requires(z3.And(a.rows >= 1, b.cols >= 1), 'positive dimensions'); E.sets('c', s_mul(E))
@contract('multiply_transform%s, long)' % T3, 'c a b len', 'C07', FT)
def _(E):
    a, b, n = E['a'], E['b'], E['len']
    for m in (a, b):
        E.requires(forall(2, lambda i, j: z3.Implies(z3.And(rng(i, 0, m.rows), rng(j, 0, m.cols)), plen(E, m.get(i, j)) <= n)), 'degree less than len')
    E.sets('c', s_mul(E))
@contract('multiply%s, long)' % T3, 'c a b is_prime', 'C07', F)
def _(E):
    a, b = E['a'], E['b']
    E.sets('c', s_mul(E, False))
def deglt(E, m, n, what):
    E.requires(forall(2, lambda i, j: z3.Implies(z3.And(rng(i, 0, m.rows), rng(j, 0, m.cols)), plen(E, m.get(i, j)) <= n)), what)
# bilinear transforms: the points of the forward maps and the backward map are internal (auxiliary contracts); the products below are the property
def pick(i, vs):
    r = vs[-1]
    for k in range(len(vs) - 2, -1, -1): r = rite(simp(i == k), vs[k], r)
    return r
def kar2(p): return [p[0], p[1], p[0] + p[1]]
def bkar2(v): return [v[0], v[2] - v[0] - v[1], v[1]]
def mon3(p): return [p[0], p[1], p[2], p[0] + p[2], p[1] + p[2], p[0] + p[1] + p[2]]
def bmon3(v): return [v[0], v[2] - v[3] - v[4] + v[5], v[1] - v[0] - v[2] + v[3], v[4] - v[1] - v[2], v[2]]
def kar4(p): return kar2(p[:2]) + kar2(p[2:]) + kar2([p[0] + p[2], p[1] + p[3]])
def bkar4(v):
    a, b, c = bkar2(v[:3]), bkar2(v[3:6]), bkar2(v[6:])
    m = [c[i] - a[i] - b[i] for i in range(3)]
    return [a[0], a[1], a[2] + m[0], m[1], m[2] + b[0], b[1], b[2]]
TR = {'karatsuba': (2, 3, kar2, bkar2), 'montgomery3': (3, 6, mon3, bmon3), 'karatsuba4': (4, 9, kar4, bkar4)}
I = z3.IntVal
for nm, (m, n, fwd, bwd) in TR.items():
    cls = 'zz_pX_Transform_' + nm; FC = CRT + 'lzz_pX_Transform_montgomery.cpp'
    clsinv(cls)(lambda ex, f, m=m, n=n: {**f, 'm': I(m), 'n': I(n)})
    def co_(E, p, j, m=m, fwd=fwd, nm=nm):
        E.ctx.rfdef['fwd_' + nm] = lambda r, i: pick(i[0], fwd(list(r)))
        return RF('fwd_' + nm, tuple(pc(E, p)(I(k)) for k in range(m)), (j,))
    for side in ('left', 'right'):
        @contract('forward_%s(%s &, const zz_pX &)' % (side, VF), 'val P', ['C07', 'C09'], FC, cls=cls, aux=True)
        def _(E, n=n, co_=co_): E.sets('val', vec(I(n), lambda i: co_(E, E['P'], i), 'F'))
        @contract('forward_%s_matrix(%s &, const %s &)' % (side, VM, M), 'val f', ['C07', 'C09'], CRT + 'lzz_pX_Transform.cpp', cls=cls, aux=True, uses=TRS, nounroll=True)
        def _(E, n=n, co_=co_):
            f = E['f']; E.sets('val', vec(I(n), lambda k: mat(f.rows, f.cols, lambda i, j: co_(E, f.get(i, j), k), 'F'), ('mat', 'F')))
        @contract('forward_%s_vector(Vec<%s> &, const %s &)' % (side, VF, V), 'val f', ['C09'], CRT + 'lzz_pX_Transform.cpp', cls=cls, aux=True, uses=TRS)
        def _(E, n=n, co_=co_):
            f = E['f']; E.sets('val', vec(I(n), lambda k: vec(f.len, lambda i: co_(E, f.get(i), k), 'F'), ('vec', 'F')))
    def back(E, v, n, bwd, m, nm=nm):
        E.ctx.rfdef['bwd_' + nm] = lambda r, i: pick(i[0], bwd(list(r)))
        return P(lambda k: rite(simp(z3.And(k >= 0, k < 2 * m - 1)), RF('bwd_' + nm, tuple(v(I(k)) for k in range(n)), (k,)), R0))
    @contract('backward(zz_pX &, const %s &)' % VF, 'P val', ['C07', 'C09'], FC, cls=cls, aux=True)
    def _(E, m=m, n=n, bwd=bwd, back=back):
        v = E['val']; E.requires(v.len == n, 'transform length'); E.sets('P', back(E, v.get, n, bwd, m))
    @contract('backward_matrix(%s &, const %s &)' % (M, VM), 'f val', ['C07', 'C09'], CRT + 'lzz_pX_Transform.cpp', cls=cls, aux=True, uses=TRS)
    def _(E, m=m, n=n, bwd=bwd, back=back):
        v = E['val']; E.requires(v.len == n, 'transform length'); d = v.get(I(0))
        E.requires(forall(1, lambda k: z3.Implies(rng(k, 0, n), z3.And(v.get(k).rows == d.rows, v.get(k).cols == d.cols))), 'all values have the same dimensions')
        E.sets('f', mat(d.rows, d.cols, lambda i, j: back(E, lambda k: v.get(k).get(i, j), n, bwd, m)))
    @contract('multiply_transform_%s%s)' % (nm, T3), 'c a b', ['C07', 'C09'], FT, budget=300, uses=TRS)
    def _(E, d=m):
        for x in 'ab': deglt(E, E[x], d, 'degree less than %d' % d)
        E.sets('c', s_mul(E))
@contract('multiply_transform_naive%s)' % T3, 'c a b', 'C07', FT, assumed=True)
def _(E): E.sets('c', s_mul(E))
@contract('multiply_transform%s)' % T3, 'c a b', 'C07', H, uses=[FT])
def _(E): E.sets('c', s_mul(E))
# ------------------------------------------------------------ operators, vectors, truncated products
def mv(E, a, b): return vec(a.rows, lambda i: mprod(E, a, mat(b.len, z3.IntVal(1), lambda t, j: b.get(t))).get(i, z3.IntVal(0)))
def vm(E, a, b): return vec(b.cols, lambda j: mprod(E, mat(z3.IntVal(1), a.len, lambda i, t: a.get(t)), b).get(z3.IntVal(0), j))
@contract('operator*(const %s &, const %s &)' % (M, M), 'a b', 'C07', H)
def _(E): E.returns(s_mul(E, False))
def s_mv(E):
    E.requires(E['a'].cols == E['b'].len, 'inner dimensions agree'); return mv(E, E['a'], E['b'])
def s_vm(E):
    E.requires(E['a'].len == E['b'].rows, 'inner dimensions agree'); return vm(E, E['a'], E['b'])
@contract('multiply(%s &, const %s &, const %s &, long)' % (V, M, V), 'c a b is_prime', 'C07', F)
def _(E): E.sets('c', s_mv(E))
@contract('multiply(%s &, const %s &, const %s &, long)' % (V, V, M), 'c a b is_prime', 'C07', F)
def _(E): E.sets('c', s_vm(E))
@contract('operator*(const %s &, const %s &)' % (M, V), 'a b', 'C07', H)
def _(E): E.returns(s_mv(E))
@contract('operator*(const %s &, const %s &)' % (V, M), 'a b', 'C07', H)
def _(E): E.returns(s_vm(E))
def tr(E, m, d): return like(m, lambda i, j: P(lambda k: rite(simp(k < d), pc(E, m.get(i, j))(k), R0)))
@contract('mul_trunc%s, long, long)' % T3, 'c a b d is_prime', 'C07', H)
def _(E): E.requires(E['d'] >= 0, 'order is nonnegative'); E.sets('c', tr(E, s_mul(E, False), E['d']))
@contract('mul_trunc(const %s &, const %s &, long, long)' % (M, M), 'a b n is_prime', 'C07', H)
def _(E): E.requires(E['n'] >= 0, 'order is nonnegative'); E.returns(tr(E, s_mul(E, False), E['n']))
# ------------------------------------------------------------ matrix middle products
def s_midmat(E, pos=True):
    a, c, dA, dB = E['a'], E['c'], E['dA'], E['dB']
    E.requires(a.cols == c.rows, 'inner dimensions agree')
    if pos: E.requires(a.cols >= 1, 'positive inner dimension')
    E.requires(z3.And(dA >= 0, dB >= 0), 'degree bounds are nonnegative')
    deglt(E, a, dA + 1, 'deg(a) <= dA'); deglt(E, c, dA + dB + 1, 'deg(c) <= dA + dB')
    return mat(a.rows, c.cols, lambda i, j: P(lambda k: rite(simp(z3.And(k >= 0, k <= dB)),
        rsum(0, a.cols, lambda t: rsum(0, dA + 1, lambda u: pc(E, a.get(i, t))(u) * pc(E, c.get(t, j))(k + dA - u))), R0)))
TM = '(%s &, const %s &, const %s &, long, long' % (M, M, M)
@contract('middle_product%s, long)' % TM, 'b a c dA dB is_prime', 'C08', FMP)
def _(E): E.sets('b', s_midmat(E, False))
@contract('middle_product(const %s &, const %s &, long, long, long)' % (M, M), 'a c dA dB is_prime', 'C08', H)
def _(E): E.returns(s_midmat(E, False))
@contract('middle_product_naive%s)' % TM, 'b a c dA dB', 'C08', FMP)
def _(E): E.sets('b', s_midmat(E))
for nm, f in (('evaluate_FFT', 'mat_lzz_pX_middle_product_evaluate_FFT.cpp'), ('evaluate_dense', 'mat_lzz_pX_middle_product_evaluate_dense.cpp'), ('3_primes', 'mat_lzz_pX_multiply_3_primes.cpp')):
    @contract('middle_product_%s%s)' % (nm, TM), 'b a c dA dB', 'C08', X + f, assumed=True)
    def _(E): E.sets('b', s_midmat(E))
