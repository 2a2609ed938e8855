from .lib import *
F = X + 'mat_lzz_pX_arith.cpp'
V, M, VF, MF = 'Vec<zz_pX>', 'Mat<zz_pX>', 'Vec<zz_p>', 'Mat<zz_p>'

def entrywise(E, op, a, b):
    x, y = E[a], E[b]
    E.raises(Not_(same_shape(x, y)))
    def f(*ij):
        u, v = co(E, x.get(*ij)), co(E, y.get(*ij))
        return P(lambda k: op(u(k), v(k)))
    return like(x, f)

def reg_ew(name, op, T, TF):
    for ta, tb in ((T, T), (T, TF), (TF, T)):
        @contract('%s(%s &, const %s &, const %s &)' % (name, T, ta, tb), 'c a b', 'C03', F)
        def _(E): E.sets('c', entrywise(E, op, 'a', 'b'))
        o = {'add': '+', 'sub': '-'}[name]
        @contract('operator%s(const %s &, const %s &)' % (o, ta, tb), 'a b', 'C03', F)
        def _(E): E.returns(entrywise(E, op, 'a', 'b'))
        if ta == T:
            @contract('operator%s=(%s &, const %s &)' % (o, T, tb), 'x a', 'C03', F)
            def _(E):
                v = entrywise(E, op, 'x', 'a'); E.sets('x', v); E.returns(v)
for T, TF in ((V, VF), (M, MF)):
    reg_ew('add', lambda u, v: u + v, T, TF)
    reg_ew('sub', lambda u, v: u - v, T, TF)
    @contract('negate(%s &, const %s &)' % (T, T), 'x a', 'C03', F)
    def _(E):
        a = E['a']
        def f(*ij):
            u = co(E, a.get(*ij)); return P(lambda k: -u(k))
        E.sets('x', like(a, f))
    @contract('operator-(const %s &)' % T, 'a', 'C03', F)
    def _(E):
        a = E['a']
        def f(*ij):
            u = co(E, a.get(*ij)); return P(lambda k: -u(k))
        E.returns(like(a, f))
    # scalar (field element)
    def smul(E, a, b):
        a = E[a]; b = E[b]
        def f(*ij):
            u = co(E, a.get(*ij)); return P(lambda k: u(k) * b)
        return like(a, f)
    def pmul_(E, a, b):
        a = E[a]; b = pc(E, E[b])
        def f(*ij):
            u = co(E, a.get(*ij)); return P(lambda k: rsum(0, k + 1, lambda t: u(t) * b(k - t)))
        return like(a, f)
    for sc, fn in (('zz_p', smul), ('zz_pX', pmul_)):
        @contract('mul(%s &, const %s &, const %s &)' % (T, T, sc), 'c a b', 'C03', F)
        def _(E, fn=fn): E.sets('c', fn(E, 'a', 'b'))
        @contract('mul(%s &, const %s &, const %s &)' % (T, sc, T), 'c a b', 'C03', F)
        def _(E, fn=fn): E.sets('c', fn(E, 'b', 'a'))
        @contract('operator*(const %s &, const %s &)' % (T, sc), 'a b', 'C03', F)
        def _(E, fn=fn): E.returns(fn(E, 'a', 'b'))
        @contract('operator*(const %s &, const %s &)' % (sc, T), 'a b', 'C03', F)
        def _(E, fn=fn): E.returns(fn(E, 'b', 'a'))
    # shifted addition
    @contract('add_LeftShift(%s &, const %s &, const %s &, long)' % (T, T, T), 'c a b k', 'C03', F, noalias=[('c', 'b')])
    def _(E):
        a, b, s = E['a'], E['b'], E['k']
        E.noalias('c', 'b'); E.requires(s >= 0, 'shift is nonnegative')
        E.raises(Not_(same_shape(a, b)))
        def f(*ij):
            u, v = co(E, a.get(*ij)), co(E, b.get(*ij)); return P(lambda k: u(k) + rite(k >= s, v(k - s), R0))
        E.sets('c', like(a, f))

@contract('add_LeftShift(zz_pX &, const zz_pX &, const zz_pX &, long)', 'c a b k', 'C03', 'ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp', noalias=[('c', 'b')])
def _(E):
    s = E['k']; E.noalias('c', 'b'); E.requires(s >= 0, 'shift is nonnegative')
    u, v = co(E, E['a']), co(E, E['b']); E.sets('c', P(lambda k: u(k) + rite(k >= s, v(k - s), R0)))

# multiplication by a constant matrix
@contract('mul(%s &, const %s &, const %s &)' % (M, M, MF), 'c a b', 'C03', F)
def _(E):
    a, b = E['a'], E['b']
    E.raises(a.cols != b.rows)
    E.sets('c', mat(a.rows, b.cols, lambda i, j: P(lambda k: rsum(0, a.cols, lambda t: co(E, a.get(i, t))(k) * b.get(t, j)))))
@contract('mul(%s &, const %s &, const %s &)' % (M, MF, M), 'c a b', 'C03', F)
def _(E):
    a, b = E['a'], E['b']
    E.raises(a.cols != b.rows)
    E.sets('c', mat(a.rows, b.cols, lambda i, j: P(lambda k: rsum(0, a.cols, lambda t: a.get(i, t) * co(E, b.get(t, j))(k)))))
for ta, tb in ((M, MF), (MF, M)):
    @contract('operator*(const %s &, const %s &)' % (ta, tb), 'a b', 'C03', F)
    def _(E):
        a, b = E['a'], E['b']
        E.raises(a.cols != b.rows)
        E.returns(mat(a.rows, b.cols, lambda i, j: P(lambda k: rsum(0, a.cols, lambda t: prod(E, a.get(i, t), b.get(t, j), k)))))
def prod(E, x, y, k):
    if isinstance(x, RT): return x * co(E, y)(k)
    return co(E, x)(k) * y
