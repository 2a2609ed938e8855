"""C19: batched inversion of field elements (verification conditions with explicit invariants)"""
import z3
from ..hoare import *
from .crt import A, R, imp
FV = 'ntl-extras/vec_lzz_p_extra/src/vec_lzz_p_extra.cpp'; HV = 'ntl-extras/vec_lzz_p_extra/vec_lzz_p_extra.h'
PP = z3.Function('PREFIX', AK, IS, KS)   # PREFIX(a, k) = a[0] ... a[k]
def ax():
    a, b = z3.Consts('a b', KS); F = z3.ForAll
    return [('for nonzero x, y: xy is nonzero', F([a, b], imp(a != K0, b != K0, KMUL(a, b) != K0), patterns=[KMUL(a, b)])),
            ('for nonzero x, y: (1/(xy)) x = 1/y and (1/(xy)) y = 1/x', F([a, b], imp(a != K0, b != K0, z3.And(KMUL(KINV(KMUL(a, b)), a) == KINV(b), KMUL(KINV(KMUL(a, b)), b) == KINV(a))), patterns=[KINV(KMUL(a, b))]))]
def pp(a, i): return ('def', z3.And(PP(a.a, 0) == a[0], imp(i >= 1, PP(a.a, i) == KMUL(PP(a.a, i - 1), a[i]))))
def prefixes(v, o, hi): return A(1, lambda k: imp(R(k, 0, hi), z3.And(v.tmp[k] == PP(o.A.a, k), PP(o.A.a, k) != K0)), lambda k: ('alt', v.tmp[k], PP(o.A.a, k)))
def b0(v, o): n = o.A.len; return [pp(o.A, v.i), ('index', z3.And(v.i >= 1, v.i <= n)), ('lengths', z3.And(v.tmp.len == n, v.invA.len == n)), ('prefix products', prefixes(v, o, v.i))]
def b1(v, o):
    n = o.A.len; return [pp(o.A, v.i), ('index', R(v.i, 0, n)), ('lengths', z3.And(v.tmp.len == n, v.invA.len == n)), ('prefix products', prefixes(v, o, n)), ('inverse of the prefix product', v.aux == KINV(PP(o.A.a, v.i))),
                         ('inverses done', A(1, lambda k: imp(k > v.i, k < n, v.invA[k] == KINV(o.A[k])), lambda k: v.invA[k]))]
def pre(E): a = E.old['A']; E.requires(A(1, lambda k: imp(R(k, 0, a.len), a[k] != K0), lambda k: a[k]), 'nonzero entries'); return a
def post(E, a, x):
    if E.mode in ('call', 'post'): E.ensures(x.len == a.len, 'length'); E.ensures(A(1, lambda k: imp(R(k, 0, a.len), x[k] == KINV(a[k])), lambda k: x[k]), 'entries are inverted')
@hcontract('inv(Vec<zz_p> &, const Vec<zz_p> &)', 'invA A', 'C19', FV, loops=(b0, b1), dirs='ud', theory=ax, aliased=True)
def _(E): a = pre(E); E.assigns('invA'); post(E, a, E.new['invA'])
@hcontract('inv(const Vec<zz_p> &)', 'A', 'C19', HV, theory=ax, result=('vec', 'F'))
def _(E): a = pre(E); post(E, a, E.ret)
