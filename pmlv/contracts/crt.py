"""C18: Chinese remaindering (verification conditions with explicit invariants)"""
import z3, sys
from ..hoare import *
F18 = 'ntl-extras/lzz_pX_CRT/src/lzz_pX_CRT.cpp'; CLS = 'zz_pX_CRT'
VPT = ('vec', 'P'); VVT = ('vec', VPT); FIELDS = {'n': 'Z', 'tree': VVT, 'cofactors': VPT}
def A(n, g, pat=None):
    """universally quantified formula; pat gives one pattern, a list for a multi-pattern, or a tuple ('alt', ...) of alternatives"""
    xs = [z3.FreshInt('x') for _ in range(n)]; b = g(*xs)
    if not pat: return z3.ForAll(xs, b)
    ps = pat(*xs); ps = list(ps[1:]) if isinstance(ps, tuple) and ps[0] == 'alt' else [ps]
    return z3.ForAll(xs, b, patterns=[z3.MultiPattern(*p) if isinstance(p, list) else p for p in ps], qid='L%d' % sys._getframe(1).f_lineno)
def R(i, lo, hi): return z3.And(i >= lo, i < hi)
def imp(*a): return z3.Implies(z3.And(*a[:-1]), a[-1])
HT = z3.Function('height', IS, IS)   # number of levels of the tree over n leaves
def height_def(x):
    f = lambda x: imp(x >= 1, z3.And(HT(x) >= 1, imp(x != 1, HT(x) == 1 + HT((x + 1) / 2)))); return ('def', z3.And(HT(1) == 1, f(x), f((x + 1) / 2)))
ADJ = z3.Function('ADJ', IS, IS, z3.BoolSort())   # ADJ(i, i1): i1 = i + 1; used to steer instantiation
def adj(i): return ('def', ADJ(i, i + 1))
def levels(t, n, D, q=None):
    """levels 0..D-1 of the subproduct tree over n leaves"""
    r = [('level 0 has n nodes', t.n(0) == n), ('sizes are halved', A(2, lambda i, i1: imp(ADJ(i, i1), i1 == i + 1, R(i, 0, D - 1), t.n(i1) == (t.n(i) + 1) / 2), lambda i, i1: ADJ(i, i1))),
         ('sizes are between 1 and n', A(1, lambda i: imp(R(i, 0, D), z3.And(t.n(i) >= 1, t.n(i) <= n)), lambda i: t.n(i))),
         ('inner nodes are products', A(3, lambda i, i1, j: imp(ADJ(i, i1), i1 == i + 1, R(i, 0, D - 1), j >= 0, 2 * j + 1 < t.n(i), t.at(i1, j) == MUL(t.at(i, 2 * j), t.at(i, 2 * j + 1))), lambda i, i1, j: [ADJ(i, i1), t.at(i1, j)])),
         ('a lonely last node is copied', A(3, lambda i, i1, j: imp(ADJ(i, i1), i1 == i + 1, R(i, 0, D - 1), 2 * j == t.n(i) - 1, t.at(i1, j) == t.at(i, 2 * j)), lambda i, i1, j: [ADJ(i, i1), t.at(i1, j)])),
         ('nodes are nonzero', A(2, lambda i, j: imp(R(i, 0, D), R(j, 0, t.n(i)), NZ(t.at(i, j))), lambda i, j: t.at(i, j)))]
    return r
def tree_ok(t, n): return z3.And(n >= 1, t.len >= 1, t.n(t.len - 1) == 1, *[g for _, g in levels(t, n, t.len)])
SEP = z3.Function('SEP', AP, IS, z3.BoolSort())   # the first n entries are pairwise coprime and squarefree
LEM = 'for pairwise coprime squarefree moduli q_k with product M, M\' is invertible modulo each q_k, and so is q_k\''
def sep_fact(q, n, root): return A(1, lambda k: imp(R(k, 0, n), z3.And(COPR(REM(DIFF(root), q[k]), q[k]), COPR(DIFF(q[k]), q[k]))), lambda k: q[k])
# ---- build_subproduct_tree
def b0(v, o): return [height_def(v.len), ('size', v.len >= 1), ('levels counted', v.len_tree - 1 + HT(v.len) == HT(o.q.len)), ('count', v.len_tree >= 1)]
def b1(v, o):
    t = v.tree
    return [height_def(v.len), adj(v.idx - 1), ('index', z3.And(v.idx >= 1, v.idx - 1 + HT(v.len) == HT(o.q.len), t.len == HT(o.q.len))), ('size', z3.And(v.len >= 1, v.len == t.n(v.idx - 1)))] + levels(t, o.q.len, v.idx) + [('leaves', A(1, lambda k: imp(R(k, 0, o.q.len), t.at(0, k) == o.q[k]), lambda k: t.at(0, k)))]
def b2(v, o):
    t = v.tree
    return [('index', z3.And(v.j >= 0, 2 * v.j <= v.len)), ('size', z3.And(t.n(v.idx) == v.len_new)),
            ('products so far', A(1, lambda k: imp(R(k, 0, v.j), t.at(v.idx, k) == MUL(t.at(v.idx - 1, 2 * k), t.at(v.idx - 1, 2 * k + 1))), lambda k: t.at(v.idx, k)))]
@hcontract('build_subproduct_tree(Vec<Vec<zz_pX>> &, const Vec<zz_pX> &)', 'tree q', 'C18', F18, loops=(b0, b1, b2), dirs='--u')
def _(E):
    q = E.old['q']; E.assigns('tree'); E.requires(q.len >= 1, 'at least one modulus'); E.requires(A(1, lambda k: imp(R(k, 0, q.len), NZ(q[k])), lambda k: q[k]), 'nonzero moduli')
    t = E.new['tree']
    if E.mode in ('call', 'post'):
        E.ensures(z3.And(t.len >= 1, t.n(t.len - 1) == 1), 'one root')
        for d, g in levels(t, q.len, t.len): E.ensures(g, d)
        E.ensures(A(1, lambda k: imp(R(k, 0, q.len), t.at(0, k) == q[k]), lambda k: t.at(0, k)), 'the leaves are the moduli')
    if E.mode == 'call': E.lemma(LEM); E.st.pc.append(z3.Implies(SEP(q.a, q.len), sep_fact(q, q.len, t.at(t.len - 1, 0))))
    if E.mode == 'call' and any('deg(ab)' in x for x, _ in E.ex.ax): E.lemma('the root of a subproduct tree over n leaves of degree 1 has degree n'); E.st.pc.append(z3.Implies(A(1, lambda k: imp(R(k, 0, q.len), DEG(q[k]) == 1), lambda k: q[k]), DEG(t.at(t.len - 1, 0)) == q.len))
# ---- multimod
def m0(v, o):
    t = v.tree; return [adj(v.i), ('index', z3.And(v.i >= -1, v.i <= t.len - 2)), ('length', v.val.len == o.n), ('remainders modulo the nodes of level i+1', A(1, lambda k: imp(R(k, 0, t.n(v.i + 1)), v.val[k] == REM(o.f, t.at(v.i + 1, k))), lambda k: v.val[k]))]
def m1(v, o):
    t = v.tree; i, j = v.i, v.j
    return [adj(i), ('index', z3.And(j >= -1, 2 * (j + 1) <= v.len)), ('length', v.val.len == o.n), ('nodes of level i+1 still to do', A(1, lambda k: imp(k >= 0, k <= j, v.val[k] == REM(o.f, t.at(i + 1, k))), lambda k: v.val[k])),
            ('nodes of level i done', A(1, lambda k: imp(k >= 2 * (j + 1), k < v.len, v.val[k] == REM(o.f, t.at(i, k))), lambda k: v.val[k]))]
@hcontract('multimod(Vec<zz_pX> &, const zz_pX &)', 'val f', 'C18', F18, cls=CLS, fields=FIELDS, loops=(m0, m1), dirs='dd')
def _(E):
    t, n, f = E.old['tree'], E.old['n'], E.old['f']; E.assigns('val'); E.requires(tree_ok(t, n), 'subproduct tree')
    v = E.new['val']
    if E.mode in ('call', 'post'): E.ensures(v.len == n, 'one remainder per modulus'); E.ensures(A(1, lambda k: imp(R(k, 0, n), v[k] == REM(f, t.at(0, k))), lambda k: v[k]), 'val[i] = f mod q[i]')
# ---- constructor
def cof(t, n, root, k): return REM(MUL(INVM(REM(DIFF(root), t.at(0, k)), t.at(0, k)), DIFF(t.at(0, k))), t.at(0, k))
def c0(v, o):
    t, n = v.tree, v.n; root = t.at(t.len - 1, 0)
    return [('index', z3.And(v.i >= 0, v.i <= n)), ('length', v.cofactors.len == n), ('cofactors done', A(1, lambda k: imp(R(k, 0, v.i), v.cofactors[k] == cof(t, n, root, k)), lambda k: v.cofactors[k])),
            ('remainders of the derivative of the product', A(1, lambda k: imp(R(k, v.i, n), v.cofactors[k] == REM(DIFF(root), t.at(0, k))), lambda k: v.cofactors[k]))]
@hcontract('zz_pX_CRT(const Vec<zz_pX> &)', 'q', 'C18', F18, cls=CLS, fields=FIELDS, loops=(c0,), dirs='u')
def _(E):
    q = E.old['q']; E.assigns('n', 'tree', 'cofactors'); E.requires(q.len >= 1, 'at least one modulus'); E.requires(A(1, lambda k: imp(R(k, 0, q.len), NZ(q[k])), lambda k: q[k]), 'nonzero moduli')
    E.requires(SEP(q.a, q.len), 'pairwise coprime squarefree moduli')
    if E.mode == 'post':
        t, n, c = E.new['tree'], E.new['n'], E.new['cofactors']; E.ensures(n == q.len, 'length'); E.ensures(tree_ok(t, n), 'subproduct tree'); E.ensures(A(1, lambda k: imp(R(k, 0, n), t.at(0, k) == q[k]), lambda k: t.at(0, k)), 'the leaves are the moduli')
        root = t.at(t.len - 1, 0); E.ensures(A(1, lambda k: imp(R(k, 0, n), z3.And(COPR(REM(DIFF(root), t.at(0, k)), t.at(0, k)), COPR(DIFF(t.at(0, k)), t.at(0, k)))), lambda k: t.at(0, k)), 'derivatives invertible modulo the moduli')
        E.ensures(z3.And(c.len == n, A(1, lambda k: imp(R(k, 0, n), c[k] == cof(t, n, t.at(t.len - 1, 0), k)), lambda k: c[k])), 'cofactors are the inverses of M/q_k modulo q_k')
# ---- combine
# CF(i, j): combination at node j of level i (leaf: v_k c_k mod q_k), defined by the recursion C = C_left T_right + C_right T_left; ND(i, k): ancestor of leaf k at level i
CF = z3.Function('comb', IS, IS, PS); ND = z3.Function('node', IS, IS, IS)
# GOOD(C, T, q, e): q divides T and C q' = e T' modulo q
GOOD = z3.Function('GOOD', PS, PS, PS, PS, z3.BoolSort())
def comb_def(t, n, c, v):
    return z3.And(A(1, lambda k: imp(R(k, 0, n), CF(0, k) == REM(MUL(REM(v[k], t.at(0, k)), c[k]), t.at(0, k))), lambda k: CF(0, k)),
                  A(3, lambda i, i1, j: imp(ADJ(i, i1), i1 == i + 1, R(i, 0, t.len - 1), j >= 0, 2 * j + 1 < t.n(i), CF(i1, j) == ADD(MUL(CF(i, 2 * j), t.at(i, 2 * j + 1)), MUL(CF(i, 2 * j + 1), t.at(i, 2 * j)))), lambda i, i1, j: [ADJ(i, i1), CF(i1, j)]),
                  A(3, lambda i, i1, j: imp(ADJ(i, i1), i1 == i + 1, R(i, 0, t.len - 1), 2 * j == t.n(i) - 1, CF(i1, j) == CF(i, 2 * j)), lambda i, i1, j: [ADJ(i, i1), CF(i1, j)]),
                  A(1, lambda k: ND(0, k) == k, lambda k: ND(0, k)), A(3, lambda i, i1, k: imp(ADJ(i, i1), i1 == i + 1, R(i, 0, t.len - 1), ND(i1, k) == ND(i, k) / 2), lambda i, i1, k: [ADJ(i, i1), ND(i1, k)]))
DL = 'with GOOD(C, T, q, e) for: q divides T and C q\' = e T\' mod q'
def good_ax():
    a, b, c, d, q, e, v, f, m = z3.Consts('a b c d q e v f m', PS); F = z3.ForAll
    return [(DL + ': GOOD(e, q, q, e)', F([q, e], GOOD(e, q, q, e), patterns=[GOOD(e, q, q, e)])),
            (DL + ': GOOD(C, T, q, e) implies GOOD(C T2 + C2 T, T T2, q, e) (Leibniz rule)', F([a, b, c, d, q, e], imp(GOOD(a, b, q, e), GOOD(ADD(MUL(a, d), MUL(c, b)), MUL(b, d), q, e)), patterns=[z3.MultiPattern(GOOD(a, b, q, e), ADD(MUL(a, d), MUL(c, b)))])),
            (DL + ': GOOD(C, T, q, e) implies GOOD(C2 T + C T2, T2 T, q, e) (Leibniz rule)', F([a, b, c, d, q, e], imp(GOOD(a, b, q, e), GOOD(ADD(MUL(c, b), MUL(a, d)), MUL(d, b), q, e)), patterns=[z3.MultiPattern(GOOD(a, b, q, e), ADD(MUL(c, b), MUL(a, d)))])),
            (DL + ': if GOOD(f, M, q, e), e = v (M\'^-1 q\') mod q and q\' is invertible modulo q, then f = v mod q', F([f, m, q, v], imp(GOOD(f, m, q, REM(MUL(REM(v, q), REM(MUL(INVM(REM(DIFF(m), q), q), DIFF(q)), q)), q)), COPR(REM(DIFF(m), q), q), COPR(DIFF(q), q), REM(f, q) == REM(v, q)),
                patterns=[GOOD(f, m, q, REM(MUL(REM(v, q), REM(MUL(INVM(REM(DIFF(m), q), q), DIFF(q)), q)), q))]))]
def deg_ax():
    a, b = z3.Consts('a b', PS); F = z3.ForAll
    return [('deg(f mod q) < deg(q)', F([a, b], imp(NZ(b), DEG(REM(a, b)) < DEG(b)), patterns=[REM(a, b)])), ('deg(ab) = deg(a) + deg(b) for nonzero a, b; deg(ab) <= deg(a) + deg(b) for nonzero b', F([a, b], imp(NZ(b), z3.And(DEG(MUL(a, b)) <= DEG(a) + DEG(b), imp(NZ(a), DEG(MUL(a, b)) == DEG(a) + DEG(b)))), patterns=[MUL(a, b)])),
            ('deg(a+b) <= max(deg(a), deg(b))', F([a, b], z3.Or(DEG(ADD(a, b)) <= DEG(a), DEG(ADD(a, b)) <= DEG(b)), patterns=[ADD(a, b)]))]
def crt_inv(t, n, i):
    return [('ancestors of the leaves', A(1, lambda k: imp(R(k, 0, n), R(ND(i, k), 0, t.n(i))), lambda k: ND(i, k))),
            ('the combination at level i has the right residue at each leaf', A(1, lambda k: imp(R(k, 0, n), GOOD(CF(i, ND(i, k)), t.at(i, ND(i, k)), t.at(0, k), CF(0, k))), lambda k: ('alt', ND(i, k), t.at(0, k)))),
            ('the combinations at level i have smaller degree than the nodes', A(1, lambda j: imp(R(j, 0, t.n(i)), DEG(CF(i, j)) < DEG(t.at(i, j))), lambda j: CF(i, j)))]
def k0(v, o): return [('index', z3.And(v.i >= 0, v.i <= o.n)), ('length', v.combinations.len == o.n), ('leaves', A(1, lambda k: imp(R(k, 0, v.i), v.combinations[k] == CF(0, k)), lambda k: v.combinations[k]))]
def k1(v, o):
    t = v.tree; return [adj(v.i), ('index', z3.And(v.i >= 0, v.i <= t.len - 1)), ('length', v.combinations.len == o.n), ('combinations at level i', A(1, lambda k: imp(R(k, 0, t.n(v.i)), v.combinations[k] == CF(v.i, k)), lambda k: v.combinations[k]))] + crt_inv(t, o.n, v.i)
def k2(v, o):
    t = v.tree; i, j = v.i, v.j
    return [adj(i), ('index', z3.And(j >= 0, 2 * j <= v.len)), ('length', v.combinations.len == o.n), ('level i+1 done', A(1, lambda k: imp(R(k, 0, j), v.combinations[k] == CF(i + 1, k)), lambda k: v.combinations[k])),
            ('level i still to do', A(1, lambda k: imp(k >= 2 * j, k < v.len, v.combinations[k] == CF(i, k)), lambda k: v.combinations[k]))]
@hcontract('combine(zz_pX &, const Vec<zz_pX> &)', 'f val', 'C18', F18, cls=CLS, fields=FIELDS, loops=(k0, k1, k2), dirs='uuu', theory=lambda: good_ax() + deg_ax())
def _(E):
    t, n, c, v = E.old['tree'], E.old['n'], E.old['cofactors'], E.old['val']; E.assigns('f'); E.requires(tree_ok(t, n), 'subproduct tree'); E.requires(z3.And(c.len == n, v.len == n), 'one remainder per modulus'); root = t.at(t.len - 1, 0)
    E.requires(A(1, lambda k: imp(R(k, 0, n), z3.And(c[k] == cof(t, n, root, k), COPR(REM(DIFF(root), t.at(0, k)), t.at(0, k)), COPR(DIFF(t.at(0, k)), t.at(0, k)))), lambda k: c[k]), 'cofactors of pairwise coprime squarefree moduli')
    if E.mode == 'pre': E.st.pc.append(comb_def(t, n, c, v)); E.lemma('definition by recursion of the combination at the nodes of the tree and of the ancestors of its leaves')
    if E.mode == 'post': E.ensures(A(1, lambda k: imp(R(k, 0, n), REM(E.new['f'], t.at(0, k)) == REM(v[k], t.at(0, k)))), 'f mod q_k = v_k mod q_k'); E.ensures(DEG(E.new['f']) < DEG(root), 'deg(f) < deg(M)')
# ---- access
def getter(sig, names, g, pre=None):
    @hcontract(sig, names, 'C18', F18, cls=CLS, fields=FIELDS)
    def _(E):
        t, n = E.old['tree'], E.old['n']; E.requires(tree_ok(t, n), 'subproduct tree')
        if pre is not None: E.requires(pre(E), 'index')
        if 'P' in names.split(): E.assigns('P')
        if E.mode == 'post': E.ensures(g(E), 'value')
getter('master(zz_pX &)', 'P', lambda E: E.new['P'] == E.old['tree'].at(E.old['tree'].len - 1, 0))
getter('moduli(zz_pX &, long)', 'P i', lambda E: E.new['P'] == E.old['tree'].at(0, E.old['i']), lambda E: R(E.old['i'], 0, E.old['n']))
getter('length()', '', lambda E: E.ret == E.old['n'])
