"""Loop invariants: candidates are inferred from one generic iteration, then proved
inductive (base and step) by executing the body from the candidate state.  The candidate
generator is untrusted; only proved invariants are used."""
import z3, os
from .terms import *
from .prover import *

class NeedRaw(Exception): pass

def changed_mask(a, b):
    if a is b: return None
    if isinstance(a, Rec) and isinstance(b, Rec) and a.cls == b.cls:
        m = {}
        for k in a.f:
            x = changed_mask(a.f[k], b.f[k])
            if x is not None: m[k] = x
        return m or None
    return True

def join_mask(a, b):
    if a is None: return b
    if b is None: return a
    if a is True or b is True: return True
    r = dict(a)
    for k in b: r[k] = join_mask(r.get(k), b[k])
    return r

def same_val(a, b):
    """cheap equality used for change detection"""
    if a is b: return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
    return False

class Leaf:
    def __init__(s, kind, params, h, v0, v1):
        s.kind = kind; s.params = list(params); s.h = h; s.v0 = v0; s.v1 = v1; s.sol = None; s.extra = None

def havoc(ex, v, mask, tag, args, raw):
    """generic value shaped like v"""
    if mask is None: return v
    if isinstance(v, Rec) and isinstance(mask, dict):
        return Rec(v.cls, {k: havoc(ex, x, mask.get(k), tag + '.' + k, args, raw) for k, x in v.f.items()})
    ctx = ex.ctx
    if isinstance(v, VIte):
        w = v
        while isinstance(w, VIte): w = w.a
        if isinstance(w, Poly):
            L, c = ex.seal(v); return havoc(ex, Poly(c, L), True, tag, args, raw)
        if isinstance(w, Ptr): raise Unsupported('loop over conditional pointer')
        raise Unsupported('loop over conditional aggregate')
    if isinstance(v, z3.ExprRef): return ctx.zapp(tag, list(args), v.sort())
    if isinstance(v, RT):
        ctx.ring_atom(tag, len(args)); return RA(tag, args)
    if isinstance(v, Poly):
        if v.len is None and not raw:
            ctx.poly_atom(tag, len(args) + 1)
            return Poly(lam(1, lambda k: RA(tag, tuple(args) + (k,)), 'k'))
        ctx.ring_atom(tag, len(args) + 1)
        return Poly(lam(1, lambda k: RA(tag, tuple(args) + (k,)), 'k'), ctx.zapp(tag + '.plen', list(args)))
    if isinstance(v, Vec):
        return Vec(ctx.zapp(tag + '.len', list(args)), lam(1, lambda i: havoc(ex, v.get(i), True, tag, tuple(args) + (i,), raw)), v.et, v.fresh)
    if isinstance(v, Mat):
        return Mat(ctx.zapp(tag + '.rows', list(args)), ctx.zapp(tag + '.cols', list(args)),
                   lam(2, lambda i, j: havoc(ex, v.get(i, j), True, tag, tuple(args) + (i, j), raw)), v.et, v.fresh)
    if isinstance(v, Rec):
        return Rec(v.cls, {k: havoc(ex, x, True, tag + '.' + k, args, raw) for k, x in v.f.items()})
    if isinstance(v, Ptr):
        if v.base is None: raise Unsupported('null pointer modified in loop')
        return Ptr(v.base, ctx.zapp(tag + '.off', list(args)))
    if isinstance(v, Opaque): raise Unsupported('opaque value modified in a loop')
    raise Unsupported('havoc of %s' % type(v).__name__)

class Node:
    pass

def analyze(ex, v0, vh, v1, params, leaves, raw):
    """builds (rebuild function) and appends leaves"""
    if vh is v0 and v1 is v0: return lambda sub: v0
    if isinstance(v0, Rec):
        fs = {}
        for k in v0.f:
            if vh.f[k] is v0.f[k] and v1.f[k] is v0.f[k]: fs[k] = None
            else: fs[k] = analyze(ex, v0.f[k], vh.f[k], v1.f[k], params, leaves, raw)
        return lambda sub: Rec(v0.cls, {k: (v0.f[k] if g is None else g(sub)) for k, g in fs.items()})
    if isinstance(v0, z3.ExprRef):
        if not isinstance(v1, z3.ExprRef) or v1.sort() != v0.sort(): raise Unsupported('kind change in loop')
        l = Leaf('B' if z3.is_bool(v0) else 'Z', params, vh.decl().name(), v0, v1); leaves.append(l)
        return lambda sub: sub(l)
    if isinstance(v0, RT):
        l = Leaf('F', params, vh.name, v0, v1); leaves.append(l)
        return lambda sub: sub(l)
    if is_polyv(v0):
        vorig = v0
        if isinstance(v0, VIte): L, c = ex.seal(v0); v0 = Poly(c, L)
        if vh.len is None:
            w1 = v1
            if not (isinstance(v1, Poly) and v1.len is None): raise NeedRaw()
            if v0.len is not None: raise NeedRaw()
            k = freshvar('k')
            l = Leaf('F', list(params) + [k], atom_name(vh.coef), v0.coef(k), v1.coef(k)); l.poly = True; leaves.append(l)
            l.extra = 'poly'
            return lambda sub: Poly(mklam(k, sub(l)))
        # raw
        L0, c0 = ex.seal(v0); L1, c1 = ex.seal(v1)
        k = freshvar('k')
        ll = Leaf('Z', params, vh.len.decl().name(), L0, L1); leaves.append(ll)
        lc = Leaf('F', list(params) + [k], atom_name(vh.coef), c0(k), c1(k)); leaves.append(lc)
        def rebuild(sub):
            L = sub(ll); c = sub(lc)
            if isinstance(vorig, Poly) and vorig.len is not None: return Poly(mklam(k, c), L)
            D = simp(Or_(diffcond(L, L0, k), diffcond(c, c0(k), k)))
            return vmerge(D, Poly(mklam(k, c), L), vorig)
        return rebuild
    if isinstance(v0, Vec):
        if not isinstance(v1, Vec): raise Unsupported('vector kind change')
        ll = Leaf('Z', params, vh.len.decl().name(), v0.len, v1.len); leaves.append(ll)
        i = freshvar('x')
        g = analyze(ex, v0.get(i), vh.get(i), v1.get(i), list(params) + [i], leaves, raw)
        return lambda sub: Vec(sub(ll), mklam(i, g(sub)), v0.et, v0.fresh and v1.fresh)
    if isinstance(v0, Mat):
        lr = Leaf('Z', params, vh.rows.decl().name(), v0.rows, v1.rows); leaves.append(lr)
        lc = Leaf('Z', params, vh.cols.decl().name(), v0.cols, v1.cols); leaves.append(lc)
        i = freshvar('x'); j = freshvar('y')
        g = analyze(ex, v0.get(i, j), vh.get(i, j), v1.get(i, j), list(params) + [i, j], leaves, raw)
        return lambda sub: Mat(sub(lr), sub(lc), mklam2(i, j, g(sub)), v0.et, v0.fresh and v1.fresh)
    if isinstance(v0, Ptr):
        if not isinstance(v1, Ptr) or v1.base is None or not v1.base.same(v0.base): raise Unsupported('pointer retargeted in loop')
        l = Leaf('Z', params, vh.off.decl().name(), v0.off, v1.off); leaves.append(l)
        return lambda sub: Ptr(v0.base, sub(l))
    if isinstance(v0, VIte): raise Unsupported('conditional aggregate in loop')
    raise Unsupported('loop analysis of %s' % type(v0).__name__)

def diffcond(t, t0, k):
    """condition (free of k) outside which t is syntactically t0"""
    if isinstance(t, RT):
        if t is t0 or repr(rsimp(t)) == repr(rsimp(t0)): return FALSE
        if isinstance(t, RIte): c, a, b = t.c, t.a, t.b
        else: return TRUE
    else:
        if simp(t).eq(simp(t0)): return FALSE
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE: c, a, b = t.children()
        else: return TRUE
    def weak(c):
        if z3.is_not(c) or z3.is_or(c) or not z3.is_and(c): return TRUE if occurs(k, c) else c
        return And_(*[d for d in conj(c) if not occurs(k, d)])
    return Or_(And_(weak(simp(c)), diffcond(a, t0, k)), And_(weak(simp(Not_(c))), diffcond(b, t0, k)))

def is_polyv(v):
    while isinstance(v, VIte): v = v.a
    return isinstance(v, Poly)

def mklam(i, body):
    x = freshvar('x'); return Lam([x], vsubst(body, [(i, x)]))
def mklam2(i, j, body):
    x = freshvar('x'); y = freshvar('y'); return Lam([x, y], vsubst(body, [(i, x), (j, y)]))

def atom_name(coef):
    k = freshvar('k'); return coef(k).name

# ---------------------------------------------------------------- substitution of generic symbols
DEFS = {}      # name of a defined function -> (params, bound variables, defining expressions, rebuild(ex, bound, exprs), symbols)
def def_names(name, seen=None):
    seen = seen if seen is not None else set()
    out = set()
    if name in DEFS and name not in seen:
        seen.add(name)
        for x in DEFS[name][4]: out.add(x); out |= def_names(x, seen)
    return out

class HSub:
    def __init__(s, ex): s.ex = ex; s.c = []; s.f = []; s.r = {}; s.names = set()
    def add(s, leaf):
        ctx = s.ex.ctx
        s.names |= own_names(leaf)
        if leaf.kind in ('Z', 'B'):
            sort = IS if leaf.kind == 'Z' else z3.BoolSort()
            if not leaf.params: s.c.append((z3.Const(leaf.h, sort), leaf.sol))
            else: s.f.append((ctx.zf(leaf.h, len(leaf.params), sort), zlam(leaf.params, leaf.sol)))
        else:
            s.r[leaf.h] = Lam(leaf.params, leaf.sol)
            e = ctx.enc(leaf.sol)
            if not leaf.params: s.c.append((z3.Const(leaf.h, RS_), e))
            else: s.f.append((ctx.zf(leaf.h, len(leaf.params), RS_), zlam(leaf.params, e)))
            if leaf.extra == 'poly':
                k = leaf.params[-1]
                L, _ = ctx.seal(Lam([k], leaf.sol))
                ps = leaf.params[:-1]
                if not ps: s.c.append((z3.Int('len_' + leaf.h), L))
                else: s.f.append((ctx.zf('len_' + leaf.h, len(ps)), zlam(ps, L)))
    def z(s, e):
        if s.f: e = z3.substitute_funs(e, *s.f)
        if s.c: e = z3.substitute(e, *s.c)
        return s.defs(e)
    def defs(s, e):
        """defined functions whose definition mentions a replaced symbol are defined anew"""
        hit = [n for n in zfuncs(e) if n in DEFS and def_names(n) & s.names] + [c.decl().name() for c in zconsts(e) if c.decl().name() in DEFS and def_names(c.decl().name()) & s.names]
        if not hit: return e
        hit = set(hit)
        memo = {}
        def go(x):
            k = x.get_id()
            if k in memo: return memo[k][1]
            r = x
            if z3.is_app(x):
                nm = x.decl().name()
                ch = [go(c) for c in x.children()]
                if nm in hit and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    ps, bd, es, rebuild, _ = DEFS[nm]
                    nb = [freshvar('b') for _ in bd]
                    sg = list(zip(ps, ch)) + list(zip(bd, nb))
                    r = rebuild(s.ex, nb, [simp(s.z(z3.substitute(y, *sg) if sg else y)) for y in es])
                elif ch and any(not a.eq(b) for a, b in zip(ch, x.children())): r = x.decl()(*ch)
            memo[k] = (x, r)
            return r
        return go(e)
    def v(s, t):
        if isinstance(t, z3.ExprRef): return s.z(t)
        if isinstance(t, RC): return t
        if isinstance(t, RA):
            args = [s.z(a) for a in t.args]
            if t.name in s.r: return s.r[t.name](*args) if args else s.r[t.name].body
            return RA(t.name, args)
        if isinstance(t, RAdd): return radd(*[s.v(u) for u in t.ts])
        if isinstance(t, RMul): return rmul(*[s.v(u) for u in t.ts])
        if isinstance(t, RIte): return rite(simp(s.z(t.c)), s.v(t.a), s.v(t.b))
        if isinstance(t, RSum): return RSum(t.v, s.z(t.lo), s.z(t.hi), s.v(t.body))
        if isinstance(t, RF): return RF(t.name, [s.v(u) for u in t.rargs], [s.z(a) for a in t.iargs])
        raise TypeError(type(t))

def zlam(params, body):
    """body with params as de Bruijn variables for substitute_funs"""
    return z3.substitute(body, *[(p, z3.Var(i, IS)) for i, p in enumerate(params)])

# ---------------------------------------------------------------- contextual simplification
class CtxSimp:
    """replace comparison atoms decided by the path condition"""
    def __init__(s, ctx, pc):
        s.ctx = ctx; s.S = z3.SimpleSolver(); s.S.set('timeout', 300)
        s.S.add(*[c for c in pc if not has_quant(c)]); s.memo = {}
    def atom(s, a):
        k = a.get_id()
        if k in s.memo: return s.memo[k][1]
        r = a
        if not mentions_R(a):
            if s.S.check(z3.Not(a)) == z3.unsat: r = TRUE
            elif s.S.check(a) == z3.unsat: r = FALSE
        s.memo[k] = (a, r)
        return r
    def b(s, e):
        if z3.is_true(e) or z3.is_false(e): return e
        if z3.is_and(e): return And_(*[s.b(c) for c in e.children()])
        if z3.is_or(e): return Or_(*[s.b(c) for c in e.children()])
        if z3.is_not(e): return Not_(s.b(e.arg(0)))
        if z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) or (z3.is_eq(e) and e.arg(0).sort() == IS): return s.atom(e)
        return e
    def v(s, t):
        if isinstance(t, RIte):
            c = simp(s.b(simp(t.c)))
            if z3.is_true(c): return s.v(t.a)
            if z3.is_false(c): return s.v(t.b)
            return rite(c, s.under(c, t.a), s.under(Not_(c), t.b))
        if isinstance(t, RAdd): return radd(*[s.v(u) for u in t.ts])
        if isinstance(t, RMul): return rmul(*[s.v(u) for u in t.ts])
        if isinstance(t, z3.ExprRef) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = t.children()
            c = simp(s.b(simp(c)))
            if z3.is_true(c): return s.v(a)
            if z3.is_false(c): return s.v(b)
            return If_(c, s.under(c, a), s.under(Not_(c), b))
        return t
    def under(s, c, t):
        if not isinstance(t, (RIte, RAdd, RMul)) and not (isinstance(t, z3.ExprRef) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE): return t
        if has_quant(c): return s.v(t)
        s.S.push(); s.S.add(c); memo = s.memo; s.memo = {}
        try: return s.v(t)
        finally: s.S.pop(); s.memo = memo

# ---------------------------------------------------------------- solving recurrences
def ite_cong(t):
    """ite(x = c and .., f(c), f(x))  ->  f(x)"""
    if isinstance(t, RIte): c, a, b = t.c, ite_cong(t.a), ite_cong(t.b)
    elif isinstance(t, z3.ExprRef) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = t.children(); a = ite_cong(a); b = ite_cong(b)
    else: return t
    sg = []; plain = True
    for d in conj(simp(c)):
        if z3.is_eq(d) and d.arg(0).sort() == IS:
            x, y = d.arg(0), d.arg(1)
            if not (z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED): x, y = y, x
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not occurs(x, y): sg.append((x, y)); continue
        plain = False
    if sg:
        u = vsubst(b, sg); w = vsubst(a, sg)
        if isinstance(u, RT):
            if repr(rsimp(u)) == repr(rsimp(w)): return b
        elif simp(u).eq(simp(w)): return b
    if isinstance(t, RIte): return rite(c, a, b)
    return If_(c, a, b)

def flat_own(ctx, leaf, v1):
    """integer-valued: one test per written cell, conditions on h(c) under x = c become conditions on h(x)"""
    own = ctx.zapp(leaf.h, list(leaf.params))
    ids = {p.get_id() for p in leaf.params}
    groups = []; cells = []; leaf.cell = None
    for cs, t in itetree(v1):
        if is_own(leaf, t): continue
        sg = {}
        todo = [simp(c) for c in cs]; cand = []
        while todo:
            d = todo.pop()
            if z3.is_and(d) or z3.is_or(d) or z3.is_not(d): todo.extend(d.children())
            elif z3.is_eq(d) and d.arg(0).sort() == IS:
                for x, y in ((d.arg(0), d.arg(1)), (d.arg(1), d.arg(0))):
                    if x.get_id() in ids and not any(occurs(p, y) for p in leaf.params): cand.append((x, y))
        for x, y in cand:
            if x.get_id() in sg: continue
            S = z3.Solver(); S.set('timeout', 500); S.add(*[simp(c) for c in cs]); S.add(x != y)
            if S.check() == z3.unsat: sg[x.get_id()] = y
        if len(sg) != len(leaf.params): return v1
        there = ctx.zapp(leaf.h, [sg[p.get_id()] for p in leaf.params])
        C = simp(z3.substitute(And_(*[simp(c) for c in cs]), (there, own))); t = simp(z3.substitute(t, (there, own)))
        for g in groups:
            if g[1].eq(t): g[0] = simp(z3.Or(g[0], C)); break
        else: groups.append([C, t])
        cells.append([sg[p.get_id()] for p in leaf.params])
    r = own
    for C, t in reversed(groups): r = If_(C, t, r)
    if cells and all(all(x.eq(y) for x, y in zip(cells[0], c)) for c in cells): leaf.cell = cells[0]
    return r

def ite_join(t):
    """ite(c, f(x), ite(x = y, f(y), d))  ->  ite(c or x = y, f(x), d)"""
    if not isinstance(t, RIte): return t
    c, a, b = t.c, ite_join(t.a), ite_join(t.b)
    if isinstance(b, RIte):
        e = simp(b.c)
        for d in conj(e):
            if z3.is_eq(d) and d.arg(0).sort() == IS:
                l = lin(d.arg(0) - d.arg(1))
                for x, q in list(l.m.values()):
                    if abs(q) != 1 or not (z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED): continue
                    y = simp(x - (d.arg(0) - d.arg(1)) * q)
                    if occurs(x, y): continue
                    if repr(rsimp(vsubst(a, [(x, y)]))) == repr(rsimp(vsubst(b.a, [(x, y)]))): return rite(simp(z3.Or(c, e)), a, b.b)
    return rite(c, a, b)
def vjoin(v):
    if isinstance(v, RT): return ite_join(v)
    if isinstance(v, Lam): return Lam(v.ps, vjoin(v.body))
    if isinstance(v, Poly): return Poly(vjoin(v.coef), v.len)
    if isinstance(v, Vec): return Vec(v.len, vjoin(v.get), v.et, v.fresh)
    if isinstance(v, Mat): return Mat(v.rows, v.cols, vjoin(v.get), v.et, v.fresh)
    return v

def itetree(t, cs=()):
    """[(conds, leaf)]"""
    if isinstance(t, RIte):
        return itetree(t.a, cs + (t.c,)) + itetree(t.b, cs + (Not_(t.c),))
    if isinstance(t, RAdd):
        # distribute over ites in the sum
        for i, u in enumerate(t.ts):
            if isinstance(u, RIte):
                r = [x for j, x in enumerate(t.ts) if j != i]
                return itetree(RIte(u.c, radd(u.a, *r), radd(u.b, *r)), cs)
    if isinstance(t, z3.ExprRef) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = t.children()
        return itetree(a, cs + (c,)) + itetree(b, cs + (Not_(c),))
    return [(cs, t)]

def names_in(t):
    r = symbols(t)
    for n in list(r):
        if n in DEFS: r = r | def_names(n)
    return r

def depends(t, n):
    if isinstance(t, z3.ExprRef): return occurs(n, t)
    return roccurs(n, t)

def is_own(leaf, t, cs=()):
    if leaf.kind == 'F':
        if not (isinstance(t, RA) and t.name == leaf.h and len(t.args) == len(leaf.params)): return False
        for a, p in zip(t.args, leaf.params):
            if simp(a).eq(p): continue
            d = lin(simp(a)).add(lin(p), -1)
            if d.iszero(): continue
            # equal under one of the conditions
            for c in (c for c0 in cs for c in conj(simp(c0))):
                if z3.is_eq(c) and c.arg(0).sort() == IS:
                    e = lin(c.arg(0)).add(lin(c.arg(1)), -1)
                    if d.add(e).iszero() or d.add(e, -1).iszero(): break
            else: return False
        return True
    if not z3.is_app(t) or t.decl().name() != leaf.h: return False
    if t.num_args() != len(leaf.params): return False
    return all(simp(t.arg(i)).eq(p) for i, p in enumerate(leaf.params))

def is_zero_leaf(t): return isinstance(t, RT) and (t is R0 or str(t) == '0')

def own_names(leaf):
    r = {leaf.h}
    if leaf.extra == 'poly': r.add('len_' + leaf.h)
    return r

def mcands(conds, n, params):
    """expressions M such that some condition forces n == M (M free of n)"""
    out = []
    seen = set()
    for cs in conds:
        for c0 in cs:
            for c in conj(simp(c0)):
                if z3.is_eq(c) and c.arg(0).sort() == IS:
                    l = lin(c.arg(0)).add(lin(c.arg(1)), -1)
                    q = l.coef(n)
                    rest = l.without(n)
                    if abs(q) == 1 and not any(occurs(n, e) for e, _ in rest.m.values()):
                        M = rest.scale(-q).z()
                        if any(occurs(p, M) for p in params) and M.sexpr() not in seen:
                            seen.add(M.sexpr()); out.append(M)
    # disjunctions
    for cs in conds:
        for c0 in cs:
            st = [c0]
            while st:
                c = st.pop()
                if z3.is_or(c) or z3.is_and(c) or z3.is_not(c): st.extend(c.children())
                elif z3.is_eq(c) and c.arg(0).sort() == IS:
                    l = lin(c.arg(0)).add(lin(c.arg(1)), -1)
                    q = l.coef(n); rest = l.without(n)
                    if abs(q) == 1 and not any(occurs(n, e) for e, _ in rest.m.values()):
                        M = rest.scale(-q).z()
                        if any(occurs(p, M) for p in params) and M.sexpr() not in seen:
                            seen.add(M.sexpr()); out.append(M)
    return out

def stride_cands(conds, n, params):
    """conditions lo(n) <= x < lo(n)+s style with lo = s*n + c : n == (x-c) div s"""
    out = []
    for cs in conds:
        for c0 in cs:
            for c in conj(simp(c0)):
                if z3.is_app(c) and len(c.children()) == 2 and c.arg(0).sort() == IS:
                    l = lin(c.arg(0)).add(lin(c.arg(1)), -1)
                    q = l.coef(n)
                    if abs(q) > 1:
                        rest = l.without(n)
                        if any(occurs(n, e) for e, _ in rest.m.values()): continue
                        M = rest.scale(-1 if q > 0 else 1).z() / z3.IntVal(abs(q))
                        if any(occurs(p, M) for p in params): out.append(M)
                        # off-by-one variants (strict/non strict bound)
                        M2 = (rest.scale(-1 if q > 0 else 1).z() - 1) / z3.IntVal(abs(q))
                        if any(occurs(p, M2) for p in params): out.append(M2)
    return out

def solve_leaf(ex, leaf, n, hs, hnames, force=False):
    ctx = ex.ctx
    v1 = hs.v(leaf.v1)
    if leaf.kind == 'F': v1 = rsimp(v1)
    else: v1 = simp(v1)
    if isinstance(v1, (RIte, RAdd, RMul)) or (isinstance(v1, z3.ExprRef) and z3.is_app(v1) and v1.decl().kind() == z3.Z3_OP_ITE):
        v1 = CtxSimp(ctx, [hs.z(c) for c in ex._mpc if not has_quant(c)]).v(v1)
    v1 = ite_cong(v1)
    if leaf.kind == 'Z' and leaf.params and not is_own(leaf, v1): 
        v1 = flat_own(ctx, leaf, v1)
        if leaf.cell is not None and not any(depends(c, n) or names_in(c) & hnames for c in leaf.cell):
            # one fixed cell is updated: solve for that cell as a scalar
            sg = list(zip(leaf.params, leaf.cell)); nm = leaf.h + '$c'
            v1c = simp(z3.substitute(simp(z3.substitute(v1, *sg)), (ctx.zapp(leaf.h, leaf.cell), ctx.zapp(nm, []))))
            v0c = CtxSimp(ctx, [c for c in ex._mpc if not has_quant(c) and not names_in(c) & hnames]).v(simp(vsubst(leaf.v0, sg)))
            l2 = Leaf('Z', [], nm, v0c, v1c)
            if not names_in(v1c) & {leaf.h} and solve_leaf(ex, l2, n, hs, hnames | {nm}, force):
                leaf.sol = If_(simp(z3.And(*[p == c for p, c in sg])), l2.sol, leaf.v0)
                if getattr(l2, 'lemma', None): leaf.lemma = l2.lemma
                return True
    own = own_names(leaf)
    used = names_in(v1) & hnames
    others = used - own
    if others and not force: return False
    mk = (lambda c, a, b: rite(c, a, b)) if leaf.kind == 'F' else (lambda c, a, b: If_(c, a, b))
    def set_(x):
        leaf.sol = x; return True
    if is_own(leaf, v1): return set_(leaf.v0)
    # replace remaining generic symbols by their initial values (guess; proved afterwards)
    def sub0(t):
        h0 = HSub(ex)
        for l in ex._leaves:
            if l.sol is None:
                l2 = Leaf(l.kind, l.params, l.h, l.v0, None); l2.sol = l.v0; l2.extra = l.extra
                h0.add(l2)
        return h0.v(t)
    leaves = itetree(v1)
    ch = [(cs, t) for cs, t in leaves if not is_own(leaf, t)]
    conds_clean = all(not (names_in(c) & hnames) for cs, _ in leaves for c in cs)
    m = freshvar('m')
    # --- accumulation
    if leaf.kind == 'F':
        acc = []
        ok = conds_clean
        for cs, t in ch:
            e = strip_own_add(leaf, t, cs)
            if e is None or (names_in(e) & hnames): ok = False; break
            acc.append((cs, e))
        if ok and ch:
            tot = R0
            for cs, e in acc: tot = radd(tot, rite(simp(And_(*cs)), e, R0))
            if not depends(tot, n) and False: pass
            s_ = sum_simplify(ctx, n, tot)
            return set_(radd(leaf.v0, s_))
        if len(ch) == 1 and not ch[0][0]:
            e = strip_own_mul(leaf, ch[0][1])
            if e is not None and not (names_in(e) & hnames) and not depends(e, n):
                return set_(rmul(leaf.v0, RF('pow', (e,), (n,))))
    elif leaf.kind == 'Z':
        own_t = ctx.zapp(leaf.h, list(leaf.params))
        d = simp(v1 - own_t)
        if not (names_in(d) & hnames):
            if not depends(d, n): return set_(simp(leaf.v0 + d * n))
            l = lin(d)
            q = l.coef(n); rest = l.without(n)
            if not any(occurs(n, e) for e, _ in rest.m.values()):
                return set_(simp(leaf.v0 + z3.IntVal(q) * (n * (n - 1) / 2) + rest.z() * n))
        if not leaf.params and len(leaves) == 2:
            # cyclic counter: own+1 (own-1) except that it wraps around
            ds = [simp(t - own_t) for _, t in leaves]
            for a in (0, 1):
                t = leaves[1 - a][1]
                for up in (True, False):
                    if not (z3.is_int_value(ds[a]) and ds[a].as_long() == (1 if up else -1)): continue
                    M = None
                    if up and not names_in(t) & hnames:
                        # wraps to t: from the guard own == E
                        for c in leaves[1 - a][0]:
                            if z3.is_eq(c):
                                for x, y in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                                    if x.eq(own_t) and not names_in(y) & hnames: M = simp(y + 1 - t)
                        if M is not None: return set_(simp(t + (leaf.v0 - t + n) % M))
                    if not up and not names_in(ds[1 - a]) & hnames: return set_(simp((leaf.v0 - n) % simp(ds[1 - a] + 1)))
                    if not up and not names_in(t) & hnames: return set_(simp((leaf.v0 - n) % simp(t + 1)))
        r = reduction(ex, leaf, v1, n, hnames)
        if r is not None: return set_(r)
    elif leaf.kind == 'B':
        # or / and accumulations
        own_t = z3.Const(leaf.h, z3.BoolSort()) if not leaf.params else ctx.zapp(leaf.h, list(leaf.params), z3.BoolSort())
        a = simp(z3.substitute(v1, (own_t, TRUE))); b = simp(z3.substitute(v1, (own_t, FALSE)))
        if not (names_in(a) & hnames) and not (names_in(b) & hnames):
            if z3.is_true(a):    # own or b(n)
                return set_(z3.Or(leaf.v0, z3.Exists([m], z3.And(m >= 0, m < n, z3.substitute(b, (n, m))))))
            if z3.is_false(b):   # own and a(n)
                return set_(z3.And(leaf.v0, qfact(m, n, z3.substitute(a, (n, m)))))
    # --- shift by a constant: next value at k is h(k - s), zero elsewhere
    if leaf.kind == 'F' and len(leaf.params) == 1 and len(leaves) == 2 and any(is_zero_leaf(t) for _, t in leaves):
        t = [t for _, t in leaves if not is_zero_leaf(t)]
        if len(t) == 1 and isinstance(t[0], RA) and t[0].name == leaf.h and len(t[0].args) == 1:
            k = leaf.params[0]; d = simp(k - t[0].args[0])
            if z3.is_int_value(d) and d.as_long() > 0: return set_(rite(simp(k >= d * n), vsubst(leaf.v0, [(k, simp(k - d * n))]), R0))
    # --- overwrite
    ownin = bool(names_in(v1) & own)
    if not leaf.params and not ownin:
        t = v1
        if not depends(t, n): return set_(mk(n > 0, t, leaf.v0))
        return set_(mk(n > 0, vsubst(t, [(n, n - 1)]), leaf.v0))
    C = simp(Or_(*[And_(*cs) for cs, _ in ch]))
    if not depends(v1, n) and not any(names_in(t) & own for _, t in ch):
        return set_(mk(n > 0, sub0(v1), leaf.v0))
    if leaf.kind == 'F' and len(leaf.params) == 1 and ownin and 1 <= len(ch) <= 2 and not others:
        r = chain(ex, leaf, n, ch, hs, hnames, mk)
        if r is not None: return set_(r)
    if leaf.params:
        Ms = mcands([cs for cs, _ in ch], n, leaf.params)
        if not Ms: Ms = stride_cands([cs for cs, _ in ch], n, leaf.params)
        if Ms:
            v10 = sub0(v1)
            sol = leaf.v0
            C0 = simp(sub0(C))
            for M in reversed(Ms):
                touched = simp(z3.And(M >= 0, M < n, z3.substitute(C0, (n, M))))
                sol = mk(touched, vsubst(v10, [(n, M)]), sol)
            return set_(sol)
        # each entry overwritten in every iteration (no own use): last value
        if not any(names_in(t) & own for _, t in ch) and conds_clean:
            if not any(depends(c, n) for cs, _ in leaves for c in cs):
                return set_(mk(n > 0, vsubst(sub0(v1), [(n, n - 1)]), leaf.v0))
            # value independent of n, region depends on n monotonically: try union
            if all(not depends(t, n) for _, t in ch):
                mm = freshvar('m')
                U = z3.Exists([mm], z3.And(mm >= 0, mm < n, z3.substitute(C, (n, mm))))
                U2 = union_interval(ctx, C, n, leaf.params)
                if U2 is not None:
                    return set_(mk(U2, sub0(ch[0][1]), leaf.v0)) if len(ch) == 1 else None
    # conditional overwrite: the value of the last iteration whose condition held
    if conds_clean and ch and not any(names_in(t) & hnames for _, t in ch):
        L = mklast(ex, n, C)
        lem = lambda nn, C=C, L=L: z3.substitute(L, (n, nn + 1)) == z3.If(z3.substitute(C, (n, nn)), nn, z3.substitute(L, (n, nn)))
        leaf.lemma = (lem, leaf.params, lambda nn, L=L: z3.substitute(L, (n, nn + 1)))
        val = ch[-1][1]
        for cs, t in reversed(ch[:-1]):
            if isinstance(t, z3.ExprRef) and isinstance(val, z3.ExprRef) and t.eq(val): continue
            val = mk(simp(And_(*cs)), t, val)
        return set_(mk(simp(L >= 0), vsubst(val, [(n, L)]), leaf.v0))
    return None

def chain(ex, leaf, n, ch, hs, hnames, mk):
    """recurrence along an array: iteration n writes cell f(n+1) from cell f(n) (and possibly finishes cell f(n)); candidate
    closed form from the scalar recurrence of the front cell"""
    p = leaf.params[0]
    def cell(cs):
        for c0 in cs:
            for c in conj(simp(c0)):
                if z3.is_eq(c) and c.arg(0).sort() == IS:
                    l = lin(c.arg(0)).add(lin(c.arg(1)), -1); q = l.coef(p)
                    if abs(q) == 1: return simp(l.without(p).scale(-q).z())
    info = []
    for cs, t in ch:
        c = cell(cs)
        if c is None or not depends(c, n) or names_in(c) & hnames: return None
        t = vsubst(t, [(p, c)]); refs = {}
        def look(x):
            if isinstance(x, RA):
                if x.name == leaf.h: refs[simp(x.args[0]).sexpr()] = simp(x.args[0])
            elif isinstance(x, (RAdd, RMul)):
                for y in x.ts: look(y)
            elif isinstance(x, RIte): look(x.a); look(x.b)
            elif isinstance(x, RF):
                for y in x.rargs: look(y)
        look(t)
        if len(refs) > 1: return None
        info.append((c, t, list(refs.values())))
    fr = [r for _, _, rs in info for r in rs]
    if not fr: return None
    front = fr[0]
    if any(not simp(r - front).eq(z3.IntVal(0)) for r in fr): return None
    nxt = simp(z3.substitute(front, (n, n + 1)))
    A = [x for x in info if simp(x[0] - nxt).eq(z3.IntVal(0))]; B = [x for x in info if simp(x[0] - front).eq(z3.IntVal(0))]
    if len(A) != 1 or len(A) + len(B) != len(info): return None
    nm = leaf.h + '$f'
    def rep(t, by):
        if isinstance(t, RA): return by if t.name == leaf.h else t
        if isinstance(t, RAdd): return radd(*[rep(x, by) for x in t.ts])
        if isinstance(t, RMul): return rmul(*[rep(x, by) for x in t.ts])
        if isinstance(t, RIte): return rite(t.c, rep(t.a, by), rep(t.b, by))
        if isinstance(t, RF): return RF(t.name, [rep(x, by) for x in t.rargs], t.iargs)
        return t
    f0 = simp(z3.substitute(front, (n, z3.IntVal(0))))
    v0 = CtxSimp(ex.ctx, [c for c in ex._mpc if not has_quant(c) and not names_in(c) & hnames]).v(rsimp(vsubst(leaf.v0, [(p, f0)])))
    l2 = Leaf('F', [], nm, v0, rep(A[0][1], RA(nm, ())))
    if not solve_leaf(ex, l2, n, hs, {nm}): return None
    S = lambda k: vsubst(l2.sol, [(n, k)])
    l = lin(front).add(lin(p), -1); q = l.coef(n)
    if abs(q) != 1: return None
    k = simp(l.without(n).scale(-q).z())           # p == front(k)
    if B:
        return mk(simp(z3.And(k >= 0, k < n)), rep(vsubst(B[0][1], [(n, k)]), S(k)), mk(simp(z3.And(k == n, n > 0)), S(k), leaf.v0))
    return mk(simp(z3.And(k >= 1, k <= n)), S(k), leaf.v0)

def union_interval(ctx, C, n, params):
    """C: conj of constraints where n-dependent ones have the form x < a*n+b (a>0): union over m<n"""
    keep = []
    for c in conj(C):
        if not occurs(n, c): keep.append(c); continue
        ok = False
        neg = False
        d = c
        if z3.is_not(d): d = d.arg(0); neg = True
        if z3.is_app(d) and len(d.children()) == 2 and d.arg(0).sort() == IS:
            l = lin(d.arg(0)).add(lin(d.arg(1)), -1)
            q = l.coef(n)
            op = d.decl().kind()
            up = (op in (z3.Z3_OP_LE, z3.Z3_OP_LT)) != neg      # l <= 0
            # monotone weakening as n grows: l decreasing in n for '<=': q<0
            if (up and q < 0) or ((not up) and q > 0):
                keep.append(z3.substitute(c, (n, n - 1))); ok = True
        if not ok: return None
    return z3.And(n > 0, *keep)

def strip_own_add(leaf, t, cs=()):
    if is_own(leaf, t, cs): return R0
    if isinstance(t, RAdd):
        for i, u in enumerate(t.ts):
            if is_own(leaf, u, cs): return radd(*[x for j, x in enumerate(t.ts) if j != i]) if len(t.ts) > 1 else R0
    return None

def strip_own_mul(leaf, t):
    if isinstance(t, RMul):
        for i, u in enumerate(t.ts):
            if is_own(leaf, u): return rmul(*[x for j, x in enumerate(t.ts) if j != i])
    return None

def sum_simplify(ctx, n, tot):
    """sum over 0 <= m < n of tot[n:=m], with indicator elimination"""
    if isinstance(tot, RAdd): return radd(*[sum_simplify(ctx, n, u) for u in tot.ts])
    if isinstance(tot, RIte) and isinstance(tot.b, RC) and tot.b.c == 0:
        for c in conj(simp(tot.c)):
            if z3.is_eq(c) and c.arg(0).sort() == IS:
                l = lin(c.arg(0)).add(lin(c.arg(1)), -1)
                q = l.coef(n); rest = l.without(n)
                if abs(q) == 1 and not any(occurs(n, e) for e, _ in rest.m.values()):
                    M = rest.scale(-q).z()
                    return rite(simp(z3.And(M >= 0, M < n, z3.substitute(tot.c, (n, M)))), rsubst(tot.a, [(n, M)]), R0)
    m = freshvar('m')
    return RSum(m, z3.IntVal(0), n, rsubst(tot, [(n, m)]))

# ---------------------------------------------------------------- max/min reductions
class Red:
    """X = max (or min) of init and of e over all bound values satisfying guard"""
    def __init__(s, op, init, items): s.op = op; s.init = init; s.items = items   # items: list of (bvars, guard, e)

def max_form(v1, own):
    """v1 == max/min(own, e): returns (op, e) or (op, [ (cond, e) ])"""
    if z3.is_app(v1) and v1.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = v1.children()
        for x, y, cc in ((a, b, c), (b, a, simp(Not_(c)))):
            if y.eq(own) and not occurs_expr(own, x):
                # cc -> x else own ; cc must be equivalent to x > own / x >= own (max) or < (min)
                S = z3.Solver(); S.set('timeout', 500)
                for op, rel in (('max', x > own), ('max', x >= own), ('min', x < own), ('min', x <= own)):
                    S.push(); S.add(z3.Not(cc == rel)); r = S.check(); S.pop()
                    if r == z3.unsat: return op, [(TRUE, x)]
                # guarded: g and x > own
                parts = conj(cc)
                if len(parts) > 1:
                    for i, d in enumerate(parts):
                        g = And_(*[e for j, e in enumerate(parts) if j != i])
                        if occurs_expr(own, g): continue
                        for op, rel in (('max', x > own), ('max', x >= own), ('min', x < own), ('min', x <= own)):
                            S.push(); S.add(z3.Not(d == rel)); r = S.check(); S.pop()
                            if r == z3.unsat: return op, [(g, x)]
    return None

def occurs_expr(x, e):
    st = [e]; seen = set(); i = x.get_id()
    while st:
        y = st.pop()
        if y.get_id() == i: return True
        if y.get_id() in seen: continue
        seen.add(y.get_id())
        if z3.is_quantifier(y): st.append(y.body())
        else: st.extend(y.children())
    return False

def reduction(ex, leaf, v1, n, hnames):
    ctx = ex.ctx
    own = ctx.zapp(leaf.h, list(leaf.params))
    reds = ex.__dict__.setdefault('reds', {})
    mf = max_form(v1, own)
    if mf is None:
        # v1 == X(args) with X a reduction whose init is own
        if z3.is_app(v1) and v1.decl().name() in reds:
            ps, R = reds[v1.decl().name()]
            sg = list(zip(ps, v1.children()))
            init = z3.substitute(R.init, *sg) if sg else R.init
            if not simp(init).eq(own): return None
            items = []
            for bv, g, e in R.items:
                nb = [freshvar('b') for _ in bv]
                s2 = sg + list(zip(bv, nb))
                items.append((nb, z3.substitute(g, *s2), z3.substitute(e, *s2)))
            op = R.op
        else: return None
    else:
        op, its = mf
        items = [([], g, e) for g, e in its]
    for bv, g, e in items:
        if (names_in(g) | names_in(e)) & hnames: return None
    m = freshvar('m')
    its = []
    for bv, g, e in items:
        its.append(([m] + list(bv), z3.And(m >= 0, m < n, z3.substitute(g, (n, m))), z3.substitute(e, (n, m))))
    return mkred(ex, op, leaf.v0, its)

def mkred(ex, op, init, items):
    """z3 term for a reduction; free constants become parameters of a fresh function with defining axioms"""
    ctx = ex.ctx
    reds = ex.__dict__.setdefault('reds', {})
    idx = {}; order = []; bound = {}
    for bv, g, e in items:
        for b in bv: bound[b.get_id()] = 'B%d' % len(bound)
    key = op + zkey(init, idx, order, bound) + ''.join('|' + zkey(g, idx, order, bound) + ':' + zkey(e, idx, order, bound) for bv, g, e in items)
    rk = ex.__dict__.setdefault('redkeys', {})
    if key not in rk:
        name = fresh_name(op)
        ps = [freshvar('p') for _ in order]
        sg = list(zip(order, ps))
        i2 = z3.substitute(init, *sg) if sg else init
        its = []
        for bv, g, e in items:
            nb = [freshvar('b') for _ in bv]
            s2 = sg + list(zip(bv, nb))
            its.append((nb, z3.substitute(g, *s2), z3.substitute(e, *s2)))
        X = ctx.zapp(name, ps)
        ge = (lambda a, b: a >= b) if op == 'max' else (lambda a, b: a <= b)
        fs = [ge(X, i2)]
        ex_ = [X == i2]
        for nb, g, e in its:
            fs.append(z3.ForAll(nb, z3.Implies(g, ge(X, e))))
            ex_.append(z3.Exists(nb, z3.And(g, X == e)))
        fs.append(z3.Or(*ex_))
        body = z3.And(*fs)
        ctx.axiom(name, z3.ForAll(ps, body, patterns=[X]) if ps else body)
        if not ps: ctx.axioms.setdefault(name, [])
        reds[name] = (ps, Red(op, i2, its))
        es = [i2]; bs = []; shape = []
        for nb, g, e in its: es += [g, e]; bs += nb; shape.append(len(nb))
        def rebuild(ex, nb, es, op=op, shape=shape):
            its = []; q = 0
            for k, m_ in enumerate(shape): its.append((nb[q:q + m_], es[1 + 2 * k], es[2 + 2 * k])); q += m_
            return mkred(ex, op, es[0], its)
        DEFS[name] = (ps, bs, es, rebuild, set().union(*[symbols(x) for x in es]))
        rk[key] = name
    return ctx.zapp(rk[key], order)

def mkdef(ex, tag, bound, exprs, ax):
    """z3 term for a value defined by the expressions exprs (bound: their bound variables): ax(X, exprs) is its defining
    axiom; free constants become parameters of a fresh function. Returns (term, instance): instance(sg) is the term after substitution"""
    ctx = ex.ctx
    exprs, back = absargs(exprs, bound)
    idx = {}; order = []; bd = {b.get_id(): 'B%d' % i for i, b in enumerate(bound)}
    key = tag + '|'.join(zkey(e, idx, order, bd) for e in exprs)
    rk = ex.__dict__.setdefault('redkeys', {})
    if key not in rk:
        name = fresh_name(tag)
        ps = [freshvar('p') for _ in order]
        sg = list(zip(order, ps)); nb = [freshvar('b') for _ in bound]
        e2 = [z3.substitute(e, *(sg + list(zip(bound, nb)))) if sg or nb else e for e in exprs]
        X = ctx.zapp(name, ps)
        body = ax(X, nb, e2)
        ctx.axiom(name, z3.ForAll(ps, body, patterns=[X]) if ps else body)
        rk[key] = name
        DEFS[name] = (ps, nb, e2, lambda ex, nb, es: mkdef(ex, tag, nb, es, ax), set().union(*[symbols(x) for x in e2]))
    return ctx.zapp(rk[key], [back.get(o.get_id(), o) for o in order])

def absargs(exprs, bound):
    """integer arguments of uninterpreted functions that do not contain a bound variable become parameters"""
    bs = {b.get_id() for b in bound}; memo = {}; new = {}; back = {}
    def has(e):
        k = e.get_id()
        if k not in memo:
            memo[k] = (k in bs) or z3.is_var(e) or z3.is_quantifier(e) or any(has(c) for c in e.children())
        return memo[k]
    cache = {}
    def go(e):
        k = e.get_id()
        if k in cache: return cache[k]
        if z3.is_quantifier(e) or not e.num_args(): r = e
        else:
            un = z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED
            ch = []
            for c in e.children():
                if un and c.sort() == z3.IntSort() and not has(c) and c.num_args() + z3.is_int_value(c):
                    if c.get_id() not in new:
                        v = freshvar('g'); new[c.get_id()] = v; back[v.get_id()] = c; keep.append((v, c))
                    ch.append(new[c.get_id()])
                else: ch.append(go(c))
            r = e.decl()(*ch) if un else rebuild(e, ch)
        cache[k] = r; return r
    keep = []
    out = [go(e) for e in exprs]
    KEEP.extend(keep)
    return out, back
KEEP = []
def rebuild(e, ch):
    if all(a.eq(b) for a, b in zip(e.children(), ch)): return e
    return z3.substitute(e, *[(a, b) for a, b in zip(e.children(), ch) if not a.eq(b)])

def qfact(mm, N, body):
    """ForAll mm in 0..N-1: body, re-indexed when mm occurs in function arguments only as mm + c with one fixed c, so that the arguments
    can serve as triggers"""
    offs = {}; sg = set()
    def args(e, seen):
        if e.get_id() in seen: return
        seen.add(e.get_id())
        if z3.is_quantifier(e): args(e.body(), seen); return
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                for c in e.children():
                    if occurs(mm, c) and c.sort() == z3.IntSort():
                        if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_UNINTERPRETED and c.num_args(): continue
                        d = simp(c - mm)
                        if occurs(mm, d): d = simp(c + mm); sg.add(-1)
                        else: sg.add(1)
                        offs[d.get_id()] = d
            for c in e.children(): args(c, seen)
    args(body, set())
    if len(offs) == 1 and len(sg) == 1:
        d = list(offs.values())[0]
        if sg == {-1} and not occurs(mm, d) and not hasvar(d):
            return z3.ForAll([mm], z3.Implies(z3.And(d - mm >= 0, d - mm < N), simp(z3.substitute(body, (mm, d - mm)))))
        if not occurs(mm, d) and not z3.is_int_value(d) and not hasvar(d):
            body = simp(z3.substitute(body, (mm, mm - d)))
            return z3.ForAll([mm], z3.Implies(z3.And(mm - d >= 0, mm - d < N), body))
    return z3.ForAll([mm], z3.Implies(z3.And(mm >= 0, mm < N), body))
def hasvar(e): return z3.is_var(e) or any(hasvar(c) for c in e.children())

def mklast(ex, n, C):
    """the last m in 0..n-1 with C(m) (C: expression in n), -1 if there is none"""
    m = freshvar('m')
    def ax(X, nb, e):
        k, = nb; G, = e
        at = lambda v: z3.substitute(G, (k, v))
        return z3.And(X >= -1, z3.Implies(X >= 0, at(X)), z3.ForAll([k], z3.Implies(k > X, z3.Not(G))))
    return mkdef(ex, 'last', [m], [z3.And(m >= 0, m < n, z3.substitute(C, (n, m)))], ax)

def argmax_last(ex, j, G, e):
    """the largest j satisfying G(j) among those where e(j) is maximal, -1 if no j satisfies G"""
    def ax(X, nb, es):
        k, = nb; g, v = es
        gX = z3.substitute(g, (k, X)); vX = z3.substitute(v, (k, X))
        return z3.And(X >= -1, z3.Implies(X >= 0, gX), z3.ForAll([k], z3.Implies(g, z3.And(X >= 0, v <= vX, z3.Implies(k > X, v < vX)))))
    return mkdef(ex, 'piv', [j], [G, e], ax)

# ---------------------------------------------------------------- the summary
def summarize(ex, st, iteration):
    ctx = ex.ctx
    ex.loops += 1
    if getattr(ex, 'nounroll', False):
        no = len(ex.obls); ne = len(ex.errs)
        try: return symbolic_loop(ex, st.copy(), iteration)
        except Unsupported as e:
            if 'time' in str(e): raise
            del ex.obls[no:]; del ex.errs[ne:]
    # 1. literal trip count: unroll
    cur = [st]; out = []
    for it in range(20):
        nxt = []
        lit = True
        for t in cur:
            c = probe(ex, t, iteration)
            if c is None or not (z3.is_true(c) or z3.is_false(c)): lit = False; break
        if not lit:
            break
        for t in cur:
            ex.nodes.append([('unroll', it), 0])
            try: rs_ = iteration(t)
            finally: ex.nodes.pop()
            for k, u, x in rs_:
                if k in ('exit', 'brk'): out.append(('norm', u, None))
                elif k == 'cont': nxt.append(u)
                else: out.append((k, u, x))
        cur = nxt
        if not cur: return out
        if len(cur) > 8: lit = False; break
    for t in cur:
        no = len(ex.obls); ne = len(ex.errs)
        try: out += symbolic_loop(ex, t, iteration)
        except Unsupported as e:
            if getattr(ex, 'peeling', 0) or 'time' in str(e): raise
            # second attempt: first iteration peeled off
            del ex.obls[no:]; del ex.errs[ne:]
            ex.peeling = 1
            ex.nodes.append([('peel', 0), 0])
            try:
                try: rs_ = iteration(t.copy())
                finally: ex.nodes.pop()
                for k, u, x in rs_:
                    if k in ('exit', 'brk'): out.append(('norm', u, None))
                    elif k == 'cont':
                        if ctx.check(u.pc, 2000) != z3.unsat:
                            for k2, u2, x2 in symbolic_loop(ex, u, iteration):
                                for o in u2.store:
                                    if u2.store[o] is not t.store.get(o): u2.store[o] = vjoin(u2.store[o])
                                out.append((k2, u2, x2))
                    else: out.append((k, u, x))
            except Unsupported: raise e
            finally: ex.peeling = 0
    return out

def probe(ex, t, iteration):
    p = getattr(iteration, 'probe', None)
    ex.quiet += 1
    try:
        u = t.copy()
        if p is not None: return p(u)
        # determine from exits of one quiet iteration condition only
        return None
    finally: ex.quiet -= 1

def run_quiet(ex, iteration, t):
    ex.quiet += 1
    try: return iteration(t)
    finally: ex.quiet -= 1

def symbolic_loop(ex, st, iteration):
    ctx = ex.ctx
    n = freshvar('n')
    ex.loopstack.append(n); ex.depth += 1
    saved_leaves = getattr(ex, '_leaves', None)
    try:
        return _symbolic_loop(ex, st, iteration, n)
    finally:
        ex._leaves = saved_leaves

def _symbolic_loop(ex, st, iteration, n):
    ctx = ex.ctx
    popped = False
    try:
        pre_store = dict(st.store)
        mods = {}; rawset = set()
        bn = len(st.pc)
        for rnd in range(8):
            h = st.copy(); h.assume(n >= 0)
            hv = {}
            for o, mask in mods.items():
                v = havoc(ex, pre_store[o], mask, 'h%d_%s' % (next(_hc), o), (), o in rawset)
                hv[o] = v; h.store[o] = v
            res = run_quiet(ex, iteration, h)
            grew = False
            for k, u, x in res:
                if k != 'cont': continue
                for o in pre_store:
                    if isinstance(u.store.get(o), RT) and z3.is_int_value(pre_store[o]):
                        # a machine integer that accumulates residues
                        pre_store[o] = RC(pre_store[o].as_long()); st = st.copy(); st.store[o] = pre_store[o]; mods.pop(o, None); grew = True
            if grew: continue
            for k, u, x in res:
                if k == 'err': continue
                for o in pre_store:
                    b = u.store.get(o)
                    a = hv.get(o, pre_store[o])
                    if b is not a and not same_val(a, b):
                        # position of the change
                        m = changed_mask(a, b)
                        if k != 'cont': continue
                        j = join_mask(mods.get(o), m)
                        if j != mods.get(o): mods[o] = j; grew = True
            if grew: continue
            conts = [u for k, u, x in res if k == 'cont' and not u.dead()]
            if not conts: break
            m, _ = ex.merge_states(bn, conts)
            # analysis
            try:
                leaves = []; reb = {}
                for o in mods:
                    reb[o] = analyze(ex, pre_store[o], hv[o], m.store[o], [], leaves, o in rawset)
            except NeedRaw:
                new = {o for o in mods if o not in rawset}
                if not new: raise Unsupported('mixed polynomial representation in loop')
                rawset |= new
                continue
            break
        else: raise Unsupported('loop analysis does not stabilise')
        conts = [u for k, u, x in res if k == 'cont' and not u.dead()]
        if not conts:
            # body never continues
            res = iteration(st_n0(st))
            out = []
            for k, u, x in res:
                if k in ('exit', 'brk'): out.append(('norm', u, None))
                else: out.append((k, u, x))
            return out
        # 3. solve
        hnames = set()
        ex._mpc = m.pc
        for l in leaves: hnames |= own_names(l)
        ex._leaves = leaves
        hs = HSub(ex)
        progress = True
        unsolved = list(leaves)
        while unsolved:
            progress = False
            for l in list(unsolved):
                r = solve_leaf(ex, l, n, hs, hnames)
                if r:
                    hs.add(l); unsolved.remove(l); progress = True
                    hnames -= own_names(l)
            if not progress:
                for l in list(unsolved):
                    r = solve_leaf(ex, l, n, hs, hnames, force=True)
                    if r:
                        hs.add(l); unsolved.remove(l); progress = True
                        hnames -= own_names(l)
                        break
            if not progress:
                l = unsolved[0]
                raise Unsupported('no invariant found for %s (%s): next value %s' % (l.h, l.kind, str(hs.v(l.v1))[:300]))
        def closed(o, ne):
            return reb[o](lambda leaf: vsubst(leaf.sol, [(n, ne)]) if not ne.eq(n) else leaf.sol)
        # 4. verify: base
        if not ex.quiet:
            for o in mods:
                ok = veq(ex, st, closed(o, z3.IntVal(0)), pre_store[o])
                if not ok: raise Unsupported('invariant candidate fails initially for %s' % o)
                ex.record('invariant', 'loop invariant holds initially: %s' % oname(o), True)
        # step
        g = st.copy(); g.assume(n >= 0)
        for o in mods: g.store[o] = closed(o, n)
        res = iteration(g)
        conts = [u for k, u, x in res if k == 'cont' and not u.dead()]
        m, _ = ex.merge_states(bn, conts)
        for k, u, x in res:
            if k != 'cont': continue
            for o in pre_store:
                if o not in mods and u.store.get(o) is not pre_store[o] and not same_val(u.store.get(o), pre_store[o]):
                    raise Unsupported('frame of loop not stable: %s' % o)
        if m is not None and not ex.quiet:
            mq = m.copy()
            for l in leaves:
                if getattr(l, 'lemma', None):
                    lem, ps, pat = l.lemma
                    mq.pc.append(z3.ForAll(list(ps), lem(n), patterns=[pat(n)]) if ps else lem(n))
            for o in mods:
                ok = veq(ex, mq, m.store[o], closed(o, n + 1))
                if not ok: raise Unsupported('invariant candidate not preserved for %s' % oname(o))
                ex.record('invariant', 'loop invariant preserved: %s' % oname(o), True)
        # 5. exits
        ex.loopstack.pop(); ex.depth -= 1; popped = True
        exits = [(k, u, x) for k, u, x in res if k != 'cont' and not u.dead()]
        hist = None
        if m is not None:
            delta = [c for c in m.pc[bn:]]
            hist = simp(And_(*delta))
        nexit = sum(1 for k, u, x in exits if k != 'err')
        out = []
        solnames = set()
        for l in leaves: solnames |= symbols(l.sol)
        prenames = set()
        for c in st.pc: prenames |= symbols(c)
        for k, u, x in exits:
            N = None
            if k == 'exit':
                N = canonical(ex, st, u.pc[bn:], n)
            if N is None:
                N = ctx.zapp(fresh_name('N'), list(ex.loopstack))
                need = True
            else: need = nexit > 1
            sg = [(n, N)]
            pc = list(st.pc)
            for c in u.pc[bn:]:
                pc.append(simp(z3.substitute(c, *sg)))
            if hist is not None and not need:
                hn = symbols(hist) - prenames
                if hn & solnames - {n.decl().name()}: need = True
            if need and hist is not None:
                mm = freshvar('m')
                pc.append(qfact(mm, N, z3.substitute(hist, (n, mm))))
            from .execu import State
            t = State(pc, {o: (v if o in pre_store and v is pre_store[o] else vsubst(v, sg)) for o, v in u.store.items()},
                      {i: (lv.subst(sg) if hasattr(lv, 'subst') else lv) for i, lv in u.env.items()}, u.this)
            if x is not None:
                x = x.subst(sg) if hasattr(x, 'subst') and not isinstance(x, Value) else vsubst(x, sg)
            out.append(('norm' if k in ('exit', 'brk') else k, t, x))
        # merge several normal exits when nested
        nm = [t for k, t, x in out if k == 'norm']
        if len(nm) > 1 and ex.depth > 0:
            mm_, _ = ex.merge_states(bn, nm)
            out = [r for r in out if r[0] != 'norm'] + ([('norm', mm_, None)] if mm_ is not None else [])
        return out
    finally:
        if not popped:
            ex.loopstack.pop(); ex.depth -= 1

def st_n0(st): return st.copy()

_hc = itertools.count()

def oname(o): return o.split('#')[0]

def canonical(ex, st, delta, n):
    """trip count from the exit condition: delta is [n>=0, not cond]"""
    cs = []
    for c in delta:
        for d in conj(c):
            if occurs(n, d): cs.append(d)
    cs = [c for c in cs if not c.eq(simp(n >= 0))]
    if len(cs) != 1: return None
    c = cs[0]
    neg = False
    if z3.is_not(c): c = c.arg(0); neg = True
    if not (z3.is_app(c) and len(c.children()) == 2 and c.arg(0).sort() == IS): return None
    l = lin(c.arg(0)).add(lin(c.arg(1)), -1)
    op = c.decl().kind()
    q = l.coef(n)
    rest = l.without(n)
    if any(occurs(n, e) for e, _ in rest.m.values()) or q == 0: return None
    r = rest.z()
    # exit condition E(n): l op 0 (possibly negated).
    if op == z3.Z3_OP_EQ and not neg:
        # continues while l != 0: q*n + r == 0
        if abs(q) == 1:
            N = rest.scale(-q).z()
            if ex.ctx.prove(st.pc, N >= 0): return simp(N)
        return None
    # express the exit condition as  q*n + r >= 0 (after normalisation)
    if op == z3.Z3_OP_LE: ge = (-q, rest.scale(-1))           # l <= 0
    elif op == z3.Z3_OP_LT: ge = (-q, rest.scale(-1).add(Lin(-1)))
    elif op == z3.Z3_OP_GE: ge = (q, rest)
    elif op == z3.Z3_OP_GT: ge = (q, rest.add(Lin(-1)))
    else: return None
    if neg:  # not (a >= 0)  <=> -a - 1 >= 0
        ge = (-ge[0], ge[1].scale(-1).add(Lin(-1)))
    a, b = ge
    # exit when a*n + b >= 0
    if a <= 0: return None
    # N = max(0, ceil(-b/a))
    mb = b.scale(-1).z()
    cnt = mb if a == 1 else (b.scale(-1).add(Lin(a - 1))).z() / z3.IntVal(a)
    cnt = simp(cnt)
    if ex.ctx.prove(st.pc, mb >= 0): return cnt
    if ex.ctx.prove(st.pc, mb <= 0): return z3.IntVal(0)
    return simp(z3.If(mb >= 0, cnt, 0))

# ---------------------------------------------------------------- silent equality
def veq(ex, st, a, b):
    if st.dead(): return True
    r = veq_(ex, st, a, b)
    if not r and os.environ.get('PMLV_DEBUG') and not isinstance(a, RT):
        print('---- veq failed', type(a).__name__, '\n A', str(a)[:3000], '\n B', str(b)[:3000], '\n pc', [c for c in st.pc if not has_quant(c)])
        if isinstance(a, Poly): print('LEN', ex.seal(a)[0], '|||', ex.seal(b)[0])
    return r
def veq_(ex, st, a, b):
    ctx = ex.ctx
    ctx = ex.ctx
    if a is b: return True
    if isinstance(a, VIte):
        return veq(ex, ex.under(st, a.c), a.a, b) and veq(ex, ex.under(st, Not_(a.c)), a.b, b)
    if isinstance(b, VIte):
        return veq(ex, ex.under(st, b.c), a, b.a) and veq(ex, ex.under(st, Not_(b.c)), a, b.b)
    if isinstance(a, RT):
        return req_(ctx, st.pc, a, b)
    if isinstance(a, z3.ExprRef):
        if a.eq(b): return True
        if ctx.prove(st.pc, a == b): return True
        return red_eq(ex, st, a, b)
    if isinstance(a, Poly):
        k = freshvar('k')
        if a.len is None and b.len is None:
            t = st.copy(); t.assume(k >= 0)
            return req_(ctx, t.pc, a.coef(k), b.coef(k))
        la, ca = ex.seal(a); lb, cb = ex.seal(b)
        if (a.len is None) != (b.len is None):
            t = st.copy(); t.assume(k >= 0)
            if not ctx.prove(st.pc, la == lb): return False
            return req_(ctx, t.pc, ex.tcoef(a)(k), ex.tcoef(b)(k))
        if not ctx.prove(st.pc, la == lb): return False
        t = st.copy(); t.assume(k >= 0, k < la)
        return req_(ctx, t.pc, ca(k), cb(k))
    if isinstance(a, Vec):
        if not ctx.prove(st.pc, a.len == b.len): return False
        i = freshvar('i')
        t = st.copy(); t.assume(i >= 0)
        if not stale_matters(a): t.assume(i < a.len)
        if ctx.check(t.pc, 500) == z3.unsat: return True
        return veq(ex, t, a.get(i), b.get(i))
    if isinstance(a, Mat):
        if not ctx.prove(st.pc, z3.And(a.rows == b.rows, a.cols == b.cols)): return False
        i = freshvar('i'); j = freshvar('j')
        t = st.copy(); t.assume(i >= 0, j >= 0, i < a.rows, j < a.cols)
        if ctx.check(t.pc, 500) == z3.unsat: return True
        return veq(ex, t, a.get(i, j), b.get(i, j))
    if isinstance(a, Rec): return all(veq(ex, st, a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Ptr):
        return a.base is not None and b.base is not None and a.base.same(b.base) and ctx.prove(st.pc, a.off == b.off)
    if isinstance(a, Opaque): return a is b or (a.tag == b.tag and a.data is b.data)
    return False

def req_(ctx, pc, a, b):
    ok, rest = ctx.ring_eq(pc, a, b)
    if not ok and os.environ.get('PMLV_DEBUG'):
        print('---- ring_eq failed'); print('A', rsimp(a)); print('B', rsimp(b))
        for t in rest or []: print('   ', t)
        print('  pc', [c for c in pc if not has_quant(c)])
    return ok

def stale_matters(v): return False

def red_eq(ex, st, a, b):
    """equality with a reduction: use its uniqueness (X is an extremum of the same set)"""
    return False
