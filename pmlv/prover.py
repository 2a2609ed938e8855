"""Obligation discharge: z3 for integer/boolean/quantified goals, and a decision
procedure for identities between ring terms with guarded (unbounded) sums, whose
side conditions are discharged by z3."""
import z3, time, itertools
from fractions import Fraction
from .terms import *

class Unsupported(Exception):
    """construct outside the verifier's reach (extraction break, unrecognised loop...)"""

class AtomInfo:
    __slots__ = ('name', 'arity', 'lenf', 'defn')
    def __init__(s, name, arity, lenf=None, defn=None):
        s.name = name; s.arity = arity; s.lenf = lenf; s.defn = defn

# ------------------------------------------------------------------ linear forms
class Lin:
    __slots__ = ('c', 'm')      # constant, {id: (expr, coef)}
    def __init__(s, c=0, m=None): s.c = c; s.m = m or {}
    def add(s, o, f=1):
        m = dict(s.m)
        for k, (e, q) in o.m.items():
            if k in m:
                n = m[k][1] + f * q
                if n == 0: del m[k]
                else: m[k] = (e, n)
            else: m[k] = (e, f * q)
        return Lin(s.c + f * o.c, m)
    def scale(s, f):
        if f == 0: return Lin()
        return Lin(s.c * f, {k: (e, q * f) for k, (e, q) in s.m.items()})
    def coef(s, v): return s.m.get(v.get_id(), (None, 0))[1]
    def without(s, v):
        m = dict(s.m); m.pop(v.get_id(), None); return Lin(s.c, m)
    def iszero(s): return s.c == 0 and not s.m
    def z(s):
        r = None
        for k in s.m:
            e, q = s.m[k]
            t = e if q == 1 else (-e if q == -1 else q * e)
            r = t if r is None else r + t
        if r is None: return z3.IntVal(s.c)
        if s.c != 0: r = r + s.c
        return r

_lin_cache = {}
def lin(e):
    k = e.get_id()
    r = _lin_cache.get(k)
    if r is not None and r[0].eq(e): return r[1]
    r = _lin(e)
    _lin_cache[k] = (e, r)
    return r

def _lin(e):
    if z3.is_int_value(e): return Lin(e.as_long())
    if z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = Lin()
            for c in e.children(): r = r.add(lin(c))
            return r
        if k == z3.Z3_OP_SUB:
            cs = e.children(); r = lin(cs[0])
            for c in cs[1:]: r = r.add(lin(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS: return lin(e.arg(0)).scale(-1)
        if k == z3.Z3_OP_MUL:
            cs = [lin(c) for c in e.children()]
            f = 1; rest = []
            for c in cs:
                if not c.m: f *= c.c
                else: rest.append(c)
            if not rest: return Lin(f)
            if len(rest) == 1: return rest[0].scale(f)
            # nonlinear: opaque
            return Lin(0, {e.get_id(): (e, 1)})
    return Lin(0, {e.get_id(): (e, 1)})

def find_ite(e):
    """an If subterm of an integer expression, or None"""
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and x.sort() == IS: return x
        st.extend(x.children())
    return None

def conj(c, out=None):
    if out is None: out = []
    if z3.is_and(c):
        for x in c.children(): conj(x, out)
    elif z3.is_not(c) and z3.is_or(c.arg(0)):
        for x in c.arg(0).children(): conj(Not_(x), out)
    elif z3.is_true(c): pass
    else: out.append(c)
    return out

class Term:
    __slots__ = ('c', 'bv', 'g', 'at')
    def __init__(s, c, bv, g, at): s.c = c; s.bv = bv; s.g = g; s.at = at
    def __repr__(s):
        return '%s * SUM[%s] {%s} %s' % (s.c, ','.join(map(str, s.bv)), ' & '.join(str(z3.simplify(x)) for x in s.g),
                                      '*'.join(map(repr, s.at)))

def split_and(g):
    if z3.is_and(g): return [h for c in g.children() for h in split_and(c)]
    if z3.is_eq(g) and g.num_args() == 2 and z3.is_bool(g.arg(0)):
        if z3.is_true(g.arg(0)): return split_and(g.arg(1))
        if z3.is_true(g.arg(1)): return split_and(g.arg(0))
    return [g]

def product_len(s, b, k):
    """b = (factors without k) * (one polynomial atom in k): (condition for zero, length otherwise)"""
    if not isinstance(b, RMul): return None
    x = [u for u in b.ts if isinstance(u, RA) and u.args and u.args[-1].eq(k) and s.atoms.get(u.name) is not None and s.atoms[u.name].lenf and not any(occurs(k, a) for a in u.args[:-1])]
    o = [u for u in b.ts if not any(u is y for y in x)]
    if len(x) != 1 or any(not isinstance(u, (RA, RC)) or (isinstance(u, RC) and abs(u.c) != 1) or (isinstance(u, RA) and any(occurs(k, a) for a in u.args)) for u in o): return None
    return Or_(*[s.isz(u) for u in o if isinstance(u, RA)]), s.atoms[x[0].name].lenf(*x[0].args[:-1])

class Ctx:
    def __init__(s, timeout_ms=8000):
        s.rfdef = {}      # definitions of ring functions, unfolded when needed
        s.atoms = {}
        s.axioms = {}          # symbol name -> list of z3 axioms
        s.sealed = {}          # structural key -> atom name
        s.fcache = {}
        s.rc = {}
        s.timeout = timeout_ms; s.nto = 0; s.tscale = 1
        s.nq = 0; s.tz3 = 0.0; s.ring_checks = 0; s.lifted = {}
        s._pc_cache = {}
        s.last_model = None
        s.budget_end = None

    # -------------------------------------------------------------- symbols
    def zf(s, name, arity, sort=IS):
        k = (name, arity, sort)
        if k not in s.fcache:
            s.fcache[k] = z3.Function(name, *([IS] * arity + [sort]))
        return s.fcache[k]

    def zapp(s, name, args, sort=IS):
        if not args:
            return z3.Const(name, sort)
        return s.zf(name, len(args), sort)(*args)

    def axiom(s, name, f):
        s.axioms.setdefault(name, []).append(f)

    def poly_atom(s, name, arity, defn=None, normalized=True):
        """declare name(args..., k): the k-th coefficient of a polynomial with len_name(args...) coefficients"""
        if name in s.atoms: return
        ln = 'len_' + name
        lenf = (lambda *a: s.zapp(ln, list(a)))
        s.atoms[name] = AtomInfo(name, arity, lenf, defn)
        ps = [z3.Int('p%d!' % i) for i in range(arity - 1)]
        L = lenf(*ps)
        k = z3.Int('k!ax')
        at = s.zapp(name, ps + [k], RS_)
        if ps: s.axiom(ln, z3.ForAll(ps, L >= 0, patterns=[L]))
        else: s.axiom(ln, L >= 0)
        s.axiom(name, z3.ForAll(ps + [k], z3.Implies(z3.Or(k < 0, k >= L), at == s.rconst(0)), patterns=[at]))
        if normalized:
            top = s.zapp(name, ps + [L - 1], RS_)
            f = z3.Implies(L > 0, top != s.rconst(0))
            s.axiom(ln, z3.ForAll(ps, f, patterns=[L]) if ps else f)

    def ring_atom(s, name, arity):
        if name not in s.atoms: s.atoms[name] = AtomInfo(name, arity)

    def rconst(s, c):
        c = Fraction(c)
        if c not in s.rc: s.rc[c] = z3.Const('rc_%s' % c, RS_)
        return s.rc[c]

    def enc(s, t):
        """z3 term of sort R denoting ring term t"""
        if isinstance(t, RC): return s.rconst(t.c)
        if isinstance(t, RA): return s.zapp(t.name, list(t.args), RS_)
        if isinstance(t, RIte): return If_(t.c, s.enc(t.a), s.enc(t.b))
        key, consts = skey(t)
        if key not in s.lifted:
            s.lifted[key] = (fresh_name('R'), None)
        name = s.lifted[key][0]
        return s.zapp(name, consts, RS_)

    def isz(s, t):
        if isinstance(t, RC): return TRUE if t.c == 0 else FALSE
        if isinstance(t, RIte): return simp(z3.Or(z3.And(t.c, s.isz(t.a)), z3.And(z3.Not(t.c), s.isz(t.b))))
        if isinstance(t, RMul):
            u = [x for x in t.ts if not isinstance(x, RC)]
            # fields/primes: a product of atoms is not decided; only strip +-1
            if len(u) == 1 and all(abs(x.c) == 1 for x in t.ts if isinstance(x, RC)): return s.isz(u[0])
        return s.enc(t) == s.rconst(0)

    def req(s, a, b):
        """z3 proposition a == b for ring terms"""
        if isinstance(b, RC) and b.c == 0: return s.isz(a)
        if isinstance(a, RC) and a.c == 0: return s.isz(b)
        if repr(a) == repr(b): return TRUE
        return s.enc(a) == s.enc(b)

    # -------------------------------------------------------------- polynomials
    def seal(s, coef):
        """coef: Lam([k], RT), the total coefficient function of a normalized polynomial.
        returns (len expression, Lam with atom body)"""
        k = freshvar('k')
        b = coef(k)
        return s._seal(k, b)

    def _seal(s, k, b):
        b = rsimp(b)
        if isinstance(b, RC) and b.c == 0:
            return z3.IntVal(0), Lam([k], R0)
        if isinstance(b, RA) and b.args and b.args[-1].eq(k) and s.atoms.get(b.name) is not None and s.atoms[b.name].lenf \
           and not any(occurs(k, a) for a in b.args[:-1]):
            return s.atoms[b.name].lenf(*b.args[:-1]), Lam([k], b)
        if isinstance(b, RIte) and not occurs(k, b.c):
            l1, c1 = s._seal(k, b.a); l2, c2 = s._seal(k, b.b)
            return If_(b.c, l1, l2), Lam([k], rite(b.c, c1(k), c2(k)))
        if isinstance(b, RIte) and isinstance(b.b, RC) and b.b.c == 0 and isinstance(b.a, RC) and b.a.c != 0:
            c = simp(b.c)
            if c.eq(simp(k == 0)): return z3.IntVal(1), Lam([k], b)
        key, consts = skey(b, k)
        if key not in s.sealed:
            name = fresh_name('pol')
            ps = [freshvar('q') for _ in consts]
            kk = freshvar('k')
            body = rsubst(b, list(zip(consts, ps)) + [(k, kk)])
            s.sealed[key] = name
            s.poly_atom(name, len(ps) + 1, defn=Lam(ps + [kk], body))
            at = s.zapp(name, ps + [kk], RS_)
            s.axiom(name, z3.ForAll(ps + [kk], at == s.enc(body), patterns=[at]))
            ub = support_ub(s, body, kk)
            nz = product_len(s, body, kk)
            if nz is not None:
                L = s.atoms[name].lenf(*ps); f = L == z3.If(nz[0], 0, nz[1])
                s.axiom('len_' + name, z3.ForAll(ps, f, patterns=[L]) if ps else f)
            if ub is not None:
                L = s.atoms[name].lenf(*ps)
                f = L <= z3.If(ub >= 0, ub, 0)
                s.axiom('len_' + name, z3.ForAll(ps, f, patterns=[L]) if ps else f)
        name = s.sealed[key]
        return s.atoms[name].lenf(*consts), Lam([k], RA(name, tuple(consts) + (k,)))

    # -------------------------------------------------------------- z3
    def _axioms_for(s, fs):
        names = set(); todo = list(fs); out = []; done = set()
        while todo:
            f = todo.pop()
            fn = zfuncs(f)
            for n in fn:
                if n in done: continue
                done.add(n)
                for a in s.axioms.get(n, ()):
                    out.append(a); todo.append(a)
        return out

    def check(s, fs, timeout=None, weak=True):
        """satisfiability of the conjunction. First by quantifier instantiation through triggers only
        (fast; unsat is final), then, unless weak, with model-based instantiation."""
        fs = [f for f in fs if not z3.is_true(f)]
        if any(z3.is_false(f) for f in fs): return z3.unsat
        ax = s._axioms_for(fs)
        fs = fs + ax
        if s.rc: fs = fs + [z3.Distinct(s.rconst(0), s.rconst(1))]
        r = z3.unknown
        to = int((timeout or s.timeout) * s.tscale)
        quant = bool(ax) or any(has_quant(f) for f in fs)
        for mode in ((False, True) if quant and not weak else (False,) if quant else (True,)):
            S = z3.SimpleSolver() if not mode else z3.Solver()
            S.set('timeout', to if not mode or not quant else min(to, 2500))
            if not mode: S.set('smt.mbqi', False); S.set('auto_config', False)
            S.add(*fs)
            t = time.time()
            r = S.check()
            s.tz3 += time.time() - t; s.nq += 1
            if r != z3.unknown: break
            if not (mode and quant) and time.time() - t > 0.9 * to / 1000.0: s.nto += 1
        s.last_model = S.model() if r == z3.sat else None
        s.last = r
        return r

    def prove(s, pc, goal, timeout=None, weak=False):
        g = simp(goal)
        if z3.is_true(g): return True
        if s.budget_end and time.time() > s.budget_end: raise Unsupported('time budget of this function exhausted')
        pcs = [p for p in pc if not z3.is_true(p)]
        for p in pcs:
            if p.eq(goal): return True
        gs = split_and(goal)
        for h in gs:
            if s.check(pcs + [z3.Not(h)], timeout, weak) != z3.unsat:
                s.last_goal = h; s.last_pc = pcs; return False
        return True

    def infeasible(s, pc, timeout=None):
        return s.check(list(pc), timeout or 2000) == z3.unsat

    # -------------------------------------------------------------- ring identities
    def nf(s, t):
        if isinstance(t, RC):
            return [] if t.c == 0 else [Term(t.c, (), (), ())]
        if isinstance(t, RF) and t.name == 'pow' and z3.is_int_value(k0 := simp(t.iargs[0])) and k0.as_long() == 0: return [Term(Fraction(1), (), (), ())]
        if isinstance(t, RA) or isinstance(t, RF): return [Term(Fraction(1), (), (), (t,))]
        if isinstance(t, RAdd):
            r = []
            for u in t.ts: r += s.nf(u)
            return r
        if isinstance(t, RMul):
            r = [Term(Fraction(1), (), (), ())]
            for u in t.ts:
                n = s.nf(u)
                r = [Term(x.c * y.c, x.bv + y.bv, x.g + y.g, x.at + y.at) for x in r for y in (fresh_bv(z) for z in n)]
                if len(r) > 4000: raise Unsupported('ring term too large')
            return r
        if isinstance(t, RIte):
            c = simp(t.c); g1 = tuple(conj(c)); g2 = tuple(conj(simp(Not_(c))))
            return [Term(x.c, x.bv, x.g + g1, x.at) for x in s.nf(t.a)] + [Term(x.c, x.bv, x.g + g2, x.at) for x in s.nf(t.b)]
        if isinstance(t, RSum):
            g = (t.v >= t.lo, t.v < t.hi)
            return [Term(x.c, (t.v,) + x.bv, g + x.g, x.at) for x in s.nf(t.body)]
        raise TypeError(type(t))

    def supports(s, at):
        out = []
        for a in at:
            if isinstance(a, RA):
                i = s.atoms.get(a.name)
                if i is not None and i.lenf is not None:
                    k = a.args[-1]
                    out += [k >= 0, k < i.lenf(*a.args[:-1])]
        return out

    def simp_term(s, pc, x):
        """eliminate bound variables fixed by equalities, split integer ites; list of terms"""
        work = [x]; out = []
        n = 0
        while work:
            t = work.pop(); n += 1
            if n > 500: raise Unsupported('term splitting')
            if any(isinstance(a, RF) and a.name == 'pow' for a in t.at): t = s.powmerge(pc, Term(t.c, t.bv, t.g, tuple(b for a in t.at for b in powlit(a))))
            # ites in atom arguments / sum of guards
            ite = None
            for a in t.at:
                for z in (a.args if isinstance(a, RA) else a.iargs):
                    ite = find_ite(z)
                    if ite is not None: break
                if ite is not None: break
            if ite is not None:
                c, u, v = ite.children()
                for cond, val in ((c, u), (Not_(c), v)):
                    sg = [(ite, val)]
                    g = tuple(y for z in t.g for y in conj(simp(zsub(z, sg)))) + tuple(conj(simp(cond)))
                    if any(z3.is_false(z) for z in g): continue
                    work.append(Term(t.c, t.bv, g, tuple(asub(a, sg) for a in t.at)))
                continue
            # equality elimination
            hit = False
            if t.bv:
                for gi, g in enumerate(t.g):
                    if z3.is_eq(g) and g.arg(0).sort() == IS:
                        l = lin(g.arg(0)).add(lin(g.arg(1)), -1)
                        for v in t.bv:
                            q = l.coef(v)
                            if abs(q) == 1:
                                rest = l.without(v)
                                if any(occurs(v, e) for e, _ in rest.m.values()): continue
                                val = rest.scale(-q).z()
                                sg = [(v, val)]
                                gs = []
                                for gj, h in enumerate(t.g):
                                    if gj != gi: gs += conj(simp(zsub(h, sg)))
                                if not any(z3.is_false(z) for z in gs):
                                    work.append(Term(t.c, tuple(b for b in t.bv if not b.eq(v)), tuple(gs),
                                                     tuple(asub(a, sg) for a in t.at)))
                                hit = True
                                break
                    if hit: break
            if hit: continue
            out.append(t)
        return out

    def powmerge(s, pc, t):
        """x * x^e = x^(e+1) for e >= 0 free of bound variables"""
        at = list(t.at)
        for i, a in enumerate(at):
            if isinstance(a, RF) and a.name == 'pow' and not any(occurs(v, a.iargs[0]) for v in t.bv):
                k = [j for j, b in enumerate(at) if isinstance(b, (RA, RF)) and j != i and repr(b) == repr(a.rargs[0])]
                if k and s.prove(list(pc) + list(t.g), a.iargs[0] >= 0):
                    at[i] = RF('pow', a.rargs, (simp(a.iargs[0] + len(k)),)); at = [b for j, b in enumerate(at) if j not in k]
                    return s.powmerge(pc, Term(t.c, t.bv, t.g, tuple(at)))
        return t

    def expand(s, terms):
        """replace atoms having definitions, in all terms; returns (new terms, changed)"""
        ch = False; out = []
        for t in terms:
            if any(isinstance(a, RA) and s.atoms.get(a.name) and s.atoms[a.name].defn or isinstance(a, RF) and a.name in s.rfdef for a in t.at):
                ch = True
                prod = [Term(t.c, t.bv, t.g, ())]
                for a in t.at:
                    if isinstance(a, RA) and s.atoms.get(a.name) and s.atoms[a.name].defn:
                        n = s.nf(s.atoms[a.name].defn(*a.args))
                    elif isinstance(a, RF) and a.name in s.rfdef:
                        n = s.nf(rsimp(s.rfdef[a.name](a.rargs, a.iargs)))
                    else: n = [Term(Fraction(1), (), (), (a,))]
                    prod = [Term(p.c * y.c, p.bv + y.bv, p.g + y.g, p.at + y.at) for p in prod for y in (fresh_bv(z) for z in n)]
                    if len(prod) > 4000: raise Unsupported('ring term too large')
                out += prod
            else: out.append(t)
        return out, ch

    def ring_eq(s, pc, a, b, weak=False):
        """prove a == b (ring terms) under pc. returns (ok, residue)"""
        s.ring_checks += 1
        a = rsimp(a); b = rsimp(b)
        if repr(a) == repr(b): return True, None
        terms = s.nf(a) + [Term(-x.c, x.bv, x.g, x.at) for x in s.nf(b)]
        ok, rest = s.terms_zero(list(pc), terms, 0)
        if not ok and not any(t.bv for t in rest) and s.prove(pc, s.enc(a) == s.enc(b), None, weak): return True, None   # congruence
        return ok, rest

    def terms_zero(s, pc, terms, depth):
        for rnd in range(6):
            ts = []
            for t in terms: ts += s.simp_term(pc, t)
            ts = s.inv_cancel(pc, ts)
            rest = s.cancel(pc, ts)
            if not rest: return True, None
            nt, ch = s.expand(rest)
            if not ch: break
            terms = nt
        else: return False, rest
        if depth >= 4: return False, rest
        # case distinction on an equality between free variables occurring in the guards
        e = s.split_eq(pc, rest)
        if e is None: return False, rest
        v, val, eq = e
        sg = [(v, val)]
        pc1 = [simp(zsub(c, sg)) for c in pc]
        if not any(z3.is_false(c) for c in pc1) and not s.infeasible(pc1, 500):
            t1 = []
            for t in rest:
                g = [y for z in t.g for y in conj(simp(zsub(z, sg)))]
                if any(z3.is_false(y) for y in g): continue
                t1.append(Term(t.c, t.bv, tuple(g), tuple(asub(x, sg) for x in t.at)))
            ok, r = s.terms_zero(pc1, t1, depth + 1)
            if not ok: return False, r
        pc2 = pc + [z3.Not(eq)]
        if s.infeasible(pc2, 500): return True, None
        t2 = [t for t in rest if not any(y.eq(eq) for y in t.g)]
        t2 = [Term(t.c, t.bv, tuple(y for y in t.g if not (z3.is_not(y) and y.arg(0).eq(eq))), t.at) for t in t2]
        return s.terms_zero(pc2, t2, depth + 1)

    def split_eq(s, pc, terms):
        seen = set()
        for t in terms:
            bvs = {b.get_id() for b in t.bv}
            for g in t.g:
                c = g.arg(0) if z3.is_not(g) else g
                if not (z3.is_eq(c) and c.arg(0).sort() == IS): continue
                if c.get_id() in seen: continue
                seen.add(c.get_id())
                if any(x.get_id() in bvs for x in zconsts(c)): continue
                l = lin(c.arg(0)).add(lin(c.arg(1)), -1)
                for k, (e, q) in l.m.items():
                    if abs(q) == 1 and z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        rest = l.without(e)
                        if any(occurs(e, x) for x, _ in rest.m.values()): continue
                        return e, rest.scale(-q).z(), c
        return None

    def inv_cancel(s, pc, ts):
        out = []
        for t in ts:
            at = list(t.at); changed = True
            while changed:
                changed = False
                for i, f in enumerate(at):
                    if isinstance(f, RF) and f.name == 'inv' and isinstance(f.rargs[0], (RA, RF)):
                        for j, g in enumerate(at):
                            if j != i and type(g) is type(f.rargs[0]) and repr_eq(g, f.rargs[0]):
                                if s.prove(list(pc) + list(t.g), z3.Not(s.isz(f.rargs[0]))):
                                    at = [x for q, x in enumerate(at) if q not in (i, j)]
                                    changed = True
                                    break
                    if changed: break
            out.append(Term(t.c, t.bv, t.g, tuple(at)))
        return out

    def cancel(s, pc, ts):
        groups = {}
        for t in ts:
            key = (tuple(sorted(akey(a) for a in t.at)),)
            groups.setdefault(key, []).append(t)
        rest = []
        for key, g in groups.items():
            rest += s.cancel_group(pc, g)
        return rest

    def cancel_group(s, pc, g):
        # usesR: guards mentioning ring-valued propositions -> add nonzero supports
        usesR = any(mentions_R(h) for t in g for h in t.g) or any(mentions_R(h) for h in pc)
        terms = []
        for t in g:
            at = tuple(sorted(t.at, key=akey))
            terms.append(Term(t.c, t.bv, t.g, at))
        # drop infeasible terms lazily: only if needed (cluster failing)
        rest = []
        todo = sorted(terms, key=lambda t: -len(t.bv))
        pruned = False
        while todo:
            t0 = todo[0]
            slots, form0 = canon(t0)
            cluster = [(t0.c, form0[0], form0[1])]
            others = []
            un = list(form0[2])
            for t in todo[1:]:
                m = s.match(pc, t, slots, form0)
                if m is None: others.append(t)
                else: cluster.append((t.c, m, None))
            ok = False
            if not form0[3]:
                ok = s.cluster_zero(pc, cluster, form0, usesR)
            if ok:
                todo = others
            else:
                if not pruned:
                    pruned = True
                    kept = [t for t in todo if not s.infeasible(list(pc) + list(t.g) + s.supports(t.at) + (s.nonz(t.at) if usesR else []))]
                    if len(kept) != len(todo):
                        todo = kept; continue
                ids = [t0] + [t for t in todo[1:] if not any(t is o for o in others)]
                rest += ids
                todo = others
        return rest

    def nonz(s, at):
        return [z3.Not(s.isz(a)) for a in at if isinstance(a, RA)]

    def cluster_zero(s, pc, cluster, form0, usesR):
        at = form0[1]
        tot = None
        for c, guards, _ in cluster:
            e = z3.If(And_(*guards) if guards else TRUE, z3.RealVal(str(c)) if c.denominator != 1 else z3.IntVal(int(c)), 0)
            tot = e if tot is None else tot + e
        hyp = list(pc) + s.supports(at) + (s.nonz(at) if usesR else [])
        # pc facts under which every atom argument agrees were established by match()
        return s.prove(hyp, tot == 0, None, True)

    def match(s, pc, t, slots, form0):
        """express t in the canonical variables of form0; returns guards or None"""
        g0, at0, us, left = form0
        n = len(t.at)
        names = [akey(a) for a in t.at]
        for perm in perms(names):
            at = [t.at[i] for i in perm]
            r = solve_slots(t, at, slots, us)
            if r is None: continue
            guards, at2, leftover = r
            if leftover: continue
            hyp = None; ok = True
            for a, b in zip(at2, at0):
                if isinstance(a, RF):
                    if not s.rf_equal(pc, list(guards), a, b): ok = False; break
                    continue
                for x, y in zip(a.args, b.args):
                    if x.eq(y): continue
                    d = lin(simp(x)).add(lin(simp(y)), -1)
                    if d.iszero(): continue
                    if not d.m: ok = False; break
                    if hyp is None: hyp = list(pc) + list(guards) + s.supports(at2)
                    if not s.prove(hyp, x == y, 3000, True): ok = False; break
                if not ok: break
            if ok: return guards
        return None

    def rf_equal(s, pc, guards, a, b):
        if a.name != b.name or len(a.rargs) != len(b.rargs) or len(a.iargs) != len(b.iargs): return False
        h = list(pc) + guards
        for x, y in zip(a.iargs, b.iargs):
            if x.eq(y): continue
            d = lin(simp(x)).add(lin(simp(y)), -1)
            if d.iszero(): continue
            if not d.m or not s.prove(h, x == y, 3000, True): return False
        for x, y in zip(a.rargs, b.rargs):
            if repr(x) != repr(y) and not s.ring_eq(h, x, y, True)[0]: return False
        return True

# ------------------------------------------------------------------ helpers
def occurs(v, e):
    i = v.get_id()
    return any(c.get_id() == i for c in zconsts(e))

def roccurs(v, t):
    hit = []
    walk_z(t, lambda e: hit.append(1) if occurs(v, e) else None)
    return bool(hit)

_hq = {}
def has_quant(e):
    k = e.get_id()
    r = _hq.get(k)
    if r is not None and r[0].eq(e): return r[1]
    v = False; st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): v = True; break
        st.extend(x.children())
    _hq[k] = (e, v)
    return v

def mentions_R(e):
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.sort() == RS_: return True
        if z3.is_quantifier(x): st.append(x.body())
        else: st.extend(x.children())
    return False

def akey(a):
    if isinstance(a, RA): return a.name
    return 'F:' + a.name

def asub(a, sg): return rsubst(a, sg)

def repr_eq(a, b):
    if isinstance(a, RA) and isinstance(b, RA):
        return a.name == b.name and len(a.args) == len(b.args) and all(lin(simp(x)).add(lin(simp(y)), -1).iszero() for x, y in zip(a.args, b.args))
    return repr(a) == repr(b)

def fresh_bv(t):
    if not t.bv: return t
    nv = tuple(freshvar('u') for _ in t.bv)
    sg = list(zip(t.bv, nv))
    return Term(t.c, nv, tuple(zsub(g, sg) for g in t.g), tuple(asub(a, sg) for a in t.at))

def perms(names):
    """permutations of indices permuting only equal names (names sorted)"""
    blocks = []; i = 0
    while i < len(names):
        j = i
        while j < len(names) and names[j] == names[i]: j += 1
        blocks.append(list(range(i, j))); i = j
    n = 0
    for p in itertools.product(*[itertools.permutations(b) for b in blocks]):
        n += 1
        if n > 130: return
        yield [x for b in p for x in b]

def powlit(a):
    if isinstance(a, RF) and a.name == 'pow' and isinstance(a.rargs[0], (RA, RF)):
        k = simp(a.iargs[0])
        if z3.is_int_value(k) and 0 <= k.as_long() <= 2: return (a.rargs[0],) * k.as_long()
    return (a,)

def aargs(a):
    return a.args if isinstance(a, RA) else a.iargs

def mkatom(a, args):
    if isinstance(a, RA): return RA(a.name, args)
    return RF(a.name, a.rargs, args)

def canon(t):
    """choose slots defining the bound variables. returns slots, (guards, atoms, us, leftover)"""
    slots = []; us = []
    bv = list(t.bv)
    g = list(t.g); at = list(t.at)
    done = True
    for ai in range(len(at)):
        for k in range(len(aargs(at[ai]))):
            if not bv: break
            e = aargs(at[ai])[k]
            l = lin(e)
            for v in bv:
                q = l.coef(v)
                if abs(q) == 1 and not any(occurs(v, x) for kk, (x, _) in l.m.items() if not x.eq(v)):
                    u = freshvar('c')
                    # e = q*v + rest = u  ->  v = q*(u-rest)
                    val = Lin(0, {u.get_id(): (u, 1)}).add(l.without(v), -1).scale(q).z()
                    sg = [(v, val)]
                    g = [zsub(x, sg) for x in g]
                    at = [asub(x, sg) for x in at]
                    aa = list(aargs(at[ai])); aa[k] = u
                    at[ai] = mkatom(at[ai], aa)
                    bv = [b for b in bv if not b.eq(v)]
                    slots.append((ai, k)); us.append(u)
                    break
    return slots, (tuple(g), tuple(at), tuple(us), tuple(bv))

def solve_slots(t, at, slots, us):
    bv = list(t.bv); g = list(t.g); at = list(at)
    if len(bv) > len(us): return None
    spare = len(us) - len(bv)          # slots that may be pinned to a value instead of a bound variable
    for (ai, k), u in zip(slots, us):
        if k >= len(aargs(at[ai])): return None
        e = aargs(at[ai])[k]
        l = lin(e); hit = False
        for v in bv:
            q = l.coef(v)
            if abs(q) == 1 and not any(occurs(v, x) for kk, (x, _) in l.m.items() if not x.eq(v)):
                val = Lin(0, {u.get_id(): (u, 1)}).add(l.without(v), -1).scale(q).z()
                sg = [(v, val)]
                g = [zsub(x, sg) for x in g]
                at = [asub(x, sg) for x in at]
                aa = list(aargs(at[ai])); aa[k] = u
                at[ai] = mkatom(at[ai], aa)
                bv = [b for b in bv if not b.eq(v)]
                hit = True
                break
        if not hit:
            if not spare: return None
            spare -= 1
            g = g + [u == e]
            aa = list(aargs(at[ai])); aa[k] = u
            at[ai] = mkatom(at[ai], aa)
    return tuple(g), tuple(at), tuple(bv)

def rsimp(t):
    if isinstance(t, RIte):
        c = simp(t.c)
        if z3.is_true(c): return rsimp(t.a)
        if z3.is_false(c): return rsimp(t.b)
        a = rsimp(t.a); b = rsimp(t.b)
        if repr(a) == repr(b): return a
        return RIte(c, a, b)
    if isinstance(t, RAdd): return radd(*[rsimp(u) for u in t.ts])
    if isinstance(t, RMul): return rmul(*[rsimp(u) for u in t.ts])
    if isinstance(t, RA): return RA(t.name, [simp(a) for a in t.args])
    if isinstance(t, RSum):
        b = rsimp(t.body)
        if isinstance(b, RC) and b.c == 0: return R0
        lo = simp(t.lo); hi = simp(t.hi)
        if z3.is_int_value(lo) and z3.is_int_value(hi):
            n = hi.as_long() - lo.as_long()
            if n <= 0: return R0
            if n <= 4: return radd(*[rsimp(rsubst(b, [(t.v, z3.IntVal(lo.as_long() + i))])) for i in range(n)])
        return RSum(t.v, lo, hi, b)
    return t

def skey(t, k=None):
    """structural key of a ring term with free integer constants abstracted, and these constants"""
    order = []; idx = {}
    bound = {}
    def zk(e):
        st = []
        return zkey(e, idx, order, bound)
    if k is not None: bound[k.get_id()] = 'K'
    def go(u):
        if isinstance(u, RC): return str(u.c)
        if isinstance(u, RA): return u.name + '(' + ','.join(zk(a) for a in u.args) + ')'
        if isinstance(u, RAdd): return '(+ ' + ' '.join(go(x) for x in u.ts) + ')'
        if isinstance(u, RMul): return '(* ' + ' '.join(go(x) for x in u.ts) + ')'
        if isinstance(u, RIte): return '(ite ' + zk(u.c) + ' ' + go(u.a) + ' ' + go(u.b) + ')'
        if isinstance(u, RSum):
            lo = zk(u.lo); hi = zk(u.hi)
            bound[u.v.get_id()] = 'B%d' % len(bound)
            return '(sum %s %s %s)' % (lo, hi, go(u.body))
        if isinstance(u, RF): return u.name + '{' + ','.join(go(x) for x in u.rargs) + ';' + ','.join(zk(a) for a in u.iargs) + '}'
        raise TypeError
    key = go(t)
    return key, order

def prekey(e, bound):
    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        i = e.get_id()
        return bound[i] if i in bound else '$' if e.sort() == IS else e.decl().name()
    if z3.is_quantifier(e): return '(Q' + prekey(e.body(), bound) + ')'
    if z3.is_var(e): return 'V%d' % z3.get_var_index(e)
    if z3.is_app(e) and e.children():
        ch = [prekey(c, bound) for c in e.children()]
        if e.decl().kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_EQ): ch.sort()
        return '(' + e.decl().name() + ' ' + ' '.join(ch) + ')'
    return str(e)

def zkey(e, idx, order, bound):
    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        i = e.get_id()
        if i in bound: return bound[i]
        if e.sort() != IS: return e.decl().name()
        if i not in idx:
            idx[i] = len(order); order.append(e)
        return '$%d' % idx[i]
    if z3.is_quantifier(e): return '(Q' + str(e.is_forall()) + zkey(e.body(), idx, order, bound) + ')'
    if z3.is_var(e): return 'V%d' % z3.get_var_index(e)
    if z3.is_app(e):
        d = e.decl()
        if not e.children(): return str(e)
        if d.kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_EQ):
            return '(' + d.name() + ' ' + ' '.join(zkey(c, idx, order, bound) for c in sorted(e.children(), key=lambda c: prekey(c, bound))) + ')'
        return '(' + d.name() + ' ' + ' '.join(zkey(c, idx, order, bound) for c in e.children()) + ')'
    return str(e)

def support_ub(ctx, t, k):
    """an upper bound U (z3 Int) such that t(k)=0 for k >= U, or None"""
    if isinstance(t, RC): return z3.IntVal(0) if t.c == 0 else None
    if isinstance(t, RA):
        i = ctx.atoms.get(t.name)
        if i is None or i.lenf is None: return None
        l = lin(t.args[-1])
        if l.coef(k) == 1 and not any(occurs(k, e) for kk, (e, _) in l.m.items() if not e.eq(k)) and not any(occurs(k, a) for a in t.args[:-1]):
            return i.lenf(*t.args[:-1]) - l.without(k).z()
        return None
    if isinstance(t, RAdd):
        us = [support_ub(ctx, u, k) for u in t.ts]
        if any(u is None for u in us): return None
        r = us[0]
        for u in us[1:]: r = imax(r, u)
        return r
    if isinstance(t, RMul):
        us = [support_ub(ctx, u, k) for u in t.ts]
        us = [u for u in us if u is not None]
        if not us: return None
        r = us[0]
        for u in us[1:]: r = imin(r, u)
        return r
    if isinstance(t, RIte):
        a = support_ub(ctx, t.a, k); b = support_ub(ctx, t.b, k)
        # condition k < n
        for c in conj(t.c):
            if isinstance(t.b, RC) and t.b.c == 0:
                n = upper_of(c, k)
                if n is not None: a = n if a is None else imin(a, n)
        if not occurs(k, t.c) and a is not None and b is not None: return If_(t.c, a, b)
        if a is None or b is None: return None
        return imax(a, b)
    if isinstance(t, RSum):
        # products a(v) b(k-v): eliminate using supports
        b = t.body
        ts = b.ts if isinstance(b, RMul) else (b,)
        la = []; lb = []
        for u in ts:
            x = support_ub(ctx, u, t.v)
            if x is not None and not roccurs(k, u): la.append(x)
            if isinstance(u, RA) and ctx.atoms.get(u.name) and ctx.atoms[u.name].lenf:
                l = lin(u.args[-1])
                if l.coef(k) == 1 and l.coef(t.v) == -1: lb.append(ctx.atoms[u.name].lenf(*u.args[:-1]) - l.without(k).without(t.v).z())
        if la and lb:
            if any(occurs(t.v, z) for z in (la[0], lb[0])): return None
            return z3.If(z3.And(la[0] > 0, lb[0] > 0), la[0] + lb[0] - 1, z3.If(lb[0] > la[0], z3.If(lb[0] > 0, lb[0], 0), z3.If(la[0] > 0, la[0], 0)))
        u = support_ub(ctx, b, k)
        if u is not None and not occurs(t.v, u): return u
        return None
    return None

def upper_of(c, k):
    """c implies k < n: return n"""
    if z3.is_app(c) and len(c.children()) == 2:
        op = c.decl().kind()
        x, y = c.children()
        if x.sort() != IS: return None
        l = lin(x).add(lin(y), -1)      # x - y
        q = l.coef(k)
        if abs(q) != 1 or any(occurs(k, e) for kk, (e, _) in l.m.items() if not e.eq(k)): return None
        r = l.without(k)
        if op == z3.Z3_OP_LT and q == 1: return r.scale(-1).z()           # k + r < 0
        if op == z3.Z3_OP_LE and q == 1: return (r.scale(-1).add(Lin(1))).z()
        if op == z3.Z3_OP_GT and q == -1: return r.z()                     # -k + r > 0
        if op == z3.Z3_OP_GE and q == -1: return (r.add(Lin(1))).z()
        if op == z3.Z3_OP_EQ: return (r.scale(-q).add(Lin(1))).z()
    if z3.is_not(c):
        d = c.arg(0)
        if z3.is_app(d) and len(d.children()) == 2 and d.arg(0).sort() == IS:
            x, y = d.children(); op = d.decl().kind()
            if op == z3.Z3_OP_LT: return upper_of(x >= y, k)
            if op == z3.Z3_OP_LE: return upper_of(x > y, k)
            if op == z3.Z3_OP_GT: return upper_of(x <= y, k)
            if op == z3.Z3_OP_GE: return upper_of(x < y, k)
    return None
