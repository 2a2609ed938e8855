"""Terms of the verifier.

 * integers / booleans are z3 expressions;
 * ring elements (values of type zz_p, or machine words holding residues) are RT
   trees over uninterpreted atoms  name(i1,...,ir)  with integer arguments;
 * aggregates (Vec, Mat, zz_pX, records, pointers) are Value objects whose
   contents are explicit lambdas (Lam) over integer parameters.
"""
import z3
from fractions import Fraction
import itertools

IS = z3.IntSort()
RS_ = z3.DeclareSort('R')          # uninterpreted sort used to talk about ring values inside z3
_ctr = itertools.count()

def fresh_name(p='t'):
    return '%s!%d' % (p, next(_ctr))

def freshvar(p='v'):
    return z3.Int(fresh_name(p))

def Iv(x):
    if isinstance(x, int): return z3.IntVal(x)
    return x

def simp(e):
    return z3.simplify(e, som=False)

TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)

def is_true(e): return z3.is_true(e)
def is_false(e): return z3.is_false(e)

def And_(*cs):
    out = []
    for c in cs:
        if isinstance(c, (list, tuple)):
            out.extend(c)
        else:
            out.append(c)
    out = [c for c in out if not z3.is_true(c)]
    if any(z3.is_false(c) for c in out): return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return z3.And(*out)

def Or_(*cs):
    out = []
    for c in cs:
        if isinstance(c, (list, tuple)):
            out.extend(c)
        else:
            out.append(c)
    out = [c for c in out if not z3.is_false(c)]
    if any(z3.is_true(c) for c in out): return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return z3.Or(*out)

def Not_(c):
    if z3.is_true(c): return FALSE
    if z3.is_false(c): return TRUE
    if z3.is_not(c): return c.arg(0)
    return z3.Not(c)

def If_(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a.eq(b): return a
    return z3.If(c, a, b)

def imin(a, b): return z3.If(Iv(a) <= Iv(b), Iv(a), Iv(b))
def imax(a, b): return z3.If(Iv(a) >= Iv(b), Iv(a), Iv(b))

# ---------------------------------------------------------------- ring terms
class RT:
    __slots__ = ()
    def __add__(s, o): return radd(s, rt(o))
    def __radd__(s, o): return radd(rt(o), s)
    def __sub__(s, o): return radd(s, rmul(RC(-1), rt(o)))
    def __rsub__(s, o): return radd(rt(o), rmul(RC(-1), s))
    def __mul__(s, o): return rmul(s, rt(o))
    def __rmul__(s, o): return rmul(rt(o), s)
    def __neg__(s): return rmul(RC(-1), s)

class RC(RT):
    __slots__ = ('c',)
    def __init__(s, c): s.c = Fraction(c)
    def __repr__(s): return str(s.c)

class RA(RT):
    """atom name(args)"""
    __slots__ = ('name', 'args')
    def __init__(s, name, args=()):
        s.name = name; s.args = tuple(Iv(a) for a in args)
    def __repr__(s): return '%s(%s)' % (s.name, ','.join(map(str, s.args)))

class RAdd(RT):
    __slots__ = ('ts',)
    def __init__(s, ts): s.ts = tuple(ts)
    def __repr__(s): return '(' + ' + '.join(map(repr, s.ts)) + ')'

class RMul(RT):
    __slots__ = ('ts',)
    def __init__(s, ts): s.ts = tuple(ts)
    def __repr__(s): return '*'.join(map(repr, s.ts))

class RIte(RT):
    __slots__ = ('c', 'a', 'b')
    def __init__(s, c, a, b): s.c = c; s.a = a; s.b = b
    def __repr__(s): return '[%s ? %r : %r]' % (s.c, s.a, s.b)

class RSum(RT):
    """sum of body over lo <= v < hi"""
    __slots__ = ('v', 'lo', 'hi', 'body')
    def __init__(s, v, lo, hi, body): s.v = v; s.lo = Iv(lo); s.hi = Iv(hi); s.body = body
    def __repr__(s): return 'SUM[%s in %s..%s](%r)' % (s.v, s.lo, s.hi, s.body)

class RF(RT):
    """opaque function of ring arguments (inverse, power, ...)"""
    __slots__ = ('name', 'rargs', 'iargs')
    def __init__(s, name, rargs, iargs=()):
        s.name = name; s.rargs = tuple(rargs); s.iargs = tuple(Iv(a) for a in iargs)
    def __repr__(s): return '%s{%s;%s}' % (s.name, ','.join(map(repr, s.rargs)), ','.join(map(str, s.iargs)))

R0 = RC(0)
R1 = RC(1)

def rt(x):
    if isinstance(x, RT): return x
    if isinstance(x, (int, Fraction)): return RC(x)
    raise TypeError('not a ring term: %r' % (x,))

def radd(*ts):
    out = []; c = Fraction(0)
    for t in ts:
        if isinstance(t, RC): c += t.c
        elif isinstance(t, RAdd):
            for u in t.ts:
                if isinstance(u, RC): c += u.c
                else: out.append(u)
        else: out.append(t)
    if c != 0 or not out: out.append(RC(c))
    if len(out) == 1: return out[0]
    return RAdd(out)

def rmul(*ts):
    out = []; c = Fraction(1)
    for t in ts:
        if isinstance(t, RC): c *= t.c
        elif isinstance(t, RMul):
            for u in t.ts:
                if isinstance(u, RC): c *= u.c
                else: out.append(u)
        else: out.append(t)
    if c == 0: return R0
    if c != 1 or not out: out.insert(0, RC(c))
    if len(out) == 1: return out[0]
    return RMul(out)

def rite(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a is b: return a
    if isinstance(a, RC) and isinstance(b, RC) and a.c == b.c: return a
    return RIte(c, a, b)

def rsum(lo, hi, f, name='v'):
    v = freshvar(name)
    return RSum(v, lo, hi, f(v))

# ---------------------------------------------------------------- lambdas & values
class Lam:
    __slots__ = ('ps', 'body', '_memo')
    def __init__(s, ps, body): s.ps = tuple(ps); s.body = body; s._memo = None
    def __call__(s, *args):
        args = tuple(Iv(a) for a in args)
        if s._memo is not None and len(s._memo[0]) == len(args) and all(x.eq(y) for x, y in zip(s._memo[0], args)):
            return s._memo[1]
        sg = [(p, a) for p, a in zip(s.ps, args) if not p.eq(a)]
        r = vsubst(s.body, sg) if sg else s.body
        s._memo = (args, r)
        return r
    def __repr__(s): return 'Lam(%s. %r)' % (','.join(map(str, s.ps)), s.body)

def lam(n, f, name='x'):
    ps = tuple(freshvar(name) for _ in range(n))
    return Lam(ps, f(*ps))

class Value:
    __slots__ = ()

class Poly(Value):
    """len is None: normalized polynomial given by its total coefficient function
    (zero outside 0..deg).  Otherwise a raw rep vector of that length."""
    __slots__ = ('len', 'coef', 'fresh')
    def __init__(s, coef, len=None, fresh=False):
        s.coef = coef; s.len = len; s.fresh = fresh     # fresh: zero polynomial whose vector never held anything
    def __repr__(s): return 'Poly(len=%s,%r)' % (s.len, s.coef)

class Vec(Value):
    """Vec<T> or std::vector<T>; fresh=True: elements beyond the current length are
    known to be default values (nothing was ever stored)"""
    # tot: get gives the zero polynomial for every index outside 0..len-1
    __slots__ = ('len', 'get', 'et', 'fresh', 'tot')
    def __init__(s, len, get, et, fresh=False, tot=False): s.len = Iv(len); s.get = get; s.et = et; s.fresh = fresh; s.tot = tot
    def __repr__(s): return 'Vec<%s>(len=%s,%r)' % (s.et, s.len, s.get)

class NPoly(Value):
    """specification only: vector of polynomials without trailing zero polynomial, given by its total coefficient function f(i)"""
    def __init__(s, f): s.f = lam(1, f)

class Mat(Value):
    __slots__ = ('rows', 'cols', 'get', 'et', 'fresh')
    def __init__(s, rows, cols, get, et, fresh=False):
        s.rows = Iv(rows); s.cols = Iv(cols); s.get = get; s.et = et; s.fresh = fresh
    def __repr__(s): return 'Mat<%s>(%s x %s,%r)' % (s.et, s.rows, s.cols, s.get)

class Rec(Value):
    __slots__ = ('cls', 'f')
    def __init__(s, cls, f): s.cls = cls; s.f = f
    def __repr__(s): return '%s{%s}' % (s.cls, ', '.join('%s=%r' % kv for kv in s.f.items()))

class Ptr(Value):
    """pointer to element `off` of the vector-like lvalue `base`; base None: null"""
    __slots__ = ('base', 'off')
    def __init__(s, base, off): s.base = base; s.off = Iv(off)
    def __repr__(s): return 'Ptr(%r,%s)' % (s.base, s.off)

class VIte(Value):
    __slots__ = ('c', 'a', 'b')
    def __init__(s, c, a, b): s.c = c; s.a = a; s.b = b
    def __repr__(s): return 'VIte(%s,%r,%r)' % (s.c, s.a, s.b)

class Void(Value):
    __slots__ = ()
    def __repr__(s): return 'void'

class Opaque(Value):
    """a value the verifier does not interpret (identified by a python object)"""
    __slots__ = ('tag', 'data')
    def __init__(s, tag, data=None): s.tag = tag; s.data = data
    def __repr__(s): return 'Opaque(%s,%r)' % (s.tag, s.data)

VOID = Void()

def zsub(e, sg):
    return z3.substitute(e, *sg)

def rsubst(t, sg):
    if isinstance(t, RC): return t
    if isinstance(t, RA):
        if not t.args: return t
        return RA(t.name, [zsub(a, sg) for a in t.args])
    if isinstance(t, RAdd): return radd(*[rsubst(u, sg) for u in t.ts])
    if isinstance(t, RMul): return rmul(*[rsubst(u, sg) for u in t.ts])
    if isinstance(t, RIte):
        c = simp(zsub(t.c, sg))
        if z3.is_true(c): return rsubst(t.a, sg)
        if z3.is_false(c): return rsubst(t.b, sg)
        return rite(c, rsubst(t.a, sg), rsubst(t.b, sg))
    if isinstance(t, RSum):
        # bound variables are globally unique, but a body may be substituted into itself: rename
        v = freshvar('v')
        sg2 = [(a, b) for a, b in sg if not a.eq(t.v)] + [(t.v, v)]
        return RSum(v, zsub(t.lo, sg), zsub(t.hi, sg), rsubst(t.body, sg2))
    if isinstance(t, RF):
        ia = [simp(zsub(a, sg)) for a in t.iargs]
        return RF(t.name, [rsubst(u, sg) for u in t.rargs], ia)
    raise TypeError(type(t))

def lsubst(l, sg):
    # parameters of a Lam are unique variables: never captured by sg's domain; rename for safety of range
    return Lam(l.ps, vsubst(l.body, sg))

def vsubst(v, sg):
    if not sg: return v
    if isinstance(v, RT): return rsubst(v, sg)
    if isinstance(v, z3.ExprRef): return zsub(v, sg)
    if isinstance(v, Lam):
        rng = set()
        for _, b in sg: rng |= {x.get_id() for x in zconsts(b)}
        if any(p.get_id() in rng for p in v.ps):
            ps = tuple(freshvar('x') for _ in v.ps)
            v = Lam(ps, vsubst(v.body, list(zip(v.ps, ps))))
        return Lam(v.ps, vsubst(v.body, sg))
    if isinstance(v, Poly): return Poly(vsubst(v.coef, sg), None if v.len is None else zsub(v.len, sg))
    if isinstance(v, Vec): return Vec(zsub(v.len, sg), vsubst(v.get, sg), v.et, v.fresh, v.tot)
    if isinstance(v, Mat): return Mat(zsub(v.rows, sg), zsub(v.cols, sg), vsubst(v.get, sg), v.et, v.fresh)
    if isinstance(v, Rec): return Rec(v.cls, {k: vsubst(x, sg) for k, x in v.f.items()})
    if isinstance(v, Ptr): return Ptr(None if v.base is None else v.base.subst(sg), zsub(v.off, sg))
    if isinstance(v, VIte):
        c = simp(zsub(v.c, sg))
        if z3.is_true(c): return vsubst(v.a, sg)
        if z3.is_false(c): return vsubst(v.b, sg)
        return vmerge(c, vsubst(v.a, sg), vsubst(v.b, sg))
    if isinstance(v, Opaque):
        if hasattr(v.data, 'subst'): return Opaque(v.tag, v.data.subst(sg))
        return v
    return v

_zc_cache = {}
def zconsts(e):
    """uninterpreted 0-ary constants occurring in a z3 expression"""
    key = e.get_id()
    r = _zc_cache.get(key)
    if r is not None and r[0].eq(e): return r[1]
    seen = set(); out = {}; st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[i] = x
        elif z3.is_quantifier(x): st.append(x.body())
        else: st.extend(x.children())
    r = list(out.values())
    _zc_cache[key] = (e, r)
    return r

def zfuncs(e):
    """names of uninterpreted functions (arity>0) occurring"""
    seen = set(); out = {}; st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.setdefault(x.decl().name(), x.decl())
        st.extend(x.children())
    return out

def walk_z(v, f):
    """apply f to every z3 expression in v"""
    if isinstance(v, z3.ExprRef): f(v)
    elif isinstance(v, RC): pass
    elif isinstance(v, RA):
        for a in v.args: f(a)
    elif isinstance(v, (RAdd, RMul)):
        for u in v.ts: walk_z(u, f)
    elif isinstance(v, RIte): f(v.c); walk_z(v.a, f); walk_z(v.b, f)
    elif isinstance(v, RSum): f(v.lo); f(v.hi); walk_z(v.body, f)
    elif isinstance(v, RF):
        for u in v.rargs: walk_z(u, f)
        for a in v.iargs: f(a)
    elif isinstance(v, Lam): walk_z(v.body, f)
    elif isinstance(v, Poly):
        if v.len is not None: f(v.len)
        walk_z(v.coef, f)
    elif isinstance(v, Vec): f(v.len); walk_z(v.get, f)
    elif isinstance(v, Mat): f(v.rows); f(v.cols); walk_z(v.get, f)
    elif isinstance(v, Rec):
        for x in v.f.values(): walk_z(x, f)
    elif isinstance(v, Ptr):
        f(v.off)
        if v.base is not None: v.base.walk(f)
    elif isinstance(v, VIte): f(v.c); walk_z(v.a, f); walk_z(v.b, f)

def ratoms(v, out=None):
    """names of ring atoms in a value"""
    if out is None: out = set()
    if isinstance(v, RA): out.add(v.name)
    elif isinstance(v, (RAdd, RMul)):
        for u in v.ts: ratoms(u, out)
    elif isinstance(v, RIte): ratoms(v.a, out); ratoms(v.b, out)
    elif isinstance(v, RSum): ratoms(v.body, out)
    elif isinstance(v, RF):
        for u in v.rargs: ratoms(u, out)
    elif isinstance(v, Lam): ratoms(v.body, out)
    elif isinstance(v, Poly): ratoms(v.coef, out)
    elif isinstance(v, (Vec, Mat)): ratoms(v.get, out)
    elif isinstance(v, Rec):
        for x in v.f.values(): ratoms(x, out)
    elif isinstance(v, VIte): ratoms(v.a, out); ratoms(v.b, out)
    return out

def symbols(v):
    """all symbol names (z3 consts, z3 functions, ring atoms) in a value"""
    out = set()
    def f(e):
        for c in zconsts(e): out.add(c.decl().name())
        out.update(zfuncs(e).keys())
    walk_z(v, f)
    out |= ratoms(v)
    return out

class MergeError(Exception): pass

def vmerge(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a is b: return a
    if isinstance(a, RT) and isinstance(b, RT): return rite(c, a, b)
    # a residue held in a machine integer
    if isinstance(a, RT) and z3.is_int_value(b): return rite(c, a, RC(b.as_long()))
    if isinstance(b, RT) and z3.is_int_value(a): return rite(c, RC(a.as_long()), b)
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        if a.sort() != b.sort(): raise MergeError('sorts')
        return If_(c, a, b)
    if isinstance(a, Lam) and isinstance(b, Lam):
        if len(a.ps) != len(b.ps): raise MergeError('lam arity')
        ps = tuple(freshvar('x') for _ in a.ps)
        return Lam(ps, vmerge(c, a(*ps), b(*ps)))
    if isinstance(a, Poly) and isinstance(b, Poly):
        if a.len is None and b.len is None: return Poly(vmerge(c, a.coef, b.coef))
        if a.len is not None and b.len is not None:
            return Poly(vmerge(c, a.coef, b.coef), If_(c, a.len, b.len))
        return VIte(c, a, b)
    if isinstance(a, Vec) and isinstance(b, Vec):
        return Vec(If_(c, a.len, b.len), vmerge(c, a.get, b.get), a.et, a.fresh and b.fresh, a.tot and b.tot)
    if isinstance(a, Mat) and isinstance(b, Mat):
        return Mat(If_(c, a.rows, b.rows), If_(c, a.cols, b.cols), vmerge(c, a.get, b.get), a.et, a.fresh and b.fresh)
    if isinstance(a, Rec) and isinstance(b, Rec):
        return Rec(a.cls, {k: vmerge(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.base is None and b.base is None: return a
        if a.base is not None and b.base is not None and a.base.same(b.base):
            return Ptr(a.base, If_(c, a.off, b.off))
        return VIte(c, a, b)
    if isinstance(a, Void) and isinstance(b, Void): return a
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.tag == b.tag and a.data is b.data: return a
    if isinstance(a, Value) and isinstance(b, Value): return VIte(c, a, b)
    raise MergeError('merge %s / %s' % (type(a).__name__, type(b).__name__))
