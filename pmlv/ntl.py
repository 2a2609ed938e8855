"""Trusted contracts of the dependencies (NTL scalar/vector/polynomial/matrix layer, libstdc++).
Each entry is the documented behaviour of the NTL function; every one that is used in a run is
listed in the evidence as an assumption."""
import z3, re
from .terms import *
from .prover import *
from .execu import LV, State, Exec, is_poly, overlap
from .front import parse_type, norm_type, RING

def kind(ex, st, a):
    v = ex.load(st, a)
    while isinstance(v, VIte): v = v.a
    if isinstance(v, RT): return 'F'
    if isinstance(v, Poly): return 'P'
    if isinstance(v, Vec): return 'vec:' + str(v.et)
    if isinstance(v, Mat): return 'mat:' + str(v.et)
    if isinstance(v, Rec): return 'rec:' + v.cls
    if isinstance(v, Ptr): return 'ptr'
    if isinstance(v, Opaque): return 'op:' + v.tag
    if isinstance(v, z3.ExprRef): return 'B' if z3.is_bool(v) else 'Z'
    if isinstance(v, Void): return 'V'
    return '?'

SILENT = {'GetWallTime', 'GetTime', 'ceil', 'cbrt', 'floor', 'sqrt', 'log', 'pow', 'log2', 'ModulusInverse', 'PrepMulMod', 'PrepMulModPrecon', 'sp_PrepRem',
          'make_sp_ll_reduce_struct', 'FFTInit'}

def P(f, name='k'): return Poly(lam(1, f, name))

def s_true(c): return z3.is_true(c)

class Builtins:
    def __init__(s):
        s.used = set()
        s.special_types = {
            'fftRep': lambda ex: Rec('fftRep', {'k': ex.fresh_int('fk'), 'v': Vec(ex.fresh_int('fl'), lam(1, lambda i: R0), 'F')}),
            'sp_inverse': lambda ex: Opaque('pre'), 'mulmod_t': lambda ex: Opaque('pre'), 'mulmod_precon_t': lambda ex: Opaque('pre'),
            'ostream': lambda ex: Opaque('stream'), 'string': lambda ex: Opaque('string'),
            'zz_pXModulus': lambda ex: Rec('zz_pXModulus', {'f': Poly(Lam([freshvar('k')], R0))}),
            'zz_pPush': lambda ex: Opaque('push'), 'zz_pBak': lambda ex: Opaque('push'), 'zz_pContext': lambda ex: Opaque('push'),
        }
        s.special_symbolic = {'fftRep': s.sym_fft,
                              'zz_pXModulus': lambda ex, n, a: Rec('zz_pXModulus', {'f': ex.symbolic('P', n + '.f', a)})}

    def sym_fft(s, ex, name, args):
        return Rec('fftRep', {'k': ex.ctx.zapp(name + '.k', list(args)), 'v': Vec(ex.ctx.zapp(name + '.n', list(args)), lam(1, lambda i: ex.symbolic('F', name + '.v', tuple(args) + (i,))), 'F')})

    def prefers(s, f): return False

    def junk(s, ex, ty, name='stale'):
        nm = ex.det_name(name); ls = tuple(ex.loopstack)
        return lambda *idx: ex.symbolic(ty, nm, ls + tuple(idx))

    # ------------------------------------------------------------ constructors
    def construct(s, ex, st, ty, args, n):
        vals = [ex.load(st, a) for a in args]
        vals2 = [v for v in vals if not (isinstance(v, Opaque) and v.tag in ('defaultarg', 'alloc'))]
        args = [a for a, v in zip(args, vals) if not (isinstance(v, Opaque) and v.tag in ('defaultarg', 'alloc'))]
        vals = vals2
        ks = [kind(ex, st, a) for a in args]
        if not args: return ex.default(ty)
        if ty == 'F':
            if ks == ['F']: return vals[0]
            if ks == ['Z']: return ex.int2ring(vals[0])
            return R0
        if ty == 'P':
            if ks == ['P']: return vals[0] if vals[0] is None or not isinstance(vals[0], Poly) else ex.copyp(st, vals[0])
            if ks in (['Z'], ['F']): return ex.constpoly(ex.int2ring(vals[0]) if ks == ['Z'] else vals[0])
            if ks[0].startswith('op:'):
                if ks[0] in ('op:enum', 'op:init', 'op:global'): 
                    if len(ks) == 2 and vals[0].data == 'INIT_MONO': return P(lambda k: rite(k == vals[1], R1, R0))
                    if len(ks) == 3 and vals[0].data == 'INIT_MONO':
                        c = vals[2] if isinstance(vals[2], RT) else ex.int2ring(vals[2])
                        return P(lambda k: rite(k == vals[1], c, R0))
                    return ex.default('P')
            raise Unsupported('zz_pX constructor %s' % ks)
        if ty[0] == 'vec':
            if len(ks) == 1 and ks[0].startswith('vec'): return vals[0]
            if len(ks) == 1 and ks[0] == 'Z':      # std::vector<T>(n)
                ex.oblige(st, vals[0] >= 0, 'bounds', 'vector constructed with nonnegative length')
                z = ex.zero(ty[1])
                return Vec(vals[0], lam(1, lambda i: z), ty[1])
            if len(ks) == 2 and ks[0] in ('op:enum', 'op:init', 'op:global') and ks[1] == 'Z':
                ex.oblige(st, vals[1] >= 0, 'bounds', 'vector constructed with nonnegative length')
                z = ex.default(ty[1]) if ty[1] not in ('Z', 'U') else z3.IntVal(0)
                if ty[1] in ('Z', 'U'):
                    j = s.junk(ex, ty[1]); return Vec(vals[1], lam(1, lambda i: j(i)), ty[1])
                return Vec(vals[1], lam(1, lambda i: z), ty[1])
            if len(ks) == 3 and ks[0] in ('op:enum', 'op:init', 'op:global'): return Vec(vals[1], lam(1, lambda i: vals[2]), ty[1])
            if len(ks) == 2 and ks[0] == 'Z':
                ex.oblige(st, vals[0] >= 0, 'bounds', 'vector constructed with nonnegative length')
                v = ex.convert(st, vals[1], ty[1])
                return Vec(vals[0], lam(1, lambda i: v), ty[1])
            if len(ks) == 2 and ks == ['ptr', 'ptr']:
                a, b = vals
                if a.base is not None and b.base is not None and a.base.same(b.base):
                    src = ex.load(st, a.base)
                    ex.oblige(st, z3.And(a.off >= 0, a.off <= b.off, b.off <= src.len), 'bounds', 'iterator range within the vector')
                    return Vec(simp(b.off - a.off), lam(1, lambda i: src.get(a.off + i)), ty[1])
            if len(ks) == 1 and ks[0] == 'op:initlist':
                vs = [ex.convert(st, x, ty[1]) for x in vals[0].data]
                g = None
                def el(i):
                    r = vs[-1] if vs else ex.zero(ty[1])
                    for q in range(len(vs) - 2, -1, -1): r = vmerge(i == q, vs[q], r)
                    return r
                return Vec(len(vs), lam(1, el), ty[1])
        if ty[0] == 'mat':
            if len(ks) == 1 and ks[0].startswith('mat'): return vals[0]
            if len(ks) == 3 and ks[0] in ('op:enum', 'op:init', 'op:global'):
                ex.oblige(st, z3.And(vals[1] >= 0, vals[2] >= 0), 'bounds', 'matrix constructed with nonnegative dimensions')
                return Mat(vals[1], vals[2], lam(2, lambda i, j: ex.default(ty[1])), ty[1], True)
        if ty[0] == 'rec':
            if ty[1] == 'fftRep':
                if ks == ['rec:fftRep']: return vals[0]
                if len(ks) == 2 and ks[1] == 'Z':
                    v = ex.default(ty); return Rec('fftRep', {'k': vals[1], 'v': v.f['v']})
            if ty[1] == 'zz_pXModulus' and ks == ['P']:
                return Rec('zz_pXModulus', {'f': vals[0]})
            if ty[1] == 'pair' and len(vals) == 2: return Rec('pair', {'first': vals[0], 'second': vals[1]})
            if len(ks) == 1 and ks[0] == 'rec:' + ty[1]: return vals[0]
        if len(vals) == 1 and isinstance(vals[0], Ptr): return vals[0]
        if len(vals) == 1 and isinstance(vals[0], Opaque): return vals[0]
        raise Unsupported('constructor of %s from %s' % (ty, ks))

    # ------------------------------------------------------------ assignment
    def op_assign(s, ex, st, argn, n):
        r = ex.ev(st, argn[1]); lv = ex.ev(st, argn[0])
        v = ex.load(st, r); old = ex.load(st, lv)
        k0 = kind(ex, st, lv); k1 = kind(ex, st, r)
        if k0 == 'F' and k1 == 'Z': v = ex.int2ring(v)
        elif k0 == 'P' and k1 in ('Z', 'F'): v = ex.constpoly(ex.int2ring(v) if k1 == 'Z' else v)
        elif k0 == 'B' and k1 == 'Z': v = v != 0
        elif k0.startswith('vec') and k1 == 'op:initlist':
            v = s.construct(ex, st, ('vec', old.et), [v], n)
        elif k0 != k1 and not (k0.startswith('rec') or k0.startswith('op')): raise Unsupported('assignment %s = %s' % (k0, k1))
        if isinstance(lv, LV) and isinstance(r, LV) and isinstance(v, (Vec, Mat)) and lv.path and lv.path[-1][0] == 'r':
            pass
        if not isinstance(lv, LV): raise Unsupported('assignment to temporary')
        if not getattr(old, 'fresh', False): v = ex.stale(v)
        ex.write(st, lv, v)
        return lv

    # ------------------------------------------------------------ methods
    def method(s, ex, st, b, v, nm, args, n):
        m = getattr(s, 'm_' + nm.replace(' ', '_'), None)
        vals = [ex.load(st, a) for a in args]
        if nm == 'operator=':
            fake = None
            kb = kind(ex, st, b); k1 = kind(ex, st, args[0])
            w = vals[0]
            if kb == 'F' and k1 == 'Z': w = ex.int2ring(w)
            if kb == 'P' and k1 in ('Z', 'F'): w = ex.constpoly(ex.int2ring(w) if k1 == 'Z' else w)
            if not getattr(ex.load(st, b), 'fresh', False): w = ex.stale(w)
            ex.write(st, b, w); return b
        if m is None: raise Unsupported('method %s on %s' % (nm, kind(ex, st, b)))
        return m(ex, st, b, v, vals, args)
    def class_method(s, ex, st, cls, nm, obj, args, n): return None

    def m_length(s, ex, st, b, v, a, args):
        if is_poly(v): return ex.polylen(v)
        if isinstance(v, VIte): return If_(v.c, s.m_length(ex, st, b, v.a, a, args), s.m_length(ex, st, b, v.b, a, args))
        return v.len
    m_size = m_length
    def m_NumRows(s, ex, st, b, v, a, args): return v.rows
    def m_NumCols(s, ex, st, b, v, a, args): return v.cols
    def m_empty(s, ex, st, b, v, a, args): return simp(v.len == 0)
    def m_operator_bool(s, ex, st, b, v, a, args): return v
    def m_LoopHole(s, ex, st, b, v, a, args): return b
    def m_alloc(s, ex, st, b, v, a, args): return VOID
    def m_reserve(s, ex, st, b, v, a, args): return VOID
    def m_SetMaxLength(s, ex, st, b, v, a, args): return VOID
    def m_get(s, ex, st, b, v, a, args):
        if isinstance(v, Mat): return ex.load(st, ex.index(st, ex.index(st, b, a[0]), a[1]))
        return ex.load(st, ex.index(st, b, a[0]))
    def m_put(s, ex, st, b, v, a, args):
        if isinstance(v, Mat): ex.assign(st, ex.index(st, ex.index(st, b, a[0]), a[1]), a[2], v.et)
        else: ex.assign(st, ex.index(st, b, a[0]), a[1], v.et)
        return VOID
    def m_at(s, ex, st, b, v, a, args): return ex.index(st, b, a[0])
    def m_front(s, ex, st, b, v, a, args): return ex.index(st, b, z3.IntVal(0))
    def m_back(s, ex, st, b, v, a, args): return ex.index(st, b, simp(v.len - 1))
    def m_elts(s, ex, st, b, v, a, args):
        lv = ex.aslv(st, b); return Ptr(lv, 0)
    def m_begin(s, ex, st, b, v, a, args): return Ptr(ex.aslv(st, b), 0)
    m_cbegin = m_begin
    m_data = m_begin
    def m_end(s, ex, st, b, v, a, args): return Ptr(ex.aslv(st, b), v.len)
    m_cend = m_end
    def m_kill(s, ex, st, b, v, a, args):
        if is_poly(v): ex.write(st, b, ex.default('P'))
        elif isinstance(v, Vec): ex.write(st, b, Vec(0, lam(1, lambda i: ex.default(v.et)), v.et, True))
        elif isinstance(v, Mat): ex.write(st, b, Mat(0, 0, lam(2, lambda i, j: ex.default(v.et)), v.et, True))
        return VOID
    def m_clear(s, ex, st, b, v, a, args):
        ex.write(st, b, Vec(0, v.get, v.et)); return VOID
    def m_swap(s, ex, st, b, v, a, args):
        w = a[0]; ex.write(st, args[0], v); ex.write(st, b, w); return VOID
    def m_move(s, ex, st, b, v, a, args):
        ex.write(st, b, a[0])
        w = a[0]
        if isinstance(args[0], LV) and not (isinstance(b, LV) and b.same(args[0])):
            if isinstance(w, Mat): ex.write(st, args[0], Mat(0, 0, lam(2, lambda i, j: ex.default(w.et)), w.et, True))
            elif isinstance(w, Vec): ex.write(st, args[0], Vec(0, lam(1, lambda i: ex.default(w.et)), w.et, True))
        return VOID
    def m_append(s, ex, st, b, v, a, args):
        x = ex.convert(st, a[0], v.et)
        if isinstance(x, Vec) and not (isinstance(v.et, tuple) and v.et[0] == 'vec'):
            L = v.len; g = v.get
            ex.write(st, b, Vec(simp(L + x.len), lam(1, lambda i: vmerge(i < L, g(i), x.get(i - L))), v.et)); return VOID
        L = v.len; g = v.get
        ex.write(st, b, Vec(simp(L + 1), lam(1, lambda i: vmerge(simp(i == L), x, g(i))), v.et))
        return VOID
    m_push_back = m_append
    m_emplace_back = m_append
    def m_resize(s, ex, st, b, v, a, args):
        n = a[0]
        ex.oblige(st, n >= 0, 'bounds', 'nonnegative length')
        z = ex.convert(st, a[1], v.et) if len(a) > 1 and not isinstance(a[1], Opaque) else (FALSE if v.et == 'B' else ex.zero(v.et))
        L = v.len; g = v.get
        ex.write(st, b, Vec(n, lam(1, lambda i: vmerge(simp(i < L), g(i), z)), v.et)); return VOID
    def m_assign(s, ex, st, b, v, a, args):
        ex.write(st, b, Vec(a[0], lam(1, lambda i: a[1]), v.et)); return VOID
    def m_SetLength(s, ex, st, b, v, a, args):
        n = simp(a[0])
        if is_poly(v):
            L, c = ex.seal(v)
            ex.oblige(st, n >= 0, 'bounds', 'nonnegative length')
            if isinstance(v, Poly) and v.fresh: ex.write(st, b, Poly(Lam([freshvar('k')], R0), n)); return VOID
            if ex.ctx.prove(st.pc, n <= L, 1000): ex.write(st, b, Poly(c, n)); return VOID
            j = s.junk(ex, 'F')
            ex.write(st, b, Poly(lam(1, lambda k: rite(k < L, c(k), j(k)), 'k'), n)); return VOID
        ex.oblige(st, n >= 0, 'bounds', 'nonnegative length')
        if b.path and b.path[-1][0] == 'r':
            ex.oblige(st, n == v.len, 'bounds', 'row of a matrix keeps its length'); return VOID
        L = v.len; g = v.get
        if ex.ctx.prove(st.pc, n == L, 1000): ex.write(st, b, Vec(n, g, v.et)); return VOID
        if v.fresh and z3.is_int_value(simp(L)) and simp(L).as_long() == 0:
            if v.et in ('Z', 'U', 'B'):
                j = s.junk(ex, v.et); ex.write(st, b, Vec(n, lam(1, lambda i: j(i)), v.et, False)); return VOID
            ex.write(st, b, Vec(n, lam(1, lambda i: ex.default(v.et)), v.et, False)); return VOID
        if ex.ctx.prove(st.pc, n <= L, 1000): ex.write(st, b, Vec(n, g, v.et)); return VOID
        j = s.junk(ex, v.et)
        ex.write(st, b, Vec(n, lam(1, lambda i: vmerge(simp(i < L), g(i), j(i))), v.et))
        s.wf_junk(ex, st, v.et, j)
        return VOID
    def wf_junk(s, ex, st, et, j):
        if isinstance(et, tuple):
            i = freshvar('i'); t = State(); ex.wf(j(i), t)
            for c in t.pc:
                st.assume(z3.ForAll([i], c))
    def m_SetDims(s, ex, st, b, v, a, args):
        n, m = simp(a[0]), simp(a[1])
        ex.oblige(st, z3.And(n >= 0, m >= 0), 'bounds', 'nonnegative dimensions')
        if ex.ctx.prove(st.pc, z3.And(n == v.rows, m == v.cols), 1000):
            ex.write(st, b, Mat(n, m, v.get, v.et)); return VOID
        r0 = simp(v.rows)
        if v.fresh and z3.is_int_value(r0) and r0.as_long() == 0:
            ex.write(st, b, Mat(n, m, lam(2, lambda i, j: ex.default(v.et)), v.et)); return VOID
        jk = s.junk(ex, v.et); g = v.get; R = v.rows; C = v.cols
        ex.write(st, b, Mat(n, m, lam(2, lambda i, j: vmerge(simp(z3.And(C == m, i < R)), g(i, j), jk(i, j))), v.et))
        return VOID
    def m_normalize(s, ex, st, b, v, a, args):
        if is_poly(v): ex.write(st, b, Poly(ex.tcoef(v))); return VOID
        raise Unsupported('normalize')
    def m_erase(s, ex, st, b, v, a, args): raise Unsupported('erase')
    def m_insert(s, ex, st, b, v, a, args): raise Unsupported('insert')

    # ------------------------------------------------------------ free functions
    def call(s, ex, st, name, typ, args, n):
        vals = [ex.load(st, a) for a in args]
        # drop defaulted trailing arguments of dependency functions
        while vals and isinstance(vals[-1], Opaque) and vals[-1].tag == 'defaultarg': vals.pop(); args = args[:-1]
        if name in SILENT:
            if name in ('ceil', 'floor', 'sqrt', 'cbrt', 'log', 'pow', 'log2', 'GetWallTime', 'GetTime'): return Opaque('double')
            return Opaque('pre')
        ks = [kind(ex, st, a) for a in args]
        if name == 'operator<<' and ks and ks[0].startswith('op:'): return vals[0]
        if name == 'endl': return vals[0] if vals else Opaque('stream')
        op = name
        if name.startswith('operator'):
            r = s.operator(ex, st, name[8:].strip(), args, vals, ks, typ, n)
            s.used.add('%s %s' % (name, typ)); return r
        f = getattr(s, 'f_' + name, None)
        if f is None: raise Unsupported('function %s %s' % (name, typ))
        r = f(ex, st, args, vals, ks, typ)
        s.used.add('%s %s' % (name, typ))
        return VOID if r is None else r

    def operator(s, ex, st, op, args, vals, ks, typ, n):
        if op == '[]':
            if ks[0] == 'ptr': return ex.index(st, vals[0], vals[1])
            i = vals[1]
            if isinstance(i, z3.ExprRef) and z3.is_bool(i): i = If_(i, z3.IntVal(1), z3.IntVal(0))
            return ex.index(st, args[0], i)
        if op == '()':
            if ks[0].startswith('mat'):
                return ex.index(st, ex.index(st, args[0], simp(vals[1] - 1)), simp(vals[2] - 1))
            if ks[0].startswith('vec'): return ex.index(st, args[0], simp(vals[1] - 1))
        if op == '->': return args[0]
        if ks[0] == 'ptr' or (len(ks) > 1 and ks[1] == 'ptr'):
            if op == '*' and len(ks) == 1: return ex.index(st, vals[0], z3.IntVal(0))
            if op in ('++', '--'):
                nv = Ptr(vals[0].base, simp(vals[0].off + (1 if op == '++' else -1)))
                ex.write(st, args[0], nv)
                return vals[0] if len(ks) > 1 else args[0]
            if op in ('+=', '-='):
                nv = ex.ptrop(st, op[0], vals[0], vals[1]); ex.write(st, args[0], nv); return args[0]
            return ex.ptrop(st, op, vals[0], vals[1])
        if op in ('+=', '-=', '*=', '/=', '<<=', '>>=', '%='):
            v = s.arith(ex, st, op[:-1], args, vals, ks)
            ex.write(st, args[0], v); return args[0]
        if op in ('++', '--') and ks[0] == 'F':
            nv = vals[0] + (1 if op == '++' else -1); ex.write(st, args[0], nv); return vals[0] if len(ks) > 1 else args[0]
        if op == '-' and len(ks) == 1: return s.neg(ex, st, vals[0])
        if op in ('+', '-', '*', '/', '<<', '>>', '%', '^'): return s.arith(ex, st, op, args, vals, ks)
        if op in ('==', '!='):
            e = s.eq(ex, st, vals[0], vals[1], ks)
            return e if op == '==' else Not_(e)
        if op in ('<', '<=', '>', '>=') and ks == ['Z', 'Z']:
            a, b = vals
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        raise Unsupported('operator%s on %s' % (op, ks))

    def toF(s, ex, v): return ex.int2ring(v) if isinstance(v, z3.ExprRef) else v
    def np(s, ex, st, p, w='operand'): return ex.tcoef(ex.normalized(st, p, w))

    def neg(s, ex, st, v):
        if isinstance(v, RT): return -v
        if is_poly(v):
            c = s.np(ex, st, v); return P(lambda k: -c(k))
        if isinstance(v, Vec): return Vec(v.len, lam(1, lambda i: s.negq(ex, v.get(i))), v.et)
        if isinstance(v, Mat): return Mat(v.rows, v.cols, lam(2, lambda i, j: s.negq(ex, v.get(i, j))), v.et)
        raise Unsupported('negation')
    def negq(s, ex, v):
        if isinstance(v, RT): return -v
        c = ex.tcoef(v); return P(lambda k: -c(k))

    def eq(s, ex, st, a, b, ks):
        k0, k1 = ks
        if k0 in ('F', 'Z') and k1 in ('F', 'Z'):
            if k0 == 'Z' and k1 == 'Z': return a == b
            return ex.ctx.req(s.toF(ex, a), s.toF(ex, b))
        if k0 == 'P' and k1 in ('Z', 'F'):
            r = s.toF(ex, b); L = ex.polylen(ex.normalized(st, a)); c = ex.seal(a)[1]
            return z3.Or(z3.And(L == 0, ex.ctx.isz(r)), z3.And(L == 1, ex.ctx.req(c(0), r)))
        if k0 in ('Z', 'F') and k1 == 'P': return s.eq(ex, st, b, a, [k1, k0])
        if k0 == 'P' and k1 == 'P':
            a = ex.normalized(st, a); b = ex.normalized(st, b)
            La, ca = ex.seal(a); Lb, cb = ex.seal(b); k = freshvar('k')
            return z3.And(La == Lb, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < La), ex.ctx.req(ca(k), cb(k)))))
        if k0.startswith('vec') and k1.startswith('vec'):
            i = freshvar('i')
            return z3.And(a.len == b.len, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.len), s.eq(ex, st, a.get(i), b.get(i), [kind(ex, st, a.get(i)), kind(ex, st, b.get(i))]))))
        if k0.startswith('mat') and k1.startswith('mat'):
            i = freshvar('i'); j = freshvar('j')
            x = a.get(i, j); y = b.get(i, j)
            return z3.And(a.rows == b.rows, a.cols == b.cols, z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < a.rows, j >= 0, j < a.cols), s.eq(ex, st, x, y, [kind(ex, st, x), kind(ex, st, y)]))))
        raise Unsupported('equality on %s' % (ks,))

    def arith(s, ex, st, op, args, vals, ks):
        a, b = vals; k0, k1 = ks
        if op in ('<<', '>>') and k0 == 'P':
            return s.shift(ex, st, a, b if op == '<<' else -b)
        if k0 in ('Z', 'F') and k1 in ('Z', 'F') and 'F' in (k0, k1):
            x, y = s.toF(ex, a), s.toF(ex, b)
            if op == '+': return x + y
            if op == '-': return x - y
            if op == '*': return x * y
            if op == '/': return x * s.inv(ex, st, y)
        if op == '^' and k0 == 'F': return s.pw(ex, st, a, b)
        if k0 == 'P' or k1 == 'P':
            if k0 in ('Z', 'F') and op == '*': a, b, k0, k1 = b, a, k1, k0
            if k1 in ('Z', 'F') and op in ('*', '/'):
                r = s.toF(ex, b)
                if op == '/': r = s.inv(ex, st, r)
                c = s.np(ex, st, a); return P(lambda k: c(k) * r)
            if k0 in ('Z', 'F'): a = ex.constpoly(s.toF(ex, a)); k0 = 'P'
            if k1 in ('Z', 'F'): b = ex.constpoly(s.toF(ex, b)); k1 = 'P'
            if op in ('+', '-'):
                x, y = s.np(ex, st, a), s.np(ex, st, b)
                return P(lambda k: x(k) + y(k)) if op == '+' else P(lambda k: x(k) - y(k))
            if op == '*': return s.pmul(ex, st, a, b)
        if k0 == k1 and k0 == 'vec:F' and op in ('+', '-'):
            ex.oblige(st, a.len == b.len, 'precondition', 'vector operands have the same length')
            return Vec(a.len, lam(1, lambda i: a.get(i) + b.get(i) if op == '+' else a.get(i) - b.get(i)), 'F')
        if k0 == 'vec:F' and k1 in ('F', 'Z') and op == '*':
            r = s.toF(ex, b); return Vec(a.len, lam(1, lambda i: a.get(i) * r), 'F')
        if k1 == 'vec:F' and k0 in ('F', 'Z') and op == '*':
            r = s.toF(ex, a); return Vec(b.len, lam(1, lambda i: b.get(i) * r), 'F')
        if k0 == k1 and k0 == 'mat:F' and op in ('+', '-'):
            ex.oblige(st, z3.And(a.rows == b.rows, a.cols == b.cols), 'precondition', 'matrix operands have the same dimensions')
            return Mat(a.rows, a.cols, lam(2, lambda i, j: a.get(i, j) + b.get(i, j) if op == '+' else a.get(i, j) - b.get(i, j)), 'F')
        if k0 == k1 == 'mat:F' and op == '*': return s.matmul(ex, st, a, b)
        if k0 == 'mat:F' and k1 in ('F', 'Z') and op == '*':
            r = s.toF(ex, b); return Mat(a.rows, a.cols, lam(2, lambda i, j: a.get(i, j) * r), 'F')
        if k1 == 'mat:F' and k0 in ('F', 'Z') and op == '*':
            r = s.toF(ex, a); return Mat(b.rows, b.cols, lam(2, lambda i, j: b.get(i, j) * r), 'F')
        if k0 == 'mat:F' and k1 == 'vec:F' and op == '*':
            ex.oblige(st, a.cols == b.len, 'precondition', 'matrix-vector dimensions agree')
            return Vec(a.rows, lam(1, lambda i: rsum(0, a.cols, lambda u: a.get(i, u) * b.get(u))), 'F')
        if k0 == 'vec:F' and k1 == 'mat:F' and op == '*':
            ex.oblige(st, b.rows == a.len, 'precondition', 'vector-matrix dimensions agree')
            return Vec(b.cols, lam(1, lambda j: rsum(0, b.rows, lambda u: a.get(u) * b.get(u, j))), 'F')
        if k0 == k1 == 'vec:F' and op == '*':
            return rsum(0, imin(a.len, b.len), lambda u: a.get(u) * b.get(u))
        raise Unsupported('operator %s on %s' % (op, ks))

    def matmul(s, ex, st, a, b):
        ex.oblige(st, a.cols == b.rows, 'precondition', 'matrix product dimensions agree')
        return Mat(a.rows, b.cols, lam(2, lambda i, j: rsum(0, a.cols, lambda u: a.get(i, u) * b.get(u, j))), 'F')
    def pmul(s, ex, st, a, b):
        x, y = s.np(ex, st, a), s.np(ex, st, b)
        return P(lambda k: rsum(0, k + 1, lambda u: x(u) * y(k - u)))
    def shift(s, ex, st, a, n):
        n = simp(n)
        c = s.np(ex, st, a)
        if ex.ctx.prove(st.pc, n >= 0, 1000): return P(lambda k: rite(simp(k >= n), c(k - n), R0))
        return P(lambda k: rite(simp(z3.And(k >= 0, k >= n)), c(k - n), R0))
    def inv(s, ex, st, r):
        if isinstance(r, RC) and abs(r.c) == 1: return r
        if RING[0]: raise Unsupported('division in the polynomial ring')
        ex.oblige(st, Not_(ex.ctx.isz(r)), 'arithmetic', 'inverse of a nonzero element')
        return s.rinv(r)
    def rinv(s, r):
        if isinstance(r, RF) and r.name == 'inv': return r.rargs[0]
        if isinstance(r, RMul): return rmul(*[s.rinv(u) for u in r.ts])
        if isinstance(r, RC) and r.c != 0: return RC(1 / r.c)
        return RF('inv', (r,))
    def pw(s, ex, st, a, n):
        n = simp(n)
        if z3.is_int_value(n) and 0 <= n.as_long() <= 6: return rmul(*([a] * n.as_long())) if n.as_long() else R1
        return RF('pow', (a,), (n,))

    # --- scalar
    def setv(s, ex, st, lv, v): ex.write(st, lv, v); return VOID
    def bin3(s, ex, st, op, args, vals, ks):
        """NTL three-operand form x = a op b"""
        v = s.arith(ex, st, op, args[1:3], vals[1:3], ks[1:3])
        if ks[0] == 'P' and isinstance(v, RT): v = ex.constpoly(v)
        if isinstance(v, Vec) and args[0].path and args[0].path[-1][0] == 'r' and False: pass
        ex.write(st, args[0], v); return VOID
    def f_add(s, ex, st, args, vals, ks, typ):
        if ks[0] == 'rec:fftRep': return s.fftadd(ex, st, args, vals, 1)
        return s.bin3(ex, st, '+', args, vals, ks)
    def f_sub(s, ex, st, args, vals, ks, typ):
        if ks[0] == 'rec:fftRep': return s.fftadd(ex, st, args, vals, -1)
        return s.bin3(ex, st, '-', args, vals, ks)
    def f_mul(s, ex, st, args, vals, ks, typ):
        if ks[0] == 'rec:fftRep': return s.fftmul(ex, st, args, vals)
        return s.bin3(ex, st, '*', args, vals, ks)
    def f_sqr(s, ex, st, args, vals, ks, typ):
        if len(args) == 1: return s.arith(ex, st, '*', [args[0]] * 2, [vals[0]] * 2, [ks[0]] * 2)
        return s.setv(ex, st, args[0], s.arith(ex, st, '*', [args[1]] * 2, [vals[1]] * 2, [ks[1]] * 2))
    def f_div(s, ex, st, args, vals, ks, typ):
        if ks[1] == 'F': return s.bin3(ex, st, '/', args, vals, ks)
        raise Unsupported('polynomial division')
    def f_negate(s, ex, st, args, vals, ks, typ): return s.setv(ex, st, args[0], s.neg(ex, st, vals[1]))
    def f_inv(s, ex, st, args, vals, ks, typ):
        if len(args) == 1:
            if ks[0] == 'F': return s.inv(ex, st, vals[0])
        elif ks == ['F', 'F']: return s.setv(ex, st, args[0], s.inv(ex, st, vals[1]))
        raise Unsupported('inv %s' % ks)
    def f_power(s, ex, st, args, vals, ks, typ):
        if len(args) == 2 and ks[0] == 'F': return s.pw(ex, st, vals[0], vals[1])
        if len(args) == 3 and ks[1] == 'F': return s.setv(ex, st, args[0], s.pw(ex, st, vals[1], vals[2]))
        raise Unsupported('power %s' % ks)
    def f_rep(s, ex, st, args, vals, ks, typ): return vals[0]
    def f_modulus(s, ex, st, args, vals, ks, typ):
        m = ex.ctx.zapp('modulus', []); st.assume(m >= 2); return m
    def f_to_zz_p(s, ex, st, args, vals, ks, typ): return s.toF(ex, vals[0])
    def f_to_zz_pX(s, ex, st, args, vals, ks, typ): return ex.constpoly(s.toF(ex, vals[0]))
    def f_conv(s, ex, st, args, vals, ks, typ):
        if len(args) == 2:
            if ks[0] == 'F' and ks[1] in ('Z', 'F'): return s.setv(ex, st, args[0], s.toF(ex, vals[1]))
            if ks[0] == 'P' and ks[1] in ('Z', 'F'): return s.setv(ex, st, args[0], ex.constpoly(s.toF(ex, vals[1])))
            if ks[0] == 'P' and ks[1] == 'vec:F':
                v = vals[1]; return s.setv(ex, st, args[0], P(lambda k: rite(z3.And(k >= 0, k < v.len), v.get(k), R0)))
            if ks[0] == ks[1]: return s.setv(ex, st, args[0], vals[1])
        raise Unsupported('conv %s' % ks)
    def resid(s, ex, vals): return [s.toF(ex, v) for v in vals[:2]]
    def f_AddMod(s, ex, st, args, vals, ks, typ):
        if ks[:2] == ['Z', 'Z'] : raise Unsupported('AddMod on integers')
        a, b = s.resid(ex, vals); return a + b
    def f_SubMod(s, ex, st, args, vals, ks, typ):
        if ks[:2] == ['Z', 'Z'] : raise Unsupported('SubMod on integers')
        a, b = s.resid(ex, vals); return a - b
    def f_MulMod(s, ex, st, args, vals, ks, typ):
        if ks[:2] == ['Z', 'Z'] or 'P' in ks: raise Unsupported('MulMod on integers')
        a, b = s.resid(ex, vals); return a * b
    f_MulModPrecon = f_MulMod
    def f_IsZero(s, ex, st, args, vals, ks, typ):
        v = vals[0]
        if ks[0] == 'F': return ex.ctx.isz(v)
        if ks[0] == 'P': return simp(ex.polylen(ex.normalized(st, v)) == 0)
        if ks[0] == 'vec:F':
            i = freshvar('i'); return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v.len), ex.ctx.isz(v.get(i))))
        if ks[0] == 'mat:F':
            i = freshvar('i'); j = freshvar('j')
            return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < v.rows, j >= 0, j < v.cols), ex.ctx.isz(v.get(i, j))))
        raise Unsupported('IsZero %s' % ks)
    def f_IsOne(s, ex, st, args, vals, ks, typ):
        v = vals[0]
        if ks[0] == 'F': return ex.ctx.req(v, R1)
        if ks[0] == 'P':
            L, c = ex.seal(ex.normalized(st, v)); return z3.And(L == 1, ex.ctx.req(c(0), R1))
        raise Unsupported('IsOne')
    def f_clear(s, ex, st, args, vals, ks, typ):
        v = vals[0]
        if ks[0] == 'F': return s.setv(ex, st, args[0], R0)
        if ks[0] == 'P': return s.setv(ex, st, args[0], ex.default('P'))
        if isinstance(v, Vec): return s.setv(ex, st, args[0], Vec(v.len, lam(1, lambda i: ex.default(v.et)), v.et))
        if isinstance(v, Mat): return s.setv(ex, st, args[0], Mat(v.rows, v.cols, lam(2, lambda i, j: ex.default(v.et)), v.et))
        raise Unsupported('clear %s' % ks)
    def f_set(s, ex, st, args, vals, ks, typ):
        if ks[0] == 'F': return s.setv(ex, st, args[0], R1)
        if ks[0] == 'P': return s.setv(ex, st, args[0], ex.constpoly(R1))
        raise Unsupported('set')
    def f_swap(s, ex, st, args, vals, ks, typ):
        a, b = vals; ex.write(st, args[0], b); ex.write(st, args[1], a); return VOID
    # --- polynomials
    def f_deg(s, ex, st, args, vals, ks, typ):
        return simp(ex.polylen(ex.normalized(st, vals[0], 'argument of deg')) - 1)
    def f_coeff(s, ex, st, args, vals, ks, typ):
        c = s.np(ex, st, vals[0], 'argument of coeff'); i = vals[1]
        return ex.rd(st, rite(simp(i >= 0), c(i), R0))
    def f_GetCoeff(s, ex, st, args, vals, ks, typ):
        c = s.np(ex, st, vals[1]); i = vals[2]
        return s.setv(ex, st, args[0], rite(simp(i >= 0), c(i), R0))
    def f_ConstTerm(s, ex, st, args, vals, ks, typ): return s.np(ex, st, vals[0])(0)
    def f_LeadCoeff(s, ex, st, args, vals, ks, typ):
        L, c = ex.seal(ex.normalized(st, vals[0])); return rite(L > 0, c(L - 1), R0)
    def f_SetCoeff(s, ex, st, args, vals, ks, typ):
        i = vals[1]
        if isinstance(vals[0], Poly) and vals[0].len is not None and ex.ctx.prove(st.pc, i < vals[0].len, 1000): c = ex.tcoef(vals[0])   # SetCoeff normalizes
        else: c = s.np(ex, st, vals[0], 'argument of SetCoeff')
        a = s.toF(ex, vals[2]) if len(vals) > 2 else R1
        ex.oblige(st, i >= 0, 'precondition', 'SetCoeff with a nonnegative index')
        return s.setv(ex, st, args[0], P(lambda k: rite(simp(k == i), a, c(k))))
    def f_SetX(s, ex, st, args, vals, ks, typ): return s.setv(ex, st, args[0], P(lambda k: rite(k == 1, R1, R0)))
    def f_LeftShift(s, ex, st, args, vals, ks, typ):
        if len(args) == 3: return s.setv(ex, st, args[0], s.shift(ex, st, vals[1], vals[2]))
        return s.shift(ex, st, vals[0], vals[1])
    def f_RightShift(s, ex, st, args, vals, ks, typ):
        if len(args) == 3: return s.setv(ex, st, args[0], s.shift(ex, st, vals[1], -vals[2]))
        return s.shift(ex, st, vals[0], -vals[1])
    def f_trunc(s, ex, st, args, vals, ks, typ):
        a, m = (vals[1], vals[2]) if len(args) == 3 else (vals[0], vals[1])
        ex.oblige(st, m >= 0, 'precondition', 'truncation order is nonnegative')
        c = s.np(ex, st, a)
        r = P(lambda k: rite(simp(k < m), c(k), R0))
        return s.setv(ex, st, args[0], r) if len(args) == 3 else r
    def f_reverse(s, ex, st, args, vals, ks, typ):
        if ks[0] == 'ptr':
            a, b = vals
            v = ex.load(st, a.base); g = v.get; lo, hi = a.off, b.off
            ex.oblige(st, z3.And(lo >= 0, lo <= hi, hi <= v.len), 'bounds', 'range within the vector')
            ex.write(st, a.base, Vec(v.len, lam(1, lambda i: vmerge(simp(z3.And(i >= lo, i < hi)), g(lo + hi - 1 - i), g(i))), v.et)); return VOID
        if len(args) == 3: x, a, m = vals
        elif len(args) == 2 and ks == ['P', 'Z']: a, m = vals
        elif len(args) == 2: a = vals[1]; m = simp(ex.polylen(a) - 1)
        else: a = vals[0]; m = simp(ex.polylen(a) - 1)
        c = s.np(ex, st, a)
        r = P(lambda k: rite(simp(z3.And(k >= 0, k <= m)), c(m - k), R0))
        return s.setv(ex, st, args[0], r) if (len(args) == 3 or (len(args) == 2 and ks != ['P', 'Z'])) else r
    def f_MulTrunc(s, ex, st, args, vals, ks, typ):
        a, b, m = vals[-3:]
        ex.oblige(st, m >= 0, 'precondition', 'truncation order is nonnegative')
        c = s.pmul(ex, st, a, b).coef
        r = P(lambda k: rite(simp(k < m), c(k), R0))
        return s.setv(ex, st, args[0], r) if len(args) == 4 else r
    def f_eval(s, ex, st, args, vals, ks, typ):
        f, a = vals[-2:]
        if not isinstance(a, RT): raise Unsupported('eval at a vector')
        L, c = ex.seal(ex.normalized(st, f))
        r = rsum(0, L, lambda u: c(u) * RF('pow', (a,), (u,)))
        return s.setv(ex, st, args[0], r) if len(args) == 3 else r
    def f_diff(s, ex, st, args, vals, ks, typ):
        c = s.np(ex, st, vals[-1])
        r = P(lambda k: rite(k >= 0, c(k + 1) * RF('int', (), (k + 1,)), R0))
        return s.setv(ex, st, args[0], r) if len(args) == 2 else r
    # --- matrices
    def f_ident(s, ex, st, args, vals, ks, typ):
        if ks[0] != 'mat:F': raise Unsupported('ident %s' % ks)
        n = vals[1]
        return s.setv(ex, st, args[0], Mat(n, n, lam(2, lambda i, j: rite(simp(i == j), R1, R0)), 'F'))
    def f_transpose(s, ex, st, args, vals, ks, typ):
        a = vals[-1]
        if a.et != 'F': raise Unsupported('transpose')
        r = Mat(a.cols, a.rows, lam(2, lambda i, j: a.get(j, i)), 'F')
        return s.setv(ex, st, args[0], r) if len(args) == 2 else r
    def f_VectorCopy(s, ex, st, args, vals, ks, typ):
        v = vals[-2]; n = vals[-1]
        r = Vec(n, lam(1, lambda i: rite(simp(i < v.len), v.get(i), R0)), 'F')
        return s.setv(ex, st, args[0], r) if len(args) == 3 else r
    # --- integers
    def f_max(s, ex, st, args, vals, ks, typ):
        if len(vals) == 1 and ks[0] == 'op:initlist':
            r = vals[0].data[0]
            for x in vals[0].data[1:]: r = simp(imax(r, x))
            return r
        a, b = vals[:2]; return simp(imax(a, b))
    def f_min(s, ex, st, args, vals, ks, typ):
        if len(vals) == 1 and ks[0] == 'op:initlist':
            r = vals[0].data[0]
            for x in vals[0].data[1:]: r = simp(imin(r, x))
            return r
        a, b = vals[:2]; return simp(imin(a, b))
    def f_abs(s, ex, st, args, vals, ks, typ): return If_(vals[0] >= 0, vals[0], -vals[0])
    def f_NextPowerOfTwo(s, ex, st, args, vals, ks, typ):
        m = vals[0]
        if 'npt' not in ex.ctx.axioms:
            x = z3.Int('x!npt'); f = ex.ctx.zf('npt', 1); p = ex.ctx.zf('pow2', 1)
            ex.pow2(st, x)
            ex.ctx.axiom('npt', z3.ForAll([x], z3.And(f(x) >= 0, p(f(x)) >= x), patterns=[f(x)]))
        return ex.ctx.zapp('npt', [m])
    def f_NumBits(s, ex, st, args, vals, ks, typ):
        r = ex.fresh_int('bits'); st.assume(r >= 0); return r
    def f_IsFFTPrime(s, ex, st, args, vals, ks, typ): return ex.ctx.zapp('isfftprime', [], z3.BoolSort())
    # --- errors
    def err(s, ex, st):
        ex.error_path(st.copy()); st.pc.append(FALSE); return VOID
    def f_LogicError(s, ex, st, args, vals, ks, typ): return s.err(ex, st)
    f_Error = f_LogicError
    f_ResourceError = f_LogicError
    f_TerminalError = f_LogicError
    f_InputError = f_LogicError
    f_ArithmeticError = f_LogicError
    f_InvModError = f_LogicError
    # --- std algorithms
    def rng(s, ex, st, a, b):
        if a.base is None or not a.base.same(b.base): raise Unsupported('iterator range')
        v = ex.load(st, a.base)
        ex.oblige(st, z3.And(a.off >= 0, a.off <= b.off, b.off <= v.len), 'bounds', 'iterator range within the vector')
        return v, a.off, b.off
    def f_fill(s, ex, st, args, vals, ks, typ):
        v, lo, hi = s.rng(ex, st, vals[0], vals[1]); g = v.get; x = ex.convert(st, vals[2], v.et)
        ex.write(st, vals[0].base, Vec(v.len, lam(1, lambda i: vmerge(simp(z3.And(i >= lo, i < hi)), x, g(i))), v.et)); return VOID
    def f_iota(s, ex, st, args, vals, ks, typ):
        v, lo, hi = s.rng(ex, st, vals[0], vals[1]); g = v.get; x = vals[2]
        ex.write(st, vals[0].base, Vec(v.len, lam(1, lambda i: vmerge(simp(z3.And(i >= lo, i < hi)), simp(x + i - lo), g(i))), v.et)); return VOID
    def f_copy(s, ex, st, args, vals, ks, typ):
        v, lo, hi = s.rng(ex, st, vals[0], vals[1]); return s.cp(ex, st, v, lo, simp(hi - lo), vals[2])
    def f_copy_n(s, ex, st, args, vals, ks, typ):
        a = vals[0]; v = ex.load(st, a.base); n = vals[1]
        ex.oblige(st, z3.And(a.off >= 0, n >= 0, a.off + n <= v.len), 'bounds', 'iterator range within the vector')
        return s.cp(ex, st, v, a.off, n, vals[2])
    def cp(s, ex, st, v, lo, n, d):
        w = ex.load(st, d.base); g = w.get
        ex.oblige(st, z3.And(d.off >= 0, d.off + n <= w.len), 'bounds', 'destination range within the vector')
        o = d.off
        ex.write(st, d.base, Vec(w.len, lam(1, lambda i: vmerge(simp(z3.And(i >= o, i < o + n)), v.get(lo + i - o), g(i))), w.et))
        return Ptr(d.base, simp(o + n))
    def extremum(s, ex, st, vals, op):
        from .loops import mkred
        v, lo, hi = s.rng(ex, st, vals[0], vals[1])
        r = ex.fresh_int('ext')
        m = freshvar('m')
        ge = (lambda a, b: a >= b) if op == 'max' else (lambda a, b: a <= b)
        st.assume(z3.Implies(lo == hi, r == hi))
        st.assume(z3.Implies(lo < hi, z3.And(r >= lo, r < hi, z3.ForAll([m], z3.Implies(z3.And(m >= lo, m < hi), ge(v.get(r), v.get(m)))),
                                             z3.ForAll([m], z3.Implies(z3.And(m >= lo, m < r), v.get(m) != v.get(r))))))
        return Ptr(vals[0].base, r)
    def f_find(s, ex, st, args, vals, ks, typ):
        v, lo, hi = s.rng(ex, st, vals[0], vals[1]); x = ex.convert(st, vals[2], v.et)
        r = ex.fresh_int('find'); m = freshvar('m')
        st.assume(z3.And(r >= lo, r <= hi), z3.Implies(r < hi, v.get(r) == x), z3.ForAll([m], z3.Implies(z3.And(m >= lo, m < r), v.get(m) != x)))
        return Ptr(vals[0].base, r)
    def f_adjacent_find(s, ex, st, args, vals, ks, typ):
        v, lo, hi = s.rng(ex, st, vals[0], vals[1])
        if len(vals) == 2: rel = lambda a, b: a == b
        elif 'greater_equal' in typ: rel = lambda a, b: a >= b
        elif 'greater' in typ: rel = lambda a, b: a > b
        elif 'less_equal' in typ: rel = lambda a, b: a <= b
        elif 'less' in typ: rel = lambda a, b: a < b
        else: raise Unsupported('adjacent_find with this predicate')
        r = ex.fresh_int('adj'); m = freshvar('m')
        st.assume(z3.And(r >= lo, r <= hi, r != hi - 1), z3.Implies(r < hi, rel(v.get(r), v.get(simp(r + 1)))))
        i = freshvar('i'); j = freshvar('j')
        for lo_, hi_, W_, got in getattr(ex, 'sortedvecs', []):
            # sorted and without equal neighbours: strictly increasing
            if len(vals) == 2 and lo_.eq(lo) and hi_.eq(hi) and simp(v.get(i)).eq(simp(got(i))):
                st.assume(z3.ForAll([i, j], z3.Implies(z3.And(r == hi, lo <= i, i < j, j < hi), W_(i) < W_(j)), patterns=[z3.MultiPattern(W_(i), W_(j))]))
                return Ptr(vals[0].base, r)
        st.assume(z3.ForAll([m], z3.Implies(z3.And(m >= lo, m < r, m + 1 < hi), z3.Not(rel(v.get(m), v.get(simp(m + 1)))))))
        return Ptr(vals[0].base, r)
    def f_sort(s, ex, st, args, vals, ks, typ):
        """a nondecreasing permutation of the range: w(i) = v(p(i)), with q the inverse of p"""
        if len(vals) != 2: raise Unsupported('sort with a predicate')
        v, lo, hi = s.rng(ex, st, vals[0], vals[1])
        if v.et != 'Z': raise Unsupported('sort of non-integers')
        ls = list(ex.loopstack); W, Pn, Qn = [ex.det_name(t) for t in ('sorted', 'perm', 'iperm')]
        W_, P_, Q_ = [(lambda i, nm=nm: ex.ctx.zapp(nm, ls + [i])) for nm in (W, Pn, Qn)]
        i = freshvar('i'); j = freshvar('j'); R = lambda x: z3.And(x >= lo, x < hi)
        st.assume(z3.ForAll([i], z3.Implies(R(i), z3.And(W_(i) == v.get(P_(i)), R(P_(i)), Q_(P_(i)) == i)), patterns=[W_(i)]))
        old = v.get(i)
        pats = [Q_(i)] + ([old] if z3.is_app(old) and old.decl().kind() == z3.Z3_OP_UNINTERPRETED and occurs(i, old) else [])
        st.assume(z3.ForAll([i], z3.Implies(R(i), z3.And(W_(Q_(i)) == old, R(Q_(i)), P_(Q_(i)) == i)), patterns=pats))
        st.assume(z3.ForAll([i, j], z3.Implies(z3.And(lo <= i, i < j, j < hi), W_(i) <= W_(j)), patterns=[z3.MultiPattern(W_(i), W_(j))]))
        g = v.get
        full = s_true(simp(lo == 0)) and s_true(simp(hi == v.len))
        new = lam(1, (lambda k: W_(k)) if full else (lambda k: simp(z3.If(z3.And(k >= lo, k < hi), W_(k), g(k)))))
        if not hasattr(ex, 'sortedvecs'): ex.sortedvecs = []
        ex.sortedvecs.append((lo, hi, W_, new))
        ex.write(st, vals[0].base, Vec(v.len, new, v.et)); return VOID
    def f_gauss(s, ex, st, args, vals, ks, typ):
        if len(vals) != 1 or not isinstance(vals[0], Mat) or vals[0].et != 'F': raise Unsupported('gauss')
        a = vals[0]; r = ex.rank(a)
        jk = s.junk(ex, 'F')
        ex.write(st, args[0], Mat(a.rows, a.cols, lam(2, lambda i, j: jk(i, j)), 'F'))
        return r
    def f_max_element(s, ex, st, args, vals, ks, typ): return s.extremum(ex, st, vals, 'max')
    def f_min_element(s, ex, st, args, vals, ks, typ): return s.extremum(ex, st, vals, 'min')
    # --- FFT representations: residues modulo X^(2^k) - 1
    def f_TofftRep(s, ex, st, args, vals, ks, typ):
        x = vals[1]; k = vals[2]
        x = ex.normalized(st, x)
        L, c = ex.seal(x); c = ex.tcoef(x)     # c is total: zero outside 0..L-1
        lo, hi = z3.IntVal(0), simp(L - 1)
        if len(vals) == 5: lo, hi = vals[3], simp(imin(vals[4], L - 1))
        N = ex.pow2(st, k)
        full = len(vals) != 5
        ex.oblige(st, k >= 0, 'precondition', 'FFT exponent is nonnegative')
        if ex.ctx.prove(st.pc, hi - lo + 1 <= N):
            g = lam(1, lambda i: c(i)) if full else lam(1, lambda i: rite(simp(z3.And(i >= 0, i <= vals[4] - lo)), c(lo + i), R0))
        elif ex.ctx.prove(st.pc, hi - lo + 1 <= 2 * N):
            g = lam(1, lambda i: rite(simp(i <= hi - lo), c(lo + i), R0) + rite(simp(i + N <= hi - lo), c(lo + i + N), R0))
        else: raise Unsupported('folded FFT representation')
        return s.setv(ex, st, args[0], Rec('fftRep', {'k': k, 'v': Vec(N, g, 'F')}))
    def fftmul(s, ex, st, args, vals):
        a, b = vals[1], vals[2]
        ex.oblige(st, a.f['k'] == b.f['k'], 'precondition', 'FFT representations of the same size')
        N = a.f['v'].len; x, y = a.f['v'].get, b.f['v'].get
        g = lam(1, lambda i: rsum(0, i + 1, lambda u: x(u) * y(i - u)) + rsum(i + 1, N, lambda u: x(u) * y(N + i - u)))
        return s.setv(ex, st, args[0], Rec('fftRep', {'k': a.f['k'], 'v': Vec(N, g, 'F')}))
    def fftadd(s, ex, st, args, vals, sg):
        a, b = vals[1], vals[2]
        ex.oblige(st, a.f['k'] == b.f['k'], 'precondition', 'FFT representations of the same size')
        N = a.f['v'].len; x, y = a.f['v'].get, b.f['v'].get
        g = lam(1, lambda i: x(i) + y(i) * sg)
        return s.setv(ex, st, args[0], Rec('fftRep', {'k': a.f['k'], 'v': Vec(N, g, 'F')}))
    def f_FromfftRep(s, ex, st, args, vals, ks, typ):
        r = vals[1]; lo, hi = vals[2], vals[3]
        N = r.f['v'].len; g = r.f['v'].get
        ex.oblige(st, lo >= 0, 'precondition', 'FromfftRep with a nonnegative lower index')
        top = simp(imin(hi, N - 1))
        # the representation is destroyed
        jk = s.junk(ex, 'F')
        ex.write(st, args[1], Rec('fftRep', {'k': r.f['k'], 'v': Vec(N, lam(1, lambda i: jk(i)), 'F')}))
        if ks[0] == 'ptr':
            # writes hi-lo+1 values, zero beyond the transform length
            p = vals[0]; w = ex.load(st, p.base); n = simp(hi - lo + 1); o = p.off; h = w.get
            ex.oblige(st, z3.Implies(n > 0, z3.And(o >= 0, o + n <= w.len)), 'bounds', 'destination of FromfftRep within the array')
            ex.write(st, p.base, Vec(w.len, lam(1, lambda i: rite(simp(z3.And(i >= o, i < o + n)), rite(simp(lo + i - o <= N - 1), g(lo + i - o), R0), h(i))), w.et)); return VOID
        return s.setv(ex, st, args[0], P(lambda k: rite(simp(z3.And(k >= 0, k + lo <= top)), g(lo + k), R0)))
