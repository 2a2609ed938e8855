"""Front end: clang's AST (JSON) of the real sources, extracted on every run.
Nothing is rewritten by hand: what the verifier executes symbolically is this AST."""
import json, os, subprocess, re, hashlib, glob, shutil

REPO = os.environ.get('PMLV_REPO', '/repo')
NTLX = os.path.join(REPO, 'ntl-extras')

def dirs():
    for l in open(os.path.join(NTLX, 'Makefile')):
        m = re.match(r'^DIRS *= *(.*)$', l)
        if m: return m.group(1).split()
    raise RuntimeError('no DIRS')

def gen_includes(build):
    """threshold headers: <name>.orig used as <name>.h unless a tuned one exists (as the build does)"""
    inc = os.path.join(build, 'include')
    os.makedirs(inc, exist_ok=True)
    for d in dirs():
        for o in glob.glob(os.path.join(NTLX, d, '*.orig')):
            if not os.path.exists(o[:-5] + '.h'):
                dst = os.path.join(inc, os.path.basename(o)[:-5] + '.h')
                if not os.path.exists(dst) or open(dst).read() != open(o).read():
                    shutil.copy(o, dst)
    return inc

def incflags(build):
    inc = gen_includes(build)
    return ['-I' + os.path.join(NTLX, d) for d in dirs()] + ['-I' + inc]

class Func:
    __slots__ = ('name', 'cls', 'type', 'params', 'body', 'node', 'tu', 'file', 'inits', 'ctor', 'const', 'off', 'virtual')
    @property
    def key(s): return (s.cls + '::' if s.cls else '') + s.name + '|' + s.type
    def __repr__(s): return s.key

class Cls:
    def __init__(s, name): s.name = name; s.fields = []; s.bases = []; s.id = None

def norm_type(t):
    t = t.replace('NTL::', '').replace('PML::', '').replace('> >', '>>').replace('> >', '>>')
    t = re.sub(r'\bclass |\bstruct |\benum ', '', t)
    return t.strip()

class Program:
    def __init__(s, build, log=None):
        s.build = build
        s.flags = incflags(build)
        s.funcs = {}          # key -> Func
        s.byname = {}
        s.classes = {}
        s.tus = {}
        s.globals = {}
        s.enums = {}
        s.failed = {}
        s.defaults = {}       # (name, type, position) -> default argument expression

    fetched = {}
    def clang(s, rel):
        path = os.path.join(REPO, rel)
        return subprocess.run(['clang++', '-std=c++11', '-w'] + s.flags + ['-fsyntax-only', '-Xclang', '-ast-dump=json',
                            '-Xclang', '-ast-dump-filter=PML', path], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    def prefetch(s, files):
        from concurrent.futures import ThreadPoolExecutor
        fs = [f for f in files if f not in s.tus]
        with ThreadPoolExecutor(8) as ex:
            for f, p in zip(fs, ex.map(s.clang, fs)): s.fetched[f] = p

    def load(s, rel):
        """parse one source file (path relative to /repo)"""
        if rel in s.tus: return
        p = s.fetched.pop(rel, None) or s.clang(rel)
        if p.returncode != 0:
            s.failed[rel] = p.stderr.decode()[:2000]
            s.tus[rel] = None
            return
        txt = p.stdout.decode()
        dec = json.JSONDecoder(); i = 0; n = len(txt); tops = []
        while i < n:
            while i < n and txt[i] in ' \n\r\t': i += 1
            if i >= n: break
            o, j = dec.raw_decode(txt, i); tops.append(o); i = j
        s.tus[rel] = tops
        ids = {}
        s._curfile = None
        for t in tops: s.walk(t, rel, None, ids)
        # resolve out-of-line methods
        for f in list(s.pending):
            cid = f.node.get('parentDeclContextId')
            if cid and cid in ids: f.cls = ids[cid]
            s.add(f)
        s.pending = []

    pending = []
    def add(s, f):
        if f.key not in s.funcs:
            s.funcs[f.key] = f
            s.byname.setdefault((f.cls + '::' if f.cls else '') + f.name, []).append(f)

    def walk(s, n, rel, cls, ids):
        k = n.get('kind')
        if k in ('NamespaceDecl', 'LinkageSpecDecl'):
            for c in n.get('inner', []): s.walk(c, rel, cls, ids)
        elif k == 'CXXRecordDecl':
            nm = n.get('name')
            if not nm: return
            ids[n['id']] = nm
            if not n.get('completeDefinition'): return
            c = Cls(nm); c.id = n['id']
            c.bases = [norm_type(b['type']['qualType']) for b in n.get('bases', [])]
            for m in n.get('inner', []):
                if m.get('kind') == 'FieldDecl': c.fields.append((m['name'], tystr(m['type'])))
                elif m.get('kind') in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl'): s.walk(m, rel, nm, ids)
            s.classes.setdefault(nm, c)
        elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl'):
            body = None; ps = []; inits = []
            for m in n.get('inner', []):
                if m.get('kind') == 'ParmVarDecl': ps.append(m)
                elif m.get('kind') == 'CompoundStmt': body = m
                elif m.get('kind') == 'CXXCtorInitializer': inits.append(m)
            for i, q in enumerate(ps):
                d = [x for x in q.get('inner', []) if x.get('kind')]
                if d: s.defaults[(n['name'], norm_type(n['type']['qualType']), i)] = d[0]
            if body is None: return
            f = Func(); f.name = n['name']; f.cls = cls; f.type = norm_type(n['type']['qualType'])
            f.params = ps; f.body = body; f.node = n; f.tu = rel; f.inits = inits
            f.ctor = k == 'CXXConstructorDecl'
            f.const = n['type']['qualType'].rstrip().endswith('const')
            f.file = rel
            f.off = n.get('range', {}).get('begin', {}).get('offset')
            f.virtual = n.get('virtual')
            if cls is None and k != 'FunctionDecl': s.pending.append(f)
            else: s.add(f)
        elif k == 'VarDecl':
            s.globals[n['name']] = n
        elif k == 'EnumDecl':
            v = 0
            for c in n.get('inner', []):
                if c.get('kind') == 'EnumConstantDecl':
                    lit = find_int(c)
                    if lit is not None: v = lit
                    s.enums[c['name']] = v
                    v += 1

    def default(s, f, i):
        d = [x for x in f.params[i].get('inner', []) if x.get('kind')]
        return d[0] if d else s.defaults.get((f.name, f.type, i))
    def find(s, name, types=None, cls=None):
        """function by name and parameter type list (as written in the normalized signature)"""
        fs = s.byname.get((cls + '::' if cls else '') + name, [])
        if types is None:
            return fs[0] if len(fs) == 1 else None
        want = '(' + ', '.join(types) + ')'
        for f in fs:
            t = f.type
            if t[t.index('('):].replace(' const', '', 0).startswith(want): return f
        return None

def find_int(n):
    if n.get('kind') == 'ConstantExpr' and 'value' in n:
        try: return int(n['value'])
        except ValueError: return None
    if n.get('kind') == 'IntegerLiteral': return int(n['value'])
    for c in n.get('inner', []):
        r = find_int(c)
        if r is not None: return r
    return None

def tystr(t):
    return norm_type(t.get('desugaredQualType') or t['qualType']) if False else norm_type(t['qualType'])

# ---------------------------------------------------------------- types
_TY = {}
RING = [False]   # polynomials as elements of an abstract commutative ring (contracts with ring=True)
def _ring(t): return 'F' if t == 'P' else tuple(_ring(x) for x in t) if isinstance(t, tuple) else t
def parse_type(q):
    return _ring(parse_raw(q)) if RING[0] else parse_raw(q)
def parse_raw(q):
    """type string -> structured type"""
    q0 = q
    if q0 in _TY: return _TY[q0]
    q = norm_type(q)
    q = re.sub(r'\bconst\b', '', q).strip()
    q = re.sub(r'\bvolatile\b', '', q).strip()
    r = _parse(q)
    _TY[q0] = r
    return r

def split_targs(s):
    out = []; d = 0; cur = ''
    for ch in s:
        if ch == '<': d += 1
        if ch == '>': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def _parse(q):
    q = q.strip()
    if q.endswith('&&'): return ('ref', _parse(q[:-2]))
    if q.endswith('&'): return ('ref', _parse(q[:-1]))
    if q.endswith('*'): return ('ptr', _parse(q[:-1]))
    q = q.strip()
    while q.startswith('std::'): q = q[5:]
    if q in ('long', 'int', 'long int', 'short', 'long long', 'sp_reg_t', 'const_iterator_diff', 'ptrdiff_t', 'difference_type'): return 'Z'
    if q in ('unsigned long', 'unsigned int', 'size_t', 'size_type', 'unsigned long long', 'ulong', 'unsigned', 'std::size_t', 'vector<long>::size_type',
             'NTL_SP_SIZE', 'mp_limb_t', 'uint64_t'): return 'U'
    if q == 'bool': return 'B'
    if q in ('double', 'float'): return 'D'
    if q == 'void': return 'V'
    if q in ('zz_p', 'zz_pE'): return 'F'
    if q == 'zz_pX': return 'P'
    if q in ('vec_zz_p',): return ('vec', 'F')
    if q in ('mat_zz_p',): return ('mat', 'F')
    if q in ('vec_zz_pX',): return ('vec', 'P')
    if q in ('mat_zz_pX',): return ('mat', 'P')
    if q == 'vec_long': return ('vec', 'Z')
    if q in ('VecLong',): return ('vec', 'Z')
    m = re.match(r'^(\w+)<(.*)>$', q)
    if m:
        n = m.group(1); a = split_targs(m.group(2))
        if n == 'Vec': return ('vec', _parse(a[0]))
        if n == 'Mat': return ('mat', _parse(a[0]))
        if n == 'vector': return ('vec', _parse(a[0]))
        if n == 'pair': return ('rec', 'pair', tuple(_parse(x) for x in a))
        if n == 'unique_ptr': return ('uptr', _parse(a[0]))
    if q in ('zz_pX_Multipoint', ): return ('rec', q)
    if q == 'PolMatForm': return 'Z'
    if q == 'CHECK_OP' : return 'Z'
    m = re.match(r'^(\w+)$', q)
    if m: return ('rec', q)
    return ('other', q)
