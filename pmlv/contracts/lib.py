"""specification vocabulary"""
import z3
from ..terms import *
from ..verify import contract, clsinv, REG, C
from ..prover import Unsupported
X = 'ntl-extras/mat_lzz_pX_extra/src/'

def pc(E, p):
    """total coefficient function of a polynomial"""
    return E.ex.tcoef(p)
def plen(E, p): return E.ex.polylen(p)
def pdeg(E, p): return simp(E.ex.polylen(p) - 1)
def P(f): return Poly(lam(1, f, 'k'))
def entries(a):
    """access function and shape for Vec/Mat"""
    return a.get
def like(a, f, et='P'):
    """entrywise construction with the shape of a; f(idx...)"""
    if isinstance(a, Mat): return Mat(a.rows, a.cols, lam(2, f), et)
    return Vec(a.len, lam(1, f), et)
def mat(r, c, f, et='P'): return Mat(r, c, lam(2, f), et)
def vec(n, f, et='P'): return Vec(n, lam(1, f), et)
def co(E, x):
    """entry as coefficient function: constants are degree-0 polynomials"""
    if isinstance(x, RT): return lambda k: rite(simp(k == 0), x, R0)
    c = E.ex.tcoef(x)
    return lambda k: c(k)
def same_shape(a, b):
    if isinstance(a, Mat): return z3.And(a.rows == b.rows, a.cols == b.cols)
    return a.len == b.len
def rng(v, lo, hi): return z3.And(v >= lo, v < hi)
def forall(n, f):
    vs = [freshvar('q') for _ in range(n)]
    return z3.ForAll(vs, f(*vs))
def exists(n, f):
    vs = [freshvar('q') for _ in range(n)]
    return z3.Exists(vs, f(*vs))

def degspec(E, a, d, add=None):
    """d is the degree of the vector/matrix a (-1 for zero)"""
    add = add or (lambda c: E.ensures(c))
    if isinstance(a, Mat):
        R = lambda i, j: z3.And(rng(i, 0, a.rows), rng(j, 0, a.cols)); n = 2
    else:
        R = lambda i: rng(i, 0, a.len); n = 1
    L = lambda *ij: plen(E, a.get(*ij))
    add(d >= -1)
    add(forall(n, lambda *ij: z3.Implies(R(*ij), L(*ij) - 1 <= d)))
    add(z3.Or(d == -1, exists(n, lambda *ij: z3.And(R(*ij), L(*ij) - 1 == d))))
