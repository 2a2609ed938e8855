#include "mat_lzz_pX_extra.h"
#include "common.h"
#include "bases.h"
using namespace PML;
static string desc(const string &nm, const MatX &F, const VL &o, const VL &s) { return nm + " m=" + str(F.NumRows()) + " n=" + str(F.NumCols()) + " deg=" + str(mdeg(F)) + " order=" + str(o) + " shift=" + str(s) + " p=" + str(zz_p::modulus()) + " F=" + str(F); }
static void dims(long it, long &m, long &n, long &d) { m = G.r(1, 5); n = G.r(1, 5); d = G.r(1, 8); if (it % 6 == 1) d = G.r(1, 30); if (it % 12 == 2) { m = G.r(4, 9); n = G.r(1, 9); d = G.r(1, 6); } if (it % 6 == 3) { n = 1; m = G.r(1, 6); d = G.r(1, 20); } }
static long ilen(long d) { return G.b(4) ? G.r(1, 2 * d + 2) : d; }
template <class Fn> static void uni(const string &nm, Fn f, long it, long m, long n, long d, int form) { MatX F = rinput(it, m, n, ilen(d)); VL s = rsh(it / 3, m), o(n, d), t = s; string ds = desc(nm, F, o, s); note().str(""); note() << ds; MatX P = junkm(m, m); f(P, F, d, t); chk_app(ds, P, F, o, s, form, &t); count(ds); }
#define UNI(NAME, ITERS, CALL, FORM) CASE(NAME, ITERS) { anyprime(); long m, n, d; dims(it, m, n, d); uni(NAME, [&](MatX &P, const MatX &F, long d, VL &t) { CALL; }, it, m, n, d, FORM); }
UNI("mbasis_plain", 500, mbasis_plain(P, F, d, t), 3)
UNI("mbasis_rescomp", 700, mbasis_rescomp(P, F, d, t), 3)
UNI("mbasis_resupdate", 700, mbasis_resupdate(P, F, d, t), 3)
UNI("mbasis", 500, mbasis(P, F, d, t), 3)
UNI("popov_mbasis", 500, popov_mbasis(P, F, d, t), 4)
UNI("pmbasis", 400, pmbasis(P, F, d, t), 3)
UNI("popov_pmbasis", 300, popov_pmbasis(P, F, d, t), 4)
UNI("appbas_iterative uniform", 300, appbas_iterative(P, F, VL(F.NumCols(), d), t), 3)
// orders around and above the divide and conquer thresholds
CASE("pmbasis high order", 40) { prime(G.pick<long>({0, 3, 4, 6, 8, 100, 101})); long m = G.r(1, 4), n = G.r(1, 3), d = G.r(17, 100); if (it % 8 == 0) { m = 2; n = 1; d = G.r(130, 260); } uni("pmbasis", [&](MatX &P, const MatX &F, long d, VL &t) { pmbasis(P, F, d, t); }, it, m, n, d, 3); if (it % 3 == 0) uni("popov_pmbasis", [&](MatX &P, const MatX &F, long d, VL &t) { popov_pmbasis(P, F, d, t); }, it, m, n, d, 4); }
static VL rord(long n, long d) { VL o(n); for (auto &x : o) x = G.r(1, d); return o; }
CASE("appbas_iterative", 700) { anyprime(); long m, n, d; dims(it, m, n, d); if (d > 15) d = 15; VL o = rord(n, d), s = rsh(it / 3, m), t = s; MatX F = rinput(it, m, n, ilen(d)); bool ow = G.b(); string ds = desc("appbas_iterative " + str((int)ow), F, o, s); note() << ds; MatX P = junkm(m, m); appbas_iterative(P, F, o, t, ow); chk_app(ds, P, F, o, s, 3, &t); count(ds); t = s; P = junkm(m, m); ds = desc("popov_appbas_iterative " + str((int)ow), F, o, s); note().str(""); note() << ds; popov_appbas_iterative(P, F, o, t, ow); chk_app(ds, P, F, o, s, 4, &t); count(ds); }
CASE("approximant_basis", 150) { anyprime(); long m, n, d; dims(it, m, n, d); if (d > 12) d = 12; VL o = rord(n, d), s = rsh(it / 3, m), t; MatX F = rinput(it, m, n, ilen(d)); string ds = desc("approximant_basis", F, o, s); note() << ds; MatX P = junkm(m, m); int fm = G.r(1, 4); std::streambuf *b = std::cout.rdbuf(0); approximant_basis(P, t, F, o, s, fm == 4 ? POPOV : fm == 3 ? ORD_WEAK_POPOV : fm == 2 ? WEAK_POPOV : REDUCED); std::cout.rdbuf(b); std::cout.clear(); chk_app(ds, P, F, o, s, fm, &t); count(ds); }
static void chk21(const string &nm, const zz_pX &a, const zz_pX &b, const zz_pX &c, const zz_pX &d, const zz_pX &f0, const zz_pX &f1, long ord, long s0, long s1, long t0, long t1) { MatX P = zmat(2, 2), F = zmat(2, 1); P[0][0] = a; P[0][1] = b; P[1][0] = c; P[1][1] = d; F[0][0] = f0; F[1][0] = f1; VL s = {s0, s1}, t = {t0, t1}, o = {ord}; chk_app(desc(nm, F, o, s), P, F, o, s, 3, &t); count(desc(nm, F, o, s)); }
CASE("2x1", 800) { anyprime(); long d = G.r(1, 12); if (it % 4 == 0) d = G.r(1, 90); if (it % 30 == 0) d = G.r(90, 240); MatX F = rinput(it, 2, 1, ilen(d)); long s0 = G.r(-5, 5), s1 = G.r(-5, 5), t0 = s0, t1 = s1, th = G.pick<long>({32, 1, 2, 5, 16}); if (it % 7 == 0) { s0 = t0 = G.r(-200, 200); } note() << desc("2x1", F, VL(1, d), VL({s0, s1})) << " threshold=" << th; zz_pX a = junkp(), b = junkp(), c = junkp(), e = junkp(); appbas_iterative_2x1(a, b, c, e, F[0][0], F[1][0], d, t0, t1); chk21("appbas_iterative_2x1", a, b, c, e, F[0][0], F[1][0], d, s0, s1, t0, t1); t0 = s0; t1 = s1; a = junkp(); b = junkp(); c = junkp(); e = junkp(); pmbasis_2x1(a, b, c, e, F[0][0], F[1][0], d, t0, t1, th); chk21("pmbasis_2x1", a, b, c, e, F[0][0], F[1][0], d, s0, s1, t0, t1); }
// one step
static void chk1(const string &nm, const MatF &K, const VL &pd, const MatF &A, const VL &sh, bool pop) { long m = A.NumRows(), r = m - rankF(A); string ds = nm + " A=" + str(A) + " shift=" + str(sh) + " p=" + str(zz_p::modulus()) + " K=" + str(K) + " pivot degrees=" + str(pd); CHK(K.NumRows() == r, ds << " number of rows"); CHK((long)pd.size() == m, ds << " number of pivot degrees"); MatX P = zmat(m, m); long k = 0; for (long i = 0; i < m; i++) { CHK(pd[i] == 0 || pd[i] == 1, ds << " pivot degree"); if (pd[i]) SetCoeff(P[i][i], 1); else { CHK(k < r, ds << " too many pivots"); CHK(K.NumCols() == m, ds << " cols"); for (long j = 0; j < m; j++) SetCoeff(P[i][j], 0, K[k][j]); k++; } } CHK(k == r, ds << " too few pivots"); if (r) CHK(IsZero(nmul(K, A)), ds << " not in the kernel"); CHK(o_is(pop ? 4 : 3, P, sh), ds << " resulting order-1 basis not in form"); }
CASE("mbasis1", 1500) { anyprime(); long m = G.r(1, 7), n = G.r(1, 7); MatF A = rmatF(m, n); if (it % 3 == 0) { long r = G.r(1, std::min(m, n)); A = nmul(rmatF(m, r), rmatF(r, n)); } if (it % 29 == 0) A = zmatF(m, n); VL s = rsh(it, m); MatF K = junkmF(m, m); note() << str(A) << str(s); VL p = mbasis1(K, A, s); chk1("mbasis1", K, p, A, s, false); K = junkmF(m, m); p = popov_mbasis1(K, A, s); chk1("popov_mbasis1", K, p, A, s, true); count(str(A) + str(s)); }
// generic inputs, m = 2n, uniform shift
template <class Fn> static void gen(const string &nm, Fn f, const MatX &F, long d) { long m = F.NumRows(), n = F.NumCols(); VL s = zs(m), o(n, d); string ds = desc(nm, F, o, s); note().str(""); note() << ds; MatX P = junkm(m, m); f(P, F, d); chk_app(ds, P, F, o, s, 3, 0); CHK(mdeg(P) == (d + 1) / 2, ds << " degree"); count(ds); }
static void gprime() { prime(G.pick<long>({7, 8, 9, 100})); }
CASE("generic 2n x n", 120) { gprime(); long n = G.r(1, 4), d = G.r(2, 20); if (it % 10 == 0) { n = G.r(1, 2); d = G.r(20, 90); } if (it % 12 == 1) n = G.r(5, 8); MatX F = dmat(2 * n, n, it % 4 ? d : G.r(1, 2 * d)); if (it % 4 == 0 && mdeg(F) + 1 < d) F = dmat(2 * n, n, d); gen("mbasis_generic_2n_n_rescomp", mbasis_generic_2n_n_rescomp, F, d); gen("mbasis_generic_2n_n_resupdate", mbasis_generic_2n_n_resupdate, F, d); gen("pmbasis_generic_2n_n", pmbasis_generic_2n_n, F, d); MatX P, T = junkm(n, 2 * n); pmbasis_generic_2n_n(P, F, d); note() << " top_rows"; pmbasis_generic_2n_n_top_rows(T, F, d); MatX E = zmat(n, 2 * n); for (long i = 0; i < n; i++) E[i] = P[i]; EQ(T, E, "pmbasis_generic_2n_n_top_rows n=" << n << " order=" << d); }
CASE("matrix pade generic", 120) { gprime(); long n = G.r(1, 4), d = G.r(2, 20); if (it % 10 == 0) { n = G.r(1, 2); d = G.r(20, 120); } if (it % 12 == 1) n = G.r(5, 7); MatX A = dmat(n, n, d), F = zmat(2 * n, n), P; for (long i = 0; i < n; i++) { F[i] = A[i]; F[n + i][i] = -1; } string ds = desc("pade", A, VL(1, d), zs(n)); note() << ds; VL s = zs(2 * n); pmbasis(P, F, d, s); { VL z = zs(2 * n); MatX Q; popov_pmbasis(Q, F, d, z); P = Q; } MatX L = zmat(n, n); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) L[i][j] = P[i][j];
  MatX d1 = junkm(n, n), d2 = junkm(n, n), dn; matrix_pade_generic_iterative(d1, d2, A, d); auto good = [&](const MatX &D, const string &w) { CHK(D.NumRows() == n && D.NumCols() == n, w << " dims " << ds); chk_norm(D, ds); CHK(mdeg(D) == (d + 1) / 2 && o_popov(D, zs(n)), w << " denominator not in the documented form " << ds << str(D)); MatX N = nmul(D, A); CHK(mdeg(emap(N, [&](const zz_pX &x) { return ptrunc(x, d); })) < (d + 1) / 2 + (d % 2 ? 0 : 0), w << " numerator degree " << ds); };
  good(d1, "iterative"); CHK(mdeg(d2) <= d / 2, "den2 degree " << ds); MatX N2 = emap(nmul(d2, A), [&](const zz_pX &x) { return ptrunc(x, d); }); CHK(mdeg(N2) <= d / 2, "den2 numerator " << ds); matrix_pade_generic_iterative(dn, A, d); EQ(dn, d1, "iterative den only"); dn = junkm(2 * n, n); matrix_pade_generic_recursion(dn, A, d); CHK(dn.NumRows() == 2 * n && dn.NumCols() == n, "recursion dims"); { MatX u = zmat(n, n); for (long i = 0; i < n; i++) u[i] = dn[i]; good(u, "recursion"); } dn = junkm(n, n); matrix_pade_generic(dn, A, d); good(dn, "matrix_pade_generic"); count(ds); }
// verification function
CASE("is_approximant_basis", 500) { prime(G.pick<long>({8, 9, 100})); long m = G.r(1, 4), n = G.r(1, 4), d = G.r(1, 6); VL o = rord(n, d), s = rsh(it / 3, m), t = s; MatX F = rinput(it, m, n, d), P; appbas_iterative(P, F, o, t); int fm = G.r(1, 3); int kind = it % 6; if (kind == 1) { long i = G.r(0, m - 1); for (long j = 0; j < m; j++) P[i][j] <<= 1; } if (kind == 2) { long i = G.r(0, m - 1); zz_pX f; SetCoeff(f, 1); SetCoeff(f, 0, rnz()); for (long j = 0; j < m; j++) P[i][j] *= f; } if (kind == 3 && m > 1) { std::swap(P[0], P[m - 1]); } if (kind == 4) P[G.r(0, m - 1)][G.r(0, m - 1)] += rpoly(2); if (kind == 5) { VL z = s; popov_appbas_iterative(P, F, o, z); fm = 4; } PolMatForm pf = fm == 4 ? POPOV : fm == 3 ? ORD_WEAK_POPOV : fm == 2 ? WEAK_POPOV : REDUCED; bool want = true; try { chk_app("", P, F, o, s, fm, 0); } catch (Fail &) { want = false; } note() << desc("verify", F, o, s) << " P=" << str(P); CHK(is_approximant_basis(P, F, o, s, pf, true) == want, "verification answers " << !want << " instead of " << want << " form=" << fm << " kind=" << kind); count(str(P)); }
