// linear systems over F_p(x) and basis reduction
#include "mat_lzz_pX_extra.h"
#include "mat_lzz_pX_linsolve.h"
#include "mat_lzz_pX_inverse.h"
#include "common.h"
#include "bases.h"
using namespace PML;
static MatX regular(long n, long len) { MatX a = G.b(3) ? dmat(n, n, len) : rmat(n, n, len); for (int t = 0; t < 60 && rankF(cfm(a, 0)) < n; t++) for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) if (t > 40) SetCoeff(a[i][j], 0, i == j ? 1 : 0); else SetCoeff(a[i][j], 0, rz()); return a; }
static VecX mv(const MatX &A, const VecX &u) { VecX r; r.SetLength(A.NumRows()); for (long i = 0; i < A.NumRows(); i++) for (long j = 0; j < A.NumCols(); j++) r[i] += A[i][j] * u[j]; return r; }
static VecX sc(const zz_pX &d, const VecX &b) { VecX r; r.SetLength(b.length()); for (long i = 0; i < b.length(); i++) r[i] = d * b[i]; return r; }
static VecX rrhs(long it, const MatX &A, long l) { long m = A.NumRows(); VecX b; b.SetLength(m); if (it % 7 == 0) return b; if (it % 7 == 1) { VecX u = rvecX(A.NumCols(), l); return mv(A, u); } if (it % 7 == 2) { b[G.r(0, m - 1)] = dense(1); return b; } return rvecX(m, l); }
static void chkn(const VecX &u, const zz_pX &den, const string &s) { CHK(okp(den), s << " denominator normalized"); for (long i = 0; i < u.length(); i++) CHK(okp(u[i]), s << " entries normalized"); }
CASE("linsolve_via_series", 400) { prime(G.pick<long>({8, 9, 100})); long n = G.r(1, 5), l = G.r(1, 6), lb = G.r(0, 8); if (it % 6 == 1) { n = G.r(1, 3); l = G.r(1, 25); lb = G.r(0, 40); } if (it % 9 == 2) { n = G.r(5, 9); l = 2; } if (it % 8 == 3) l = 1;
  MatX A = regular(n, l); VecX b = rrhs(it, A, lb), u = junkv(n); zz_pX den = junkp(); string s = "linsolve_via_series n=" + str(n) + " deg=" + str(mdeg(A)) + " A=" + str(A) + " b=" + str(b); note() << s;
  linsolve_via_series(u, den, A, b); chkn(u, den, s); CHK(!IsZero(den), s << " zero denominator"); CHK(u.length() == n, s << " length"); EQ(mv(A, u), sc(den, b), s << " A u = den b");
  VecX v = b; zz_pX d2; linsolve_via_series(v, d2, A, v); CHK(!IsZero(d2), s << " aliased: zero denominator"); CHK(v.length() == n, s << " length"); EQ(mv(A, v), sc(d2, b), s << " output is b: A u = den b"); count(s); }
CASE("linsolve_via_kernel", 500) { prime(G.pick<long>({3, 4, 6, 8, 100, 101})); long m = G.r(1, 5), n = it % 2 ? m : G.r(1, 5), l = G.r(1, 5), lb = G.r(0, 7); if (it % 9 == 2) { m = G.r(1, 3); n = G.r(1, 3); l = G.r(1, 14); }
  MatX A = it % 3 ? rinput(it, m, n, l) : dmat(m, n, l); VecX b = rrhs(it, A, lb), u = junkv(n); zz_pX den = junkp(); string s = "linsolve_via_kernel m=" + str(m) + " n=" + str(n) + " A=" + str(A) + " b=" + str(b) + " p=" + str(zz_p::modulus()); note() << s;
  MatX Ab; Ab.SetDims(m, n + 1); for (long i = 0; i < m; i++) { for (long j = 0; j < n; j++) Ab[i][j] = A[i][j]; Ab[i][n] = b[i]; } bool solv = rankX(Ab) == rankX(A);
  long r = linsolve_via_kernel(u, den, A, b); CHK((r != 0) == solv, s << " returned " << r << " for a system that is " << (solv ? "solvable" : "not solvable"));
  if (r) { chkn(u, den, s); CHK(!IsZero(den), s << " zero denominator"); CHK(u.length() == n, s << " length"); EQ(mv(A, u), sc(den, b), s << " A u = den b"); if (rankX(A) == n) { zz_pX g = den; for (long i = 0; i < n; i++) g = GCD(g, u[i]); CHK(deg(g) == 0, s << " solution not irreducible"); } }
  VecX v = b; zz_pX d2; long r2 = linsolve_via_kernel(v, d2, A, v); CHK((r2 != 0) == (r != 0), s << " aliased return value"); if (r2) { CHK(!IsZero(d2), s); EQ(mv(A, v), sc(d2, b), s << " output is b"); } count(s); }
CASE("reduced_form_gjv", 300) { prime(G.pick<long>({8, 9, 100, 4})); long n = G.r(1, 5), l = G.r(1, 6); if (it % 6 == 1) { n = G.r(1, 3); l = G.r(1, 20); } MatX A = regular(n, l); if (it % 3 == 0 && n > 1) { MatX U = identX(n); for (int k = 0; k < 3; k++) { long i = G.r(0, n - 1), j = G.r(0, n - 1); if (i != j) U[i][j] += rpoly(3); } A = nmul(U, A); } if (it % 5 == 4) for (long j = 0; j < n; j++) SetCoeff(A[n - 1][j], 0, 0);
  string s = "reduced_form_gjv n=" + str(n) + " A=" + str(A) + " p=" + str(zz_p::modulus()); note() << s; std::streambuf *b = std::cout.rdbuf(0); struct R { std::streambuf *b; ~R() { std::cout.rdbuf(b); std::cout.clear(); } } rr{b};
  bool reg = rankF(cfm(A, 0)) == n; MatX Rd = junkm(n, n); long r = reduced_form_gjv(Rd, A); CHK((r != 0) == reg, s << " returned " << r << " but pmat(0) is " << (reg ? "invertible" : "singular")); if (!r) { count(s); return; }
  CHK(Rd.NumRows() == n && Rd.NumCols() == n, s << " dimensions"); chk_norm(Rd, s); CHK(o_is(1, Rd, zs(n)), s << " not row reduced: " << str(Rd));
  // same row space: Rd = U A with U polynomial of constant determinant
  long D = mdeg(Rd) + n * std::max(0L, mdeg(A)) + 2; MatX iA; inv_trunc(iA, A, D); MatX U = emap(nmul(Rd, iA), [&](const zz_pX &x) { return ptrunc(x, D); }); CHK(same(nmul(U, A), Rd), s << " rows are not polynomial combinations of the rows of the input: " << str(Rd)); long dd = 0; for (long x : o_rdeg(Rd, zs(n))) dd += x; zz_pX dt = detX(A); CHK(deg(dt) == dd, s << " determinant degree " << dd << " instead of " << deg(dt)); count(s); }
