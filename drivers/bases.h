// oracles for approximant, interpolant and kernel bases
#ifndef BASES_H
#define BASES_H
#include "forms.h"
inline long frank(MatF M) { return M.NumRows() == 0 || M.NumCols() == 0 ? 0 : gauss(M); }
// dimension over F_p of K[x]^m / { p : p F = 0 mod x^order columnwise }
inline long app_codim(const MatX &F, const VL &o) { long m = F.NumRows(), n = F.NumCols(), mx = 0, tot = 0; for (long x : o) { mx = std::max(mx, x); tot += x; } MatF M = zmatF(m * mx, tot); for (long k = 0; k < mx; k++) for (long i = 0; i < m; i++) { long c = 0; for (long j = 0; j < n; j++) for (long t = 0; t < o[j]; t++, c++) M[k * m + i][c] = cf(F[i][j], t - k); } return frank(M); }
// dimension of K[x]^m / { p : p(pt_k) E_k = 0 } = sum of the ranks of the E_k, distinct points
inline long int_codim(const Vec<MatF> &E) { long s = 0; for (long k = 0; k < E.length(); k++) s += frank(E[k]); return s; }
inline long degdet_reduced(const MatX &P, const VL &s) { long r = 0; for (long x : o_rdeg(P, s)) r += x; for (long x : s) r -= x; return r; }
// random input with degenerate structure
inline MatX rinput(long it, long m, long n, long len) {
  MatX F = it % 3 ? rmat(m, n, len) : dmat(m, n, len);
  if (it % 5 == 1 && m > 1) { long x = G.r(0, m - 1), y = (x + G.r(1, m - 1)) % m; zz_pX f = rpolylen(3); for (long j = 0; j < n; j++) F[x][j] = f * F[y][j]; }
  if (it % 5 == 2 && n > 1) { long x = G.r(0, n - 1), y = (x + G.r(1, n - 1)) % n; zz_pX f = rpolylen(2); for (long j = 0; j < m; j++) F[j][x] = f * F[j][y]; }
  if (it % 5 == 3) for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) if (G.b()) F[i][j] <<= G.r(1, 3);
  if (it % 17 == 4) { long x = G.r(0, m - 1); for (long j = 0; j < n; j++) clear(F[x][j]); }
  if (it % 31 == 5) F = zmat(m, n);
  if (it % 13 == 6 && m > 2) F = nmul(rmat(m, 1, len), rmat(1, n, len));
  return F; }
inline VL rsh(long it, long m) { if (it % 4 == 0) return zs(m); if (it % 4 == 1) return rshift(m, 3); if (it % 4 == 2) return rshift(m, 20); VL s(m); for (long i = 0; i < m; i++) s[i] = i * G.r(0, 4) * (G.b() ? 1 : -1); return s; }
inline void chk_norm(const MatX &P, const string &s) { for (long i = 0; i < P.NumRows(); i++) for (long j = 0; j < P.NumCols(); j++) CHK(okp(P[i][j]), s << " entries normalized"); }
inline void chk_app(const string &s, const MatX &P, const MatX &F, const VL &o, const VL &sh, int form, const VL *outsh) {
  long m = F.NumRows(), n = F.NumCols(); CHK(P.NumRows() == m && P.NumCols() == m, s << " dimensions"); chk_norm(P, s);
  MatX R = nmul(P, F); for (long j = 0; j < n; j++) for (long i = 0; i < m; i++) CHK(IsZero(ptrunc(R[i][j], o[j])), s << " : row " << i << " of the basis is not an approximant, P=" << str(P));
  CHK(o_is(form, P, sh), s << " : basis is not in the promised form, P=" << str(P));
  CHK(degdet_reduced(P, sh) == app_codim(F, o), s << " : the rows do not generate all approximants, degree of determinant " << degdet_reduced(P, sh) << " instead of " << app_codim(F, o) << " P=" << str(P));
  if (outsh) CHK(*outsh == o_rdeg(P, sh), s << " : returned shift " << str(*outsh) << " instead of " << str(o_rdeg(P, sh))); }
inline MatF evalm(const MatX &F, const zz_p &x) { MatF E = zmatF(F.NumRows(), F.NumCols()); for (long i = 0; i < F.NumRows(); i++) for (long j = 0; j < F.NumCols(); j++) { zz_p v = to_zz_p(0); for (long k = deg(F[i][j]); k >= 0; k--) v = v * x + F[i][j].rep[k]; E[i][j] = v; } return E; }
inline void chk_int(const string &s, const MatX &P, const Vec<MatF> &E, const VecF &pts, const VL &sh, int form, const VL *outsh) {
  long m = E[0].NumRows(); CHK(P.NumRows() == m && P.NumCols() == m, s << " dimensions"); chk_norm(P, s);
  for (long k = 0; k < E.length(); k++) { MatF R = nmul(evalm(P, pts[k]), E[k]); CHK(IsZero(R), s << " : the basis does not vanish at point " << k << " P=" << str(P)); }
  CHK(o_is(form, P, sh), s << " : basis is not in the promised form, P=" << str(P));
  CHK(degdet_reduced(P, sh) == int_codim(E), s << " : the rows do not generate all interpolants, P=" << str(P));
  if (outsh) CHK(*outsh == o_rdeg(P, sh), s << " : returned shift " << str(*outsh) << " instead of " << str(o_rdeg(P, sh))); }
// saturated: the rows generate the whole kernel iff K has a right inverse over K[x] : gcd of maximal minors is 1. Tested by completing: the Smith form is trivial iff for every irreducible factor the rank does not drop;
// computed here by column operations (Hermite-like triangularization over K[x])
inline bool unimodular_rows(MatX K) { long r = K.NumRows(), m = K.NumCols(); for (long i = 0; i < r; i++) { for (;;) { long p = -1; for (long j = i; j < m; j++) if (!IsZero(K[i][j]) && (p < 0 || deg(K[i][j]) < deg(K[i][p]))) p = j; if (p < 0) return false; if (p != i) for (long k = 0; k < r; k++) std::swap(K[k][p], K[k][i]); bool done = true; for (long j = i + 1; j < m; j++) if (!IsZero(K[i][j])) { zz_pX q = K[i][j] / K[i][i]; for (long k = 0; k < r; k++) K[k][j] -= q * K[k][i]; if (!IsZero(K[i][j])) done = false; } if (done) break; } if (deg(K[i][i]) != 0) return false; } return true; }
inline void chk_ker(const string &s, const MatX &K, const MatX &F, const VL &sh, int form, const VL *outsh) {
  long m = F.NumRows(), r = m - rankX(F); CHK(K.NumRows() == r, s << " : number of rows " << K.NumRows() << " instead of " << r); if (r == 0) return; CHK(K.NumCols() == m, s << " columns"); chk_norm(K, s); CHK(isZeroM(nmul(K, F)), s << " : product with the input is not zero, K=" << str(K)); CHK(o_is(form, K, sh), s << " : not in the promised form, K=" << str(K)); CHK(unimodular_rows(K), s << " : rows do not generate the whole kernel, K=" << str(K)); if (outsh) CHK(*outsh == o_rdeg(K, sh), s << " : returned shift " << str(*outsh) << " instead of " << str(o_rdeg(K, sh))); }
#endif
