#include "structured_lzz_p.h"
#include "common.h"
using namespace PML;
static void gen() { prime(G.pick<long>({0, 1, 2, 3, 4, 6, 7, 8, 9, 100, 101})); }
static long sz(long it) { if (it % 5 == 0) return G.r(1, 3); if (it % 5 == 1) return G.r(20, 70); if (it % 25 == 2) return G.r(90, 300); return G.r(1, 20); }
static VecF mv(const MatF &A, const VecF &v) { VecF w; w.SetLength(A.NumRows()); for (long i = 0; i < A.NumRows(); i++) { w[i] = 0; for (long j = 0; j < A.NumCols(); j++) w[i] += A[i][j] * v[j]; } return w; }
static VecF vm(const VecF &v, const MatF &A) { VecF w; w.SetLength(A.NumCols()); for (long j = 0; j < A.NumCols(); j++) { w[j] = 0; for (long i = 0; i < A.NumRows(); i++) w[j] += A[i][j] * v[i]; } return w; }
template <class T> static void chk(const string &nm, const T &t, const MatF &D, bool mats) {
  long n = D.NumRows(), m = D.NumCols(); string s = nm + " " + str(n) + "x" + str(m) + " p=" + str(zz_p::modulus()); note().str(""); note() << s;
  CHK(t.NumRows() == n && t.NumCols() == m, s << " dimensions"); MatF d = junkmF(n, m); t.to_dense(d); EQ(d, D, s << " to_dense"); EQ(t.to_dense(), D, s << " to_dense value");
  VecF v = rvec(m), w = mv(D, v), r = junkvF(n); t.mul_right(r, v); EQ(r, w, s << " mul_right"); EQ(t.mul_right(v), w, s << " mul_right value"); r = v; t.mul_right(r, r); EQ(r, w, s << " mul_right aliased");
  VecF u = rvec(n); w = vm(u, D); r = junkvF(m); t.mul_left(r, u); EQ(r, w, s << " mul_left"); EQ(t.mul_left(u), w, s << " mul_left value"); r = u; t.mul_left(r, r); EQ(r, w, s << " mul_left aliased");
  VecF e; e.SetLength(m); for (long i = 0; i < m; i++) e[i] = 0; t.mul_right(r, e); EQ(r, mv(D, e), s << " mul_right of zero"); if (m) { long k = G.r(0, m - 1); e[k] = 1; t.mul_right(r, e); EQ(r, mv(D, e), s << " mul_right unit " << k); }
  if (mats) { long k = G.r(0, 3); MatF X = rmatF(m, k), R = junkmF(n, k); t.mul_right(R, X); EQ(R, nmul(D, X), s << " mul_right matrix"); R = X; t.mul_right(R, R); EQ(R, nmul(D, X), s << " mul_right matrix aliased"); EQ(t.mul_right(X), nmul(D, X), s << " mul_right matrix value"); MatF Y = rmatF(k, n); R = junkmF(k, m); t.mul_left(R, Y); EQ(R, nmul(Y, D), s << " mul_left matrix"); R = Y; t.mul_left(R, R); EQ(R, nmul(Y, D), s << " mul_left matrix aliased"); EQ(t.mul_left(Y), nmul(Y, D), s << " mul_left matrix value"); }
  T t2(t); v = rvec(m); EQ(t2.mul_right(v), mv(D, v), s << " copy"); T t3; t3 = t; EQ(t3.mul_left(u), vm(u, D), s << " assigned"); count(s); }
CASE("toeplitz", 1200) { gen(); long n = sz(it), m = sz(it * 7 + 3); if (it % 3 == 0) m = n; VecF d = rvec(n + m - 1); MatF D = zmatF(n, m); for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) D[i][j] = d[m - 1 + i - j]; toeplitz_lzz_p t(d, n, m); chk("toeplitz", t, D, true); long i = G.r(0, n - 1), j = G.r(0, m - 1); EQ(t(i, j), zz_p(D[i][j]), "entry"); }
CASE("hankel", 1200) { gen(); long n = sz(it), m = sz(it * 7 + 3); if (it % 3 == 0) m = n; VecF d = rvec(n + m - 1); MatF D = zmatF(n, m); for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) D[i][j] = d[m + n - 2 - i - j]; hankel_lzz_p t(d, n, m); chk("hankel", t, D, true); long i = G.r(0, n - 1), j = G.r(0, m - 1); EQ(t(i, j), zz_p(D[i][j]), "entry"); }
CASE("lower_triangular_toeplitz", 1200) { gen(); long n = sz(it); VecF d = rvec(n); MatF D = zmatF(n, n); for (long i = 0; i < n; i++) for (long j = 0; j <= i; j++) D[i][j] = d[i - j]; lower_triangular_toeplitz_lzz_p t(d); chk("lower_triangular_toeplitz", t, D, false); }
CASE("circulant_row", 1200) { gen(); long n = sz(it), m = sz(it * 7 + 3); if (it % 4 == 0) m = n; if (it % 6 == 1) n = m * G.r(1, 3); VecF d = rvec(m); MatF D = zmatF(n, m); for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) D[i][j] = d[(((m - 1 - j + i) % m) + m) % m]; circulant_row_lzz_p t(d, n); chk("circulant_row", t, D, false); }
CASE("circulant_column", 1200) { gen(); long n = sz(it), m = sz(it * 7 + 3); if (it % 4 == 0) m = n; if (it % 6 == 1) m = n * G.r(1, 3); VecF d = rvec(n); MatF D = zmatF(n, m); for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) D[i][j] = d[(((i - j) % n) + n) % n]; circulant_column_lzz_p t(d, m); chk("circulant_column", t, D, false); }
CASE("sylvester", 900) { gen(); long da = it % 5 == 0 ? G.r(1, 2) : G.r(1, it % 7 == 0 ? 60 : 15), db = it % 5 == 1 ? G.r(1, 2) : G.r(1, it % 11 == 0 ? 60 : 15); if (it % 9 == 0) da = 0; if (it % 9 == 1) db = 0; if (da + db == 0) db = 1; zz_pX a = rpoly(da), b = rpoly(db); SetCoeff(a, da, rnz()); SetCoeff(b, db, rnz()); long n = da + db; MatF D = zmatF(n, n); for (long i = 0; i < db; i++) for (long j = 0; j <= da; j++) D[i + j][i] = coeff(a, j); for (long i = 0; i < da; i++) for (long j = 0; j <= db; j++) D[i + j][i + db] = coeff(b, j); sylvester_lzz_p t(a, b); chk("sylvester", t, D, true); }
