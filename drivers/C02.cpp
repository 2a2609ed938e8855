#include "structured_lzz_pX.h"
#include "common.h"
using namespace PML;
static void gen() { prime(G.pick<long>({0, 1, 2, 3, 4, 6, 7, 8, 9, 100, 101})); }
static VecX mv(const MatX &A, const VecX &v) { VecX w; w.SetLength(A.NumRows()); for (long i = 0; i < A.NumRows(); i++) for (long j = 0; j < A.NumCols(); j++) w[i] += A[i][j] * v[j]; return w; }
static VecX vtr(const VecX &v, long s) { return emap(v, [&](const zz_pX &x) { return ptrunc(x, s); }); }
static MatX mtr(const MatX &v, long s) { return emap(v, [&](const zz_pX &x) { return ptrunc(x, s); }); }
static VecX rv(long n, long it, long L) { if (it % 9 == 8) { VecX z; z.SetLength(n); return z; } VecX v = rvecX(n, it % 3 ? L : 1); if (it % 5 == 1) for (long i = 0; i < n; i++) if (!G.b(3)) v[i] = 0; return v; }
template <class T> static void chk1(const string &s, const T &t, const MatX &D, long it, long L) {
  long n = D.NumRows(), m = D.NumCols(); note().str(""); note() << s;
  VecX v = rv(m, it, L), w = mv(D, v), r = junkv(n); note() << " v=" << str(v); t.mul_right(r, v); EQ(r, w, s << " mul_right"); r = v; t.mul_right(r, r); EQ(r, w, s << " mul_right aliased"); EQ(t.mul_right(v), w, s << " mul_right value");
  long k = G.r(1, L + 4); r = junkv(n); t.mul_right_trunc(r, v, k); EQ(r, vtr(w, k), s << " mul_right_trunc " << k); r = v; t.mul_right_trunc(r, r, k); EQ(r, vtr(w, k), s << " mul_right_trunc aliased " << k);
  VecX u = rv(n, it / 2, L); w = mv(tr(D), u); r = junkv(m); note() << " u=" << str(u); t.mul_left(r, u); EQ(r, w, s << " mul_left"); r = u; t.mul_left(r, r); EQ(r, w, s << " mul_left aliased"); EQ(t.mul_left(u), w, s << " mul_left value");
  k = G.r(1, L + 4); r = junkv(m); t.mul_left_trunc(r, u, k); EQ(r, vtr(w, k), s << " mul_left_trunc " << k); r = u; t.mul_left_trunc(r, r, k); EQ(r, vtr(w, k), s << " mul_left_trunc aliased " << k);
  if (it % 3 == 0) { long c = G.r(0, 3); MatX X = rmat(m, c, L), R = junkm(n, c), W = nmul(D, X); t.mul_right(R, X); EQ(R, W, s << " mul_right matrix"); R = X; t.mul_right(R, R); EQ(R, W, s << " mul_right matrix aliased"); EQ(t.mul_right_trunc(X, k), mtr(W, k), s << " mul_right_trunc matrix"); X = rmat(c, n, L); W = nmul(X, D); R = junkm(c, m); t.mul_left(R, X); EQ(R, W, s << " mul_left matrix"); R = X; t.mul_left_trunc(R, R, k); EQ(R, mtr(W, k), s << " mul_left_trunc matrix aliased"); }
  count(s); }
template <class T> static void chk(const string &nm, const T &t, const MatX &D, long it, long L) { long n = D.NumRows(), m = D.NumCols(); string s = nm + " " + str(n) + "x" + str(m) + " deg " + str(mdeg(D)) + " p=" + str(zz_p::modulus()); CHK(t.NumRows() == n && t.NumCols() == m, s << " dimensions"); MatX d = junkm(n, m); t.to_dense(d); EQ(d, D, s << " to_dense"); EQ(t.to_dense(), D, s << " to_dense value"); chk1(s, t, D, it, L); }
template <class T> static void prep(const string &nm, T t, const MatX &D, long it, long L) { string s = nm + " prepared"; for (int k = 0; k < 3; k++) { long d = G.r(-1, L + 2); t.prepare_degree(d); s += " " + str(d); chk1(s + " " + str(D.NumRows()) + "x" + str(D.NumCols()), t, D, it + k, L); } }
static long sz(long it) { return it % 6 == 0 ? G.r(1, 2) : G.r(1, it % 13 == 0 ? 20 : 8); }
CASE("lower_triangular_toeplitz", 900) { gen(); long n = sz(it), L = G.r(1, 9); VecX d = rv(n, it, L); MatX D = zmat(n, n); for (long i = 0; i < n; i++) for (long j = 0; j <= i; j++) D[i][j] = d[i - j]; lower_triangular_toeplitz_lzz_pX t(d); chk("lower_triangular_toeplitz", t, D, it / 2, L); prep("lower_triangular_toeplitz", t, D, it, L); }
CASE("circulant_row", 900) { gen(); long n = sz(it), m = sz(it / 3), L = G.r(1, 9); if (it % 4 == 0) m = n; if (it % 6 == 1) n = m * G.r(1, 3); VecX d = rv(m, it, L); MatX D = zmat(n, m); for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) D[i][j] = d[(((m - 1 - j + i) % m) + m) % m]; circulant_row_lzz_pX t(d, n); chk("circulant_row", t, D, it / 2, L); prep("circulant_row", t, D, it, L); }
static MatX minusM(const MatX &g, const MatX &h) { long m = g.NumRows(), n = h.NumRows(); MatX S = nmul(g, tr(h)), M = zmat(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) { zz_pX v = -S[i][j]; if (i > 0) v += M[i - 1][j]; M[i][(j + 1) % n] = v; } return M; }
CASE("toeplitz_like_minus", 700) { gen(); long n = sz(it), m = sz(it / 3), a = G.r(1, 3), L = G.r(1, 6); if (it % 4 == 0) m = n; MatX g = rmat(m, a, L), h = rmat(n, a, L); MatX D = minusM(g, h); toeplitz_like_minus_lzz_pX t(g, h); CHK(t.NumGens() == a, "generators"); chk("toeplitz_like_minus", t, D, it / 2, 2 * L); EQ(toeplitz_lzz_pX_phi_minus(D), nmul(g, tr(h)), "phi_minus"); MatX r = D; toeplitz_lzz_pX_phi_minus(r, r); EQ(r, nmul(g, tr(h)), "phi_minus aliased"); }
static MatX phip(const MatX &A) { long m = A.NumRows(), n = A.NumCols(); MatX r = zmat(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) { r[i][j] = A[(i + m - 1) % m][j]; if (j + 1 < n) r[i][j] -= A[i][j + 1]; } return r; }
CASE("phi_plus", 200) { gen(); MatX A = rmat(sz(it), sz(it / 3), 5), r = junkm(3, 3); toeplitz_lzz_pX_phi_plus(r, A); EQ(r, phip(A), "phi_plus"); r = A; toeplitz_lzz_pX_phi_plus(r, r); EQ(r, phip(A), "phi_plus aliased"); count(str(A.NumRows()) + str(A.NumCols())); }
static void sylv(long it, long lo, VecX &a, VecX &b, MatX &D) { long da = G.r(lo, it % 7 == 0 ? 12 : 5), db = G.r(lo, it % 11 == 0 ? 12 : 5), L = G.r(1, 6); a = rv(da + 1, it % 8, L); b = rv(db + 1, it / 2 % 8, G.b() ? L : G.r(1, 6)); if (IsZero(a[da])) a[da] = rnz(); if (IsZero(b[db])) b[db] = dense(L); if (IsZero(b[db])) b[db] = 1; long n = da + db; D = zmat(n, n); for (long i = 0; i < db; i++) for (long j = 0; j <= da; j++) D[i + j][i] = a[j]; for (long i = 0; i < da; i++) for (long j = 0; j <= db; j++) D[i + j][i + db] = b[j]; }
CASE("sylvester", 900) { gen(); VecX a, b; MatX D; sylv(it, 1, a, b, D); sylvester_lzz_pX t(a, b); chk("sylvester", t, D, it / 2, 7); MatX g = junkm(3, 2), h; t.phi_plus_generators(g, h); EQ(nmul(g, tr(h)), phip(D), "phi_plus_generators"); }
CASE("sylvester inverse", 300) { prime(G.pick<long>({2, 3, 4, 6, 8, 100, 101})); VecX a, b; MatX D; sylv(it, 1, a, b, D); long da = a.length() - 1, db = b.length() - 1; if (coeff(a[da], 0) == 0) a[da] += 1; if (coeff(b[db], 0) == 0) b[db] += 1; D = zmat(da + db, da + db); for (long i = 0; i < db; i++) for (long j = 0; j <= da; j++) D[i + j][i] = a[j]; for (long i = 0; i < da; i++) for (long j = 0; j <= db; j++) D[i + j][i + db] = b[j]; if (rankF(cfm(D, 0)) < da + db) throw Skip(); note() << str(a) << " " << str(b); sylvester_lzz_pX t(a, b); long k = G.r(1, 20); toeplitz_like_minus_lzz_pX I; t.newton_inv_trunc(I, k); EQ(mtr(nmul(D, I.to_dense()), k), identX(da + db), "newton_inv_trunc " << k); toeplitz_like_minus_lzz_pX J; t.high_precision_inv_trunc(J, k); EQ(mtr(nmul(D, J.to_dense()), k), identX(da + db), "high_precision_inv_trunc " << k); count(str(da) + "," + str(db) + "," + str(k)); }
