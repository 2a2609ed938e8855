// C21: displacement-structured matrices over F_p
#include "structured_lzz_p.h"
#include "mat_lzz_p_extra.h"
#include "common.h"
using namespace PML;
static MatF Zm(long n, long c) { MatF Z = zmatF(n, n); for (long i = 0; i + 1 < n; i++) Z[i + 1][i] = 1; Z[0][n - 1] += c; if (n == 1) Z[0][0] = c; return Z; }
static MatF trF(const MatF &a) { MatF c = zmatF(a.NumCols(), a.NumRows()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) c[j][i] = a[i][j]; return c; }
static MatF subF(const MatF &a, const MatF &b) { MatF c = a; for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) c[i][j] = a[i][j] - b[i][j]; return c; }
static MatF idF(long n) { MatF c = zmatF(n, n); for (long i = 0; i < n; i++) c[i][i] = 1; return c; }
static MatF colm(const VecF &v) { MatF a = zmatF(v.length(), 1); for (long i = 0; i < v.length(); i++) a[i][0] = v[i]; return a; }
static MatF rowm(const VecF &v) { MatF a = zmatF(1, v.length()); for (long i = 0; i < v.length(); i++) a[0][i] = v[i]; return a; }
static VecF mv(const MatF &D, const VecF &v) { MatF r = nmul(D, colm(v)); VecF o; o.SetLength(D.NumRows()); for (long i = 0; i < D.NumRows(); i++) o[i] = r[i][0]; return o; }
static VecF vm(const VecF &v, const MatF &D) { MatF r = nmul(rowm(v), D); VecF o; o.SetLength(D.NumCols()); for (long i = 0; i < D.NumCols(); i++) o[i] = r[0][i]; return o; }
template <class T> static void dims(const T &t, const MatF &D, const string &n) { CHK(t.NumRows() == D.NumRows() && t.NumCols() == D.NumCols(), n << " dimensions"); EQ(t.to_dense(), D, n + " to_dense ret"); MatF o = junkmF(D.NumRows(), D.NumCols()); t.to_dense(o); EQ(o, D, n + " to_dense into a used matrix"); }
template <class T> static void rightv(const T &t, const MatF &D, const string &n) { VecF v = rvec(D.NumCols()), w = mv(D, v); VecF o = junkvF(D.NumRows()); t.mul_right(o, v); EQ(o, w, n + " mul_right"); EQ(t.mul_right(v), w, n + " mul_right ret"); o = v; t.mul_right(o, o); EQ(o, w, n + " mul_right aliased"); }
template <class T> static void leftv(const T &t, const MatF &D, const string &n) { VecF v = rvec(D.NumRows()), w = vm(v, D); VecF o = junkvF(D.NumCols()); t.mul_left(o, v); EQ(o, w, n + " mul_left"); EQ(t.mul_left(v), w, n + " mul_left ret"); o = v; t.mul_left(o, o); EQ(o, w, n + " mul_left aliased"); }
template <class T> static void mats(const T &t, const MatF &D, const string &n) { long k = G.r(0, 4); if (G.b(3)) k = G.r(1, std::max(1L, D.NumRows())); MatF A = rmatF(D.NumCols(), k), w = nmul(D, A); MatF o = junkmF(D.NumRows(), k); t.mul_right(o, A); EQ(o, w, n + " mul_right matrix"); o = A; t.mul_right(o, o); EQ(o, w, n + " mul_right matrix aliased"); EQ(t.mul_right(A), w, n + " mul_right matrix ret"); A = rmatF(k, D.NumRows()); w = nmul(A, D); o = junkmF(k, D.NumCols()); t.mul_left(o, A); EQ(o, w, n + " mul_left matrix"); o = A; t.mul_left(o, o); EQ(o, w, n + " mul_left matrix aliased"); EQ(t.mul_left(A), w, n + " mul_left matrix ret"); }
static void gens(MatF &U, MatF &V, long it) { anyprime(); long m = it % 4 == 0 ? G.r(1, 3) : G.r(1, it % 11 == 0 ? 60 : 12), n = it % 4 == 1 ? G.r(1, 3) : it % 4 == 2 ? m : G.r(1, it % 13 == 0 ? 60 : 12), al = G.r(0, 3); U = rmatF(m, al); V = rmatF(n, al); note() << "G=" << str(U) << " H=" << str(V) << " p=" << zz_p::modulus(); count(note().str()); }
static MatF gh(const MatF &U, const MatF &V) { return nmul(U, trF(V)); }
CASE("toeplitz_like_minus", 1500) { MatF U, V; gens(U, V, it); toeplitz_like_minus_lzz_p t(U, V); MatF D = t.to_dense(); long m = U.NumRows(), n = V.NumRows(); CHK(D.NumRows() == m && D.NumCols() == n && t.NumGens() == U.NumCols(), "dims"); EQ(subF(nmul(Zm(m, 0), D), nmul(D, Zm(n, 1))), gh(U, V), "Z0 M - M Z1"); dims(t, D, "toeplitz_like_minus"); rightv(t, D, "toeplitz_like_minus"); leftv(t, D, "toeplitz_like_minus"); mats(t, D, "toeplitz_like_minus"); }
CASE("toeplitz_like_plus", 1500) { MatF U, V; gens(U, V, it); toeplitz_like_plus_lzz_p t(U, V); MatF D = t.to_dense(); long m = U.NumRows(), n = V.NumRows(); CHK(D.NumRows() == m && D.NumCols() == n && t.NumGens() == U.NumCols(), "dims"); EQ(subF(nmul(Zm(m, 1), D), nmul(D, Zm(n, 0))), gh(U, V), "Z1 M - M Z0"); dims(t, D, "toeplitz_like_plus"); rightv(t, D, "toeplitz_like_plus"); leftv(t, D, "toeplitz_like_plus"); mats(t, D, "toeplitz_like_plus"); }
CASE("hankel_like_minus", 1500) { MatF U, V; gens(U, V, it); hankel_like_minus_lzz_p t(U, V); MatF D = t.to_dense(); long m = U.NumRows(), n = V.NumRows(); CHK(D.NumRows() == m && D.NumCols() == n && t.NumGens() == U.NumCols(), "dims"); EQ(subF(nmul(trF(Zm(m, 0)), D), nmul(D, Zm(n, 1))), gh(U, V), "Z0^t M - M Z1"); dims(t, D, "hankel_like_minus"); rightv(t, D, "hankel_like_minus"); leftv(t, D, "hankel_like_minus"); mats(t, D, "hankel_like_minus"); }
CASE("hankel_like_plus", 1500) { MatF U, V; gens(U, V, it); hankel_like_plus_lzz_p t(U, V); MatF D = t.to_dense(); long m = U.NumRows(), n = V.NumRows(); CHK(D.NumRows() == m && D.NumCols() == n && t.NumGens() == U.NumCols(), "dims"); EQ(subF(nmul(Zm(m, 1), D), nmul(D, trF(Zm(n, 0)))), gh(U, V), "Z1 M - M Z0^t"); dims(t, D, "hankel_like_plus"); rightv(t, D, "hankel_like_plus"); leftv(t, D, "hankel_like_plus"); mats(t, D, "hankel_like_plus"); }
CASE("displacement", 2000) { anyprime(); long m = G.r(1, 9), n = G.r(1, 9); MatF A = rmatF(m, n); note() << "A=" << str(A) << " p=" << zz_p::modulus(); count(note().str());
  struct { void (*f)(MatF &, const MatF &); MatF w; const char *n; } L[] = {{toeplitz_lzz_p_phi_plus, subF(nmul(Zm(m, 1), A), nmul(A, Zm(n, 0))), "toeplitz phi_plus"}, {toeplitz_lzz_p_phi_minus, subF(nmul(Zm(m, 0), A), nmul(A, Zm(n, 1))), "toeplitz phi_minus"}, {hankel_lzz_p_phi_plus, subF(nmul(Zm(m, 1), A), nmul(A, trF(Zm(n, 0)))), "hankel phi_plus"}, {hankel_lzz_p_phi_minus, subF(nmul(trF(Zm(m, 0)), A), nmul(A, Zm(n, 1))), "hankel phi_minus"}};
  for (auto &l : L) { MatF o = junkmF(m, n); l.f(o, A); EQ(o, l.w, l.n); o = A; l.f(o, o); EQ(o, l.w, string(l.n) + " aliased"); } }
// Cauchy: admissible parameters only
static bool cpar(zz_p &u, zz_p &v, zz_p &rho, long m, long n) { for (int k = 0; k < 60; k++) { u = rnz(); v = rnz(); rho = rnz(); zz_p s = rnz(); if (G.b()) rho = s * s; bool ok = true; long N = m + n + 2; zz_p x = rho; for (long i = 1; i < N && ok; i++) { if (x == 1) ok = false; x *= rho; } if (!ok) continue; zz_p ir = inv(rho); x = v; for (long i = 0; i < N && ok; i++) { if (x == u) ok = false; x *= rho; } x = v; for (long i = 0; i < N && ok; i++) { if (x == u) ok = false; x *= ir; } if (ok) return true; } return false; }
static MatF cau(const zz_p &u, const zz_p &v, const zz_p &r, long m, long n) { MatF D = zmatF(m, n); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) D[i][j] = inv(u * power(r, i) - v * power(r, j)); return D; }
CASE("cauchy_geometric", 1500) { midprime(); long m = G.r(1, it % 9 == 0 ? 60 : 10), n = it % 3 == 0 ? m : G.r(1, it % 9 == 1 ? 60 : 10); zz_p u, v, r; if (!cpar(u, v, r, m, n)) throw Skip(); note() << "u=" << u << " v=" << v << " rho=" << r << " m=" << m << " n=" << n << " p=" << zz_p::modulus(); count(note().str()); cauchy_geometric_lzz_p c(u, v, r, m, n); MatF D = cau(u, v, r, m, n); dims(c, D, "cauchy"); rightv(c, D, "cauchy"); leftv(c, D, "cauchy"); mats(c, D, "cauchy");
  MatF T = D; for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) T[i][j] *= power(r, i); VecF x = rvec(n), y = rvec(m); EQ(c.mul_right_simple(x), mv(T, x), "mul_right_simple"); EQ(c.mul_left_simple(y), vm(y, T), "mul_left_simple"); MatF X = rmatF(n, 3), Y = rmatF(2, m); EQ(c.mul_right_simple(X), nmul(T, X), "mul_right_simple matrix"); EQ(c.mul_left_simple(Y), nmul(Y, T), "mul_left_simple matrix"); }
static MatF clike(const MatF &U, const MatF &V, const zz_p &u, const zz_p &v, const zz_p &r) { MatF D = gh(U, V), C = cau(u, v, r, U.NumRows(), V.NumRows()); for (long i = 0; i < D.NumRows(); i++) for (long j = 0; j < D.NumCols(); j++) D[i][j] *= C[i][j]; return D; }
CASE("cauchy_like_geometric", 1200) { midprime(); long m = G.r(1, it % 9 == 0 ? 40 : 10), n = it % 3 == 0 ? m : G.r(1, 10); zz_p u, v, r; if (!cpar(u, v, r, m, n)) throw Skip(); long al = G.r(0, 4); if (it % 50 == 7) al = 37; MatF U = rmatF(m, al), V = rmatF(n, al); note() << "u=" << u << " v=" << v << " rho=" << r << " G=" << str(U) << " H=" << str(V) << " p=" << zz_p::modulus(); count(note().str()); cauchy_like_geometric_lzz_p c(U, V, u, v, r); MatF D = clike(U, V, u, v, r); CHK(c.NumGens() == al, "NumGens"); dims(c, D, "cauchy_like"); rightv(c, D, "cauchy_like"); leftv(c, D, "cauchy_like"); mats(c, D, "cauchy_like"); MatF X = rmatF(n, 3); EQ(c.mul_right_direct(X), nmul(D, X), "mul_right_direct"); }
static bool grp(const MatF &D) { long k = rankF(D); for (long i = 1; i <= k; i++) { MatF S = zmatF(i, i); for (long a = 0; a < i; a++) for (long b = 0; b < i; b++) S[a][b] = D[a][b]; if (rankF(S) < i) return false; } return true; }
static void cauinv(long it, bool large) { prime(G.pick<long>({6, 7, 8, 9, 100, 4})); long m = large ? G.r(190, 260) : G.r(1, 14), n = it % 3 == 0 ? G.r(1, 14) : m; if (large) n = m + G.r(-8, 8); zz_p u, v, r; if (!cpar(u, v, r, m, n)) throw Skip(); long al = large ? G.pick<long>({1, 2, 9}) : G.pick<long>({1, 2, 3, 4, 9}); MatF U = rmatF(m, al), V = rmatF(n, al); if (G.b(4) && !large) { for (long i = G.r(1, m); i < m; i++) for (long j = 0; j < al; j++) U[i][j] = 0; }
  long ta = G.pick<long>({-1, -1, 1, 3, 100}); note() << "u=" << u << " v=" << v << " rho=" << r << " alpha=" << al << " thresh_alpha=" << ta << " G=" << str(U) << " H=" << str(V) << " p=" << zz_p::modulus(); count(note().str()); MatF D = clike(U, V, u, v, r); cauchy_like_geometric_lzz_p c(U, V, u, v, r), ci; long ok = c.invert_leading_principal_minor_grp(ci, -1, ta); long rk = 0; bool g = true; if (!large) { rk = rankF(D); g = grp(D); CHK(ok == 1 || !g, "generic rank profile: returned " << ok << " expected " << g); }
  if (ok) { long k = ci.NumRows(); if (!large) CHK(k == rk && ci.NumCols() == rk, "size of the inverse " << k << " expected rank " << rk); MatF S = zmatF(k, k); for (long a = 0; a < k; a++) for (long b = 0; b < k; b++) S[a][b] = D[a][b]; EQ(nmul(S, ci.to_dense()), idF(k), "inverse of the leading minor"); }
  for (int q = 0; q < 2; q++) { VecF b = q ? rvec(m) : mv(D, rvec(n)); VecF x = junkvF(n); long s = c.solve_grp(x, b, -1, ta); CHK(s == ok, "solve_grp status"); if (s) { if (x.length() == 0) { if (!large) { MatF E = zmatF(m, n + 1); for (long i = 0; i < m; i++) { for (long j = 0; j < n; j++) E[i][j] = D[i][j]; E[i][n] = b[i]; } CHK(rankF(E) > rk, "solve_grp: no solution reported but there is one"); } else CHK(q, "solve_grp: consistent system unsolved"); } else EQ(mv(D, x), b, "solve_grp"); } } }
CASE("cauchy_like_invert", 1500) { cauinv(it, false); }
CASE("cauchy_like_invert_large", 10) { cauinv(it, true); }
template <class M, class B> static void mosaic(long it, const char *nm, bool hank) { if (it % 3 == 0) prime(G.pick<long>({7, 8, 9, 100})); else anyprime(); long nb = G.r(1, 3), mb = G.r(1, 3); vector<long> R, C; long n = 0, m = 0; for (long i = 0; i < nb; i++) { R.push_back(G.r(1, it % 17 == 0 ? 30 : 5)); n += R.back(); } for (long i = 0; i < mb; i++) { C.push_back(G.r(1, it % 19 == 0 ? 30 : 5)); m += C.back(); } if (G.b()) { while (n < m) { R[G.r(0, nb - 1)]++; n++; } while (m < n) { C[G.r(0, mb - 1)]++; m++; } }
  Vec<Vec<B>> d; d.SetLength(nb); MatF D = zmatF(n, m); long r0 = 0; for (long i = 0; i < nb; i++) { d[i].SetLength(mb); long c0 = 0; for (long j = 0; j < mb; j++) { VecF v = rvec(R[i] + C[j] - 1); if (G.b(9)) for (long k = 0; k < v.length(); k++) v[k] = 0; d[i][j] = B(v, R[i], C[j]); MatF E = d[i][j].to_dense(); for (long a = 0; a < R[i]; a++) for (long b = 0; b < C[j]; b++) { zz_p e = hank ? v[R[i] + C[j] - 2 - a - b] : v[C[j] - 1 + a - b]; if (hank) e = d[i][j](a, b); D[r0 + a][c0 + b] = hank ? E[a][b] : e; CHK(E[a][b] == d[i][j](a, b), "block access"); } c0 += C[j]; } r0 += R[i]; }
  note() << "D=" << str(D) << " R=" << R << " C=" << C << " p=" << zz_p::modulus(); count(note().str()); M t(d); CHK(t.NumBlockRows() == nb && t.NumBlockCols() == mb, "blocks"); for (long i = 0; i < nb; i++) CHK(t.NumRows_of_block(i) == R[i], "rows of block"); for (long i = 0; i < mb; i++) CHK(t.NumCols_of_block(i) == C[i], "cols of block"); dims(t, D, nm); rightv(t, D, nm); leftv(t, D, nm); mats(t, D, nm); for (long a = 0; a < n; a++) for (long b = 0; b < m; b++) CHK(t(a, b) == D[a][b], "access");
  long c0 = 0; for (long j = 0; j < mb; j++) { VecF f, l; f.SetLength(n); l.SetLength(n); for (long i = 0; i < n; i++) { f[i] = D[i][c0]; l[i] = D[i][c0 + C[j] - 1]; } EQ(t.first_column_of_block(j), f, "first_column_of_block"); EQ(t.last_column_of_block(j), l, "last_column_of_block"); c0 += C[j]; } r0 = 0; for (long i = 0; i < nb; i++) { EQ(t.first_row_of_block(i), D[r0], "first_row_of_block"); EQ(t.last_row_of_block(i), D[r0 + R[i] - 1], "last_row_of_block"); r0 += R[i]; }
  MatF U = junkmF(n, nb + mb), V = junkmF(m, nb + mb); t.phi_plus_generators(U, V); MatF Z0 = Zm(m, 0); EQ(subF(nmul(Zm(n, 1), D), nmul(D, hank ? trF(Z0) : Z0)), gh(U, V), string(nm) + " phi_plus_generators");
  if (it % 3 == 0) { long rk = rankF(D); for (int q = 0; q < 2; q++) { VecF b = q ? rvec(n) : mv(D, rvec(m)); VecF x = junkvF(m); long s = t.solve(x, b); if (s) { if (x.length() == 0) { MatF E = zmatF(n, m + 1); for (long i = 0; i < n; i++) { for (long j = 0; j < m; j++) E[i][j] = D[i][j]; E[i][m] = b[i]; } CHK(rankF(E) > rk, "solve: no solution reported but there is one"); } else EQ(mv(D, x), b, string(nm) + " solve"); } else if (zz_p::modulus() > 1L << 50) { bool gen = true; for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) { long e = rep(D[i][j]); if (e < 1000 || e > zz_p::modulus() - 1000) gen = false; } CHK(!gen, "solve failed over a large field"); } } } }
template <class M, class B, class I> static void mosinv(long it, const char *nm) { prime(G.pick<long>({7, 8, 9, 100})); long nb = G.r(1, 3), mb = G.r(1, 3); vector<long> R, C; long n = 0, m = 0; for (long i = 0; i < nb; i++) { R.push_back(G.r(1, 5)); n += R.back(); } for (long i = 0; i < mb; i++) { C.push_back(G.r(1, 5)); m += C.back(); } while (n < m) { R[G.r(0, nb - 1)]++; n++; } while (m < n) { C[G.r(0, mb - 1)]++; m++; } Vec<Vec<B>> d; d.SetLength(nb); for (long i = 0; i < nb; i++) { d[i].SetLength(mb); for (long j = 0; j < mb; j++) { VecF v; v.SetLength(R[i] + C[j] - 1); for (long k = 0; k < v.length(); k++) v[k] = random_zz_p(); if (G.b(8)) for (long k = 0; k < v.length(); k++) v[k] = 0; d[i][j] = B(v, R[i], C[j]); } }
  M t(d); MatF D = t.to_dense(); note() << "D=" << str(D) << " R=" << R << " C=" << C << " p=" << zz_p::modulus(); count(note().str()); I inv; long r = t.inv(inv); long rk = rankF(D); if (rk < n) CHK(r == 0, "inverse of a singular matrix reported"); else if (r) { MatF X = inv.to_dense(); EQ(nmul(D, X), idF(n), string(nm) + " inverse"); VecF v = rvec(n); EQ(inv.mul_right(v), mv(X, v), "inverse mul_right"); } else if (zz_p::modulus() > 1L << 50) { bool gen = true; for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) { long e = rep(D[i][j]); if (e < 1000 || e > zz_p::modulus() - 1000) gen = false; } CHK(!gen, "inversion failed over a large field"); } }
CASE("mosaic_hankel", 1200) { mosaic<mosaic_hankel_lzz_p, hankel_lzz_p>(it, "mosaic_hankel", true); }
CASE("mosaic_toeplitz", 1200) { mosaic<mosaic_toeplitz_lzz_p, toeplitz_lzz_p>(it, "mosaic_toeplitz", false); }
CASE("mosaic_hankel_inv", 500) { mosinv<mosaic_hankel_lzz_p, hankel_lzz_p, hankel_like_minus_lzz_p>(it, "mosaic_hankel"); }
CASE("mosaic_toeplitz_inv", 500) { mosinv<mosaic_toeplitz_lzz_p, toeplitz_lzz_p, toeplitz_like_minus_lzz_p>(it, "mosaic_toeplitz"); }
static MatF sylv(const zz_pX &a, const zz_pX &b) { long da = deg(a), db = deg(b), n = da + db; MatF D = zmatF(n, n); for (long i = 0; i < db; i++) for (long j = 0; j <= da; j++) D[i + j][i] = cf(a, j); for (long i = 0; i < da; i++) for (long j = 0; j <= db; j++) D[i + j][i + db] = cf(b, j); return D; }
CASE("sylvester", 2500) { anyprime(); long da = G.r(it % 6 == 0 ? 0 : 1, it % 7 == 0 ? 40 : 8), db = G.r(it % 6 == 1 ? 0 : 1, it % 11 == 0 ? 40 : 8); if (da + db == 0) throw Skip(); zz_pX a = rpoly(da), b = rpoly(db); SetCoeff(a, da, rnz()); SetCoeff(b, db, rnz()); if (G.b(5)) { long k = G.r(0, 2); a = LeftShift(a, k); } note() << "a=" << str(a) << " b=" << str(b) << " p=" << zz_p::modulus(); count(note().str()); MatF D = sylv(a, b); long n = D.NumRows(); bool inv = deg(GCD(a, b)) == 0; sylvester_lzz_p s(a, b); dims(s, D, "sylvester"); rightv(s, D, "sylvester"); leftv(s, D, "sylvester"); mats(s, D, "sylvester");
  if (da > 0 && db > 0) for (int q = 0; q < 2; q++) { if (q) s.prepare_inverse(); VecF v = rvec(n), x = junkvF(n); long r = s.solve(x, v); CHK(r == (inv ? 1 : 0), "solve status"); if (r) EQ(mv(D, x), v, "solve"); x = v; r = s.solve(x, x); if (r) EQ(mv(D, x), v, "solve aliased"); x = junkvF(n); r = s.solve_transpose(x, v); CHK(r == (inv ? 1 : 0), "solve_transpose status"); if (r) EQ(vm(x, D), v, "solve_transpose"); x = v; r = s.solve_transpose(x, x); if (r) EQ(vm(x, D), v, "solve_transpose aliased"); MatF A = rmatF(n, 3), X = junkmF(n, 3); r = s.solve(X, A); CHK(r == (inv ? 1 : 0), "solve matrix status"); if (r) EQ(nmul(D, X), A, "solve matrix"); A = rmatF(2, n); r = s.solve_transpose(X, A); if (r) EQ(nmul(X, D), A, "solve_transpose matrix"); }
  if (da > 0 && db > 0) { MatF U = junkmF(n, 2), V = junkmF(n, 2); s.phi_plus_generators(U, V); EQ(subF(nmul(Zm(n, 1), D), nmul(D, Zm(n, 0))), gh(U, V), "phi_plus_generators"); toeplitz_like_minus_lzz_p ti; sylvester_lzz_p s2(a, b); long r = s2.inv(ti); CHK(r == (inv ? 1 : 0), "inv status"); if (r) { MatF X = ti.to_dense(); EQ(nmul(D, X), idF(n), "inv"); long m = G.r(1, n); MatF bl = junkmF(m, m), w = zmatF(m, m); for (long i = 0; i < m; i++) for (long j = 0; j < m; j++) w[i][j] = X[i][n - m + j]; note() << " block " << m; sylvester_lzz_p s3(a, b); long rr = s3.top_right_block_inverse(bl, m); CHK(rr == 1, "top_right_block_inverse status"); EQ(bl, w, "top_right_block_inverse"); } else { MatF bl; CHK(s2.top_right_block_inverse(bl, 1) == 0, "top_right_block_inverse status"); } } }
