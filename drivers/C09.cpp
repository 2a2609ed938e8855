#include "lzz_pX_CRT.h"
#include "lzz_p_extra.h"
#include "common.h"
using namespace PML;
static zz_p ev(const zz_pX &f, const zz_p &a) { zz_p r = to_zz_p(0); for (long i = f.rep.length() - 1; i >= 0; i--) r = r * a + f.rep[i]; return r; }
typedef Vec<VecF> VV; typedef Vec<MatF> VM;
static zz_pX pv(const VecF &v) { zz_pX f; f.rep = v; f.normalize(); return f; }
static void core(const string &s, zz_pX_Multipoint &P, const VecF &pt, long it) {
  long n = pt.length(); note().str(""); note() << s; CHK(P.length() == n, s << " length");
  VecF q = junkvF(n); P.get_points(q); EQ(q, pt, s << " get_points"); if (n) { long i = G.r(0, n - 1); zz_p z; P.get_point(z, i); EQ(z, zz_p(pt[i]), s << " get_point"); }
  MatF D = junkmF(n, n), W = zmatF(n, n); for (long i = 0; i < n; i++) { zz_p z = to_zz_p(1); for (long j = 0; j < n; j++) { W[i][j] = z; z *= pt[i]; } } P.to_dense(D); EQ(D, W, s << " to_dense");
  for (int k = 0; k < 3; k++) { zz_pX f = k == 0 ? dense(n) : k == 1 ? rpolylen(n) : (it % 5 ? rpoly(G.r(0, std::min(2L, n))) : zz_pX()); VecF w, v = junkvF(n); w.SetLength(n); for (long i = 0; i < n; i++) w[i] = ev(f, pt[i]); note() << " f=" << str(f); P.evaluate(v, f); EQ(v, w, s << " evaluate"); zz_pX g = junkp(); P.interpolate(g, v); EQ(g, f, s << " interpolate"); }
  VecF v = rvec(n); if (it % 7 == 0) for (long i = 0; i < n; i++) v[i] = 0; zz_pX g = junkp(), u; note() << " v=" << str(v); long os = G.b() ? -1 : G.r(0, n); long L = os < 0 ? n : os; u = fromfun(L, [&](long i) { zz_p z = to_zz_p(0); for (long j = 0; j < n; j++) z += v[j] * power(pt[j], i); return z; }); if (it % 3) { P.t_evaluate(g, v); EQ(g, fromfun(n, [&](long i) { zz_p z = to_zz_p(0); for (long j = 0; j < n; j++) z += v[j] * power(pt[j], i); return z; }), s << " t_evaluate"); } P.t_evaluate(g, v, os); EQ(g, u, s << " t_evaluate " << os);
  zz_pX te = fromfun(n, [&](long i) { zz_p z = to_zz_p(0); for (long j = 0; j < n; j++) z += v[j] * power(pt[j], i); return z; }); VecF b = junkvF(n); P.t_interpolate(b, te); EQ(b, v, s << " t_interpolate"); zz_pX c = rpolylen(n); P.t_interpolate(b, c); P.t_evaluate(g, b); EQ(g, c, s << " t_interpolate then t_evaluate");
  // vectors and matrices
  long r = G.r(0, 3), cc = G.r(0, 3); VecX F = rvecX(r, n); VV ve; if (G.b()) { ve.SetLength(2); ve[0] = rvec(3); } P.evaluate_vector(ve, F); CHK(ve.length() == n, s << " evaluate_vector length"); for (long k = 0; k < n; k++) { VecF w; w.SetLength(r); for (long i = 0; i < r; i++) w[i] = ev(F[i], pt[k]); EQ(VecF(ve[k]), w, s << " evaluate_vector"); } VecX Fb = junkv(r); P.interpolate_vector(Fb, ve); EQ(Fb, F, s << " interpolate_vector"); VV vt; P.t_interpolate_vector(vt, F); CHK(vt.length() == n, "t_interpolate_vector length"); VecX Ft = junkv(r); P.t_evaluate_vector(Ft, vt); EQ(Ft, F, s << " t_evaluate_vector o t_interpolate_vector");
  if (r && cc) { MatX M = rmat(r, cc, n), Mb = junkm(r, cc); VM vm; if (G.b()) { vm.SetLength(2); vm[1] = rmatF(2, 2); } P.evaluate_matrix(vm, M); CHK(vm.length() == n, s << " evaluate_matrix length"); for (long k = 0; k < n; k++) { MatF w = zmatF(r, cc); for (long i = 0; i < r; i++) for (long j = 0; j < cc; j++) w[i][j] = ev(M[i][j], pt[k]); EQ(MatF(vm[k]), w, s << " evaluate_matrix"); } P.interpolate_matrix(Mb, vm); EQ(Mb, M, s << " interpolate_matrix"); VM vt2; P.t_interpolate_matrix(vt2, M); CHK(vt2.length() == n, "t_interpolate_matrix length"); Mb = junkm(r, cc); P.t_evaluate_matrix(Mb, vt2); EQ(Mb, M, s << " t_evaluate_matrix o t_interpolate_matrix"); VecF one; one.SetLength(n); for (long k = 0; k < n; k++) one[k] = vt2[k][0][0]; VecF o2; P.t_interpolate(o2, M[0][0]); EQ(o2, one, s << " t_interpolate_matrix entry"); }
  count(s); }
CASE("general points", 400) { prime(G.pick<long>({2, 3, 4, 6, 8, 100, 101})); long p = zz_p::modulus(); long n = G.r(1, std::min(p, it % 8 == 0 ? 70L : 20L)); VecF all; std::set<long> used; while ((long)used.size() < n) { long x = (long)(G.u() % (unsigned long)p); if (G.b(5)) x = 0; if (used.insert(x).second) all.append(to_zz_p(x)); } long off = 0; VecF pt = all; zz_pX_Multipoint_General P(all); if (it % 3 == 0 && n > 1) { off = G.r(0, n - 1); long l = G.r(1, n - off); pt.SetLength(l); for (long i = 0; i < l; i++) pt[i] = all[off + i]; P = zz_pX_Multipoint_General(all, off, l); } core("general n=" + str(pt.length()) + " p=" + str(p), P, pt, it); }
CASE("get_general_points", 60) { prime(G.pick<long>({3, 4, 6, 8, 100})); long n = G.r(1, 30); zz_pX_Multipoint_General P = get_general_points(n); VecF pt; P.get_points(pt); CHK(pt.length() == n, "length"); std::set<long> u; for (long i = 0; i < n; i++) u.insert(rep(pt[i])); CHK((long)u.size() == n, "points distinct"); core("get_general_points n=" + str(n), P, pt, it); }
CASE("FFT points", 200) { if (it % 3 == 0) prime(101); else prime(100); long k = G.r(0, it % 8 == 0 ? 7 : 4), n = 1L << k; zz_pX_Multipoint_FFT P(n); VecF pt; P.get_points(pt); CHK(pt.length() == n, "length"); std::set<long> u; for (long i = 0; i < n; i++) { u.insert(rep(pt[i])); CHK(power(pt[i], n) == 1, "root of unity"); } CHK((long)u.size() == n, "points distinct"); core("FFT n=" + str(n), P, pt, it); long nn = G.r(1, 20); zz_pX_Multipoint_FFT Q = get_FFT_points(nn); CHK(Q.length() >= nn && Q.length() < 2 * nn, "get_FFT_points " << nn << " has length " << Q.length()); Q.get_points(pt); core("get_FFT_points " + str(nn), Q, pt, it); }
static long ordz(zz_p r) { long n = 1; zz_p z = r; while (z != 1) { z *= r; n++; if (n > 5000) break; } return n; }
CASE("geometric points", 700) { prime(G.pick<long>({3, 3, 4, 6, 7, 8, 100, 101})); long n = G.r(1, it % 5 == 0 ? 120 : 25); if (zz_p::modulus() == 101) n = G.r(1, 50); if (it % 9 == 0) n = G.r(1, 3); zz_p r, s = to_zz_p(1); int tries = 0; do { r = to_zz_p((long)(G.u() % (unsigned long)zz_p::modulus())); if (++tries > 500) throw Skip(); } while (r == 0 || ordz(r) < 2 * (n - 1) + 1); bool hs = it % 2; if (hs) { s = rnz(); } zz_pX_Multipoint_Geometric P = hs ? zz_pX_Multipoint_Geometric(r, s, n) : zz_pX_Multipoint_Geometric(r, n); VecF pt; pt.SetLength(n); for (long i = 0; i < n; i++) pt[i] = s * power(r, 2 * i); string nm = "geometric n=" + str(n) + " s=" + str(s) + " r=" + str(r) + " p=" + str(zz_p::modulus()); if (n > 1) EQ(P.get_q(), zz_p(r * r), "get_q"); EQ(P.get_s(), s, "get_s"); note().str(""); note() << nm;
  int mode = it % 4; long fe = P.FFT_evaluate(), fi = P.FFT_interpolate(); if (mode == 1) { P.unset_FFT_evaluate(); P.unset_FFT_interpolate(); CHK(!P.FFT_evaluate() && !P.FFT_interpolate(), "unset"); } if (mode == 2) { P.set_FFT_evaluate(); P.set_FFT_interpolate(); } if (mode == 3) P.decide_FFT(); (void)fe; (void)fi; if (it % 3 == 0) for (int k = 0; k < 2; k++) P.prepare_degree(G.r(0, n - 1)); core(nm + " mode " + str(mode), P, pt, it);
  // vector forms and partial evaluation
  VecF f = rvec(n), v = junkvF(n), w; w.SetLength(n); for (long i = 0; i < n; i++) w[i] = ev(pv(f), pt[i]); P.mul_right(v, f); EQ(v, w, nm << " mul_right"); v = junkvF(n); P.inv_mul_right(v, w); EQ(v, f, nm << " inv_mul_right"); VecF t; t.SetLength(n); for (long i = 0; i < n; i++) { t[i] = 0; for (long j = 0; j < n; j++) t[i] += f[j] * power(pt[j], i); } v = junkvF(n); P.mul_left(v, f); EQ(v, t, nm << " mul_left"); v = junkvF(n); P.inv_mul_left(v, t); EQ(v, f, nm << " inv_mul_left");
  long nb = G.r(1, 2 * n + 1); zz_pX g = rpolylen(n); w.SetLength(nb); for (long i = 0; i < nb; i++) w[i] = ev(g, s * power(r, 2 * i)); v = junkvF(nb); P.evaluate(v, g, nb); EQ(v, w, nm << " evaluate nb=" << nb); }
CASE("get_geometric_points", 60) { prime(G.pick<long>({4, 6, 8, 100, 101})); long n = G.r(1, 40); zz_pX_Multipoint_Geometric P = get_geometric_points(n); VecF pt; P.get_points(pt); CHK(pt.length() == n, "length"); std::set<long> u; for (long i = 0; i < n; i++) u.insert(rep(pt[i])); CHK((long)u.size() == n, "points distinct"); core("get_geometric_points n=" + str(n), P, pt, it); }
static void tf(const string &s, zz_pX_Transform &T, long d, long it) { CHK(T.input_length() == d, s << " input_length"); long n = T.transform_length(); zz_pX a = it % 3 ? dense(d) : rpolylen(d), b = it % 3 ? dense(d) : rpolylen(d), c = junkp(); VecF x = junkvF(n), y = junkvF(n), z; T.forward_left(x, a); T.forward_right(y, b); CHK(x.length() == n && y.length() == n, s << " transform length"); z.SetLength(n); for (long i = 0; i < n; i++) z[i] = x[i] * y[i]; T.backward(c, z); EQ(c, a * b, s << " backward(forward*forward)");
  long r = G.r(1, 3); VecX A = rvecX(r, d), B = rvecX(r, d), C = junkv(r); VV X, Y, Z; T.forward_left_vector(X, A); T.forward_right_vector(Y, B); CHK(X.length() == n && Y.length() == n, "vector length"); Z.SetLength(n); for (long i = 0; i < n; i++) { Z[i].SetLength(r); for (long j = 0; j < r; j++) Z[i][j] = X[i][j] * Y[i][j]; } T.backward_vector(C, Z); EQ(C, ezip(A, B, [](const zz_pX &u, const zz_pX &v) { return u * v; }), s << " vector");
  long m = G.r(1, 3), k = G.r(1, 3), q = G.r(1, 3); MatX U = rmat(m, k, d), V = rmat(k, q, d), W = junkm(m, q); VM MU, MV, MW; if (G.b()) { MU.SetLength(3); MU[0] = rmatF(2, 2); } T.forward_left_matrix(MU, U); T.forward_right_matrix(MV, V); CHK(MU.length() == n && MV.length() == n, "matrix length"); MW.SetLength(n); for (long i = 0; i < n; i++) MW[i] = nmul(MU[i], MV[i]); T.backward_matrix(W, MW); EQ(W, nmul(U, V), s << " matrix"); count(s + str(m) + str(k) + str(q) + str(zz_p::modulus())); }
CASE("transforms", 600) { anyprime(); long d = G.r(1, 7); zz_pX_Transform_naive N(d); tf("naive " + str(d), N, d, it); zz_pX_Transform_karatsuba K; tf("karatsuba", K, 2, it); zz_pX_Transform_montgomery3 M; tf("montgomery3", M, 3, it); zz_pX_Transform_karatsuba4 K4; tf("karatsuba4", K4, 4, it); }
CASE("subproduct tree", 200) { anyprime(); long n = G.r(1, 12); VecX q; q.SetLength(n); for (long i = 0; i < n; i++) { q[i] = rpolylen(3); } Vec<VecX> t; build_subproduct_tree(t, q); zz_pX pr; pr = 1; for (long i = 0; i < n; i++) pr = pr * q[i]; long L = t.length(); CHK(L >= 1, "tree not empty"); CHK(t[L - 1].length() == 1, "root"); EQ(zz_pX(t[L - 1][0]), pr, "root is the product"); EQ(VecX(t[0]), q, "leaves"); for (long l = 1; l < L; l++) { long m = t[l - 1].length(); CHK(t[l].length() == (m + 1) / 2, "level size"); for (long i = 0; i < t[l].length(); i++) EQ(zz_pX(t[l][i]), zz_pX(2 * i + 1 < m ? t[l - 1][2 * i] * t[l - 1][2 * i + 1] : t[l - 1][2 * i]), "level"); } count(str(n) + str(zz_p::modulus())); }
