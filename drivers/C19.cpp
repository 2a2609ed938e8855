// C19: field, vector and univariate helpers
#include "common.h"
#include "lzz_p_extra.h"
#include "vec_lzz_p_extra.h"
#include "mat_lzz_p_extra.h"
#include "lzz_pX_extra.h"
using namespace PML;
static long trueorder(const zz_p &a) { if (a == 0) return -1; long o = 1; zz_p x = a; while (x != 1) { x *= a; o++; } return o; }
static void smallprime() { static const long P[] = {2, 3, 5, 7, 11, 13, 101, 257, 9001, 65537}; setp(P[G.r(0, 9)]); }
CASE("order", 4000) { smallprime(); zz_p a = rz(); if (G.b(3)) a = power(a, (zz_p::modulus() - 1) / std::max(1L, G.pick<long>({1, 2, 4, 3, 8, 16})));
  note() << "a=" << a << " p=" << zz_p::modulus(); count(note().str()); CHK(PML::order(a) == trueorder(a), "order"); }
CASE("element_of_order", 3000) { smallprime(); long p = zz_p::modulus(); bool strong = G.b(); long ord = G.r(G.b(6) ? 0 : 1, std::min(p - 1, G.pick<long>({5, 60, 200, p - 1}))); long tr = G.pick<long>({0, 1, 2, 100});
  note() << "ord=" << ord << " p=" << p << " trials=" << tr << " strong=" << strong; count(note().str()); zz_p a = rz();
  if (G.b()) PML::element_of_order(a, ord, tr, strong); else a = PML::element_of_order(ord, tr, strong);
  CHK(okz(a), "reduced"); if (a != 0) CHK(trueorder(a) >= ord, "order of " << a << " too small");
  if (tr == 0) CHK(a == 0, "no trial must give 0");
  if (tr == 100 && p > 100 && ord <= p / 8) CHK(a != 0, "no element found in 100 trials"); }
CASE("element_of_order_big", 40) { prime(G.pick<long>({7, 8, 9, 100})); long ord = G.r(1, 3000); zz_p a; PML::element_of_order(a, ord); CHK(okz(a) && a != 0, "none found"); zz_p x = a; for (long i = 1; i < ord; i++) { CHK(x != 1, "order too small"); x *= a; } count("x"); }
CASE("inv", 4000) { anyprime(); long n = G.r(0, G.pick<long>({3, 12, 60})); VecF A; A.SetLength(n); for (long i = 0; i < n; i++) A[i] = rnz(); VecF w; w.SetLength(n); for (long i = 0; i < n; i++) w[i] = inv(A[i]);
  note() << "A=" << str(A) << " p=" << zz_p::modulus(); count(note().str());
  { VecF r = junkvF(n); PML::inv(r, A); EQ(r, w, "inv"); } { VecF r = A; PML::inv(r, r); EQ(r, w, "inv aliased"); } EQ(PML::inv(A), w, "inv returned");
  { VecF r = junkvF(n); PML::inv_naive(r, A); EQ(r, w, "inv_naive"); } { VecF r = A; PML::inv_naive(r, r); EQ(r, w, "inv_naive aliased"); } }
CASE("precomp", 1500) { anyprime(); long n = G.r(0, 9); VecF A = rvec(n); long p = zz_p::modulus(); Vec<mulmod_precon_t> pr; if (G.b()) pr.SetLength(G.r(0, 12)); precomp(pr, A); CHK(pr.length() == n, "length"); Vec<mulmod_precon_t> p2 = precomp(A); CHK(p2.length() == n, "length");
  count(str(A)); for (long i = 0; i < n; i++) { zz_p x = rz(); CHK(MulModPrecon(rep(x), rep(A[i]), p, pr[i]) == MulMod(rep(x), rep(A[i]), p), "precomp"); CHK(MulModPrecon(rep(x), rep(A[i]), p, p2[i]) == MulMod(rep(x), rep(A[i]), p), "precomp returned"); } }
CASE("special_matrices", 1500) { anyprime(); long n = G.r(1, 9); zz_p c = rz(); note() << "n=" << n << " c=" << c; count(note().str() + str(zz_p::modulus()));
  MatF Z = zmatF(n, n), J = zmatF(n, n); for (long i = 0; i + 1 < n; i++) Z[i + 1][i] = 1; Z[0][n - 1] = c; for (long i = 0; i < n; i++) J[n - 1 - i][i] = 1; EQ(Z_lzz_p(n, c), Z, "Z"); EQ(J_lzz_p(n), J, "J");
  long m = G.r(0, 9); VecF d = rvec(m); MatF D = zmatF(m, m); for (long i = 0; i < m; i++) D[i][i] = d[i]; EQ(diagonal_matrix(d), D, "diagonal"); }
CASE("clear_block", 4000) { anyprime(); long n = G.r(0, 7), m = G.r(0, 7); MatF A = rmatF(n, m), w = A; long r0 = G.r(0, n + 2), c0 = G.r(0, m + 2), nr = G.r(0, n + 2), nc = G.r(0, m + 2); note() << "A=" << str(A) << " off " << r0 << "," << c0 << " size " << nr << "," << nc; count(note().str());
  for (long i = r0; i < std::min(n, r0 + nr); i++) for (long j = c0; j < std::min(m, c0 + nc); j++) w[i][j] = 0; PML::clear(A, r0, c0, nr, nc); EQ(A, w, "clear"); }
CASE("is_monic", 2000) { anyprime(); zz_pX f = rpolylen(6); if (G.b() && !IsZero(f)) MakeMonic(f); count(str(f)); CHK(PML::is_monic(f) == (f.rep.length() > 0 && f.rep[f.rep.length() - 1] == 1), "is_monic " << f); }
static void itm(long m, long la, long lb) { zz_pX a, b; int k = G.r(0, 5); a = k == 0 ? rpoly(la) : dense(la); b = k == 1 ? rpoly(lb) : dense(lb); if (k == 2) { a = 0; SetCoeff(a, la - 1, rnz()); } if (k == 3) { b = 0; if (lb) SetCoeff(b, G.r(0, lb - 1), rnz()); } if (k == 4) { a = 1; SetCoeff(a, std::min(G.r(1, 3), std::max(1L, la - 1)), rz()); } SetCoeff(a, 0, G.b(3) ? to_zz_p(1) : rnz());
  note() << "m=" << m << " a=" << str(a) << " b=" << str(b) << " p=" << zz_p::modulus(); count(note().str()); zz_pX w = m ? MulTrunc(trunc(b, m), InvTrunc(a, m), m) : zz_pX();
  { zz_pX t = MulTrunc(w, a, m); CHK(m == 0 || same(t, trunc(b, m)), "oracle"); }
  { zz_pX x = junkp(); PML::InvTruncMul(x, b, a, m); EQ(x, w, "InvTruncMul"); } { zz_pX x = a; PML::InvTruncMul(x, b, x, m); EQ(x, w, "InvTruncMul f=a"); } { zz_pX x = b; PML::InvTruncMul(x, x, a, m); EQ(x, w, "InvTruncMul f=b"); }
  if (G.b(4)) { zz_pX x = a; PML::InvTruncMul(x, x, x, m); zz_pX o; if (m) o = 1; EQ(x, o, "a/a"); } EQ(PML::InvTruncMul(b, a, m), w, "InvTruncMul returned"); }
CASE("InvTruncMul_small", 4000) { anyprime(); long m = G.r(0, 40); itm(m, G.r(1, m + 5), G.r(0, m + 5)); }
CASE("InvTruncMul_newton", 2500) { anyprime(); long m = G.b() ? G.r(40, 140) : G.r(100, 700); itm(m, G.b() ? G.r(1, m + 20) : G.r(1, m / 2 + 2), G.b() ? G.r(0, m + 20) : G.r(0, m / 2 + 2)); }
CASE("InvTruncMul_edge", 2500) { anyprime(); long k = G.pick<long>({32, 64, 128, 256}); long m = G.r(std::max(46L, k - 1), 2 * k + 1); itm(m, G.pick<long>({1, 2, k - 1, k, k + 1, m - 1, m, m + 1}), G.pick<long>({0, 1, 2, k - 1, k, k + 1, m - 1, m, m + 1, m / 2})); }
static zz_pX taylor(const zz_pX &f, const zz_p &c) { zz_pX r, l; SetX(l); SetCoeff(l, 0, c); for (long i = deg(f); i >= 0; i--) { r *= l; r += f.rep[i]; } return r; }
CASE("shift", 3000) { anyprime(); zz_pX f = rpolylen(G.pick<long>({1, 5, 9, 40, 130})); zz_p c = rz(); note() << "f=" << str(f) << " c=" << c << " p=" << zz_p::modulus(); count(note().str()); zz_pX w = taylor(f, c);
  { zz_pX g = junkp(); PML::shift(g, f, c); EQ(g, w, "shift"); } { zz_pX g = f; PML::shift(g, g, c); EQ(g, w, "shift aliased"); } EQ(PML::shift(f, c), w, "shift returned"); }
CASE("shift_objects", 4000) { anyprime(); long d = G.r(-1, G.pick<long>({1, 5, 9, 40, 100})); long p = zz_p::modulus(); zz_p c = rz(); bool large = d < p || d < 2; if (large && d >= 2 && p == 2) large = false;
  zz_pX_shift_DAC s1(d, c); std::unique_ptr<zz_pX_shift> s3 = get_shift(d, c); std::unique_ptr<zz_pX_shift_large_characteristic> s2; if (large && d >= 0) s2.reset(new zz_pX_shift_large_characteristic(d, c));
  for (int k = 0; k < 4; k++) { zz_pX f = k == 0 ? zz_pX() : rpoly(G.r(0, d + 1)); note().str(""); note() << "d=" << d << " f=" << str(f) << " c=" << c << " p=" << p; count(note().str()); zz_pX w = taylor(f, c);
    { zz_pX g = junkp(); s1.shift(g, f); EQ(g, w, "DAC"); } { zz_pX g = f; s1.shift(g, g); EQ(g, w, "DAC aliased"); } { zz_pX g = junkp(); s3->shift(g, f); EQ(g, w, "get_shift"); }
    if (s2) { zz_pX g = junkp(); s2->shift(g, f); EQ(g, w, "large characteristic"); g = f; s2->shift(g, g); EQ(g, w, "large characteristic aliased"); } } }
CASE("add_LeftShift", 5000) { anyprime(); zz_pX a = rpolylen(9), b = rpolylen(9); long k = G.r(0, 12); if (G.b(4) && k <= deg(a)) { b = -(a >> k); } note() << "a=" << str(a) << " b=" << str(b) << " k=" << k << " p=" << zz_p::modulus(); count(note().str()); zz_pX w = a + pshl(b, k);
  { zz_pX c = junkp(); add_LeftShift(c, a, b, k); EQ(c, w, "add_LeftShift"); } { zz_pX c = a; add_LeftShift(c, c, b, k); EQ(c, w, "c=a"); } { zz_pX c = b; add_LeftShift(c, a, c, k); EQ(c, w, "c=b"); } { zz_pX c = b; add_LeftShift(c, c, c, k); EQ(c, b + pshl(b, k), "c=a=b"); } }
