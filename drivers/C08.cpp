#include "lzz_pX_middle_product.h"
#include "mat_lzz_pX_multiply.h"
#include "mat_lzz_pX_utils.h"
#include "common.h"
using namespace PML;
static zz_pX mp(const zz_pX &a, const zz_pX &c, long dA, long dB) { return pslice(ptrunc(a, dA + 1) * c, dA, dB + 1); }
static MatX mp(const MatX &a, const MatX &c, long dA, long dB) { return emap(nmul(emap(a, [&](const zz_pX &x) { return ptrunc(x, dA + 1); }), c), [&](const zz_pX &x) { return pslice(x, dA, dB + 1); }); }
static void gen() { prime(G.pick<long>({0, 1, 2, 3, 4, 6, 7, 8, 9, 100, 101})); }
static void degs(long it, long &dA, long &dB) { dA = G.r(0, 12); dB = G.r(0, 12); if (it % 3 == 1) { dA = G.r(25, 75); dB = G.r(25, 75); } if (it % 9 == 2) { dA = G.r(0, 3); dB = G.r(60, 150); } if (it % 9 == 5) { dB = G.r(0, 3); dA = G.r(60, 150); } if (it % 12 == 6) { dA = G.r(60, 300); dB = G.r(60, 300); } }
static string sg(long dA, long dB) { return "dA=" + str(dA) + " dB=" + str(dB) + " p=" + str(zz_p::modulus()); }
CASE("middle_product", 2500) { gen(); long dA, dB; degs(it, dA, dB); zz_pX a = it % 2 ? dense(dA + 1) : rpolylen(dA + 1 + (it % 5 == 0 ? 4 : 0)), c = it % 2 ? dense(dA + dB + 1) : rpolylen(dA + dB + 1 + (it % 7 == 0 ? 4 : 0)); note() << sg(dA, dB) << " deg a " << deg(a) << " deg c " << deg(c);
  zz_pX w = mp(a, c, dA, dB), b = junkp(); middle_product(b, a, c, dA, dB); EQ(b, w, "middle_product " << sg(dA, dB)); EQ(middle_product(a, c, dA, dB), w, "value"); b = a; middle_product(b, b, c, dA, dB); EQ(b, w, "output is a"); b = c; middle_product(b, a, b, dA, dB); EQ(b, w, "output is c"); b = a; middle_product(b, b, b, dA, dB); EQ(b, mp(a, a, dA, dB), "all aliased");
  EQ(middle_product(a, c, dA + 1), mp(a, c, dA, dA), "middle_product N"); count(sg(dA, dB) + str(deg(a)) + "," + str(deg(c))); }
CASE("middle_FFT", 600) { gen(); long dA, dB; degs(it, dA, dB); zz_pX a = rpoly(dA + 1 + (it % 5 == 0 ? 4 : 0)), c = rpoly(dA + dB + 1 + (it % 7 == 0 ? 4 : 0)); zz_pX w = mp(a, c, dA, dB), b = junkp(); middle_FFT(b, a, c, dA, dB); EQ(b, w, "middle_FFT " << sg(dA, dB)); b = a; middle_FFT(b, b, c, dA, dB); EQ(b, w, "output is a"); b = c; middle_FFT(b, a, b, dA, dB); EQ(b, w, "output is c"); middle_FFT(b, a, c, dA + 1); EQ(b, mp(a, c, dA, dA), "middle_FFT N"); count(sg(dA, dB)); }
CASE("tKarMul_aux", 600) { gen(); long sa = G.r(1, 140), sb = G.r(1, 140); if (it % 2) { sa = G.r(28, 70); sb = G.r(28, 70); } long sc = sa + sb - 1; VecF a = rvec(sa), c = rvec(sc), b, w; b.SetLength(sb + 3); w.SetLength(sb + 3); for (long i = 0; i < sb; i++) { w[i] = 0; for (long j = 0; j < sa; j++) w[i] += a[j] * c[i + j]; } for (long i = sb; i < sb + 3; i++) b[i] = w[i] = rnz(); VecF stk; long sp = Kar_stk_size(std::max(sa, sb)); stk.SetLength(sp + 8); for (long i = 0; i < 8; i++) stk[sp + i] = to_zz_p(1); note() << sa << " " << sb; tKarMul_aux(b.elts(), sb, a.elts(), sa, c.elts(), sc, stk.elts()); EQ(b, w, "tKarMul_aux sa=" << sa << " sb=" << sb); for (long i = 0; i < 8; i++) CHK(stk[sp + i] == 1, "scratch space of Kar_stk_size overrun sa=" << sa << " sb=" << sb); count(str(sa) + "," + str(sb) + "," + str(zz_p::modulus())); }
template <class F> static void one(const string &nm, F f, const MatX &a, const MatX &c, long dA, long dB) {
  string s = nm + " " + sg(dA, dB) + " " + str(a.NumRows()) + "x" + str(a.NumCols()) + "x" + str(c.NumCols()) + " deg " + str(mdeg(a)) + "," + str(mdeg(c)); note().str(""); note() << s; MatX w = mp(a, c, dA, dB), b = junkm(a.NumRows(), c.NumCols()); f(b, a, c, dA, dB); EQ(b, w, s); b = a; f(b, b, c, dA, dB); EQ(b, w, s << " output is a"); b = c; f(b, a, b, dA, dB); EQ(b, w, s << " output is c"); count(s); }
static void run(const string &nm, std::function<void(MatX &, const MatX &, const MatX &, long, long)> f, long it) { long m = G.r(1, 4), n = G.r(1, 4), p = G.r(1, 4); if (it % 8 == 0) { m = G.r(1, 9); n = G.r(1, 19); p = G.r(1, 19); } long dA = G.r(0, 12), dB = G.r(0, 12); if (it % 5 == 1) { dA = G.r(20, 70); dB = G.r(20, 70); } if (it % 9 == 2) { dA = G.r(0, 3); dB = G.r(20, 80); } if (it % 9 == 4) { dB = G.r(0, 3); dA = G.r(20, 80); } MatX a = it % 3 ? dmat(m, n, dA + 1) : rmat(m, n, G.r(0, dA + 1)), c = it % 3 ? dmat(n, p, dA + dB + 1) : rmat(n, p, G.r(0, dA + dB + 1)); if (it % 20 == 3) a = zmat(m, n); if (it % 20 == 6) c = zmat(n, p); if (it % 3 == 0 && G.b(6)) a = rmat(m, n, 1); one(nm, f, a, c, dA, dB); }
static void fftp(long it) { if (it % 3 == 0) prime(101); else prime(100); }
static void denseprime() { prime(G.pick<long>({4, 6, 7, 8, 9, 100, 101})); }
#define MC(fn, pr) CASE(#fn, 300) { pr; run(#fn, [](MatX &b, const MatX &a, const MatX &c, long dA, long dB) { fn(b, a, c, dA, dB); }, it); }
MC(middle_product_naive, gen()) MC(middle_product_3_primes, gen()) MC(middle_product_evaluate_dense, denseprime())
MC(middle_product_evaluate_FFT, fftp(it)) MC(middle_product_evaluate_FFT_new, fftp(it)) MC(middle_product_evaluate_FFT_direct, fftp(it)) MC(middle_product_evaluate_FFT_direct_ll_type, fftp(it)) MC(middle_product_evaluate_FFT_matmul, fftp(it)) MC(middle_product_evaluate_FFT_matmul1, fftp(it)) MC(middle_product_evaluate_FFT_matmul2, fftp(it)) MC(middle_product_evaluate_FFT_matmul3, fftp(it))
CASE("general middle_product", 700) { gen(); run("middle_product", [](MatX &b, const MatX &a, const MatX &c, long dA, long dB) { middle_product(b, a, c, dA, dB); }, it); if (it % 3 == 0) run("middle_product is_prime=0", [](MatX &b, const MatX &a, const MatX &c, long dA, long dB) { middle_product(b, a, c, dA, dB, 0); }, it + 1); if (it % 4 == 0) run("middle_product value", [](MatX &b, const MatX &a, const MatX &c, long dA, long dB) { b = middle_product(a, c, dA, dB); }, it); if (it % 50 == 0) { long m = G.r(1, 2), dA = G.r(100, 260), dB = G.r(100, 260); one("middle_product", [](MatX &b, const MatX &a, const MatX &c, long dA, long dB) { middle_product(b, a, c, dA, dB); }, dmat(m, m, dA + 1), dmat(m, m, dA + dB + 1), dA, dB); } if (it % 60 == 1) { long m = G.r(12, 24), dA = G.r(3, 20), dB = G.r(3, 20); one("middle_product", [](MatX &b, const MatX &a, const MatX &c, long dA, long dB) { middle_product(b, a, c, dA, dB); }, dmat(m, m, dA + 1), dmat(m, m, dA + dB + 1), dA, dB); } }
CASE("middle product large inner dimension", 16) { fftp(it); long n = G.pick<long>({254, 255, 256, 257, 511}); long dA = G.r(1, 5), dB = G.r(1, 5); MatX a = dmat(2, n, dA + 1), c = dmat(n, 2, dA + dB + 1);
#define L1(fn) one(#fn, [](MatX &b, const MatX &a, const MatX &c, long dA, long dB) { fn(b, a, c, dA, dB); }, a, c, dA, dB);
  L1(middle_product_evaluate_FFT_direct_ll_type) L1(middle_product_evaluate_FFT_direct) L1(middle_product_evaluate_FFT) L1(middle_product_evaluate_FFT_new) L1(middle_product) L1(middle_product_evaluate_FFT_matmul3) }
CASE("empty dimensions middle_product", 30) { gen(); long m = it % 3 == 0 ? 0 : G.r(1, 3), n = it % 3 == 1 ? 0 : G.r(1, 3), p = it % 3 == 2 ? 0 : G.r(1, 3), dA = G.r(0, 9), dB = G.r(0, 9); one("middle_product", [](MatX &b, const MatX &a, const MatX &c, long dA, long dB) { middle_product(b, a, c, dA, dB); }, rmat(m, n, dA + 1), rmat(n, p, dA + dB + 1), dA, dB); }
CASE("middle_product of a zero matrix, large range", 40) { gen(); long m = G.r(1, 3), n = G.r(1, 3), p = G.r(1, 3), dA = G.r(0, 9), dB = G.r(60, 400); one("middle_product", [](MatX &b, const MatX &a, const MatX &c, long dA, long dB) { middle_product(b, a, c, dA, dB); }, zmat(m, n), rmat(n, p, dA + dB + 1), dA, dB); }
static void mpm(MatX &b, const MatX &a, const MatX &c, long dA, long dB) { middle_product(b, a, c, dA, dB); }
CASE("middle_product at dispatch boundaries", 60) { prime(G.pick<long>({100, 101, 101, 8, 4})); static const long S[] = {3, 4, 6, 8, 9, 16, 17, 20, 25, 45}; static const long D[] = {1, 2, 3, 31, 32, 50, 51, 65, 80, 90, 101}; long s = S[G.r(0, it % 4 ? 5 : 9)], dA = D[G.r(0, s > 17 ? 3 : 10)], dB = G.b() ? dA : D[G.r(0, s > 17 ? 3 : 10)]; MatX a = dmat(s, s, dA + 1), c = dmat(s, s, dA + dB + 1), w = mp(a, c, dA, dB), b; string sx = sg(dA, dB) + " n=" + str(s); note() << sx; middle_product(b, a, c, dA, dB); EQ(b, w, "middle_product " << sx); if (PML::is_FFT_ready(NextPowerOfTwo(2 * dA + dB + 1))) { middle_product_evaluate_FFT(b, a, c, dA, dB); EQ(b, w, "evaluate_FFT " << sx); middle_product_evaluate_FFT_new(b, a, c, dA, dB); EQ(b, w, "evaluate_FFT_new " << sx); } count(sx); }
static long fftpr(long i) { zz_pPush push; zz_p::FFTInit(i); return zz_p::modulus(); }
CASE("middle product, several primes: image of lower degree", 80) { long P0 = fftpr(it % 3), kind = it % 2; long dA = G.r(0, 4), dB = G.r(0, 4); ZZ q; if (kind) q = NextPrime(ZZ(1L << 33) + ZZ(G.r(0, 1000))); else q = NextPrime(ZZ(P0) + ZZ(G.r(1, 1000))); long pp = to_long(q); if (pp >= (1L << 60)) throw Skip(); setp(pp); MatX a = zmat(2, 2), c = zmat(2, 2); for (long i = 0; i < 2; i++) for (long j = 0; j < 2; j++) { a[i][j] = dense(dA + 1); c[i][j] = dense(dA + dB + 1); } for (long j = 0; j < 2; j++) { a[0][j] = 0; }
  if (kind) { long s = 1L << 30, x = P0 / s, r = P0 % s; SetCoeff(a[0][0], 0, to_zz_p(x)); SetCoeff(a[0][1], 0, to_zz_p(r)); SetCoeff(c[0][0], dA + dB, to_zz_p(s)); SetCoeff(c[1][0], dA + dB, to_zz_p(1)); } else { SetCoeff(a[0][0], 0, to_zz_p(P0)); SetCoeff(c[0][0], dA + dB, rnz()); } one("middle_product_3_primes", [](MatX &b, const MatX &a, const MatX &c, long dA, long dB) { middle_product_3_primes(b, a, c, dA, dB); }, a, c, dA, dB); }
CASE("middle_product modulo a composite", 40) { setp(it % 2 ? 3L * 5 * 7 * 11 * 13 * 17 * 19 * 23 : 1L << 40); long n = G.pick<long>({1, 2, 3, 8}), dA = G.pick<long>({0, 2, 20, 40, 60}), dB = G.pick<long>({0, 2, 20, 40, 60}); one("middle_product is_prime=0, composite modulus", [](MatX &b, const MatX &a, const MatX &c, long dA, long dB) { middle_product(b, a, c, dA, dB, 0); }, rmat(n, n, dA + 1), rmat(n, n, dA + dB + 1), dA, dB); }
