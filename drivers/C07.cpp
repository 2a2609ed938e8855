#include "mat_lzz_pX_multiply.h"
#include "mat_lzz_pX_arith.h"
#include "common.h"
using namespace PML;
typedef void (*Mul)(MatX &, const MatX &, const MatX &);
static string sig(const MatX &a, const MatX &b) { return str(a.NumRows()) + "x" + str(a.NumCols()) + "x" + str(b.NumCols()) + "d" + str(mdeg(a)) + "," + str(mdeg(b)) + "p" + str(zz_p::modulus()); }
// oracle: naive on sizes that are small; product by NTL polynomials
template <class F> static void one(const string &nm, F f, const MatX &a, const MatX &b) {
  note().str(""); note() << nm << " " << sig(a, b); MatX w = nmul(a, b), c = junkm(a.NumRows(), b.NumCols()); f(c, a, b); EQ(c, w, nm << " " << sig(a, b));
  MatX d = a; f(d, d, b); EQ(d, w, nm << " output is left operand " << sig(a, b)); d = b; f(d, a, d); EQ(d, w, nm << " output is right operand " << sig(a, b)); if (a.NumRows() == a.NumCols() && G.b(4)) { d = a; f(d, d, d); EQ(d, nmul(a, a), nm << " all aliased"); } count(nm + sig(a, b)); }
static void sizes(long it, long &m, long &n, long &p, long &la, long &lb) { m = G.r(1, 5); n = G.r(1, 5); p = G.r(1, 5); if (it % 6 == 0) { m = G.r(1, 9); n = G.r(1, 19); p = G.r(1, 19); } if (it % 9 == 1) m = n = p = G.r(1, 3); la = G.r(1, 12); lb = G.r(1, 12); if (it % 4 == 1) { la = G.r(1, 70); lb = G.r(1, 70); } if (it % 8 == 2) { la = G.r(1, 3); lb = G.r(10, 40); } if (it % 8 == 3) { lb = G.r(1, 3); la = G.r(10, 40); } }
static MatX nz(long n, long m, long l) { MatX a = rmat(n, m, l); if (mdeg(a) < 0) a[0][0] = 1; return a; }
static void fftprime(long it) { if (it % 3 == 0) prime(101); else prime(100); }
static void gen(long it) { prime(G.pick<long>({0, 1, 2, 3, 4, 6, 7, 8, 9, 100, 101})); }
#define FFTC(fn) CASE(#fn, 250) { fftprime(it); long m, n, p, la, lb; sizes(it, m, n, p, la, lb); one(#fn, fn, nz(m, n, la), nz(n, p, lb)); }
#define ANYC(fn) CASE(#fn, 250) { gen(it); long m, n, p, la, lb; sizes(it, m, n, p, la, lb); one(#fn, fn, nz(m, n, la), nz(n, p, lb)); }
FFTC(multiply_evaluate_FFT_direct) FFTC(multiply_evaluate_FFT_direct_ll_type) FFTC(multiply_evaluate_FFT_matmul1) FFTC(multiply_evaluate_FFT_matmul2) FFTC(multiply_evaluate_FFT_matmul3) FFTC(multiply_evaluate_FFT)
ANYC(multiply_naive) ANYC(multiply_waksman) ANYC(multiply_3_primes) ANYC(multiply_transform_naive)
CASE("multiply_transform", 300) { gen(it); long m, n, p, la, lb; sizes(it, m, n, p, la, lb); if (it % 2) { la = G.r(1, 6); lb = G.r(1, 6); } MatX a = nz(m, n, la), b = nz(n, p, lb); one("multiply_transform", [](MatX &c, const MatX &x, const MatX &y) { multiply_transform(c, x, y); }, a, b); long L = std::max(mdeg(a), mdeg(b)) + 1; if (L <= 6) one("multiply_transform len", [&](MatX &c, const MatX &x, const MatX &y) { multiply_transform(c, x, y, std::max(mdeg(x), mdeg(y)) + 1); }, a, b); }
#define TRC(fn, L) CASE(#fn, 200) { gen(it); long m = G.r(1, 6), n = G.r(1, 6), p = G.r(1, 6); one(#fn, fn, rmat(m, n, G.r(0, L)), rmat(n, p, G.r(0, L))); }
TRC(multiply_transform_karatsuba, 2) TRC(multiply_transform_montgomery3, 3) TRC(multiply_transform_karatsuba4, 4)
static void denseprime(long it) { prime(G.pick<long>({4, 6, 7, 8, 9, 100, 101})); }
#define DENC(fn) CASE(#fn, 250) { denseprime(it); long m, n, p, la, lb; sizes(it, m, n, p, la, lb); one(#fn, fn, nz(m, n, la), nz(n, p, lb)); }
DENC(multiply_evaluate_dense) DENC(multiply_evaluate_dense2) DENC(multiply_evaluate_geometric)
CASE("multiply_evaluate_dense small field", 200) { prime(G.pick<long>({3, 2})); long p0 = zz_p::modulus(); long m = G.r(1, 4), n = G.r(1, 4), p = G.r(1, 4); long la = G.r(1, p0 / 4), lb = std::max(1L, (p0 - 1) / 2 - la); one("multiply_evaluate_dense", multiply_evaluate_dense, nz(m, n, la), nz(n, p, lb)); }
CASE("multiply", 500) { gen(it); long m, n, p, la, lb; sizes(it, m, n, p, la, lb); if (it % 5 == 0) { la = G.r(0, 9); lb = G.r(0, 9); } if (it % 37 == 0) { la = G.r(100, 300); lb = G.r(100, 300); m = n = p = G.r(1, 3); } if (it % 41 == 0) { m = n = p = G.r(20, 26); la = lb = G.r(5, 40); } MatX a = rmat(m, n, la), b = rmat(n, p, lb); one("multiply", [](MatX &c, const MatX &x, const MatX &y) { multiply(c, x, y); }, a, b); EQ(MatX(a * b), nmul(a, b), "operator*");
  one("multiply is_prime=0", [](MatX &c, const MatX &x, const MatX &y) { multiply(c, x, y, 0); }, a, b); long d = G.r(0, la + lb); MatX w = emap(nmul(a, b), [&](const zz_pX &x) { return ptrunc(x, d); }); MatX c = junkm(m, p); mul_trunc(c, a, b, d); EQ(c, w, "mul_trunc"); EQ(mul_trunc(a, b, d), w, "mul_trunc value"); }
CASE("multiply large inner dimension", 24) { prime(G.pick<long>({100, 101, 8, 6, 3})); long n = G.pick<long>({254, 255, 256, 257, 510, 511, 530}); long m = G.r(1, 2), p = G.r(1, 2), l = G.r(2, 9); MatX a = dmat(m, n, l), b = dmat(n, p, l); MatX w = nmul(a, b), c; multiply(c, a, b); EQ(c, w, "multiply " << sig(a, b)); if (zz_p::modulus() == 786433 || it % 2) { prime(100); a = dmat(m, n, l); b = dmat(n, p, l); w = nmul(a, b); multiply_evaluate_FFT_direct_ll_type(c, a, b); EQ(c, w, "FFT_direct_ll " << sig(a, b)); multiply_evaluate_FFT_direct(c, a, b); EQ(c, w, "FFT_direct"); multiply_evaluate_FFT(c, a, b); EQ(c, w, "FFT"); mat_lzz_pX_lmultiplier_FFT_direct L(a, l); MatX e; L.multiply(e, b); EQ(e, w, "lmultiplier_FFT_direct"); } count(sig(a, b)); }
CASE("multiply by vectors", 300) { gen(it); long m, n, p, la, lb; sizes(it, m, n, p, la, lb); MatX a = rmat(m, n, la); VecX v = rvecX(n, lb), u = rvecX(m, lb); MatX V = zmat(n, 1), U = zmat(1, m); for (long i = 0; i < n; i++) V[i][0] = v[i]; for (long i = 0; i < m; i++) U[0][i] = u[i]; MatX W = nmul(a, V), X = nmul(U, a); VecX w, x, c = junkv(m); w.SetLength(m); x.SetLength(n); for (long i = 0; i < m; i++) w[i] = W[i][0]; for (long i = 0; i < n; i++) x[i] = X[0][i];
  multiply(c, a, v); EQ(c, w, "mat*vec"); c = v; multiply(c, a, c); EQ(c, w, "mat*vec aliased"); EQ(VecX(a * v), w, "op"); c = junkv(n); multiply(c, u, a); EQ(c, x, "vec*mat"); c = u; multiply(c, c, a); EQ(c, x, "vec*mat aliased"); EQ(VecX(u * a), x, "op"); count(sig(a, V)); }
template <class L> static void lm(const string &nm, L &mu0, const MatX &a, long dB) { mat_lzz_pX_lmultiplier &mu = mu0; CHK(mu.NumRows() == a.NumRows() && mu.NumCols() == a.NumCols() && mu.degB() == dB && mu.degA() == mdeg(a), nm << " accessors"); for (int k = 0; k < 4; k++) { MatX b = k == 0 ? dmat(a.NumCols(), G.r(1, 4), dB + 1) : nz(a.NumCols(), G.r(1, 4), G.r(1, dB + 1)); note().str(""); note() << nm << sig(a, b) << " dB=" << dB; MatX w = nmul(a, b), c = junkm(a.NumRows(), b.NumCols()); mu.multiply(c, b); EQ(c, w, nm << " " << sig(a, b) << " dB=" << dB); if (k == 1) EQ(mu.multiply(b), w, nm << " value"); if (k == 2) { c = b; mu.multiply(c, c); EQ(c, w, nm << " output is rhs"); } count(nm + sig(a, b) + str(dB)); } }
#define LMC(cls, pr) CASE(#cls, 150) { pr; long m = G.r(1, 5), n = G.r(1, 5), dB = it % 4 ? G.r(0, 12) : G.r(0, 80); MatX a = nz(m, n, it % 3 ? G.r(1, 12) : G.r(1, 60)); cls mu(a, dB); lm(#cls, mu, a, dB); }
LMC(mat_lzz_pX_lmultiplier_FFT_direct, fftprime(it)) LMC(mat_lzz_pX_lmultiplier_FFT_matmul, fftprime(it)) LMC(mat_lzz_pX_lmultiplier_geometric, denseprime(it)) LMC(mat_lzz_pX_lmultiplier_dense, denseprime(it)) LMC(mat_lzz_pX_lmultiplier_3_primes, denseprime(it))
CASE("get_lmultiplier", 150) { denseprime(it); long m = G.r(1, 5), n = G.r(1, 5), dB = it % 4 ? G.r(0, 12) : G.r(0, 80); if (it % 15 == 0) { m = G.r(21, 42); n = G.r(1, 2); } MatX a = nz(m, n, it % 3 ? G.r(1, 12) : it % 2 ? G.r(1, 60) : G.r(140, 160)); auto mu = get_lmultiplier(a, dB); lm("get_lmultiplier", *mu, a, dB); }
CASE("reduce_mod_p", 100) { prime(8); long n = G.r(0, 4), m = G.r(0, 4); MatX a = rmat(n, m, 9); MatX b = junkm(n, m); long P[] = {0, 3, 6, 9}; long q = P[it % 4]; prime(q); long pp = zz_p::modulus(); MatX w = zmat(n, m); for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) w[i][j] = fromfun(a[i][j].rep.length(), [&](long k) { return to_zz_p(rep(a[i][j].rep[k]) % pp); }); reduce_mod_p(b, a); EQ(b, w, "reduce_mod_p"); MatX c = a; reduce_mod_p(c); EQ(c, w, "reduce_mod_p in place"); count(str(n) + str(m) + str(pp)); }
CASE("t_multiply_evaluate_geometric", 200) { denseprime(it); long s = G.r(1, 4), t = G.r(1, 4), u = G.r(1, 4), dA = G.r(0, 12), dB = G.r(0, 12); if (it % 5 == 0) { dA = G.r(0, 50); dB = G.r(0, 50); } MatX a = rmat(s, t, G.b() ? dA + 1 : G.r(0, dA + 1)), c = rmat(t, u, G.b() ? dA + dB + 1 : G.r(0, dA + dB + 1)); MatX ra = emap(a, [&](const zz_pX &x) { return fromfun(dA + 1, [&](long i) { return cf(x, dA - i); }); }); MatX w = emap(nmul(ra, c), [&](const zz_pX &x) { return pslice(x, dA, dB + 1); }); MatX b = junkm(s, u); note() << sig(a, c) << " dA=" << dA << " dB=" << dB; t_multiply_evaluate_geometric(b, a, c, dA, dB); EQ(b, w, "t_multiply"); b = c; t_multiply_evaluate_geometric(b, a, b, dA, dB); EQ(b, w, "t_multiply aliased"); count(sig(a, c) + str(dA) + str(dB)); }
CASE("vandermonde", 60) { denseprime(it); long d1 = G.r(0, 9), d2 = G.r(0, 9); MatF V1 = junkmF(3, 3), V2, iV; vandermonde(V1, V2, iV, d1, d2); long N = d1 + d2 + 1; CHK(V1.NumRows() == N && V1.NumCols() == d1 + 1 && V2.NumRows() == N && V2.NumCols() == d2 + 1 && iV.NumRows() == N && iV.NumCols() == N, "dims"); // interpolate(eval(a)*eval(b)) = a*b
  VecF x = rvec(d1 + 1), y = rvec(d2 + 1); VecF r; r.SetLength(N); for (long i = 0; i < N; i++) { zz_p s = to_zz_p(0), t = to_zz_p(0); for (long j = 0; j <= d1; j++) s += V1[i][j] * x[j]; for (long j = 0; j <= d2; j++) t += V2[i][j] * y[j]; r[i] = s * t; } VecF z, w; z.SetLength(N); w.SetLength(N); for (long i = 0; i < N; i++) { zz_p s = to_zz_p(0); for (long j = 0; j < N; j++) s += iV[i][j] * r[j]; z[i] = s; w[i] = to_zz_p(0); } for (long i = 0; i <= d1; i++) for (long j = 0; j <= d2; j++) w[i + j] += x[i] * y[j]; EQ(z, w, "vandermonde d1=" << d1 << " d2=" << d2); count(str(d1) + str(d2)); }
#define ZC(fn, pr) CASE("zero operands " #fn, 60) { pr; long m = G.r(1, 4), n = G.r(1, 4), p = G.r(1, 4), l = G.r(1, 9); one(#fn, [](MatX &c, const MatX &x, const MatX &y) { fn(c, x, y); }, it % 3 ? rmat(m, n, l) : zmat(m, n), it % 3 == 1 ? zmat(n, p) : rmat(n, p, it % 3 ? l : G.r(0, 1))); }
ZC(multiply_naive, anyprime()) ZC(multiply_waksman, anyprime()) ZC(multiply_transform, anyprime()) ZC(multiply_transform_naive, anyprime()) ZC(multiply, anyprime()) ZC(multiply_evaluate_dense, denseprime(it)) ZC(multiply_evaluate_dense2, denseprime(it)) ZC(multiply_evaluate_geometric, denseprime(it)) ZC(multiply_3_primes, denseprime(it))
ZC(multiply_evaluate_FFT_direct, fftprime(it)) ZC(multiply_evaluate_FFT_direct_ll_type, fftprime(it)) ZC(multiply_evaluate_FFT_matmul1, fftprime(it)) ZC(multiply_evaluate_FFT_matmul2, fftprime(it)) ZC(multiply_evaluate_FFT_matmul3, fftprime(it)) ZC(multiply_evaluate_FFT, fftprime(it))
#define EC(fn, pr) CASE("empty dimensions " #fn, 30) { pr; long m = it % 3 == 0 ? 0 : G.r(1, 3), n = it % 3 == 1 ? 0 : G.r(1, 3), p = it % 3 == 2 ? 0 : G.r(1, 3), l = G.r(1, 9); one(#fn, [](MatX &c, const MatX &x, const MatX &y) { fn(c, x, y); }, rmat(m, n, l), rmat(n, p, l)); }
EC(multiply, anyprime())
// dispatch boundaries: dimensions and degrees on both sides of the thresholds
static void boundary(long it, long &m, long &n, long &p, long &l) { static const long S[] = {4, 6, 7, 8, 9, 16, 17, 20, 25, 26}; static const long D[] = {2, 3, 4, 5, 31, 32, 33, 34, 50, 51, 52, 65, 66, 80, 82, 90, 91, 100, 102}; long s = S[G.r(0, it % 3 ? 4 : 9)]; m = n = p = s; if (G.b(3)) { m = G.r(1, s); p = std::min(60L, std::max(1L, s * s / m)); } l = D[G.r(0, 18)]; if (s > 17 && l > 52) l = G.pick<long>({31, 33, 34, 50}); }
CASE("multiply at dispatch boundaries", 70) { prime(G.pick<long>({100, 101, 101, 8, 4})); long m, n, p, l; boundary(it, m, n, p, l); MatX a = dmat(m, n, l), b = dmat(n, p, G.b() ? l : std::max(1L, l - 1)), w = nmul(a, b), c; string s = sig(a, b); note() << s; multiply(c, a, b); EQ(c, w, "multiply " << s); multiply(c, a, b, 0); EQ(c, w, "multiply is_prime=0 " << s); if (PML::is_FFT_ready(NextPowerOfTwo(2 * l))) { multiply_evaluate_FFT(c, a, b); EQ(c, w, "multiply_evaluate_FFT " << s); } count(s); }
// images of lower degree modulo an FFT prime: some coefficient of the integer product is divisible by that prime
static long fftp(long i) { zz_pPush push; zz_p::FFTInit(i); return zz_p::modulus(); }
CASE("several primes: image of lower degree", 120) { long P0 = fftp(it % 3); long kind = it % 2; long m = G.r(1, 3), p = G.r(1, 3), n = G.r(2, 4), la = G.r(1, 6), lb = G.r(1, 6); ZZ q; if (kind) q = NextPrime(ZZ(1L << 33) + ZZ(G.r(0, 1000))); else q = NextPrime(ZZ(P0) + ZZ(G.r(1, 1000))); long pp = to_long(q); if (pp >= (1L << 60)) throw Skip(); setp(pp);
  MatX a = zmat(m, n), b = zmat(n, p); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) a[i][j] = dense(la - 1); for (long i = 0; i < n; i++) for (long j = 0; j < p; j++) b[i][j] = dense(lb - 1);
  if (kind) { long s = 1L << 30, x = P0 / s, r = P0 % s; SetCoeff(a[0][0], la - 1, to_zz_p(x)); SetCoeff(a[0][1], la - 1, to_zz_p(r)); SetCoeff(b[0][0], lb - 1, to_zz_p(s)); SetCoeff(b[1][0], lb - 1, to_zz_p(1)); } else { SetCoeff(a[0][0], la - 1, to_zz_p(P0)); SetCoeff(b[0][0], lb - 1, rnz()); }
  one("multiply_3_primes", multiply_3_primes, a, b); MatX w = nmul(a, b), c; mat_lzz_pX_lmultiplier_3_primes mu(a, std::max(0L, mdeg(b))); mu.multiply(c, b); EQ(c, w, "lmultiplier_3_primes"); }
CASE("mat_lzz_pX_lmultiplier_3_primes any prime", 150) { gen(it); long m = G.r(1, 5), n = G.r(1, 5), dB = it % 4 ? G.r(0, 12) : G.r(0, 80); MatX a = nz(m, n, it % 3 ? G.r(1, 12) : G.r(1, 60)); mat_lzz_pX_lmultiplier_3_primes mu(a, dB); lm("lmultiplier_3_primes", mu, a, dB); }
CASE("lmultiplier large inner dimension", 12) { prime(100); long n = G.pick<long>({255, 256, 257, 510, 511, 530}); long m = G.r(1, 2), l = G.r(1, 4), dB = G.r(0, 4); MatX a = dmat(m, n, l); { mat_lzz_pX_lmultiplier_FFT_direct mu(a, dB); lm("FFT_direct", mu, a, dB); } { mat_lzz_pX_lmultiplier_FFT_matmul mu(a, dB); lm("FFT_matmul", mu, a, dB); } }
CASE("multiply modulo a composite", 40) { setp(it % 2 ? 3L * 5 * 7 * 11 * 13 * 17 * 19 * 23 : 1L << 40); long n = G.pick<long>({2, 3, 8, 12}), l = G.pick<long>({2, 5, 20, 40, 60}); MatX a = dmat(n, n, l), b = dmat(n, n, l); one("multiply is_prime=0, composite modulus", [](MatX &c, const MatX &x, const MatX &y) { multiply(c, x, y, 0); }, a, b); VecX v = rvecX(n, l), c; multiply(c, a, v, 0); MatX V = zmat(n, 1); for (long i = 0; i < n; i++) V[i][0] = v[i]; MatX W = nmul(a, V); for (long i = 0; i < n; i++) EQ(c[i], W[i][0], "mat*vec composite"); multiply(c, v, a, 0); MatX U = zmat(1, n); for (long i = 0; i < n; i++) U[0][i] = v[i]; W = nmul(U, a); for (long i = 0; i < n; i++) EQ(c[i], W[0][i], "vec*mat composite"); }
