#include "mat_lzz_pX_utils.h"
#include "common.h"
using namespace PML;
typedef const zz_pX &cp; typedef Vec<MatF> VM;
static void dims(long it, long &n, long &m, long &len) { n = it < 30 ? it % 5 : G.r(0, 7); m = it < 30 ? (it / 5) % 6 : G.r(0, 7); len = G.r(0, it % 3 == 0 ? 3 : it % 7 == 0 ? 80 : 40); }
static VM junkvm(long L, long n, long m) { VM v; if (G.b(3)) return v; v.SetLength(G.b() ? L : G.r(0, 40)); for (long i = 0; i < v.length(); i++) v[i] = junkmF(n, m); return v; }
static bool samevm(const VM &a, const VM &b) { if (a.length() != b.length()) return false; for (long i = 0; i < a.length(); i++) if (!same(a[i], b[i])) return false; return true; }
static string sz(const MatX &a) { return str(a.NumRows()) + "x" + str(a.NumCols()) + "d" + str(mdeg(a)); }
template <class F> static void mapcheck(const string &nm, const MatX &a, const MatX &w, F f) { MatX c = junkm(a.NumRows(), a.NumCols()); f(c, a); EQ(c, w, nm); c = a; f(c, c); EQ(c, w, nm + " aliased"); count(nm + sz(a)); }

CASE("trunc", 200) { anyprime(); long n, m, l; dims(it, n, m, l); MatX a = rmat(n, m, l); long k = G.r(0, l + 3); auto f = [&](cp x) { return ptrunc(x, k); };
  mapcheck("trunc", a, emap(a, f), [&](MatX &c, const MatX &x) { trunc(c, x, k); }); EQ(trunc(a, k), emap(a, f), "trunc value");
  VecX v = rvecX(n, l), w = emap(v, f), x = junkv(n); trunc(x, v, k); EQ(x, w, "trunc vec"); x = v; trunc(x, x, k); EQ(x, w, "trunc vec aliased"); EQ(trunc(v, k), w, "trunc vec value"); }
CASE("truncRow truncCol", 200) { anyprime(); long n, m, l; dims(it, n, m, l); if (!n || !m) throw Skip(); MatX a = rmat(n, m, l); long k = G.r(0, l + 3), i = G.r(0, n - 1), j = G.r(0, m - 1); MatX w = a; for (long t = 0; t < m; t++) w[i][t] = ptrunc(a[i][t], k);
  mapcheck("truncRow", a, w, [&](MatX &c, const MatX &x) { truncRow(c, x, i, k); }); EQ(truncRow(a, i, k), w, "truncRow value");
  w = a; for (long t = 0; t < n; t++) w[t][j] = ptrunc(a[t][j], k); mapcheck("truncCol", a, w, [&](MatX &c, const MatX &x) { truncCol(c, x, j, k); }); EQ(truncCol(a, j, k), w, "truncCol value"); }
static zz_pX shl(cp x, long k) { return k >= 0 ? pshl(x, k) : pslice(x, -k, x.rep.length()); }
CASE("LeftShift RightShift", 200) { anyprime(); long n, m, l; dims(it, n, m, l); MatX a = rmat(n, m, l); long k = G.r(-4, l + 3); MatX w = emap(a, [&](cp x) { return shl(x, k); }), v = emap(a, [&](cp x) { return shl(x, -k); });
  mapcheck("LeftShift", a, w, [&](MatX &c, const MatX &x) { LeftShift(c, x, k); }); mapcheck("RightShift", a, v, [&](MatX &c, const MatX &x) { RightShift(c, x, k); });
  EQ(MatX(a << k), w, "<<"); EQ(MatX(a >> k), v, ">>"); MatX c = a; c <<= k; EQ(c, w, "<<="); c = a; c >>= k; EQ(c, v, ">>="); EQ(LeftShift(a, k), w, "LeftShift value"); EQ(RightShift(a, k), v, "RightShift value");
  VecX b = rvecX(n, l), wl = emap(b, [&](cp x) { return shl(x, k); }), wr = emap(b, [&](cp x) { return shl(x, -k); }), x = junkv(n); LeftShift(x, b, k); EQ(x, wl, "LeftShift vec"); x = b; LeftShift(x, x, k); EQ(x, wl, "LeftShift vec aliased"); x = junkv(n); RightShift(x, b, k); EQ(x, wr, "RightShift vec"); x = b; RightShift(x, x, k); EQ(x, wr, "RightShift vec aliased"); EQ(VecX(b << k), wl, "vec <<"); EQ(VecX(b >> k), wr, "vec >>"); x = b; x <<= k; EQ(x, wl, "vec <<="); x = b; x >>= k; EQ(x, wr, "vec >>="); }
CASE("shift one row or column", 200) { anyprime(); long n, m, l; dims(it, n, m, l); if (!n || !m) throw Skip(); MatX a = rmat(n, m, l); long k = G.r(-3, l + 3), i = G.r(0, n - 1), j = G.r(0, m - 1); MatX w = a, v = a, y = a, z = a;
  for (long t = 0; t < m; t++) { w[i][t] = shl(a[i][t], k); v[i][t] = shl(a[i][t], -k); } for (long t = 0; t < n; t++) { y[t][j] = shl(a[t][j], k); z[t][j] = shl(a[t][j], -k); }
  mapcheck("LeftShiftRow", a, w, [&](MatX &c, const MatX &x) { LeftShiftRow(c, x, i, k); }); mapcheck("RightShiftRow", a, v, [&](MatX &c, const MatX &x) { RightShiftRow(c, x, i, k); });
  mapcheck("LeftShiftCol", a, y, [&](MatX &c, const MatX &x) { LeftShiftCol(c, x, j, k); }); mapcheck("RightShiftCol", a, z, [&](MatX &c, const MatX &x) { RightShiftCol(c, x, j, k); });
  EQ(LeftShiftRow(a, i, k), w, "LeftShiftRow value"); EQ(RightShiftRow(a, i, k), v, "RightShiftRow value"); EQ(LeftShiftCol(a, j, k), y, "LeftShiftCol value"); EQ(RightShiftCol(a, j, k), z, "RightShiftCol value"); }
static zz_pX rv(cp x, long hi) { return fromfun(hi + 1, [&](long i) { return cf(x, hi - i); }); }
CASE("reverse", 200) { anyprime(); long n, m, l; dims(it, n, m, l); MatX a = rmat(n, m, l); long h = G.r(-1, l + 3); mapcheck("reverse hi", a, emap(a, [&](cp x) { return rv(x, h); }), [&](MatX &c, const MatX &x) { reverse(c, x, h); }); EQ(reverse(a, h), emap(a, [&](cp x) { return rv(x, h); }), "reverse value");
  long d = mdeg(a); mapcheck("reverse deg", a, emap(a, [&](cp x) { return rv(x, d); }), [&](MatX &c, const MatX &x) { reverse(c, x); }); EQ(reverse(a), emap(a, [&](cp x) { return rv(x, d); }), "reverse deg value");
  VecLong hr(n), hc(m); for (auto &x : hr) x = G.r(-1, l + 2); for (auto &x : hc) x = G.r(-1, l + 2); MatX wr = a, wc = a; for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) { wr[i][j] = rv(a[i][j], hr[i]); wc[i][j] = rv(a[i][j], hc[j]); }
  mapcheck("row_reverse", a, wr, [&](MatX &c, const MatX &x) { row_reverse(c, x, hr); }); mapcheck("col_reverse", a, wc, [&](MatX &c, const MatX &x) { col_reverse(c, x, hc); }); EQ(row_reverse(a, hr), wr, "row_reverse value"); EQ(col_reverse(a, hc), wc, "col_reverse value"); }
CASE("transpose mirror", 200) { anyprime(); long n, m, l; dims(it, n, m, l); MatX a = rmat(n, m, l); mapcheck("transpose", a, tr(a), [&](MatX &c, const MatX &x) { transpose(c, x); }); EQ(transpose(a), tr(a), "transpose value");
  MatX s = rmat(n, n, l); mapcheck("transpose sq", s, tr(s), [&](MatX &c, const MatX &x) { transpose(c, x); });
  VecX v = rvecX(G.r(0, 9), l), w = v, x = junkv(v.length()); for (long i = 0; i < v.length(); i++) w[i] = v[v.length() - 1 - i]; mirror(x, v); EQ(x, w, "mirror"); x = v; mirror(x, x); EQ(x, w, "mirror aliased"); EQ(mirror(v), w, "mirror value"); }
CASE("clear ident tests degree", 300) { anyprime(); long n, m, l; dims(it, n, m, l); MatX a = rmat(n, m, l), c = a; clear(c); EQ(c, zmat(n, m), "clear");
  c = a; long r0 = G.r(0, n + 1), c0 = G.r(0, m + 1), nr = G.r(0, n + 1), nc = G.r(0, m + 1); MatX w = a; for (long i = r0; i < r0 + nr && i < n; i++) for (long j = c0; j < c0 + nc && j < m; j++) w[i][j] = 0; clear(c, r0, c0, nr, nc); EQ(c, w, "clear window " << r0 << "," << c0 << "," << nr << "," << nc);
  c = junkm(n, n); ident(c, n); EQ(c, identX(n), "ident"); EQ(ident_mat_zz_pX(n), identX(n), "ident value");
  c = identX(n); if (n && G.b()) { long i = G.r(0, n - 1), j = G.r(0, n - 1); c[i][j] = rpolylen(3); } if (G.b(3)) { c = rmat(n, m, 1); for (long i = 0; i < std::min(n, m); i++) c[i][i] = 1; }
  bool id = c.NumRows() == c.NumCols() && same(c, identX(c.NumRows())); CHK(IsIdent(c) == id, "IsIdent " << c); long q = G.r(0, 7); CHK(IsIdent(c, q) == (id && c.NumRows() == q), "IsIdent dim " << q << " " << c); if (id) CHK(IsIdent(c, c.NumRows()), "IsIdent dim");
  c = zmat(n, m); if (n && m && G.b()) c[G.r(0, n - 1)][G.r(0, m - 1)] = rpolylen(3); CHK(IsZero(c) == isZeroM(c), "IsZero mat " << c); CHK(IsConstant(c) == (mdeg(c) <= 0), "IsConstant " << c); CHK(deg(c) == mdeg(c), "deg " << c); CHK(deg(a) == mdeg(a), "deg " << a); CHK(IsConstant(a) == (mdeg(a) <= 0), "IsConstant"); CHK(IsZero(a) == isZeroM(a), "IsZero");
  VecX v; v.SetLength(n); if (n && G.b()) v[G.r(0, n - 1)] = rpolylen(3); long dv = -1; for (long i = 0; i < n; i++) dv = std::max(dv, deg(v[i])); CHK(IsZero(v) == (dv < 0), "IsZero vec"); CHK(deg(v) == dv, "deg vec " << v); v = rvecX(n, l); dv = -1; for (long i = 0; i < n; i++) dv = std::max(dv, deg(v[i])); CHK(deg(v) == dv, "deg vec"); count(sz(a)); }
CASE("GetCoeff SetCoeff", 200) { anyprime(); long n, m, l; dims(it, n, m, l); MatX a = rmat(n, m, l); long k = G.r(0, l + 3); MatF c = junkmF(n, m); GetCoeff(c, a, k); EQ(c, cfm(a, k), "GetCoeff"); EQ(coeff(a, k), cfm(a, k), "coeff");
  MatF b = rmatF(n, m); if (G.b(3)) b = zmatF(n, m); MatX w = a, x = a; for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) { long L = std::max(k + 1, (long)a[i][j].rep.length()); w[i][j] = fromfun(L, [&](long t) { return t == k ? b[i][j] : cf(a[i][j], t); }); } SetCoeff(x, k, b); EQ(x, w, "SetCoeff " << k); count(sz(a) + str(k)); }
CASE("eval", 200) { anyprime(); long n, m, l; dims(it, n, m, l); MatX a = rmat(n, m, l); zz_p p = rz(); MatF w = zmatF(n, m); for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) { zz_p s = to_zz_p(0), q = to_zz_p(1); for (long k = 0; k < a[i][j].rep.length(); k++) { s += q * a[i][j].rep[k]; q *= p; } w[i][j] = s; }
  MatF c = junkmF(n, m); eval(c, a, p); EQ(c, w, "eval"); EQ(eval(a, p), w, "eval value"); VM v; v.SetLength(mdeg(a) + 1 + G.r(0, 2)); for (long k = 0; k < v.length(); k++) v[k] = cfm(a, k); if (v.length() == 0) w = zmatF(0, 0); c = junkmF(n, m); eval(c, v, p); EQ(c, w, "eval matp"); EQ(eval(v, p), w, "eval matp value"); count(sz(a)); }
CASE("conv", 250) { anyprime(); long n, m, l; dims(it, n, m, l); if (it % 5 == 0) { n = G.r(1, 3); m = G.r(30, 70); l = G.r(0, 70); } MatX a = rmat(n, m, l); MatF f = rmatF(n, m); MatX c = junkm(n, m); conv(c, f); EQ(c, lift(f), "conv from MatF"); EQ(conv(f), lift(f), "conv value");
  long L = mdeg(a) + 1; VM w; w.SetLength(L); for (long k = 0; k < L; k++) w[k] = cfm(a, k); VM v = junkvm(L, n, m); conv(v, a); CHK(samevm(v, w), "conv(Vec<Mat>, Mat) " << sz(a)); CHK(samevm(conv(a), w), "conv value");
  long o = G.r(0, L + 4); VM wo; wo.SetLength(o); for (long k = 0; k < o; k++) wo[k] = cfm(a, k); v = junkvm(o, n, m); conv(v, a, o); CHK(samevm(v, wo), "conv(Vec<Mat>, Mat, order) " << o); CHK(samevm(conv(a, o), wo), "conv order value");
  VM u = w; long ex = G.r(0, 3); u.SetLength(L + ex); for (long k = 0; k < ex; k++) u[L + k] = zmatF(n, m); c = junkm(n, m); MatX old = c; conv(c, u); EQ(c, u.length() ? a : zmat(old.NumRows(), old.NumCols()), "conv(Mat, Vec<Mat>) len " << u.length());
  c = junkm(n, m); old = c; conv(c, u, o); EQ(c, std::min(o, u.length()) ? emap(a, [&](cp x) { return ptrunc(x, o); }) : zmat(old.NumRows(), old.NumCols()), "conv(Mat, Vec<Mat>, order) " << o << " len " << u.length()); count(sz(a) + str(o)); }
CASE("random shapes", 100) { anyprime(); long n, m, l; dims(it, n, m, l); MatX c = junkm(n, m); random(c, n, m, l); CHK(c.NumRows() == n && c.NumCols() == m, "random dims"); for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) CHK(okp(c[i][j]) && deg(c[i][j]) < l, "random degree"); VecX v = junkv(n); random(v, n, l); CHK(v.length() == n, "random vec"); for (long i = 0; i < n; i++) CHK(okp(v[i]) && deg(v[i]) < l, "random vec degree");
  VecLong hr(n), hc(m); for (auto &x : hr) x = G.r(0, l + 2); for (auto &x : hc) x = G.r(0, l + 2); c = junkm(n, m); random_mat_zz_pX_rdeg(c, n, m, hr); for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) CHK(okp(c[i][j]) && deg(c[i][j]) < hr[i], "random rdeg"); c = junkm(n, m); random_mat_zz_pX_cdeg(c, n, m, hc); for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) CHK(okp(c[i][j]) && deg(c[i][j]) < hc[j], "random cdeg"); VM w = junkvm(l, n, m); random(w, n, m, l); CHK(w.length() == l, "random matp"); for (long k = 0; k < l; k++) CHK(w[k].NumRows() == n && w[k].NumCols() == m, "random matp dims"); count(sz(c)); }
