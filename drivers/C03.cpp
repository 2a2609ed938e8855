#include "mat_lzz_pX_arith.h"
#include "lzz_pX_extra.h"
#include "common.h"
using namespace PML;
typedef const zz_pX &cp;
static void dims(long it, long &n, long &m, long &len) { n = it < 30 ? it % 5 : G.r(0, 6); m = it < 30 ? (it / 5) % 6 : G.r(0, 6); len = G.r(0, it % 3 == 0 ? 3 : 40); }

#define ADDSUB(NAME, FN, OP, OPE) \
CASE(#FN " " NAME, 150) { anyprime(); long n, m, l; dims(it, n, m, l); \
  auto f = [](cp x, cp y) { return zz_pX(x OP y); }; \
  { MatX a = rmat(n, m, l), b = rmat(n, m, G.r(0, l + 3)); if (G.b(4)) b = emap(a, [](cp x) { return zz_pX(-x); }); MatX w = ezip(a, b, f), c = junkm(n, m); \
    FN(c, a, b); EQ(c, w, #FN "(Mat,Mat,Mat)"); c = a; FN(c, c, b); EQ(c, w, #FN " c=a"); c = b; FN(c, a, c); EQ(c, w, #FN " c=b"); \
    c = a; FN(c, c, c); EQ(c, ezip(a, a, f), #FN " c=a=b"); EQ(MatX(a OP b), w, "operator"); c = a; c OPE b; EQ(c, w, "assign operator"); \
    MatF d = rmatF(n, m); w = ezip(a, lift(d), f); c = junkm(n, m); FN(c, a, d); EQ(c, w, #FN "(Mat,MatF)"); c = a; FN(c, c, d); EQ(c, w, #FN " c=a const"); \
    EQ(MatX(a OP d), w, "operator const"); c = a; c OPE d; EQ(c, w, "assign const"); \
    w = ezip(lift(d), a, f); c = junkm(n, m); FN(c, d, a); EQ(c, w, #FN "(MatF,Mat)"); c = a; FN(c, d, c); EQ(c, w, #FN " c=b const"); EQ(MatX(d OP a), w, "operator const left"); } \
  { long k = G.r(0, 7); VecX a = rvecX(k, l), b = rvecX(k, l); VecX w = ezip(a, b, f), c = junkv(k); \
    FN(c, a, b); EQ(c, w, #FN "(Vec)"); c = a; FN(c, c, b); EQ(c, w, #FN " vec c=a"); c = b; FN(c, a, c); EQ(c, w, #FN " vec c=b"); EQ(VecX(a OP b), w, "vec operator"); c = a; c OPE b; EQ(c, w, "vec assign"); \
    VecF d = rvec(k); w = ezip(a, lift(d), f); c = junkv(k); FN(c, a, d); EQ(c, w, #FN "(Vec,VecF)"); c = a; FN(c, c, d); EQ(c, w, #FN " vec const c=a"); EQ(VecX(a OP d), w, "vec operator const"); c = a; c OPE d; EQ(c, w, "vec assign const"); \
    w = ezip(lift(d), a, f); c = junkv(k); FN(c, d, a); EQ(c, w, #FN "(VecF,Vec)"); EQ(VecX(d OP a), w, "vec operator const left"); } \
  count(#FN + str(n) + "," + str(m) + "," + str(l)); }
ADDSUB("all forms", add, +, +=)
ADDSUB("all forms", sub, -, -=)

CASE("negate", 150) { anyprime(); long n, m, l; dims(it, n, m, l); MatX a = rmat(n, m, l), c = junkm(n, m), w = emap(a, [](cp x) { return zz_pX(-x); });
  negate(c, a); EQ(c, w, "negate(Mat)"); c = a; negate(c, c); EQ(c, w, "negate aliased"); EQ(MatX(-a), w, "operator-");
  VecX v = rvecX(n, l), x = junkv(n), wv = emap(v, [](cp y) { return zz_pX(-y); }); negate(x, v); EQ(x, wv, "negate(Vec)"); x = v; negate(x, x); EQ(x, wv, "negate vec aliased"); EQ(VecX(-v), wv, "vec operator-"); count(str(n) + str(m) + str(l)); }

CASE("mul by scalar", 200) { anyprime(); long n, m, l; dims(it, n, m, l); MatX a = rmat(n, m, l); zz_p b = rz();
  MatX w = emap(a, [&](cp x) { return fromfun(x.rep.length(), [&](long i) { return x.rep[i] * b; }); }), c = junkm(n, m);
  mul(c, a, b); EQ(c, w, "mul(Mat,zz_p)"); c = a; mul(c, c, b); EQ(c, w, "mul(Mat,zz_p) aliased"); mul(c, b, a); EQ(c, w, "mul(zz_p,Mat)"); EQ(MatX(a * b), w, "operator*"); EQ(MatX(b * a), w, "operator* left");
  VecX v = rvecX(n, l), x = junkv(n), wv = emap(v, [&](cp y) { return zz_pX(y * b); }); mul(x, v, b); EQ(x, wv, "mul(Vec,zz_p)"); x = v; mul(x, x, b); EQ(x, wv, "mul(Vec,zz_p) aliased"); EQ(VecX(v * b), wv, "vec operator*"); EQ(VecX(b * v), wv, "vec operator* left"); count(str(n) + str(m) + str(l) + str(b)); }
CASE("mul by polynomial", 200) { anyprime(); long n, m, l; dims(it, n, m, l); MatX a = rmat(n, m, l); zz_pX b = rpolylen(G.r(0, 30));
  MatX w = emap(a, [&](cp x) { return zz_pX(x * b); }), c = junkm(n, m);
  mul(c, a, b); EQ(c, w, "mul(Mat,zz_pX)"); c = a; mul(c, c, b); EQ(c, w, "mul(Mat,zz_pX) aliased"); mul(c, b, a); EQ(c, w, "mul(zz_pX,Mat)"); EQ(MatX(a * b), w, "operator*"); EQ(MatX(b * a), w, "operator* left");
  VecX v = rvecX(n, l), x = junkv(n), wv = emap(v, [&](cp y) { return zz_pX(y * b); }); mul(x, v, b); EQ(x, wv, "mul(Vec,zz_pX)"); x = v; mul(x, x, b); EQ(x, wv, "mul(Vec,zz_pX) aliased"); EQ(VecX(v * b), wv, "vec operator*"); count(str(n) + str(m) + str(l) + str(b)); }
CASE("mul by constant matrix", 200) { anyprime(); long n, m, l; dims(it, n, m, l); long q = G.r(0, 5); MatX a = rmat(n, m, l); MatF b = rmatF(m, q); MatX w = nmul(a, lift(b)), c = junkm(n, q);
  mul(c, a, b); EQ(c, w, "mul(Mat,MatF)"); EQ(MatX(a * b), w, "operator* const"); if (m == q) { c = a; mul(c, c, b); EQ(c, w, "mul(Mat,MatF) aliased"); }
  MatF d = rmatF(q, n); w = nmul(lift(d), a); c = junkm(q, m); mul(c, d, a); EQ(c, w, "mul(MatF,Mat)"); EQ(MatX(d * a), w, "operator* const left"); if (q == n) { c = a; mul(c, d, c); EQ(c, w, "mul(MatF,Mat) aliased"); }
  count(str(n) + str(m) + str(q) + str(l)); }
CASE("add_LeftShift", 400) { anyprime(); long n, m, l; dims(it, n, m, l); long s = it % 3 == 0 ? G.r(0, 3) : G.r(0, 30);
  auto f = [&](cp x, cp y) { return zz_pX(x + pshl(y, s)); };
  for (int r = 0; r < 4; r++) { zz_pX a = rpolylen(l), b = rpolylen(r == 0 ? 0 : G.r(0, l)), c = junkp(); if (r == 1 && deg(b) >= 0 && deg(a) >= s) { b = fromfun(deg(a) + 1 - s, [&](long i) { return -cf(a, i + s); }); } zz_pX w = f(a, b); note().str(""); note() << "a=" << a << " b=" << b << " k=" << s; add_LeftShift(c, a, b, s); EQ(c, w, "add_LeftShift(zz_pX)"); c = a; add_LeftShift(c, c, b, s); EQ(c, w, "add_LeftShift(zz_pX) c=a"); }
  MatX a = rmat(n, m, l), b = rmat(n, m, G.r(0, l)), w = ezip(a, b, f), c = junkm(n, m); add_LeftShift(c, a, b, s); EQ(c, w, "add_LeftShift(Mat)"); c = a; add_LeftShift(c, c, b, s); EQ(c, w, "add_LeftShift(Mat) c=a");
  VecX u = rvecX(n, l), v = rvecX(n, l), wv = ezip(u, v, f), x = junkv(n); add_LeftShift(x, u, v, s); EQ(x, wv, "add_LeftShift(Vec)"); x = u; add_LeftShift(x, x, v, s); EQ(x, wv, "add_LeftShift(Vec) c=a"); count(str(n) + str(m) + str(s) + str(l)); }
