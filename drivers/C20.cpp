// C20: bivariate arithmetic and sequences of univariate polynomials
#include "lzz_pXY.h"
#include "lzz_pX_seq.h"
#include "common.h"
#include "lzz_pXY.h"
using namespace PML;
typedef zz_pXY B;
static VecX nrm(VecX v) { long n = v.length(); while (n > 0 && v[n - 1].rep.length() == 0) n--; v.SetLength(n); return v; }
static bool okb(const B &a) { long n = a.rep.length(); if (n && IsZero(a.rep[n - 1])) return false; for (long i = 0; i < n; i++) if (!okp(a.rep[i])) return false; return true; }
static B rb(long dx, long dy) { B a; long n = G.r(0, dy); int m = G.r(0, 2); a.rep.SetLength(n); for (long i = 0; i < n; i++) a.rep[i] = m == 0 ? rpolylen(dx) : m == 1 && G.b() ? zz_pX() : dense(dx); a.rep = nrm(a.rep); return a; }
static B junkb() { B a; if (G.b(3)) return a; a.rep.SetLength(G.r(1, 9)); for (long i = 0; i < a.rep.length(); i++) a.rep[i] = dense(G.r(1, 9)); a.rep = nrm(a.rep); return a; }
static zz_pX bc(const B &a, long i) { return i >= 0 && i < a.rep.length() ? a.rep[i] : zz_pX(); }
static void eqb(const B &g, const VecX &w0, const char *m) { VecX w = nrm(w0); CHK(okb(g), m << ": not normalized: " << str(g.rep)); CHK(same(g.rep, w), m << ": got " << str(g.rep) << " expected " << str(w) << " p=" << zz_p::modulus()); }
static VecX bmul(const B &a, const B &b) { VecX w; if (!a.rep.length() || !b.rep.length()) return w; w.SetLength(a.rep.length() + b.rep.length() - 1); for (long i = 0; i < a.rep.length(); i++) for (long j = 0; j < b.rep.length(); j++) w[i + j] += a.rep[i] * b.rep[j]; return w; }
#define IN2 long dx = G.pick<long>({1, 2, 6, 30}), dy = G.pick<long>({1, 2, 5, 12}); B a = rb(dx, dy), b = rb(G.pick<long>({1, 2, 6, 30}), G.pick<long>({1, 2, 5, 12})); note() << "a=" << str(a.rep) << " b=" << str(b.rep) << " p=" << zz_p::modulus(); count(note().str());
CASE("add_sub", 4000) { anyprime(); IN2 long sx = G.r(0, 3); if (sx == 0) b = a; if (sx == 1) { b = B(); for (long i = 0; i < a.rep.length(); i++) b.rep.append(-a.rep[i]); if (b.rep.length() && G.b()) { b.rep[0] = rpoly(3); b.rep = nrm(b.rep); } }
  long n = std::max(a.rep.length(), b.rep.length()); VecX s, d; s.SetLength(n); d.SetLength(n); for (long i = 0; i < n; i++) { s[i] = bc(a, i) + bc(b, i); d[i] = bc(a, i) - bc(b, i); }
  { B c = junkb(); add(c, a, b); eqb(c, s, "add"); } { B c = a; add(c, c, b); eqb(c, s, "add c=a"); } { B c = b; add(c, a, c); eqb(c, s, "add c=b"); } eqb(add(a, b), s, "add ret"); eqb(a + b, s, "a+b");
  { B c = junkb(); sub(c, a, b); eqb(c, d, "sub"); } { B c = a; sub(c, c, b); eqb(c, d, "sub c=a"); } { B c = b; sub(c, a, c); eqb(c, d, "sub c=b"); } eqb(sub(a, b), d, "sub ret"); eqb(a - b, d, "a-b"); { B c = a; sub(c, c, c); eqb(c, VecX(), "sub c=a=b"); }
  CHK((a == b) == (same(a.rep, b.rep) ? 1 : 0), "=="); CHK((a != b) == (same(a.rep, b.rep) ? 0 : 1), "!="); }
CASE("mul", 3000) { anyprime(); IN2 VecX w = bmul(a, b); eqb(mul_naive(a, b), w, "mul_naive ret"); { B c = junkb(); mul_naive(c, a, b); eqb(c, w, "mul_naive"); } { B c = a; mul_naive(c, c, b); eqb(c, w, "mul_naive c=a"); } { B c = b; mul_naive(c, a, c); eqb(c, w, "mul_naive c=b"); }
  { B c = junkb(); mul_kronecker(c, a, b); eqb(c, w, "mul_kronecker"); } { B c = a; mul_kronecker(c, c, b); eqb(c, w, "mul_kronecker c=a"); } { B c = b; mul_kronecker(c, a, c); eqb(c, w, "mul_kronecker c=b"); } eqb(mul_kronecker(a, b), w, "mul_kronecker ret"); eqb(a * b, w, "a*b"); eqb(mul(a, b), w, "mul ret"); { B c = junkb(); mul(c, a, b); eqb(c, w, "mul"); } { B c = a; mul(c, c, c); eqb(c, bmul(a, a), "square in place"); } { B c = a; mul_naive(c, c, c); eqb(c, bmul(a, a), "naive square in place"); } }
CASE("mul_scalar", 2000) { anyprime(); IN2 zz_p s = rz(); VecX w; w.SetLength(a.rep.length()); for (long i = 0; i < w.length(); i++) w[i] = s * a.rep[i]; { B c = junkb(); mul(c, a, s); eqb(c, w, "mul scalar"); } { B c = a; mul(c, c, s); eqb(c, w, "mul scalar aliased"); } eqb(mul(a, s), w, "mul scalar ret"); eqb(a * s, w, "a*s"); }
CASE("kronecker", 3000) { anyprime(); long st = G.r(0, 8); B a = rb(st + 1, 7); note() << "a=" << str(a.rep) << " step=" << st; count(note().str()); zz_pX w; for (long i = 0; i < a.rep.length(); i++) w += pshl(a.rep[i], i * (st + 1));
  { zz_pX o = junkp(); to_kronecker(o, a, st); EQ(o, w, "to_kronecker"); } { zz_pX o = junkp(); VecX v = a.rep; if (G.b()) v.SetLength(v.length() + G.r(0, 2)); for (long i = a.rep.length(); i < v.length(); i++) clear(v[i]); to_kronecker(o, v, st); EQ(o, w, "to_kronecker Vec"); }
  { B c = junkb(); from_kronecker(c, w, st); eqb(c, a.rep, "from_kronecker"); } { VecX c = junkv(3); from_kronecker(c, w, st); EQ(c, a.rep, "from_kronecker Vec"); }
  zz_pX f = rpolylen(40); VecX g = junkv(3); from_kronecker(g, f, st); zz_pX h; for (long i = 0; i < g.length(); i++) { CHK(okp(g[i]) && deg(g[i]) <= st, "block too long"); h += pshl(g[i], i * (st + 1)); } EQ(h, f, "from_kronecker arbitrary"); }
CASE("shift_trunc", 4000) { anyprime(); IN2 long i = G.r(-9, 9); VecX w; w.SetLength(a.rep.length()); for (long k = 0; k < w.length(); k++) w[k] = i >= 0 ? pshl(a.rep[k], i) : pslice(a.rep[k], -i, a.rep[k].rep.length()); note() << " i=" << i;
  { B c = junkb(); shift_x(c, a, i); eqb(c, w, "shift_x"); } { B c = a; shift_x(c, c, i); eqb(c, w, "shift_x aliased"); } eqb(shift_x(a, i), w, "shift_x ret");
  VecX y; long n = a.rep.length() + i; y.SetLength(std::max(0L, n)); for (long k = 0; k < y.length(); k++) y[k] = bc(a, k - i); { B c = junkb(); shift_y(c, a, i); eqb(c, y, "shift_y"); } { B c = a; shift_y(c, c, i); eqb(c, y, "shift_y aliased"); } eqb(shift_y(a, i), y, "shift_y ret");
  long t = G.r(0, 12); VecX u; u.SetLength(a.rep.length()); for (long k = 0; k < u.length(); k++) u[k] = ptrunc(a.rep[k], t); { B c = junkb(); trunc_x(c, a, t); eqb(c, u, "trunc_x"); } { B c = a; trunc_x(c, c, t); eqb(c, u, "trunc_x aliased"); } eqb(trunc_x(a, t), u, "trunc_x ret");
  VecX v; v.SetLength(std::min(t, a.rep.length())); for (long k = 0; k < v.length(); k++) v[k] = a.rep[k]; { B c = junkb(); trunc_y(c, a, t); eqb(c, v, "trunc_y"); } { B c = a; trunc_y(c, c, t); eqb(c, v, "trunc_y aliased"); } eqb(trunc_y(a, t), v, "trunc_y ret"); }
CASE("access", 4000) { anyprime(); IN2 long td = -1, dX = -1; for (long i = 0; i < a.rep.length(); i++) if (!IsZero(a.rep[i])) { td = std::max(td, deg(a.rep[i]) + i); dX = std::max(dX, deg(a.rep[i])); }
  CHK(a.degX() == dX, "degX"); CHK(a.degY() == a.rep.length() - 1, "degY"); CHK((a.is_zero() != 0) == (a.rep.length() == 0), "is_zero"); CHK(a.tdeg() == td, "tdeg " << a.tdeg() << " expected " << td);
  long i = G.r(0, 9); zz_pX c = G.b(3) ? zz_pX() : rpolylen(5); VecX w = a.rep; if (i >= w.length()) { long l = w.length(); w.SetLength(i + 1); for (long k = l; k < i; k++) clear(w[k]); } w[i] = c; B d = a; if (G.b()) { d.rep.SetMaxLength(20); } SetCoeff(d, i, c); eqb(d, w, "SetCoeff");
  zz_p pt = rz(); zz_pX e; e.rep.SetLength(a.rep.length()); for (long k = 0; k < a.rep.length(); k++) { zz_p s = to_zz_p(0); for (long j = a.rep[k].rep.length() - 1; j >= 0; j--) s = s * pt + a.rep[k].rep[j]; e.rep[k] = s; } e.normalize(); { zz_pX o = junkp(); evaluate(o, a, pt); EQ(o, e, "evaluate"); } EQ(evaluate(a, pt), e, "evaluate ret");
  VecX z = a.rep; { long x = G.r(0, 3), l = z.length(); z.SetLength(l + x); for (long k = l; k < l + x; k++) clear(z[k]); } B q(z); eqb(q, a.rep, "constructor"); B q2; q2.rep = z; q2.normalize(); eqb(q2, a.rep, "normalize"); zz_pX f0 = rpolylen(2); VecX f1; f1.append(f0); eqb(B(f0), f1, "constructor zz_pX"); q.zero(); eqb(q, VecX(), "zero");
  B rr = junkb(); long ax = G.r(0, 3), ay = G.r(0, 3); random_zz_pXY(rr, ax, ay); CHK(okb(rr) && rr.rep.length() <= ay, "random"); for (long k = 0; k < rr.rep.length(); k++) CHK(deg(rr.rep[k]) < ax, "random degX"); }
CASE("resultant", 250) { prime(G.pick<long>({7, 8, 9, 100})); long n = G.r(1, 5), m = G.r(1, 5), dx = G.r(1, 5); B f, g; f.rep.SetLength(n + 1); g.rep.SetLength(m + 1); for (long i = 0; i <= n; i++) f.rep[i] = G.b(3) ? rpolylen(dx) : dense(dx); for (long i = 0; i <= m; i++) g.rep[i] = G.b(3) ? rpolylen(dx) : dense(dx); if (IsZero(f.rep[n])) f.rep[n] = 1; if (IsZero(g.rep[m])) g.rep[m] = 1;
  note() << "f=" << str(f.rep) << " g=" << str(g.rep) << " p=" << zz_p::modulus(); count(note().str()); MatX S = zmat(n + m, n + m); for (long i = 0; i < m; i++) for (long j = 0; j <= n; j++) S[i][i + j] = f.rep[n - j]; for (long i = 0; i < n; i++) for (long j = 0; j <= m; j++) S[m + i][i + j] = g.rep[m - j]; zz_pX w = detX(S); zz_pX r = junkp(); long ok = PML::resultant(r, f, g); if (ok) EQ(r, w, "resultant"); }
static VecX seqmul(const VecX &S, const B &f, long d) { VecX w; long dy = f.rep.length() - 1; if (dy < 0) return w; w.SetLength(std::max(0L, S.length() - dy)); for (long i = 0; i < w.length(); i++) { zz_pX s; for (long t = 0; t <= dy; t++) s += f.rep[t] * S[i + t]; w[i] = d >= 0 ? ptrunc(s, d) : s; } return w; }
static bool zs(const VecX &v) { for (long i = 0; i < v.length(); i++) if (!IsZero(v[i])) return false; return true; }
CASE("seq", 4000) { anyprime(); long L = G.r(0, 7), d = G.r(0, 8); VecX S = rvecX(L, 5), T = rvecX(G.r(0, 7), 5); zz_pX a = rpolylen(5); B f = rb(5, 5); if (G.b(6)) for (long i = 0; i < L; i++) if (G.b()) clear(S[i]); note() << "S=" << str(S) << " f=" << str(f.rep) << " d=" << d << " p=" << zz_p::modulus(); count(note().str());
  VecX w; w.SetLength(L); for (long i = 0; i < L; i++) w[i] = S[i] * a; EQ(PML::mul(S, a), w, "mul(seq, poly)"); for (long i = 0; i < L; i++) w[i] = ptrunc(w[i], d); EQ(PML::mulTrunc(S, a, d), w, "mulTrunc(seq, poly)");
  EQ(PML::mul(S, f), seqmul(S, f, -1), "mul(seq, bivariate)"); if (L >= (long)f.rep.length()) { VecX mt = PML::mulTrunc(S, f, d); if (mt.length()) EQ(mt, seqmul(S, f, d), "mulTrunc(seq, bivariate)"); } // an empty result is the known finding seq-multrunc
  long n = std::min(L, T.length()); VecX s; s.SetLength(n); for (long i = 0; i < n; i++) s[i] = S[i] + T[i]; EQ(PML::add(S, T), s, "add(seq)"); if (L) { long z = 0; while (z < L && IsZero(S[z])) z++; CHK(index_non_zero(S) == z, "index_non_zero"); } CHK(is_zero_seq(S) == zs(S), "is_zero_seq");
  Vec<zz_pXY> gens; long ng = G.r(0, 2); bool all = true, alld = true; for (long k = 0; k < ng; k++) { B h = G.b() ? rb(4, 4) : B(); if (G.b(3) && L) { h = B(); h.rep.SetLength(1); h.rep[0] = pshl(rpolylen(2), d); h.rep = nrm(h.rep); } gens.append(h); all = all && zs(seqmul(S, h, -1)); alld = alld && zs(seqmul(S, h, d)); } CHK(check_cancel(S, gens) == all, "check_cancel"); bool shorter = false; for (long k = 0; k < ng; k++) if (gens[k].rep.length() - 1 > L) shorter = true; if (alld && !shorter) CHK(check_cancel(S, gens, d), "check_cancel mod x^d"); }
CASE("seq_mulTrunc_fixed", 1) { prime(4); VecX S; S.SetLength(2); S[0] = 1; S[1] = 1; B f; f.rep.SetLength(1); f.rep[0] = 1; note() << "S=[1 1] f=1 d=1"; VecX r = PML::mulTrunc(S, f, 1); CHK(r.length() != 0, "mulTrunc of a sequence of length 2 by the constant 1 is empty"); EQ(r, S, "mulTrunc(seq, 1)"); Vec<zz_pXY> g1; g1.append(f); CHK(!check_cancel(S, g1, 1), "check_cancel mod x"); }
static bool sv(const Vec<VecX> &a, const Vec<VecX> &b) { if (a.length() != b.length()) return false; for (long i = 0; i < a.length(); i++) if (!same(a[i], b[i])) return false; return true; }
CASE("seq_modules", 2500) { anyprime(); long L = G.r(0, 6), m = G.r(1, 4), d = G.r(0, 7); Vec<VecX> S, T; S.SetLength(L); for (long i = 0; i < L; i++) S[i] = rvecX(m, 4); T.SetLength(G.r(0, 6)); for (long i = 0; i < T.length(); i++) T[i] = rvecX(m, 4); zz_pX a = rpolylen(4); B f = rb(4, 4); note() << "S=" << str(S) << " f=" << str(f.rep) << " d=" << d; count(note().str());
  Vec<VecX> w, wd; w.SetLength(L); wd.SetLength(L); for (long i = 0; i < L; i++) { w[i].SetLength(m); wd[i].SetLength(m); for (long j = 0; j < m; j++) { w[i][j] = S[i][j] * a; wd[i][j] = ptrunc(w[i][j], d); } } CHK(sv(PML::mul(S, a), w), "mul(modseq, poly)"); CHK(sv(PML::mulTrunc(S, a, d), wd), "mulTrunc(modseq, poly)");
  Vec<VecX> q, qd; long dy = f.rep.length() - 1; if (dy >= 0) { q.SetLength(std::max(0L, L - dy)); qd = q; for (long i = 0; i < q.length(); i++) { q[i].SetLength(m); qd[i].SetLength(m); for (long j = 0; j < m; j++) { zz_pX s; for (long t = 0; t <= dy; t++) s += f.rep[t] * S[i + t][j]; q[i][j] = s; qd[i][j] = ptrunc(s, d); } } } CHK(sv(PML::mul(S, f), q), "mul(modseq, bivariate)"); CHK(sv(PML::mulTrunc(S, f, d), qd), "mulTrunc(modseq, bivariate)");
  long n = std::min(L, T.length()); Vec<VecX> s; s.SetLength(n); for (long i = 0; i < n; i++) s[i] = S[i] + T[i]; CHK(sv(PML::add(S, T), s), "add(modseq)"); }
