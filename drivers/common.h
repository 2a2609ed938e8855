// Bounded replay / stand-in harness: random and enumerated inputs against naive oracles.
#ifndef PMLV_COMMON_H
#define PMLV_COMMON_H
#include <NTL/lzz_pX.h>
#include <NTL/mat_lzz_p.h>
#include <NTL/lzz_pX.h>
#include <NTL/vector.h>
#include <NTL/matrix.h>
#include <sstream>
#include <iostream>
#include <functional>
#include <vector>
#include <string>
#include <set>
#include <map>
#include <algorithm>
#include <cstring>
#include <cstdlib>
#include <csignal>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <fcntl.h>
using namespace NTL;
using std::string; using std::vector; using std::ostringstream;
typedef Mat<zz_pX> MatX; typedef Vec<zz_pX> VecX; typedef Mat<zz_p> MatF; typedef Vec<zz_p> VecF;

struct Fail { string msg; };
struct Skip {};
inline unsigned long mix(unsigned long x) { x += 0x9e3779b97f4a7c15UL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9UL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebUL; return x ^ (x >> 31); }
struct Rng { unsigned long s; Rng(unsigned long x) : s(mix(x)) {} unsigned long u() { s += 0x9e3779b97f4a7c15UL; return mix(s); }
  long r(long lo, long hi) { return lo >= hi ? lo : lo + (long)(u() % (unsigned long)(hi - lo + 1)); } bool b(int n = 2) { return u() % n == 0; }
  template <class T> T pick(std::initializer_list<T> l) { auto it = l.begin(); std::advance(it, u() % l.size()); return *it; } };
inline Rng *&GR() { static Rng *g = 0; return g; }
#define G (*GR())
inline std::ostringstream &note() { static std::ostringstream o; return o; }
inline long &evals() { static long n = 0; return n; }
inline std::set<unsigned long> &seen() { static std::set<unsigned long> s; return s; }
inline void count(const string &key) { evals()++; seen().insert(std::hash<string>()(key)); }
inline void chkmod();
#define CHK(c, m) do { chkmod(); if (!(c)) { ostringstream o_; o_ << m << "   [" << #c << "]"; throw Fail{o_.str()}; } } while (0)

// ------------------------------------------------------------ fields
// no call may change the current modulus
inline long &exm() { static long p = 0; return p; }
inline void chkmod() { if (exm() && zz_p::modulus() != exm()) { ostringstream o_; o_ << "the call left the modulus at " << zz_p::modulus() << " instead of " << exm(); throw Fail{o_.str()}; } }
inline void setp(long p) { zz_p::init(p); exm() = p; }
inline void prime(long which) {
  static const long P[] = {2, 3, 7, 101, 9001, 65537, 786433, 1073741827L, 288230376151711813L, 1139410705724735489L};
  if (which == 100) zz_p::FFTInit(0);
  else if (which == 101) zz_p::UserFFTInit(786433);
  else zz_p::init(P[which]);
  exm() = zz_p::modulus();
}
// fields large enough for geometric/ evaluation arguments
inline void bigprime() { prime(G.pick<long>({5, 6, 7, 8, 100, 101, 4})); }
inline void anyprime() { prime(G.pick<long>({0, 1, 2, 3, 4, 6, 8, 100, 101})); }
inline void midprime() { prime(G.pick<long>({3, 4, 6, 8, 100, 101})); }

// ------------------------------------------------------------ generation
inline zz_p rz() { if (G.b(6)) return to_zz_p(0); if (G.b(8)) return to_zz_p(1); if (G.b(8)) return to_zz_p(-1); return to_zz_p((long)(G.u() % (unsigned long)zz_p::modulus())); }
inline zz_p rnz() { for (int i = 0; i < 50; i++) { zz_p a = rz(); if (a != 0) return a; } return to_zz_p(1); }
inline zz_pX rpoly(long len) { zz_pX f; if (len < 0) len = 0; f.rep.SetLength(len); for (long i = 0; i < len; i++) f.rep[i] = rz(); f.normalize(); return f; }
inline zz_pX rpolylen(long maxlen) { return rpoly(G.r(0, maxlen)); }
inline zz_pX dense(long len) { zz_pX f; f.rep.SetLength(len); for (long i = 0; i < len; i++) f.rep[i] = to_zz_p((long)(G.u() % (unsigned long)zz_p::modulus())); f.normalize(); return f; }
inline VecF rvec(long n) { VecF v; v.SetLength(n); for (long i = 0; i < n; i++) v[i] = rz(); return v; }
inline MatF rmatF(long n, long m) { MatF v; v.SetDims(n, m); for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) v[i][j] = rz(); return v; }
inline VecX rvecX(long n, long len) { VecX v; v.SetLength(n); for (long i = 0; i < n; i++) v[i] = rpolylen(len); return v; }
inline MatX rmat(long n, long m, long len) { MatX a; a.SetDims(n, m); int mode = G.r(0, 3); for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) a[i][j] = (mode == 0 ? rpolylen(len) : mode == 1 && G.b(3) ? zz_pX() : mode == 2 ? dense(len) : rpoly(len)); return a; }
inline MatX dmat(long n, long m, long len) { MatX a; a.SetDims(n, m); for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) a[i][j] = dense(len); return a; }
// stale outputs
inline zz_pX junkp() { return rpoly(G.r(0, 9)); }
inline MatX junkm(long n, long m) { if (G.b(3)) return MatX(); if (G.b(3)) { n = G.r(0, 4); m = G.r(0, 4); } MatX a; a.SetDims(n, m); for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) a[i][j] = dense(G.r(1, 9)); return a; }
inline MatF junkmF(long n, long m) { if (G.b(3)) return MatF(); if (G.b(3)) { n = G.r(0, 4); m = G.r(0, 4); } MatF a; a.SetDims(n, m); for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) a[i][j] = rnz(); return a; }
inline VecX junkv(long n) { if (G.b(3)) return VecX(); if (G.b(3)) n = G.r(0, 9); VecX a; a.SetLength(n); for (long i = 0; i < n; i++) a[i] = dense(G.r(1, 9)); return a; }
inline VecF junkvF(long n) { if (G.b(3)) return VecF(); if (G.b(3)) n = G.r(0, 9); VecF a; a.SetLength(n); for (long i = 0; i < n; i++) a[i] = rnz(); return a; }

// ------------------------------------------------------------ oracles
inline bool okp(const zz_pX &a) { long n = a.rep.length(); if (n && a.rep[n - 1] == 0) return false; for (long i = 0; i < n; i++) if (rep(a.rep[i]) < 0 || rep(a.rep[i]) >= zz_p::modulus()) return false; return true; }
inline bool okz(const zz_p &a) { return rep(a) >= 0 && rep(a) < zz_p::modulus(); }
inline bool same(const zz_p &a, const zz_p &b) { return okz(a) && okz(b) && a == b; }
inline bool same(const zz_pX &a, const zz_pX &b) { return okp(a) && okp(b) && a.rep.length() == b.rep.length() && a == b; }
inline bool same(const VecF &a, const VecF &b) { if (a.length() != b.length()) return false; for (long i = 0; i < a.length(); i++) if (!same(a[i], b[i])) return false; return true; }
inline bool same(const VecX &a, const VecX &b) { if (a.length() != b.length()) return false; for (long i = 0; i < a.length(); i++) if (!same(a[i], b[i])) return false; return true; }
inline bool same(const MatF &a, const MatF &b) { if (a.NumRows() != b.NumRows() || a.NumCols() != b.NumCols()) return false; for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) if (!same(a[i][j], b[i][j])) return false; return true; }
inline bool same(const MatX &a, const MatX &b) { if (a.NumRows() != b.NumRows() || a.NumCols() != b.NumCols()) return false; for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) if (!same(a[i][j], b[i][j])) return false; return true; }
inline zz_p cf(const zz_pX &a, long i) { return i >= 0 && i < a.rep.length() ? a.rep[i] : to_zz_p(0); }
inline zz_pX fromfun(long n, const std::function<zz_p(long)> &f) { zz_pX r; if (n < 0) n = 0; r.rep.SetLength(n); for (long i = 0; i < n; i++) r.rep[i] = f(i); r.normalize(); return r; }
inline zz_pX pmul(const zz_pX &a, const zz_pX &b) { return a * b; }
inline zz_pX ptrunc(const zz_pX &a, long n) { return fromfun(std::min(std::max(n, 0L), (long)a.rep.length()), [&](long i) { return a.rep[i]; }); }
inline zz_pX pslice(const zz_pX &a, long lo, long n) { return fromfun(n, [&](long i) { return cf(a, lo + i); }); }
inline zz_pX pshl(const zz_pX &a, long n) { return fromfun(a.rep.length() + n, [&](long i) { return cf(a, i - n); }); }
inline MatX zmat(long n, long m) { MatX a; a.SetDims(n, m); return a; }
inline MatF zmatF(long n, long m) { MatF a; a.SetDims(n, m); return a; }
inline MatX nmul(const MatX &a, const MatX &b) { MatX c = zmat(a.NumRows(), b.NumCols()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < b.NumCols(); j++) { zz_pX s; for (long k = 0; k < a.NumCols(); k++) s += a[i][k] * b[k][j]; c[i][j] = s; } return c; }
inline MatF nmul(const MatF &a, const MatF &b) { MatF c = zmatF(a.NumRows(), b.NumCols()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < b.NumCols(); j++) { zz_p s = to_zz_p(0); for (long k = 0; k < a.NumCols(); k++) s += a[i][k] * b[k][j]; c[i][j] = s; } return c; }
inline MatX emap(const MatX &a, const std::function<zz_pX(const zz_pX &)> &f) { MatX c = zmat(a.NumRows(), a.NumCols()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) c[i][j] = f(a[i][j]); return c; }
inline MatX ezip(const MatX &a, const MatX &b, const std::function<zz_pX(const zz_pX &, const zz_pX &)> &f) { MatX c = zmat(a.NumRows(), a.NumCols()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) c[i][j] = f(a[i][j], b[i][j]); return c; }
inline VecX emap(const VecX &a, const std::function<zz_pX(const zz_pX &)> &f) { VecX c; c.SetLength(a.length()); for (long i = 0; i < a.length(); i++) c[i] = f(a[i]); return c; }
inline VecX ezip(const VecX &a, const VecX &b, const std::function<zz_pX(const zz_pX &, const zz_pX &)> &f) { VecX c; c.SetLength(a.length()); for (long i = 0; i < a.length(); i++) c[i] = f(a[i], b[i]); return c; }
inline MatX lift(const MatF &a) { MatX c = zmat(a.NumRows(), a.NumCols()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) c[i][j] = zz_pX(a[i][j]); return c; }
inline VecX lift(const VecF &a) { VecX c; c.SetLength(a.length()); for (long i = 0; i < a.length(); i++) c[i] = zz_pX(a[i]); return c; }
inline MatX tr(const MatX &a) { MatX c = zmat(a.NumCols(), a.NumRows()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) c[j][i] = a[i][j]; return c; }
inline MatF cfm(const MatX &a, long k) { MatF c = zmatF(a.NumRows(), a.NumCols()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) c[i][j] = cf(a[i][j], k); return c; }
inline long mdeg(const MatX &a) { long d = -1; for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) d = std::max(d, deg(a[i][j])); return d; }
inline MatX identX(long n) { MatX a = zmat(n, n); for (long i = 0; i < n; i++) a[i][i] = 1; return a; }
inline long rankF(MatF a) { long r = 0; for (long c = 0; c < a.NumCols() && r < a.NumRows(); c++) { long p = -1; for (long i = r; i < a.NumRows(); i++) if (a[i][c] != 0) { p = i; break; } if (p < 0) continue; std::swap(a[p], a[r]); zz_p iv = inv(a[r][c]); for (long i = r + 1; i < a.NumRows(); i++) if (a[i][c] != 0) { zz_p f = a[i][c] * iv; for (long j = c; j < a.NumCols(); j++) a[i][j] -= f * a[r][j]; } r++; } return r; }
// determinant over F_p[x] by fraction-free elimination (Bareiss)
inline zz_pX detX(MatX a) { long n = a.NumRows(); zz_pX prev; prev = 1; long sg = 1; if (n == 0) return prev; for (long k = 0; k < n - 1; k++) { if (IsZero(a[k][k])) { long p = -1; for (long i = k + 1; i < n; i++) if (!IsZero(a[i][k])) { p = i; break; } if (p < 0) return zz_pX(); std::swap(a[p], a[k]); sg = -sg; } for (long i = k + 1; i < n; i++) for (long j = k + 1; j < n; j++) { zz_pX t = a[i][j] * a[k][k] - a[i][k] * a[k][j]; a[i][j] = t / prev; } prev = a[k][k]; } zz_pX d = a[n - 1][n - 1]; if (sg < 0) d = -d; return d; }
// rank over F_p(x)
inline long rankX(MatX a) { long r = 0; for (long c = 0; c < a.NumCols() && r < a.NumRows(); c++) { long p = -1; for (long i = r; i < a.NumRows(); i++) if (!IsZero(a[i][c])) { if (p < 0 || deg(a[i][c]) < deg(a[p][c])) p = i; } if (p < 0) continue; std::swap(a[p], a[r]); for (long i = r + 1; i < a.NumRows(); i++) if (!IsZero(a[i][c])) { zz_pX g = GCD(a[r][c], a[i][c]); zz_pX u = a[r][c] / g, v = a[i][c] / g; for (long j = c; j < a.NumCols(); j++) a[i][j] = u * a[i][j] - v * a[r][j]; } r++; } return r; }
inline bool isZeroM(const MatX &a) { return mdeg(a) < 0; }
template <class T> string str(const T &x) { ostringstream o; o << x; string s = o.str(); if (s.size() > 600) s = s.substr(0, 600) + "..."; for (auto &ch : s) if (ch == '\n') ch = ' '; return s; }
inline string str(const vector<long> &v) { ostringstream o; o << "("; for (auto x : v) o << x << " "; o << ")"; return o.str(); }
inline std::ostream &operator<<(std::ostream &o, const vector<long> &v) { return o << str(v); }
#define EQ(got, want, m) do { auto g_ = (got); chkmod(); auto w_ = (want); if (!same(g_, w_)) { ostringstream o_; o_ << m << " : got " << str(g_) << " expected " << str(w_) << " p=" << zz_p::modulus(); throw Fail{o_.str()}; } } while (0)

// ------------------------------------------------------------ registry
struct Case { string name; std::function<void(long)> f; long iters; };
inline vector<Case> &cases() { static vector<Case> c; return c; }
struct Reg { Reg(const string &n, long iters, std::function<void(long)> f) { cases().push_back({n, f, iters}); } };
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define CASE_(name, iters, id) static void CAT(fn_, id)(long it); static Reg CAT(rg_, id)(name, iters, CAT(fn_, id)); static void CAT(fn_, id)(long it)
#define CASE(name, iters) CASE_(name, iters, __COUNTER__)

inline unsigned long hs(const string &s) { unsigned long h = 1469598103934665603UL; for (char c : s) { h ^= (unsigned char)c; h *= 1099511628211UL; } return h; }
inline double now() { struct timeval t; gettimeofday(&t, 0); return t.tv_sec + 1e-6 * t.tv_usec; }
static const char *cur_case = ""; static long cur_it = -1; static unsigned long cur_seed = 0;
static void onsig(int s) {
  char b[1600]; int n = snprintf(b, sizeof b, "FAIL case=%s iter=%ld seed=%lu : %s | %.800s\n", cur_case, cur_it, cur_seed, s == SIGALRM ? "no result within the time limit of one call" : "the call crashed or raised an error (signal)", note().str().c_str());
  if (write(1, b, n)) {} _exit(s == SIGALRM ? 4 : 3);
}
inline int runcase(const Case &c, unsigned long seed, long only, double tlimit, double mult) {
  cur_case = c.name.c_str(); cur_seed = seed;
  signal(SIGSEGV, onsig); signal(SIGABRT, onsig); signal(SIGFPE, onsig); signal(SIGBUS, onsig); signal(SIGALRM, onsig);
  double t0 = now(); long n = (long)(c.iters * mult); if (n < 1) n = 1; long done = 0;
  for (long i = only >= 0 ? only : 0; i < (only >= 0 ? only + 1 : n); i++) {
    if (only < 0 && now() - t0 > tlimit) break;
    cur_it = i; Rng g(hs(c.name) ^ mix(seed * 1000003UL + i)); GR() = &g; note().str("");
    ZZ zs; zs = (long)(mix(g.s) >> 2); SetSeed(zs);
    alarm(200);
    try { exm() = 0; c.f(i); chkmod(); done++; }
    catch (Skip &) {}
    catch (Fail &f) { std::cout << "FAIL case=" << c.name << " iter=" << i << " seed=" << seed << " : " << f.msg << (note().str().size() ? " | " + note().str() : "") << std::endl; return 1; }
    catch (std::exception &e) { std::cout << "FAIL case=" << c.name << " iter=" << i << " seed=" << seed << " : exception " << e.what() << std::endl; return 1; }
    alarm(0);
  }
  std::cout << "DONE case=" << c.name << " runs=" << done << " evals=" << evals() << " distinct=" << seen().size() << " sec=" << (now() - t0) << std::endl;
  return 0;
}
int main(int argc, char **argv) {
  unsigned long seed = 1; double tl = 20, mult = 1; long only = -1; string cn; int J = 6;
  for (int i = 1; i < argc; i++) { string a = argv[i];
    if (a == "--seed") seed = atol(argv[++i]); else if (a == "--time") tl = atof(argv[++i]); else if (a == "--mult") mult = atof(argv[++i]);
    else if (a == "--case") cn = argv[++i]; else if (a == "--iter") only = atol(argv[++i]); else if (a == "--jobs") J = atoi(argv[++i]);
    else if (a == "--list") { for (auto &c : cases()) std::cout << c.name << std::endl; return 0; } }
  int run = 0, bad = 0; auto reap = [&]() { int st; if (wait(&st) > 0) { run--; if (st != 0) bad++; } };
  for (auto &c : cases()) {
    if (cn.size() && c.name != cn) continue;
    while (run >= J) reap();
    std::cout.flush(); pid_t p = fork();
    if (p == 0) { int rc = runcase(c, seed, only, tl, mult); std::cout.flush(); _exit(rc); }
    run++;
  }
  while (run > 0) reap();
  std::cout << "END bad=" << bad << std::endl;
  return bad ? 1 : 0;
}
#endif
