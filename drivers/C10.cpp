#include "mat_lzz_pX_inverse.h"
#include "mat_lzz_pX_linsolve.h"
#include "common.h"
using namespace PML;
// square matrix with invertible constant term
static MatX regular(long n, long len) { MatX a = G.b(3) ? dmat(n, n, len) : rmat(n, n, len); for (int t = 0; t < 60 && rankF(cfm(a, 0)) < n; t++) for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) if (t > 40) SetCoeff(a[i][j], 0, i == j ? 1 : 0); else SetCoeff(a[i][j], 0, rz()); return a; }
static MatX mtrunc(const MatX &a, long d) { return emap(a, [&](const zz_pX &x) { return ptrunc(x, d); }); }
template <class F> static void inv1(const string &nm, F f, const MatX &a, long d) {
  string s = nm + " n=" + str(a.NumRows()) + " deg=" + str(mdeg(a)) + " d=" + str(d) + " p=" + str(zz_p::modulus()); note().str(""); note() << s; long n = a.NumRows(); MatX x = junkm(n, n); f(x, a, d);
  CHK(x.NumRows() == n && x.NumCols() == n, s << " dimensions"); for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) CHK(okp(x[i][j]), s << " normalized"); CHK(mdeg(x) < d, s << " degree " << mdeg(x)); EQ(mtrunc(nmul(a, x), d), identX(n), s << " a*x"); EQ(mtrunc(nmul(x, a), d), identX(n), s << " x*a");
  MatX y = a; f(y, y, d); EQ(y, x, s << " aliased"); y = a; MatX b = a; f(y, b, d); EQ(y, x, s << " output equal in value to the input"); count(s); }
static void dims(long it, long &n, long &l, long &d) { n = G.r(1, 4); l = G.r(1, 9); d = G.r(1, 12); if (it % 4 == 1) { l = G.r(1, 40); d = G.r(1, 40); } if (it % 6 == 2) { l = G.r(1, 3); d = G.r(20, 70); } if (it % 6 == 3) { l = G.r(20, 70); d = G.r(1, 6); } if (it % 20 == 5) { n = G.r(1, 2); l = G.r(100, 150); d = G.r(100, 300); } if (it % 25 == 6) { n = G.r(6, 12); } }
CASE("plain_inv_trunc", 400) { anyprime(); long n, l, d; dims(it, n, l, d); inv1("plain_inv_trunc", plain_inv_trunc, regular(n, l), d); }
CASE("newton_inv_trunc_FFT", 300) { if (it % 3 == 0) prime(101); else prime(100); long n, l, d; dims(it, n, l, d); long th = it % 3 == 0 ? -1 : it % 3 == 1 ? G.r(1, 9) : G.r(1, d + 2); inv1("newton_inv_trunc_FFT thresh=" + str(th), [&](MatX &x, const MatX &a, long m) { newton_inv_trunc_FFT(x, a, m, th); }, regular(n, l), d); }
CASE("newton_inv_trunc_middle_product", 400) { anyprime(); long n, l, d; dims(it, n, l, d); long th = it % 3 == 0 ? -1 : it % 3 == 1 ? G.r(1, 9) : G.r(1, d + 2); inv1("newton_inv_trunc_middle_product thresh=" + str(th), [&](MatX &x, const MatX &a, long m) { newton_inv_trunc_middle_product(x, a, m, th); }, regular(n, l), d); }
static void geop() { prime(G.pick<long>({4, 5, 6, 7, 8, 100, 101})); }
CASE("newton_inv_trunc_geometric", 300) { geop(); long n, l, d; dims(it, n, l, d); long th = it % 3 == 0 ? -1 : it % 3 == 1 ? G.r(1, 9) : G.r(1, d + 2); inv1("newton_inv_trunc_geometric thresh=" + str(th), [&](MatX &x, const MatX &a, long m) { newton_inv_trunc_geometric(x, a, m, th); }, regular(n, l), d); }
CASE("inv_trunc", 500) { geop(); long n, l, d; dims(it, n, l, d); MatX a = regular(n, l); inv1("inv_trunc", [](MatX &x, const MatX &b, long m) { inv_trunc(x, b, m); }, a, d); MatX x; inv_trunc(x, a, d); EQ(inv_trunc(a, d), x, "inv_trunc value form"); }
// rejection
template <class F> static bool raises(F f) { int p[2]; if (pipe(p)) return false; fflush(0); pid_t c = fork(); if (c == 0) { signal(SIGABRT, SIG_DFL); int nul = open("/dev/null", O_WRONLY); dup2(nul, 2); alarm(20); try { f(); } catch (...) { _exit(7); } _exit(0); } close(p[0]); close(p[1]); int st; waitpid(c, &st, 0); return (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) || (WIFEXITED(st) && WEXITSTATUS(st) != 0); }
CASE("rejected inputs", 24) { prime(it % 2 ? 100 : 4); long n = G.r(1, 3), l = G.r(1, 5), d = G.r(1, 40); MatX a; if (it % 3 == 0) { a = dmat(n, n, l + 1); for (long j = 0; j < n; j++) SetCoeff(a[n - 1][j], 0, 0); } else if (it % 3 == 1) a = dmat(n, n + 1, l); else a = zmat(n, n); note() << str(a) << " d=" << d; MatX x; CHK(raises([&]() { inv_trunc(x, a, d); }), "inv_trunc accepted"); CHK(raises([&]() { plain_inv_trunc(x, a, d); }), "plain accepted"); CHK(raises([&]() { newton_inv_trunc_middle_product(x, a, d); }), "middle product accepted"); CHK(raises([&]() { newton_inv_trunc_geometric(x, a, d); }), "geometric accepted"); if (it % 2) CHK(raises([&]() { newton_inv_trunc_FFT(x, a, d); }), "FFT accepted"); count(str(it)); }
// series solving
template <class F> static void sol1(const string &nm, F f, const MatX &A, const MatX &b, long d) {
  string s = nm + " n=" + str(A.NumRows()) + " cols=" + str(b.NumCols()) + " deg=" + str(mdeg(A)) + "," + str(mdeg(b)) + " prec=" + str(d) + " p=" + str(zz_p::modulus()); note().str(""); note() << s; long n = A.NumRows(), c = b.NumCols(); MatX u = junkm(n, c); f(u, A, b, d);
  CHK(u.NumRows() == n && u.NumCols() == c, s << " dimensions"); for (long i = 0; i < n; i++) for (long j = 0; j < c; j++) CHK(okp(u[i][j]), s << " normalized"); CHK(mdeg(u) < d, s << " degree"); EQ(mtrunc(nmul(A, u), d), mtrunc(b, d), s << " A*u = b"); MatX v = b; f(v, A, v, d); EQ(v, u, s << " output is b"); if (c == n) { v = A; f(v, v, b, d); EQ(v, u, s << " output is A"); } count(s); }
static void sdims(long it, long &n, long &c, long &l, long &lb, long &d) { dims(it, n, l, d); c = it % 3 == 0 ? n : G.r(1, 4); lb = G.r(0, 9); if (it % 4 == 1) lb = G.r(0, 40); if (n > 4) c = 2; if (d > 100) c = 1; }
CASE("solve_series_low_precision", 300) { geop(); long n, c, l, lb, d; sdims(it, n, c, l, lb, d); long th = it % 3 == 0 ? -1 : G.r(1, 9); sol1("solve_series_low_precision thresh=" + str(th), [&](MatX &u, const MatX &A, const MatX &b, long p) { solve_series_low_precision(u, A, b, p, th); }, regular(n, l), rmat(n, c, lb), d); }
CASE("solve_series_high_precision", 300) { geop(); long n, c, l, lb, d; sdims(it, n, c, l, lb, d); sol1("solve_series_high_precision", [&](MatX &u, const MatX &A, const MatX &b, long p) { solve_series_high_precision(u, A, b, p); }, regular(n, l), rmat(n, c, lb), d); }
CASE("solve_series", 400) { geop(); long n, c, l, lb, d; sdims(it, n, c, l, lb, d); MatX A = regular(n, l), b = rmat(n, c, lb); sol1("solve_series", [&](MatX &u, const MatX &A, const MatX &b, long p) { solve_series(u, A, b, p); }, A, b, d); VecX v, w = junkv(n), e; v.SetLength(n); e.SetLength(n); MatX U; solve_series(U, A, b, d); for (long i = 0; i < n; i++) { v[i] = b[i][0]; e[i] = U[i][0]; } solve_series(w, A, v, d); EQ(w, e, "solve_series vector"); w = v; solve_series(w, A, w, d); EQ(w, e, "solve_series vector aliased"); EQ(solve_series(A, v, d), e, "solve_series vector value"); EQ(solve_series(A, b, d), U, "solve_series value"); }
CASE("solve_series_high_order_lifting", 300) { geop(); long n, c, l, lb, d; sdims(it, n, c, l, lb, d); MatX A = regular(n, l); MatX b = rmat(n, c, G.r(0, mdeg(A))); sol1("solve_series_high_order_lifting", [&](MatX &u, const MatX &x, const MatX &y, long p) { solve_series_high_order_lifting(u, x, y, p); }, A, b, d); }
CASE("small fields", 300) { prime(G.pick<long>({0, 1, 2, 3})); long n = G.r(1, 4), l = G.r(1, 8), d = G.r(1, 25), c = G.r(1, 3), lb = G.r(0, 12); MatX A = regular(n, l), b = rmat(n, c, lb); inv1("inv_trunc", [](MatX &x, const MatX &b, long m) { inv_trunc(x, b, m); }, A, d); sol1("solve_series", [&](MatX &u, const MatX &A, const MatX &b, long p) { solve_series(u, A, b, p); }, A, b, d); sol1("solve_series_high_precision", [&](MatX &u, const MatX &A, const MatX &b, long p) { solve_series_high_precision(u, A, b, p); }, A, b, d); sol1("solve_series_low_precision", [&](MatX &u, const MatX &A, const MatX &b, long p) { solve_series_low_precision(u, A, b, p, it % 2 ? -1 : G.r(1, 6)); }, A, b, d); b = rmat(n, c, G.r(0, mdeg(A))); sol1("solve_series_high_order_lifting", [&](MatX &u, const MatX &x, const MatX &y, long p) { solve_series_high_order_lifting(u, x, y, p); }, A, b, d); }
