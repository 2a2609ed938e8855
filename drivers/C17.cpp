#include "mat_lzz_pX_linearization.h"
#include "mat_lzz_pX_utils.h"
#include "common.h"
#include "forms.h"
using namespace PML;
CASE("horizontal_join", 300) { anyprime(); long n = G.r(0, 4), m = G.r(0, 4), k = G.r(0, 4); MatX a = rmat(n, m, 6), b = rmat(n, k, 6), c = junkm(n, m + k), w = zmat(n, m + k); for (long i = 0; i < n; i++) { for (long j = 0; j < m; j++) w[i][j] = a[i][j]; for (long j = 0; j < k; j++) w[i][m + j] = b[i][j]; } horizontal_join(c, a, b); EQ(c, w, "join"); EQ(horizontal_join(a, b), w, "join value"); c = a; horizontal_join(c, c, b); EQ(c, w, "join aliased left"); c = b; horizontal_join(c, a, c); EQ(c, w, "join aliased right"); count(str(n) + str(m) + str(k)); }
CASE("collapse columns", 500) { anyprime(); long n = G.r(0, 4), s = G.r(1, 4), r = G.r(0, 4), d = G.r(1, 6), t = r * s; MatX a = rmat(n, t, d), c = junkm(n, r), w = zmat(n, r); for (long j = 0; j < n; j++) for (long i = 0; i < r; i++) for (long k = 0; k < s; k++) w[j][i] += pshl(a[j][i * s + k], k * d); note() << str(a) << " d=" << d << " s=" << s; collapse_consecutive_columns(c, a, d, s); EQ(c, w, "consecutive"); EQ(collapse_consecutive_columns(a, d, s), w, "consecutive value"); c = a; collapse_consecutive_columns(c, c, d, s); EQ(c, w, "consecutive aliased"); w = zmat(n, s); c = junkm(n, s); for (long j = 0; j < n; j++) for (long i = 0; i < s; i++) for (long k = 0; k < r; k++) w[j][i] += pshl(a[j][i + k * s], k * d); collapse_nonconsecutive_columns(c, a, d, s); EQ(c, w, "nonconsecutive"); EQ(collapse_nonconsecutive_columns(a, d, s), w, "nonconsecutive value"); c = a; collapse_nonconsecutive_columns(c, c, d, s); EQ(c, w, "nonconsecutive aliased"); count(str(n) + str(s) + str(r) + str(d)); }
// recombination of a column linearization
static MatX recombine(const MatX &p, const VL &cols, const VL &pd, long m, long dinf) { MatX w = zmat(p.NumRows(), m); for (long i = 0; i < p.NumRows(); i++) for (long j = 0; j < m; j++) { long sh = dinf; for (long jj = cols[j]; jj < cols[j + 1]; jj++) { w[i][j] += pshl(p[i][jj], sh); sh += pd[j] + 1; } } return w; }
static void lin1(const string &s, const MatX &a, const MatX &p, const VL &cols, const VL &pd, const VL &td) { long n = a.NumRows(), m = a.NumCols(); CHK((long)cols.size() == m + 1 && cols[0] == 0 && p.NumRows() == n && p.NumCols() == cols[m], s << " dimensions"); for (long j = 0; j < m; j++) { long nb = (td[j] + 1 + pd[j]) / (pd[j] + 1); CHK(cols[j + 1] - cols[j] == nb, s << " number of columns"); for (long i = 0; i < n; i++) for (long jj = cols[j]; jj < cols[j + 1]; jj++) CHK(okp(p[i][jj]) && (jj == cols[j + 1] - 1 || deg(p[i][jj]) <= pd[j]), s << " blocks"); } EQ(recombine(p, cols, pd, m, 0), a, s << " recombination"); for (long j = 0; j < m; j++) { bool fit = true; for (long i = 0; i < n; i++) fit = fit && deg(a[i][j]) <= td[j]; if (fit) for (long i = 0; i < n; i++) for (long jj = cols[j]; jj < cols[j + 1]; jj++) CHK(deg(p[i][jj]) <= pd[j], s << " last block degree"); } count(s + str(n) + str(m) + str(pd) + str(td)); }
CASE("column_partial_linearization", 800) { anyprime(); long n = G.r(0, 4), m = G.r(1, 4), L = G.r(1, 12); MatX a = rmat(n, m, L); if (G.b(4)) for (long i = 0; i < n; i++) a[i][m - 1] = zz_pX(); VL z(n, 0), cd(m, -1); for (long j = 0; j < m; j++) for (long i = 0; i < n; i++) cd[j] = std::max(cd[j], deg(a[i][j])); VL pd(m), td(m); for (long j = 0; j < m; j++) { pd[j] = G.r(0, 6); td[j] = G.b() ? std::max(0L, cd[j]) : G.r(std::max(0L, cd[j]), L + 4); } note() << str(a) << " pd=" << str(pd) << " td=" << str(td); MatX p = junkm(n, m); VL c = column_partial_linearization(p, a, pd, td); lin1("vectors", a, p, c, pd, td); p = junkm(n, m); if (n) { c = column_partial_linearization_cdeg(p, a, pd); lin1("cdeg", a, p, c, pd, cd); VL u(m, pd[0]); c = column_partial_linearization_cdeg(p, a, pd[0]); lin1("uniform cdeg", a, p, c, u, cd); c = column_partial_linearization(p, a, pd[0], td); lin1("uniform", a, p, c, u, td); VL t2(m, L); c = column_partial_linearization(p, a, pd[0], L); lin1("uniform both", a, p, c, u, t2); long sm = 0; for (long x : td) sm += x; VL u2(m, 1 + sm / m); c = column_partial_linearization(p, a, td); lin1("default", a, p, c, u2, td); } }
CASE("right_parlin_multiply", 500) { midprime(); long n = G.r(1, 4), m = G.r(1, 4), k = G.r(1, 4); MatX a = rmat(n, m, G.r(1, 8)), b = rmat(m, k, G.r(1, 16)); long pd = G.r(0, 6); MatX w = nmul(a, b), c = junkm(n, k); VL cd(k, -1); for (long j = 0; j < k; j++) for (long i = 0; i < m; i++) cd[j] = std::max(cd[j], deg(b[i][j])); for (auto &x : cd) x = std::max(0L, x) + (G.b() ? 0 : G.r(0, 3)); note() << str(a) << str(b) << " pd=" << pd << str(cd); right_parlin_multiply(c, a, b, pd, cd); EQ(c, w, "right_parlin_multiply"); c = junkm(n, k); right_parlin_multiply(c, a, b, pd); EQ(c, w, "right_parlin_multiply without degrees"); c = junkm(n, k); right_parlin_multiply(c, a, b, pd, mdeg(b) < 0 ? 0L : mdeg(b)); EQ(c, w, "right_parlin_multiply global degree"); if (mdeg(a) >= 0) { right_parlin_multiply(c, a, b); EQ(c, w, "right_parlin_multiply default"); } count(str(n) + str(m) + str(k) + str(mdeg(a)) + str(mdeg(b)) + str(pd)); }
CASE("right_parlin_middle_product", 500) { midprime(); long n = G.r(1, 4), m = G.r(1, 4), k = G.r(1, 4), dA = G.r(0, 8), dB = G.r(0, 8); MatX a = rmat(n, m, dA + 1), b = rmat(m, k, dA + dB + 1); if (mdeg(a) < 0) a[0][0] = 1; long pd = G.r(0, 6); MatX w = emap(nmul(a, b), [&](const zz_pX &x) { return pslice(x, dA, dB + 1); }), c = junkm(n, k); note() << str(a) << str(b) << " pd=" << pd << " dA=" << dA << " dB=" << dB; right_parlin_middle_product(c, a, b, pd, dA + dB, dA, dB); EQ(c, w, "right_parlin_middle_product"); count(str(n) + str(m) + str(k) + str(mdeg(a)) + str(mdeg(b)) + str(pd)); }
