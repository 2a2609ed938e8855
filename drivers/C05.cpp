#include "mat_lzz_pX_forms.h"
#include "mat_lzz_pX_utils.h"
#include "forms.h"
using namespace PML;
static void gen(long it, MatX &a, VL &sr, VL &sc) { anyprime(); long n = G.r(1, 5), m = G.r(1, 5); if (it % 10 == 0) n = 0; if (it % 10 == 1) n = G.r(6, 12); a = rmat(n, m, G.r(0, 5)); if (n && G.b(3)) { long i = G.r(0, n - 1); for (long j = 0; j < m; j++) a[i][j] = 0; } if (G.b(3)) { long j = G.r(0, m - 1); for (long i = 0; i < n; i++) a[i][j] = 0; } sr = rshift(m, G.pick<long>({0, 1, 3, 10, 1000})); sc = rshift(n, G.pick<long>({0, 1, 3, 10, 1000})); note() << " a=" << str(a) << " shift=" << sr << sc; count(str(n) + str(m) + str(sr) + str(mdeg(a))); }
#define E1(got, want, nm) do { VL g_ = got, w_ = want; CHK(g_ == w_, nm << " got " << g_ << " expected " << w_); } while (0)
static VL jk() { VL v(G.r(0, 9)); for (auto &x : v) x = G.r(-5, 5); return v; }
CASE("row and column degree", 600) { MatX a; VL s, t; gen(it, a, s, t); long n = a.NumRows(), m = a.NumCols(); VL r = jk(); row_degree(r, a); E1(r, o_rdeg(a, zs(m)), "row_degree"); r = jk(); row_degree(r, a, s); E1(r, o_rdeg(a, s), "row_degree shifted"); E1(row_degree(a), o_rdeg(a, zs(m)), "v"); E1(row_degree(a, s), o_rdeg(a, s), "v");
  if (n) { MatX b = tr(a); r = jk(); col_degree(r, a); E1(r, o_rdeg(b, zs(n)), "col_degree"); r = jk(); col_degree(r, a, t); E1(r, o_rdeg(b, t), "col_degree shifted"); E1(col_degree(a), o_rdeg(b, zs(n)), "v"); E1(col_degree(a, t), o_rdeg(b, t), "v"); } 
  CHK(deg(a) == mdeg(a), "deg"); }
CASE("pivots", 600) { MatX a; VL s, t, wi, wd; gen(it, a, s, t); long n = a.NumRows(), m = a.NumCols(); VL pi = jk(), pd = jk(); row_pivots(pi, pd, a); o_rpiv(a, zs(m), wi, wd); E1(pi, wi, "row_pivots index"); E1(pd, wd, "row_pivots degree"); pi = jk(); pd = jk(); row_pivots(pi, pd, a, s); o_rpiv(a, s, wi, wd); E1(pi, wi, "row_pivots shifted index"); E1(pd, wd, "row_pivots shifted degree"); auto q = row_pivots(a, s); E1(q.first, wi, "v"); E1(q.second, wd, "v"); q = row_pivots(a); o_rpiv(a, zs(m), wi, wd); E1(q.first, wi, "v"); E1(q.second, wd, "v");
  if (n) { MatX b = tr(a); pi = jk(); pd = jk(); col_pivots(pi, pd, a); o_rpiv(b, zs(n), wi, wd); E1(pi, wi, "col_pivots index"); E1(pd, wd, "col_pivots degree"); pi = jk(); pd = jk(); col_pivots(pi, pd, a, t); o_rpiv(b, t, wi, wd); E1(pi, wi, "col_pivots shifted index"); E1(pd, wd, "col_pivots shifted degree"); auto u = col_pivots(a, t); E1(u.first, wi, "v"); E1(u.second, wd, "v"); u = col_pivots(a); o_rpiv(b, zs(n), wi, wd); E1(u.first, wi, "v"); E1(u.second, wd, "v"); } }
CASE("degree matrices", 600) { MatX a; VL s, t; gen(it, a, s, t); long n = a.NumRows(), m = a.NumCols(); Mat<long> d; if (G.b()) { d.SetDims(n, m); for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) d[i][j] = 77; } Mat<long> e = d, f = d; long ms = *std::min_element(s.begin(), s.end()); degree_matrix(d, a); degree_matrix_rowshifted(e, a, s); CHK(d.NumRows() == n && d.NumCols() == m && e.NumRows() == n && e.NumCols() == m, "dims"); for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) { CHK(d[i][j] == deg(a[i][j]), "degree_matrix"); CHK(e[i][j] == (deg(a[i][j]) < 0 ? ms - 1 : deg(a[i][j]) + s[j]), "degree_matrix_rowshifted"); }
  if (n) { degree_matrix_colshifted(f, a, t); long mt = *std::min_element(t.begin(), t.end()); for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) CHK(f[i][j] == (deg(a[i][j]) < 0 ? mt - 1 : deg(a[i][j]) + t[i]), "degree_matrix_colshifted"); } }
CASE("leading matrices", 600) { MatX a; VL s, t; gen(it, a, s, t); long n = a.NumRows(), m = a.NumCols(); MatF l = junkmF(n, m); row_leading_matrix(l, a); EQ(l, o_rlead(a, zs(m)), "row_leading_matrix"); l = junkmF(n, m); row_leading_matrix(l, a, s); EQ(l, o_rlead(a, s), "row_leading_matrix shifted"); EQ(row_leading_matrix(a, s), o_rlead(a, s), "v");
  auto trF = [](const MatF &x) { MatF y = zmatF(x.NumCols(), x.NumRows()); for (long i = 0; i < x.NumRows(); i++) for (long j = 0; j < x.NumCols(); j++) y[j][i] = x[i][j]; return y; };
  if (n) { MatX b = tr(a); l = junkmF(n, m); col_leading_matrix(l, a); EQ(l, trF(o_rlead(b, zs(n))), "col_leading_matrix"); l = junkmF(n, m); col_leading_matrix(l, a, t); EQ(l, trF(o_rlead(b, t)), "col_leading_matrix shifted"); EQ(col_leading_matrix(a, t), trF(o_rlead(b, t)), "v"); } }
CASE("wrong shift length is rejected", 100) { MatX a; VL s, t; gen(it, a, s, t); long n = a.NumRows(), m = a.NumCols(); if (!n) throw Skip(); VL u = rshift(m + 1, 2), v = rshift(n + 1, 2), x, y; Mat<long> d; MatF l; int k = 0;
#define THR(e) try { e; } catch (std::invalid_argument &) { k++; }
  THR(row_degree(x, a, u)) THR(col_degree(x, a, v)) THR(row_pivots(x, y, a, u)) THR(col_pivots(x, y, a, v)) THR(degree_matrix_rowshifted(d, a, u)) THR(degree_matrix_colshifted(d, a, v)) THR(row_leading_matrix(l, a, u)) THR(col_leading_matrix(l, a, v)) CHK(k == 8, "a wrong shift length was accepted"); }
