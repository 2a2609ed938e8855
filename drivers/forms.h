// naive definitions of degrees, pivots, forms
#ifndef FORMS_ORACLE_H
#define FORMS_ORACLE_H
#include "common.h"
typedef vector<long> VL;
inline VL zs(long n) { return VL(n, 0); }
inline VL rshift(long n, long amp) { VL s(n); for (auto &x : s) x = G.r(-amp, amp); return s; }
inline VL o_rdeg(const MatX &a, const VL &s) { VL r; long mn = s.empty() ? 0 : *std::min_element(s.begin(), s.end()); for (long i = 0; i < a.NumRows(); i++) { long d = mn - 1; bool any = false; for (long j = 0; j < a.NumCols(); j++) if (deg(a[i][j]) >= 0) { long v = deg(a[i][j]) + s[j]; if (!any || v > d) d = v; any = true; } r.push_back(d); } return r; }
inline void o_rpiv(const MatX &a, const VL &s, VL &ind, VL &dg) { ind.clear(); dg.clear(); for (long i = 0; i < a.NumRows(); i++) { long best = 0, b = -1; for (long j = 0; j < a.NumCols(); j++) if (deg(a[i][j]) >= 0) { long v = deg(a[i][j]) + s[j]; if (b < 0 || v >= best) { best = v; b = j; } } ind.push_back(b); dg.push_back(b < 0 ? -1 : deg(a[i][b])); } }
inline MatF o_rlead(const MatX &a, const VL &s) { VL r = o_rdeg(a, s); MatF l = zmatF(a.NumRows(), a.NumCols()); for (long i = 0; i < a.NumRows(); i++) for (long j = 0; j < a.NumCols(); j++) if (deg(a[i][j]) >= 0 && deg(a[i][j]) + s[j] == r[i]) l[i][j] = a[i][j].rep[deg(a[i][j])]; return l; }
inline bool o_red(const MatX &a, const VL &s) { return rankF(o_rlead(a, s)) == a.NumRows(); }
inline bool o_wp(const MatX &a, const VL &s) { VL i, d; o_rpiv(a, s, i, d); std::set<long> t; for (long x : i) { if (x < 0 || t.count(x)) return false; t.insert(x); } return true; }
inline bool o_owp(const MatX &a, const VL &s) { VL i, d; o_rpiv(a, s, i, d); for (size_t k = 0; k < i.size(); k++) if (i[k] < 0 || (k && i[k] <= i[k - 1])) return false; return true; }
inline bool o_popov(const MatX &a, const VL &s) { if (!o_owp(a, s)) return false; VL i, d; o_rpiv(a, s, i, d); for (long r = 0; r < a.NumRows(); r++) { const zz_pX &p = a[r][i[r]]; if (p.rep[deg(p)] != 1) return false; for (long q = 0; q < a.NumRows(); q++) if (q != r && deg(a[q][i[r]]) >= deg(p)) return false; } return true; }
inline int o_form(const MatX &a, const VL &s) { return o_popov(a, s) ? 4 : o_owp(a, s) ? 3 : o_wp(a, s) ? 2 : o_red(a, s) ? 1 : 0; }
inline bool o_is(int f, const MatX &a, const VL &s) { return f == 0 ? true : f == 1 ? o_red(a, s) : f == 2 ? o_wp(a, s) : f == 3 ? o_owp(a, s) : o_popov(a, s); }
// random matrix likely to be near one of the forms
inline MatX rform(long n, long m, long d, const VL &s, int kind) {
  MatX a = zmat(n, m); if (kind == 0 || n > m) { a = rmat(n, m, d + 1); return a; }
  // choose pivots
  VL p; for (long j = 0; j < m; j++) p.push_back(j); for (long j = m - 1; j > 0; j--) std::swap(p[j], p[G.r(0, j)]); p.resize(n); if (kind >= 3) std::sort(p.begin(), p.end());
  VL e(n); for (long i = 0; i < n; i++) e[i] = G.r(0, d);
  for (long i = 0; i < n; i++) { a[i][p[i]] = rpoly(e[i]); SetCoeff(a[i][p[i]], e[i], kind >= 4 ? to_zz_p(1) : rnz()); long sd = e[i] + s[p[i]];
    for (long j = 0; j < m; j++) if (j != p[i]) { long mx = j < p[i] ? sd - s[j] : sd - s[j] - 1; mx = std::min(mx, d + 6); if (kind >= 4) { for (long k = 0; k < n; k++) if (p[k] == j) mx = std::min(mx, e[k] - 1); } a[i][j] = G.b(5) ? zz_pX() : rpoly(mx + 1); } }
  if (kind == 1 && n > 1) { long x = G.r(0, n - 1), y = G.r(0, n - 1); if (x != y) for (long j = 0; j < m; j++) a[x][j] += a[y][j]; }
  if (G.b(4) && n && m) { long x = G.r(0, n - 1), y = G.r(0, m - 1); a[x][y] += rpoly(G.r(0, d + 2)); } // perturb
  return a; }
#endif
