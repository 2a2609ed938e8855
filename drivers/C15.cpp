#include "mat_lzz_pX_extra.h"
#include "common.h"
using namespace PML;
static MatX sq(long it, long n, long len) { MatX a = it % 3 ? rmat(n, n, len) : dmat(n, n, len); if (it % 7 == 1 && n > 1) { long x = G.r(0, n - 1), y = (x + G.r(1, n - 1)) % n; zz_pX f = rpolylen(2); if (G.b()) for (long j = 0; j < n; j++) a[x][j] = f * a[y][j]; else for (long j = 0; j < n; j++) a[j][x] = f * a[j][y]; } if (it % 7 == 2) { long x = G.r(0, n - 1); for (long j = 0; j < n; j++) if (G.b()) clear(a[x][j]); } if (it % 23 == 3) a = zmat(n, n); if (it % 23 == 4) { a = identX(n); a[0][0] = rpoly(len); } return a; }
template <class F> static void det1(const string &nm, F f, const MatX &a) { string s = nm + " n=" + str(a.NumRows()) + " deg=" + str(mdeg(a)) + " p=" + str(zz_p::modulus()); note().str(""); note() << s << " " << str(a); zz_pX d = junkp(), e = detX(a); f(d, a); EQ(d, e, s); count(s + str(a)); }
CASE("minors", 600) { anyprime(); long n = G.r(1, 4), l = it % 9 ? G.r(1, 5) : G.r(1, 40); det1("determinant_expansion_by_minors", determinant_expansion_by_minors, sq(it, n, l)); }
CASE("minors_rec", 500) { anyprime(); long n = it % 5 ? G.r(1, 4) : G.r(4, 6), l = it % 9 ? G.r(1, 4) : G.r(1, 30); det1("determinant_expansion_by_minors_rec", determinant_expansion_by_minors_rec, sq(it, n, l)); }
static void dims(long it, long &n, long &l) { n = G.r(1, 5); l = G.r(1, 6); if (it % 5 == 0) l = G.r(1, 40); if (it % 10 == 1) n = G.r(5, 9); }
CASE("evaluation_general", 300) { prime(G.pick<long>({4, 6, 7, 8, 100, 101, 3})); long n, l; dims(it, n, l); if (zz_p::modulus() < 2000) { n = G.r(1, 4); l = G.r(1, 100 / n - 1); if (it % 4 == 0) l = 100 / n + 1; } MatX a = sq(it, n, l); if (n * mdeg(a) + 1 > zz_p::modulus()) throw Skip(); det1("determinant_via_evaluation_general", determinant_via_evaluation_general, a); }
CASE("evaluation_geometric", 300) { prime(G.pick<long>({4, 5, 6, 7, 8, 100, 101})); long n, l; dims(it, n, l); det1("determinant_via_evaluation_geometric", determinant_via_evaluation_geometric, sq(it, n, l)); }
CASE("evaluation_FFT", 400) { prime(100 + it % 2); long n, l; dims(it, n, l); det1("determinant_via_evaluation_FFT", determinant_via_evaluation_FFT, sq(it, n, l)); }
// exact only up to a constant, for generic inputs
CASE("up to a constant", 120) { prime(G.pick<long>({8, 100, 9})); long n = G.r(1, 9), l = G.r(2, 6); MatX a = dmat(n, n, l); zz_pX e = detX(a), d = junkp(), em = e; if (IsZero(e) || rankF(cfm(a, 0)) < n || deg(e) != n * (l - 1)) throw Skip(); string s = "n=" + str(n) + " deg=" + str(l - 1) + " p=" + str(zz_p::modulus()); note() << s; MakeMonic(em);
  bool r = determinant_generic_knowing_degree(d, a, deg(e)); CHK(r, s << " generic: reported failure"); CHK(okp(d) && !IsZero(d), s << " generic"); MakeMonic(d); EQ(d, em, s << " generic"); CHK(!determinant_generic_knowing_degree(d, a, deg(e) + 1), s << " generic: accepted a wrong degree");
  d = junkp(); determinant_via_linsolve(d, a); CHK(okp(d) && !IsZero(d), s << " linsolve"); MakeMonic(d); EQ(d, em, s << " linsolve"); count(s + str(it)); }
CASE("verify_determinant", 300) { prime(G.pick<long>({0, 1, 3, 6, 8, 100})); long n = G.r(1, 5), l = G.r(1, 6); MatX a = sq(it, n, l); zz_pX e = detX(a); string s = str(a) + " p=" + str(zz_p::modulus()); note() << s; CHK(verify_determinant(e, a, false, true), "true determinant rejected " << s); CHK(verify_determinant(rnz() * e, a, true, true), "multiple of the determinant rejected " << s); if (zz_p::modulus() > (1L << 40)) { zz_pX f = e + rnz(); CHK(!verify_determinant(f, a, false, true), "wrong determinant accepted " << s); SetCoeff(f, deg(f) + 1, 1); if (!IsZero(e) && n && !IsZero(f) && f * LeadCoeff(e) != e * LeadCoeff(f)) CHK(!verify_determinant(f, a, true, true), "wrong determinant accepted up to constant " << s); } count(s); }
