#include "mat_lzz_pX_extra.h"
#include "common.h"
#include "forms.h"
using namespace PML;
static MatX rowreduced(long n, long d) { VL s(n, 0); MatX b; for (int t = 0; t < 30; t++) { b = t < 12 ? rform(n, n, d, s, G.r(1, 4)) : rform(n, n, d, s, 2); if (o_red(b, s)) return b; } return identX(n); }
CASE("quo_rem", 900) { prime(G.pick<long>({0, 1, 2, 3, 4, 6, 8, 100, 101})); if (it % 3) midprime(); long m = G.r(1, 4), n = G.r(1, 4), d = G.r(0, 6), e = G.r(0, 12); if (it % 6 == 0) { d = G.r(0, 20); e = G.r(0, 50); } if (it % 25 == 0) { m = G.r(4, 8); } MatX B = it % 4 == 0 ? dmat(m, m, d + 1) : rowreduced(m, d); VL z(m, 0); if (!o_red(B, z)) throw Skip(); MatX A = it % 7 == 0 ? nmul(B, rmat(m, n, e + 1)) : rmat(m, n, e + 1); if (it % 11 == 0) { VL rb = o_rdeg(B, z); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) A[i][j] = rpolylen(rb[i]); }
  string s = "m=" + str(m) + " n=" + str(n) + " degB=" + str(mdeg(B)) + " degA=" + str(mdeg(A)) + " p=" + str(zz_p::modulus()); note() << s << " A=" << str(A) << " B=" << str(B); MatX Q = junkm(m, n), R = junkm(m, n); quo_rem(Q, R, A, B); CHK(Q.NumRows() == m && Q.NumCols() == n && R.NumRows() == m && R.NumCols() == n, s << " dimensions"); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) CHK(okp(Q[i][j]) && okp(R[i][j]), "normalized"); EQ(ezip(nmul(B, Q), R, [](const zz_pX &x, const zz_pX &y) { return x + y; }), A, s << " A = B*Q + R"); VL rb = o_rdeg(B, z); for (long i = 0; i < m; i++) for (long j = 0; j < n; j++) CHK(deg(R[i][j]) < rb[i], s << " row degree of the remainder"); count(s); }
