#include "mat_lzz_pX_extra.h"
#include "common.h"
#include "bases.h"
using namespace PML;
static string desc(const string &nm, const MatX &F, const VL &s) { return nm + " m=" + str(F.NumRows()) + " n=" + str(F.NumCols()) + " deg=" + str(mdeg(F)) + " shift=" + str(s) + " p=" + str(zz_p::modulus()) + " F=" + str(F); }
// shift required to bound the row degrees of the input
static VL bnd(long it, const MatX &F) { long m = F.NumRows(); VL s = o_rdeg(F, zs(F.NumCols())); for (auto &x : s) x = std::max(x, 0L); if (it % 3 == 1) for (auto &x : s) x += G.r(0, 3); if (it % 3 == 2) { long d = std::max(0L, mdeg(F)); s = VL(m, d); } if (it % 7 == 3) { long c = G.r(1, 6); for (auto &x : s) x += c; } return s; }
static MatX kin(long it) { long m = G.r(2, 6), n = G.r(1, 4), l = G.r(1, 5); if (it % 5 == 0) { m = G.r(2, 5); n = 1; l = G.r(1, 12); } if (it % 12 == 1) { m = G.r(5, 10); n = G.r(2, 9); l = G.r(1, 4); } if (it % 9 == 2) { m = 2 * n; } if (it % 15 == 3) { m = G.r(1, n); } MatX F = rinput(it, m, n, l); if (it % 8 == 5) { long i = G.r(0, m - 1); for (long j = 0; j < n; j++) F[i][j] = rpoly(G.r(1, 25)); } return F; }
template <class Fn> static void ker(const string &nm, Fn f, const MatX &F, const VL &s, int form) { VL t = s; string ds = desc(nm, F, s); note().str(""); note() << ds; MatX K = junkm(2, F.NumRows()); f(K, F, t); chk_ker(ds, K, F, s, form, &t); count(ds); }
CASE("via_approximation", 500) { prime(G.pick<long>({1, 3, 4, 6, 8, 100, 101})); MatX F = kin(it); VL s = it % 2 ? bnd(it, F) : rsh(it / 2, F.NumRows()); ker("kernel_basis_via_approximation", [&](MatX &K, const MatX &A, VL &t) { VL piv(3, 7), s0 = t; kernel_basis_via_approximation(K, piv, A, t); VL pi, pd; o_rpiv(K, s0, pi, pd); if (K.NumRows()) CHK(piv == pi, "pivot index " << str(piv) << " instead of " << str(pi)); }, F, s, 3); }
CASE("via_interpolation", 400) { prime(G.pick<long>({1, 3, 4, 6, 8, 100, 101})); MatX F = kin(it); VL s = it % 2 ? bnd(it, F) : rsh(it / 2, F.NumRows()); ker("kernel_basis_via_interpolation", [&](MatX &K, const MatX &A, VL &t) { VL piv(3, 7), s0 = t; kernel_basis_via_interpolation(K, piv, A, t); VL pi, pd; o_rpiv(K, s0, pi, pd); if (K.NumRows()) CHK(piv == pi, "pivot index " << str(piv) << " instead of " << str(pi)); }, F, s, 3); }
CASE("zls_via_approximation", 500) { prime(G.pick<long>({3, 4, 6, 8, 100, 101})); MatX F = kin(it); VL s = it % 4 ? bnd(it, F) : rsh(it / 4, F.NumRows()); ker("kernel_basis_zls_via_approximation", [&](MatX &K, const MatX &A, VL &t) { MatX B = A; kernel_basis_zls_via_approximation(K, B, t); }, F, s, 1); }
CASE("zls_via_interpolation", 500) { prime(G.pick<long>({1, 3, 4, 6, 8, 100, 101})); MatX F = kin(it); VL s = it % 4 ? bnd(it, F) : rsh(it / 4, F.NumRows()); ker("kernel_basis_zls_via_interpolation", [&](MatX &K, const MatX &A, VL &t) { MatX B = A; kernel_basis_zls_via_interpolation(K, B, t); }, F, s, 1); }
CASE("kernel_basis", 300) { prime(G.pick<long>({3, 4, 6, 8, 100, 101})); MatX F = kin(it), F0 = F; VL s = bnd(it, F), s0 = s; string ds = desc("kernel_basis", F, s); note() << ds; MatX K = junkm(2, F.NumRows()); kernel_basis(K, F, s); CHK(s == s0 && F == F0, ds << " inputs changed"); chk_ker(ds, K, F, s, 1, 0); count(ds); }
CASE("is_kernel_basis", 300) { prime(G.pick<long>({8, 9, 100})); MatX F = kin(it); VL s = bnd(it, F), t = s, piv; MatX K; std::streambuf *b = std::cout.rdbuf(0); struct R { std::streambuf *b; ~R() { std::cout.rdbuf(b); std::cout.clear(); } } rr{b}; kernel_basis_via_approximation(K, piv, F, t); if (K.NumRows() == 0) throw Skip(); long r = K.NumRows(), m = F.NumRows(); int kind = it % 4, fm = G.r(1, 3); if (kind == 1) K[G.r(0, r - 1)][G.r(0, m - 1)] += rpoly(3); if (kind == 2) std::swap(K[0], K[r - 1]); PolMatForm pf = fm == 3 ? ORD_WEAK_POPOV : fm == 2 ? WEAK_POPOV : REDUCED; bool nec = isZeroM(nmul(K, F)) && o_is(fm, K, s), want = true; try { chk_ker("", K, F, s, fm, 0); } catch (Fail &) { want = false; } note() << desc("verify", F, s) << " K=" << str(K); for (int rnd = 0; rnd < 2; rnd++) { bool g = is_kernel_basis(K, F, s, pf, rnd); if (want) CHK(g, "true kernel basis rejected"); if (!nec) CHK(!g, "accepted a matrix not in the kernel or not in form"); } count(str(K)); }
