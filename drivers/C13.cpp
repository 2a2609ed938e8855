#include "mat_lzz_pX_extra.h"
#include "common.h"
#include "bases.h"
using namespace PML;
static string desc(const string &nm, const MatX &F, const VecF &pts, const VL &s) { return nm + " m=" + str(F.NumRows()) + " n=" + str(F.NumCols()) + " deg=" + str(mdeg(F)) + " points=" + str(pts) + " shift=" + str(s) + " p=" + str(zz_p::modulus()) + " F=" + str(F); }
static void dims(long it, long &m, long &n, long &d) { m = G.r(1, 5); n = G.r(1, 5); d = G.r(1, 9); if (it % 6 == 1) d = G.r(1, 30); if (it % 12 == 2) { m = G.r(4, 9); n = G.r(1, 9); d = G.r(1, 6); } if (it % 6 == 3) { n = 1; m = G.r(1, 6); d = G.r(1, 20); } }
static VecF points(long d) { VecF v; v.SetLength(d); long p = zz_p::modulus(); long o = (long)(G.u() % (unsigned long)p), st = p > 1000 ? G.r(1, 50) : 1; if (G.b(3)) o = 0; for (long i = 0; i < d; i++) v[i] = to_zz_p((o % p + i * st) % p); for (long i = d - 1; i > 0; i--) std::swap(v[i], v[G.r(0, i)]); return v; }
static Vec<MatF> evs(const MatX &F, const VecF &pts) { Vec<MatF> E; E.SetLength(pts.length()); for (long k = 0; k < pts.length(); k++) E[k] = evalm(F, pts[k]); return E; }
// evaluations that come from no low-degree matrix, possibly rank deficient
static Vec<MatF> rev(long d, long m, long n) { Vec<MatF> E; E.SetLength(d); for (long k = 0; k < d; k++) { E[k] = rmatF(m, n); if (G.b(4)) { long r = G.r(1, std::min(m, n)); E[k] = nmul(rmatF(m, r), rmatF(r, n)); } if (G.b(12)) E[k] = zmatF(m, n); } return E; }
static void ip() { prime(G.pick<long>({3, 4, 6, 8, 100, 101, 9})); }
static Vec<MatF> junkE() { Vec<MatF> e; return e; }
template <class Fn> static void one(const string &nm, Fn f, long it, int form) { ip(); long m, n, d; dims(it, m, n, d); MatX F = rinput(it, m, n, G.r(1, d + 2)); VecF pts = points(d); Vec<MatF> E = it % 2 ? evs(F, pts) : rev(d, m, n), E0 = E; VL s = rsh(it / 3, m), t = s; string ds = desc(nm, F, pts, s) + " E=" + str(E); note() << ds; MatX P = junkm(m, m); f(P, E, pts, t); chk_int(ds, P, E0, pts, s, form, &t); count(ds); }
CASE("mbasis_rescomp", 700) { one("mbasis_rescomp", [&](MatX &P, Vec<MatF> &E, const VecF &pts, VL &t) { mbasis_rescomp(P, E, pts, t, 0, pts.length()); }, it, 3); }
CASE("mbasis_resupdate", 700) { one("mbasis_resupdate", [&](MatX &P, Vec<MatF> &E, const VecF &pts, VL &t) { mbasis_resupdate(P, E, pts, t, 0, pts.length()); }, it, 3); }
CASE("mbasis", 500) { one("mbasis", [&](MatX &P, Vec<MatF> &E, const VecF &pts, VL &t) { if (it % 2) mbasis(P, E, pts, t); else mbasis(P, E, pts, t, 0, pts.length()); }, it, 3); }
CASE("popov_mbasis", 500) { one("popov_mbasis", [&](MatX &P, Vec<MatF> &E, const VecF &pts, VL &t) { popov_mbasis(P, E, pts, t); }, it, 4); }
CASE("pmbasis evals", 400) { one("pmbasis", [&](MatX &P, Vec<MatF> &E, const VecF &pts, VL &t) { pmbasis(P, E, pts, t, 0, pts.length()); }, it, 3); }
// offset and order: only that part of the points counts
CASE("offset", 400) { ip(); long m, n, d; dims(it, m, n, d); if (d < 3) d = 3; long off = G.r(0, d - 1), ord = G.r(1, d - off); VecF pts = points(d), q; Vec<MatF> E = rev(d, m, n), E0 = E, Eq; q.SetLength(ord); Eq.SetLength(ord); for (long k = 0; k < ord; k++) { q[k] = pts[off + k]; Eq[k] = E[off + k]; } VL s = rsh(it / 3, m), t = s; string ds = "offset=" + str(off) + " order=" + str(ord) + " points=" + str(pts) + " E=" + str(E) + " shift=" + str(s) + " p=" + str(zz_p::modulus()); note() << ds; MatX P = junkm(m, m); mbasis_rescomp(P, E, pts, t, off, ord); chk_int("mbasis_rescomp " + ds, P, Eq, q, s, 3, &t); E = E0; t = s; P = junkm(m, m); mbasis_resupdate(P, E, pts, t, off, ord); chk_int("mbasis_resupdate " + ds, P, Eq, q, s, 3, &t); E = E0; t = s; P = junkm(m, m); mbasis(P, E, pts, t, off, ord); chk_int("mbasis " + ds, P, Eq, q, s, 3, &t); E = E0; t = s; P = junkm(m, m); pmbasis(P, E, pts, t, off, ord); chk_int("pmbasis " + ds, P, Eq, q, s, 3, &t); count(ds); }
CASE("pmbasis matrix", 300) { ip(); long m, n, d; dims(it, m, n, d); MatX F = rinput(it, m, n, G.r(1, d + 3)); VecF pts = points(d); Vec<MatF> E = evs(F, pts); VL s = rsh(it / 3, m), t = s; string ds = desc("pmbasis", F, pts, s); note() << ds; MatX P = junkm(m, m); pmbasis(P, F, pts, t); chk_int(ds, P, E, pts, s, 3, &t); ds = desc("popov_pmbasis", F, pts, s); note().str(""); note() << ds; t = s; P = junkm(m, m); popov_pmbasis(P, F, pts, t); chk_int(ds, P, E, pts, s, 4, &t); count(ds); }
static zz_p bigorder(long d) { for (;;) { zz_p r = rnz(); zz_p q = r * r, x = to_zz_p(1); std::set<long> st; bool ok = true; for (long i = 0; i < d; i++) { if (st.count(rep(x))) { ok = false; break; } st.insert(rep(x)); x *= q; } if (ok) return r; } }
CASE("high order", 40) { prime(G.pick<long>({4, 6, 8, 100, 101})); long m = G.r(1, 4), n = G.r(1, 3), d = G.r(30, 110); if (it % 8 == 0) { m = 2; n = 1; d = G.r(130, 260); } MatX F = rinput(it, m, n, d); VecF pts = points(d); Vec<MatF> E = evs(F, pts), E0 = E; VL s = rsh(it / 3, m), t = s; string ds = desc("pmbasis", F, pts, s); note() << ds; MatX P; pmbasis(P, E, pts, t, 0, d); chk_int(ds, P, E0, pts, s, 3, &t); t = s; P = junkm(m, m); pmbasis(P, F, pts, t); chk_int(ds, P, E0, pts, s, 3, &t); t = s; P = junkm(m, m); popov_pmbasis(P, F, pts, t); chk_int(ds, P, E0, pts, s, 4, &t); count(ds); }
CASE("geometric", 300) { prime(G.pick<long>({4, 6, 8, 100, 101})); long m, n, d; dims(it, m, n, d); if (it % 10 == 0) d = G.r(30, 130); zz_p r = bigorder(d); MatX F = rinput(it, m, n, G.r(1, d)); if (mdeg(F) >= d) throw Skip(); VL s = rsh(it / 3, m), t = s; VecF pts = junkvF(d); string ds = "pmbasis_geometric r=" + str(r) + " " + desc("", F, VecF(), s) + " order=" + str(d); note() << ds; MatX P = junkm(m, m); pmbasis_geometric(P, F, r, d, t, pts); CHK(pts.length() == d, ds << " number of points"); zz_p q = r * r, x = to_zz_p(1); for (long k = 0; k < d; k++) { CHK(pts[k] == x, ds << " point " << k); x *= q; } Vec<MatF> E = evs(F, pts); chk_int(ds, P, E, pts, s, 3, &t); if (d > 2) { long off = G.r(0, d - 1), ord = G.r(1, d - off); Vec<MatF> E2 = rev(d, m, n), Eq; VecF qq; qq.SetLength(ord); Eq.SetLength(ord); for (long k = 0; k < ord; k++) { qq[k] = pts[off + k]; Eq[k] = E2[off + k]; } t = s; P = junkm(m, m); note() << " offset=" << off << " order=" << ord; pmbasis_geometric(P, E2, pts, r, t, off, ord); chk_int(ds + " offset", P, Eq, qq, s, 3, &t); } count(ds); }
CASE("is_interpolant_basis", 400) { prime(G.pick<long>({8, 9, 100})); long m = G.r(1, 4), n = G.r(1, 4), d = G.r(1, 6); VL s = rsh(it / 3, m), t = s; VecF pts = points(d); MatX F = rinput(it, m, n, d), P; Vec<MatF> E = evs(F, pts), E0 = E; mbasis(P, E, pts, t); int fm = G.r(1, 3), kind = it % 5; if (kind == 1) { long i = G.r(0, m - 1); for (long j = 0; j < m; j++) P[i][j] <<= 1; } if (kind == 2 && m > 1) std::swap(P[0], P[m - 1]); if (kind == 3) P[G.r(0, m - 1)][G.r(0, m - 1)] += rpoly(2); if (kind == 4) { VL z = s; E = E0; popov_mbasis(P, E, pts, z); fm = 4; } PolMatForm pf = fm == 4 ? POPOV : fm == 3 ? ORD_WEAK_POPOV : fm == 2 ? WEAK_POPOV : REDUCED; bool want = true; try { chk_int("", P, E0, pts, s, fm, 0); } catch (Fail &) { want = false; } note() << desc("verify", F, pts, s) << " P=" << str(P); CHK(is_interpolant_basis(P, F, pts, s, pf, false) == want, "verification answers " << !want << " form=" << fm << " kind=" << kind); CHK(is_interpolant_basis(P, E0, pts, s, pf, false) == want, "verification from evaluations answers " << !want << " form=" << fm << " kind=" << kind); count(str(P)); }
CASE("is_interpolant_basis_geometric", 300) { prime(G.pick<long>({4, 6, 8, 9, 100})); long m = G.r(1, 4), n = G.r(1, 4), d = G.r(1, 9); VL s = rsh(it / 3, m), t = s; zz_p r = bigorder(d); VecF pts; MatX F = rinput(it, m, n, G.r(1, d)), P; if (mdeg(F) >= d) throw Skip(); pmbasis_geometric(P, F, r, d, t, pts); Vec<MatF> E = evs(F, pts); int fm = G.r(1, 3), kind = it % 4; if (kind == 1) { long i = G.r(0, m - 1); for (long j = 0; j < m; j++) P[i][j] <<= 1; } if (kind == 2 && m > 1) std::swap(P[0], P[m - 1]); if (kind == 3) P[G.r(0, m - 1)][G.r(0, m - 1)] += rpoly(2); PolMatForm pf = fm == 3 ? ORD_WEAK_POPOV : fm == 2 ? WEAK_POPOV : REDUCED; bool want = true; try { chk_int("", P, E, pts, s, fm, 0); } catch (Fail &) { want = false; } note() << desc("verify geometric r=" + str(r), F, pts, s) << " P=" << str(P); CHK(is_interpolant_basis_geometric(P, F, r, d, s, pf, false) == want, "verification answers " << !want << " form=" << fm << " kind=" << kind); CHK(is_interpolant_basis_geometric(P, E, r, d, s, pf, false) == want, "verification from evaluations answers " << !want << " form=" << fm << " kind=" << kind); count(str(P)); }
