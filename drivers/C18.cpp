#include "lzz_pX_CRT.h"
#include "common.h"
using namespace PML;
static bool sqfree(const zz_pX &f) { zz_pX d = diff(f); return deg(GCD(f, d)) == 0; }
CASE("CRT", 900) { prime(G.pick<long>({2, 3, 4, 6, 8, 100, 101})); long n = G.r(1, it % 8 == 0 ? 20 : 6); long D = it % 5 == 0 ? 20 : it % 7 == 0 ? 1 : 4; VecX q; zz_pX M; M = 1; for (long i = 0; i < n; i++) { bool ok = false; for (int t = 0; t < 60 && !ok; t++) { zz_pX f = rpoly(G.r(1, D) + 1); if (it % 3 == 0 && f != 0) MakeMonic(f); if (deg(f) < 1 || !sqfree(f) || deg(GCD(f, M)) != 0) continue; q.append(f); M = M * f; ok = true; } if (!ok) break; } if (q.length() == 0) throw Skip(); n = q.length(); string s = "n=" + str(n) + " total " + str(deg(M)) + " p=" + str(zz_p::modulus()); note() << s << " q=" << str(q); zz_pX_CRT C(q); CHK(C.length() == n, "length"); zz_pX P = junkp(); C.master(P); EQ(P, M, "master " << s); for (long i = 0; i < n; i++) { C.moduli(P, i); EQ(P, zz_pX(q[i]), "moduli"); }
  for (int k = 0; k < 4; k++) { zz_pX f = k == 0 ? dense(deg(M)) : k == 1 ? rpolylen(deg(M)) : k == 2 ? rpoly(deg(M) + G.r(0, 3)) : rpoly(G.r(0, 3 * deg(M) + 5)); VecX v = junkv(n), w; w.SetLength(n); for (long i = 0; i < n; i++) w[i] = f % q[i]; C.multimod(v, f); EQ(v, w, "multimod " << s); zz_pX g = junkp(); C.combine(g, v); EQ(g, zz_pX(f % M), "combine " << s); }
  VecX v; v.SetLength(n); for (long i = 0; i < n; i++) v[i] = G.b(3) ? zz_pX() : rpolylen(deg(q[i])); zz_pX g; C.combine(g, v); CHK(okp(g) && deg(g) < deg(M), "combine degree " << s); for (long i = 0; i < n; i++) EQ(zz_pX(g % q[i]), zz_pX(v[i]), "combine remainder " << s); count(s); }
