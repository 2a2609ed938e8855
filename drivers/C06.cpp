#include "mat_lzz_pX_forms.h"
#include "forms.h"
using namespace PML;
CASE("row predicates", 3000) { anyprime(); long n = G.r(1, 4), m = G.r(1, 5); if (it % 50 == 0) n = 0; VL s = G.b(3) ? zs(m) : rshift(m, G.pick<long>({0, 1, 3, 8})); MatX a = rform(n, m, G.r(0, 4), s, G.r(0, 5)); note() << "a=" << str(a) << " shift=" << s; int f = o_form(a, s); count("f" + str(f) + str(n) + str(m) + str(s));
  CHK(is_row_reduced(a, s) == o_red(a, s), "is_row_reduced"); CHK(is_row_weak_popov(a, s) == o_wp(a, s), "is_row_weak_popov"); CHK(is_row_ordered_weak_popov(a, s) == o_owp(a, s), "is_row_ordered_weak_popov"); CHK(is_row_popov(a, s) == o_popov(a, s), "is_row_popov"); CHK(get_row_polmatform(a, s) == f, "get_row_polmatform expected " << f); for (int k = 0; k < 5; k++) CHK(is_row_polmatform((PolMatForm)k, a, s) == o_is(k, a, s), "is_row_polmatform " << k);
  VL z = zs(m); CHK(is_row_reduced(a) == o_red(a, z), "is_row_reduced(0)"); CHK(is_row_weak_popov(a) == o_wp(a, z), "is_row_weak_popov(0)"); CHK(is_row_ordered_weak_popov(a) == o_owp(a, z), "is_row_ordered_weak_popov(0)"); CHK(is_row_popov(a) == o_popov(a, z), "is_row_popov(0)"); CHK(get_row_polmatform(a) == o_form(a, z), "get_row_polmatform(0)"); for (int k = 0; k < 5; k++) CHK(is_row_polmatform((PolMatForm)k, a) == o_is(k, a, z), "is_row_polmatform(0) " << k); }
CASE("column predicates", 3000) { anyprime(); long n = G.r(1, 4), m = G.r(1, 5); VL s = G.b(3) ? zs(m) : rshift(m, G.pick<long>({0, 1, 3, 8})); MatX b = rform(n, m, G.r(0, 4), s, G.r(0, 5)), a = tr(b); note() << "a=" << str(a) << " shift=" << s; int f = o_form(b, s); count("f" + str(f) + str(n) + str(m) + str(s));
  CHK(is_col_reduced(a, s) == o_red(b, s), "is_col_reduced"); CHK(is_col_weak_popov(a, s) == o_wp(b, s), "is_col_weak_popov"); CHK(is_col_ordered_weak_popov(a, s) == o_owp(b, s), "is_col_ordered_weak_popov"); CHK(is_col_popov(a, s) == o_popov(b, s), "is_col_popov"); CHK(get_col_polmatform(a, s) == f, "get_col_polmatform expected " << f); for (int k = 0; k < 5; k++) CHK(is_col_polmatform((PolMatForm)k, a, s) == o_is(k, b, s), "is_col_polmatform " << k);
  VL z = zs(m); CHK(is_col_reduced(a) == o_red(b, z), "is_col_reduced(0)"); CHK(is_col_weak_popov(a) == o_wp(b, z), "is_col_weak_popov(0)"); CHK(is_col_ordered_weak_popov(a) == o_owp(b, z), "is_col_ordered_weak_popov(0)"); CHK(is_col_popov(a) == o_popov(b, z), "is_col_popov(0)"); CHK(get_col_polmatform(a) == o_form(b, z), "get_col_polmatform(0)"); for (int k = 0; k < 5; k++) CHK(is_col_polmatform((PolMatForm)k, a) == o_is(k, b, z), "is_col_polmatform(0) " << k); }
