// Classification queries.
#include "sv.hpp"
using namespace sv;
using namespace ieme;
template <class F, class R> void defd()
{
  R a = xnum<R>(), b = xden<R>();
  F x(a, b);
  W s = b < 0 ? -(W)a : (W)a;      // sign of the value
  sv_assert(is_defined(x), 1);
  sv_assert(!is_undefined(x), 2);
  sv_assert(is_positive(x) == (s > 0), 3);
  sv_assert(is_non_negative(x) == (s >= 0), 4);
  sv_assert(is_zero(x) == (s == 0), 5);
  sv_assert(is_non_positive(x) == (s <= 0), 6);
  sv_assert(is_negative(x) == (s < 0), 7);
  sv_assert(is_integer(x) == ((W)a % (W)b == 0), 8);
  sv_assert(is_unit_fraction(x) == (a != 0 && (W)b % (W)a == 0), 9);
  sv_assert(is_proper(x) == (wabs(a) < wabs(b)), 10);
  sv_assert(is_improper(x) == !(wabs(a) < wabs(b)), 11);
  sv_done();
}
template <class F, class R> void undef()
{
  R a = xnum<R>();
  F x(a, R(0));
  sv_assert(!is_defined(x), 1);
  sv_assert(is_undefined(x), 2);
  sv_assert(!is_positive(x), 3);
  sv_assert(!is_non_negative(x), 4);
  sv_assert(!is_zero(x), 5);
  sv_assert(!is_non_positive(x), 6);
  sv_assert(!is_negative(x), 7);
  sv_assert(!is_integer(x), 8);
  sv_assert(!is_unit_fraction(x), 9);
  sv_assert(!is_reduced(x), 10);
  sv_assert(!is_reduced_ignore_signs(x), 11);
  sv_done();
}
template <class F, class G, class R> void ident()
{
  R a = xnum<R>(), b = xnum<R>(), c = xnum<R>(), d = xnum<R>();
  F x(a, b);
  G y(c, d);
  bool same = a == c && b == d;
  sv_assert(are_identical(x, y) == same, 1);
  sv_assert(are_different(x, y) == !same, 2);
  sv_done();
}
#define DEFS(F, G, R, RN) \
  extern "C" void H_def_##RN() { defd<F, R>(); } \
  extern "C" void H_undef_##RN() { undef<F, R>(); } \
  extern "C" void H_ident_##RN() { ident<F, G, R>(); }
#define C ,
DEFS(raw_fraction<int>, raw_fraction<int>, int, raw_i32)
DEFS(raw_fraction<long>, raw_fraction<long>, long, raw_i64)
DEFS(raw_fraction<unsigned>, raw_fraction<unsigned>, unsigned, raw_u32)
DEFS(raw_fraction<unsigned long>, raw_fraction<unsigned long>, unsigned long, raw_u64)
DEFS(fraction<unsigned long>, fraction<unsigned long>, unsigned long, u64)
DEFS(fraction<int>, fraction<int C ops::safe>, int, i32)
DEFS(fraction<long>, fraction<long>, long, i64)
DEFS(fraction<unsigned>, fraction<unsigned>, unsigned, u32)
DEFS(fraction<int C ops::fast>, fraction<int C ops::fast_reduced_o>, int, i32_fast)
// the signs need no negation: they hold for the most negative component too
template <class F, class R> void lowest()
{
  constexpr long MIN = sizeof(R) == 4 ? -2147483648L : -9223372036854775807L - 1;
  R a = in<R>(MIN, rng<R>::full), b = in<R>(MIN, rng<R>::full);
  sv_assume(b != 0);
  F x(a, b);
  bool pos = (a > 0) == (b > 0) && a != 0;
  sv_assert(is_defined(x) && !is_undefined(x), 1);
  sv_assert(is_positive(x) == pos, 2);
  sv_assert(is_non_negative(x) == (pos || a == 0), 3);
  sv_assert(is_zero(x) == (a == 0), 4);
  sv_assert(is_non_positive(x) == !pos, 5);
  sv_assert(is_negative(x) == (!pos && a != 0), 6);
  sv_done();
}
extern "C" void H_min_i32() { lowest<fraction<int>, int>(); }
extern "C" void H_min_i64() { lowest<fraction<long>, long>(); }
extern "C" void H_min_raw_i32() { lowest<raw_fraction<int>, int>(); }
extern "C" void H_min_fast_i32() { lowest<fraction<int, ops::fast>, int>(); }
