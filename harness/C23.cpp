// Numeric limits bound every representable value.
#include "sv.hpp"
#include <ieme/limits.hpp>
using namespace sv;
using namespace ieme;
template <class T> T anyv(T lo) { return rng<T>::sg ? in<T>((long)lo, rng<T>::full) : sizeof(T) == 4 ? in<T>((long)lo, rng<T>::full) : (T)sv_urange((unsigned long)lo, ~0UL); }
using std::numeric_limits;
// products of two components: 128 bits, unsigned for the widest unsigned representation
template <class T> using P = std::conditional_t<rng<T>::sg, W, unsigned __int128>;
template <class R, class Ops> void bounds()
{
  using F = fraction<R, Ops>;
  R n = anyv<R>(numeric_limits<R>::min()), d = anyv<R>(1);
  F hi = limits<F>::max(), lo = limits<F>::min();
  out(hi); out(lo);
  sv_assert(hi.den() > 0 && lo.den() > 0, 1);
  // n/d <= hi and n/d >= lo
  sv_assert((P<R>)n * hi.den() <= (P<R>)hi.num() * d, 2);
  sv_assert((P<R>)n * lo.den() >= (P<R>)lo.num() * d, 3);
  F shi = numeric_limits<F>::max(), slo = numeric_limits<F>::lowest(), smin = numeric_limits<F>::min();
  out(shi); out(slo); out(smin);
  sv_assert(shi.num() == hi.num() && shi.den() == hi.den(), 4);
  sv_assert(slo.num() == lo.num() && slo.den() == lo.den(), 5);
  sv_assert(smin.num() == lo.num() && smin.den() == lo.den(), 6);
  sv_done();
}
template <class R, class Ops> void least()
{
  using F = fraction<R, Ops>;
  R n = anyv<R>(1), d = anyv<R>(1);
  F e = limits<F>::smallest(), s = numeric_limits<F>::epsilon();
  out(e); out(s);
  sv_assert(e.num() > 0 && e.den() > 0, 1);
  sv_assert((P<R>)e.num() * d <= (P<R>)n * e.den(), 2);
  sv_assert(s.num() == e.num() && s.den() == e.den(), 3);
  sv_done();
}
template <class R, class Ops> void undef()
{
  using F = fraction<R, Ops>;
  R n = anyv<R>(numeric_limits<R>::min()), d = anyv<R>(numeric_limits<R>::min());
  F u = limits<F>::undefined(), q = numeric_limits<F>::quiet_NaN();
  out(u); out(q);
  sv_assert(u.den() == 0 && q.den() == 0, 1);
  sv_assert(is_undefined(u) && is_undefined(q), 2);
  // and no value is outside the alternative: a fraction is undefined exactly when it has no denominator
  sv_assert(is_undefined(F(n, d)) == (d == 0), 3);
  using L = numeric_limits<F>;
  sv_assert(L::is_specialized && !L::is_integer && L::is_exact && L::has_quiet_NaN && !L::has_infinity && L::is_bounded
            && L::is_signed == rng<R>::sg, 4);
  sv_done();
}
#define DEFS(P, R, RN) \
  extern "C" void H_bounds_##RN##_##P() { bounds<R, ops::P>(); } \
  extern "C" void H_least_##RN##_##P() { least<R, ops::P>(); } \
  extern "C" void H_undef_##RN##_##P() { undef<R, ops::P>(); }
SV_POLICIES(DEFS, int, i32)
DEFS(fast, long, i64) DEFS(safe_reduced_io, long, i64) DEFS(safe_reduced_io, unsigned, u32) DEFS(fast, unsigned, u32)
DEFS(safe_reduced_io, unsigned long, u64) DEFS(safe_reduced_io, long long, ll)
