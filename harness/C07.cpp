// Reduction, sign normalisation, reciprocal, is_reduced.  Raw fractions and fractions.
#include "sv.hpp"
#include <numeric>
using namespace sv;
using namespace ieme;
template <class R> W num_(raw_fraction<R> const& f) { return f.numerator; }
template <class R> W den_(raw_fraction<R> const& f) { return f.denominator; }
template <class R, class O> W num_(fraction<R, O> const& f) { return f.num(); }
template <class R, class O> W den_(fraction<R, O> const& f) { return f.den(); }
template <class F> void o(F const& f) { sv_out((long)num_(f)); sv_out((long)den_(f)); }
template <class F, class G> bool same(F const& f, G const& g) { return num_(f) == num_(g) && den_(f) == den_(g); }
template <class F, class R, int mode> void red()
{
  R a = xnum<R>(), b = xnum<R>();
  F x(a, b);
  F r = mode == 0 ? reduce(x) : mode == 1 ? reduce(x, reduce_mode::normalize_signs) : mode == 2 ? reduce_normalize_signs(x)
      : mode == 3 ? reduce(x, reduce_mode::ignore_signs) : reduce_ignore_signs(x);
  o(r);
  if (b == 0) sv_assert(num_(r) == 0 && den_(r) == 0, 1);
  else {
    sv_assert((wide<R>)num_(r) * b == (wide<R>)a * (wide<R>)den_(r), 2);
    sv_assert(den_(r) != 0, 3);
    sv_assert(std::gcd((R)num_(r), (R)den_(r)) == R(1), 4);
    if constexpr (mode <= 2) sv_assert(den_(r) > 0, 5);
    else {
      sv_assert((den_(r) < 0) == (b < 0), 6);
      sv_assert((num_(r) < 0) == (a < 0), 7);
    }
  }
  sv_done();
}
template <class F, class R> void idem(int mode)
{
  R a = xnum<R>(), b = xden<R>();
  F x(a, b);
  F r = mode == 0 ? reduce(x) : mode == 1 ? reduce_ignore_signs(x) : normalize_signs(x);
  F s = mode == 0 ? reduce(r) : mode == 1 ? reduce_ignore_signs(r) : normalize_signs(r);
  sv_assert(same(r, s), 1);
  sv_done();
}
template <class F, class R> void norm()
{
  R a = xnum<R>(), b = xden<R>();
  F x(a, b);
  F r = normalize_signs(x);
  o(r);
  sv_assert(den_(r) > 0, 1);
  sv_assert((wide<R>)num_(r) * b == (wide<R>)a * (wide<R>)den_(r), 2);
  sv_done();
}
template <class F, class R> void rec()
{
  R a = xnum<R>(), b = xden<R>();
  F x(a, b);
  F r = reciprocal(x);
  o(r);
  if (a == 0) sv_assert(den_(r) == 0, 1);
  else { sv_assert(den_(r) != 0, 2); sv_assert((wide<R>)num_(r) * a == (wide<R>)b * (wide<R>)den_(r), 3); }
  sv_done();
}
template <class F, class R> void isred()
{
  R a = xnum<R>(), b = xden<R>();
  F x(a, b);
  sv_assert(is_reduced(x) == same(reduce(x), x), 1);
  sv_assert(is_reduced_ignore_signs(x) == same(reduce_ignore_signs(x), x), 2);
  sv_done();
}
#define DEFS(F, R, RN) \
  extern "C" void H_reduce_##RN() { red<F, R, 0>(); } \
  extern "C" void H_reduce_mode_norm_##RN() { red<F, R, 1>(); } \
  extern "C" void H_reduce_norm_##RN() { red<F, R, 2>(); } \
  extern "C" void H_reduce_mode_ign_##RN() { red<F, R, 3>(); } \
  extern "C" void H_reduce_ign_##RN() { red<F, R, 4>(); } \
  extern "C" void H_idem_##RN() { idem<F, R>(0); } \
  extern "C" void H_idem_ign_##RN() { idem<F, R>(1); } \
  extern "C" void H_idem_sgn_##RN() { idem<F, R>(2); } \
  extern "C" void H_rec_##RN() { rec<F, R>(); } \
  extern "C" void H_isred_##RN() { isred<F, R>(); } \
  extern "C" void H_norm_##RN() { norm<F, R>(); }
#define C ,
DEFS(raw_fraction<int>, int, raw_i32)
DEFS(raw_fraction<long>, long, raw_i64)
DEFS(raw_fraction<unsigned>, unsigned, raw_u32)
DEFS(raw_fraction<unsigned long>, unsigned long, raw_u64)
DEFS(fraction<unsigned long C ops::fast>, unsigned long, u64_fast)
DEFS(fraction<int>, int, i32)
DEFS(fraction<long>, long, i64)
DEFS(fraction<int C ops::fast>, int, i32_fast)
