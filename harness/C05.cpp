// Undefined fractions behave as quiet NaNs.
#include "sv.hpp"
using namespace sv;
using namespace ieme;
// WHICH: 0 left operand undefined, 1 right operand undefined (the other is arbitrary, undefined included)
template <class R, class Ops, bool LF, bool RF, int WHICH, bool WIDE = false> void arith()
{
  R a = operand_num<R, WIDE>(), c = operand_num<R, WIDE>();
  R b = !LF ? R(1) : WHICH == 0 ? R(0) : operand_num<R, WIDE>(), d = !RF ? R(1) : WHICH == 1 ? R(0) : operand_num<R, WIDE>();
  if constexpr (WIDE) sv_assume(fits<R>((W)a * d) && fits<R>((W)c * b) && fits<R>((W)b * d) && fits<R>((W)a * c) && fits<R>((W)a * d + (W)c * b) && (!rng<R>::sg || fits<R>((W)a * d - (W)c * b)));
  auto x = operand<LF, R, Ops>(a, b);
  auto y = operand<RF, R, Ops>(c, d);
  auto p = x * y, q = x / y, m = x % y;
  out(p); out(q); out(m);
  sv_assert(p.den() == 0, 1);
  sv_assert(q.den() == 0, 2);
  sv_assert(m.den() == 0, 3);
  auto s = x + y;
  out(s);
  sv_assert(s.den() == 0, 4);
  if constexpr (rng<R>::sg) {
    auto t = x - y;
    out(t);
    sv_assert(t.den() == 0, 5);
  } else {
    auto t = x - y;                       // unsigned differences may wrap, the result is undefined all the same
    sv_assert(t.den() == 0, 5);
  }
  sv_done();
}
template <class R, class Ops, bool LF, bool RF, int WHICH, bool WIDE = false> void cmp()
{
  R a = operand_num<R, WIDE>(), c = operand_num<R, WIDE>();
  R b = !LF ? R(1) : WHICH == 0 ? R(0) : operand_num<R, WIDE>(), d = !RF ? R(1) : WHICH == 1 ? R(0) : operand_num<R, WIDE>();
  if constexpr (WIDE) sv_assume(fits<R>((W)a * d) && fits<R>((W)c * b) && fits<R>((W)b * d) && fits<R>((W)a * c) && fits<R>((W)a * d + (W)c * b) && (!rng<R>::sg || fits<R>((W)a * d - (W)c * b)));
  auto x = operand<LF, R, Ops>(a, b);
  auto y = operand<RF, R, Ops>(c, d);
  sv_assert(!(x == y), 1);
  sv_assert(x != y, 2);
  sv_assert(!(x < y), 3);
  sv_assert(!(x <= y), 4);
  sv_assert(!(x > y), 5);
  sv_assert(!(x >= y), 6);
  sv_done();
}
template <class R, class Ops, class Ops2> void unary()
{
  R a = fnum<R>();
  auto x = fr<Ops>(a, R(0));
  sv_assert((-x).den() == 0, 1);
  sv_assert((+x).den() == 0, 2);
  sv_assert(reduce(x).den() == 0, 3);
  sv_assert(reduce(x, reduce_mode::ignore_signs).den() == 0, 4);
  sv_assert(reduce_normalize_signs(x).den() == 0, 5);
  sv_assert(reduce_ignore_signs(x).den() == 0, 6);
  sv_assert(normalize_signs(x).den() == 0, 7);
  sv_assert(fraction<R, Ops2>(x).den() == 0, 8);
  sv_assert(fraction<long, Ops>(x).den() == 0, 9);
  sv_assert(is_undefined(x) && !is_defined(x), 10);
  sv_done();
}
// compound assignment keeps the undefined value
template <class R, class Ops> void compound()
{
  R a = num<R>(), c = num<R>(), d = num<R>();
  auto y = fr<Ops>(c, d);
  auto x = fr<Ops>(a, R(0)); x += y; sv_assert(x.den() == 0, 1);
  x = fr<Ops>(a, R(0)); x *= y; sv_assert(x.den() == 0, 2);
  x = fr<Ops>(a, R(0)); x /= y; sv_assert(x.den() == 0, 3);
  x = fr<Ops>(a, R(0)); x %= y; sv_assert(x.den() == 0, 4);
  x = fr<Ops>(a, R(0)); x -= y; sv_assert(x.den() == 0, 5);
  x = fr<Ops>(a, R(0)); y += x; sv_assert(y.den() == 0, 6);
  sv_done();
}
#define DEFS(P, R, RN) \
  extern "C" void H_ff0_##RN##_##P() { arith<R, ops::P, true, true, 0>(); } \
  extern "C" void H_ff1_##RN##_##P() { arith<R, ops::P, true, true, 1>(); } \
  extern "C" void H_fi_##RN##_##P() { arith<R, ops::P, true, false, 0>(); } \
  extern "C" void H_if_##RN##_##P() { arith<R, ops::P, false, true, 1>(); } \
  extern "C" void H_cff0_##RN##_##P() { cmp<R, ops::P, true, true, 0>(); } \
  extern "C" void H_cff1_##RN##_##P() { cmp<R, ops::P, true, true, 1>(); } \
  extern "C" void H_cfi_##RN##_##P() { cmp<R, ops::P, true, false, 0>(); } \
  extern "C" void H_cif_##RN##_##P() { cmp<R, ops::P, false, true, 1>(); } \
  extern "C" void H_un_##RN##_##P() { unary<R, ops::P, ops::fast_reduced_i>(); } \
  extern "C" void H_ca_##RN##_##P() { compound<R, ops::P>(); }
SV_POLICIES(DEFS, int, i32)
SV_POLICIES(DEFS, long, i64)
#ifdef SV_THOROUGH
SV_POLICIES(DEFS, unsigned, u32)
#endif
// the whole range of the representation, as far as the products of components fit
#define DEFW(P, R, RN) \
  extern "C" void H_wff0_##RN##_##P() { arith<R, ops::P, true, true, 0, true>(); } \
  extern "C" void H_wff1_##RN##_##P() { arith<R, ops::P, true, true, 1, true>(); } \
  extern "C" void H_wfi_##RN##_##P() { arith<R, ops::P, true, false, 0, true>(); } \
  extern "C" void H_wif_##RN##_##P() { arith<R, ops::P, false, true, 1, true>(); } \
  extern "C" void H_wcff0_##RN##_##P() { cmp<R, ops::P, true, true, 0, true>(); } \
  extern "C" void H_wcff1_##RN##_##P() { cmp<R, ops::P, true, true, 1, true>(); } \
  extern "C" void H_wcfi_##RN##_##P() { cmp<R, ops::P, true, false, 0, true>(); } \
  extern "C" void H_wcif_##RN##_##P() { cmp<R, ops::P, false, true, 1, true>(); }
SV_POLICIES(DEFW, int, i32)
SV_POLICIES(DEFW, long, i64)
