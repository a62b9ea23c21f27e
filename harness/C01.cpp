#include "sv.hpp"
using namespace sv;
using namespace ieme;
// For unsigned representations a result below zero is not representable: excluded from the domain.
template <class R, class Ops, int OP, bool WIDE = false> void bin()
{
  R a = operand_num<R, WIDE>(), b = operand_den<R, WIDE>(), c = operand_num<R, WIDE>(), d = operand_den<R, WIDE>();
  auto x = fr<Ops>(a, b), y = fr<Ops>(c, d);
  W en, ed = (W)b * d;
  if constexpr (OP == 0) en = (W)a * d + (W)c * b;
  else if constexpr (OP == 1) en = (W)a * d - (W)c * b;
  else if constexpr (OP == 2) en = (W)a * c;
  else { en = (W)a * d; ed = (W)b * c; }
  if constexpr (OP == 1 && !rng<R>::sg) sv_assume(en >= 0);
  if constexpr (WIDE) {
    if constexpr (OP < 2) sv_assume(fits<R>((W)a * d) && fits<R>((W)c * b));
    sv_assume(fits<R>(en) && fits<R>(ed));
  }
  auto r = [&] { if constexpr (OP == 0) return x + y; else if constexpr (OP == 1) return x - y;
                 else if constexpr (OP == 2) return x * y; else return x / y; }();
  sv_out((long)r.num()); sv_out((long)r.den());
  if (OP == 3 && c == 0) sv_assert(r.den() == 0, 1);
  else {
    sv_assert(r.den() != 0, 2);
    sv_assert((W)r.num() * ed == en * (W)r.den(), 3);
  }
  sv_done();
}
template <class R, class Ops> void negate()
{
  R a = num<R>(), b = den<R>();
  auto r = -fr<Ops>(a, b);
  sv_out((long)r.num()); sv_out((long)r.den());
  sv_assert(r.den() != 0, 1);
  sv_assert((W)r.num() * b == -(W)a * (W)r.den(), 2);
  sv_done();
}
#define DEFS(P, R, RN) \
  extern "C" void H_plus_##RN##_##P() { bin<R, ops::P, 0>(); } \
  extern "C" void H_minus_##RN##_##P() { bin<R, ops::P, 1>(); } \
  extern "C" void H_times_##RN##_##P() { bin<R, ops::P, 2>(); } \
  extern "C" void H_over_##RN##_##P() { bin<R, ops::P, 3>(); }
#define DEFN(P, R, RN) extern "C" void H_neg_##RN##_##P() { negate<R, ops::P>(); }
SV_POLICIES(DEFS, int, i32)
SV_POLICIES(DEFS, long, i64)
SV_POLICIES(DEFS, unsigned, u32)
DEFS(fast, unsigned long, u64) DEFS(safe_reduced_io, unsigned long, u64)
SV_POLICIES(DEFN, int, i32)
SV_POLICIES(DEFN, long, i64)
// the whole range of the representation, as far as the cross products fit
#define DEFW(P, R, RN, AS) \
  extern "C" void AS##_wplus_##RN##_##P() { bin<R, ops::P, 0, true>(); } \
  extern "C" void AS##_wminus_##RN##_##P() { bin<R, ops::P, 1, true>(); } \
  extern "C" void H_wtimes_##RN##_##P() { bin<R, ops::P, 2, true>(); } \
  extern "C" void H_wover_##RN##_##P() { bin<R, ops::P, 3, true>(); }
#define DEFW2(R, RN) DEFW(fast, R, RN, H) DEFW(safe, R, RN, H) DEFW(fast_reduced_o, R, RN, H) DEFW(fast_reduced_i, R, RN, H) \
  DEFW(fast_reduced_io, R, RN, T) DEFW(safe_reduced_i, R, RN, T) DEFW(safe_reduced_o, R, RN, T) DEFW(safe_reduced_io, R, RN, T)
DEFW2(int, i32)
DEFW2(long, i64)
SV_POLICIES(DEFW, unsigned, u32, H)
DEFW(fast, unsigned long, u64, H)
