// Redenomination.
#include "sv.hpp"
using namespace sv;
using namespace ieme;
template <class R, class Ops, int FN, int MODE, bool WIDE = false> void red()
{
  R a = operand_num<R, WIDE>(), b = operand_den<R, WIDE>(), k = operand_den<R, WIDE>();
  if constexpr (WIDE) sv_assume(wabs((W)a * k) <= rng<R>::full / 4 && wabs(b) <= rng<R>::full / 4);
  auto x = fr<Ops>(a, b);
  fraction<R, Ops> r;
  if constexpr (MODE == 2) r = redenominate(x, k);
  else if constexpr (MODE == 1) r = redenominate(x, k, FN == 0 ? round_mode::trunc : FN == 1 ? round_mode::ceil : FN == 2 ? round_mode::floor : round_mode::round);
  else if constexpr (FN == 0) r = trunc_redenominate(x, k);
  else if constexpr (FN == 1) r = ceil_redenominate(x, k);
  else if constexpr (FN == 2) r = floor_redenominate(x, k);
  else r = round_redenominate(x, k);
  out(r);
  sv_assert(r.den() == k, 1);
  // value = N/D with D > 0; result = M/K with K = |k|; compare M*D with N*K
  W D = b < 0 ? -(W)b : (W)b, N = b < 0 ? -(W)a : (W)a, Kk = k < 0 ? -(W)k : (W)k;
  W M = k < 0 ? -(W)r.num() : (W)r.num();
  W l = M * D, e = N * Kk;
  if constexpr (FN == 0) {
    if (N >= 0) sv_assert(l >= 0 && l <= e && e < l + D, 2);
    else sv_assert(l <= 0 && l >= e && e > l - D, 3);
  }
  else if constexpr (FN == 1) sv_assert(l >= e && l - D < e, 4);
  else if constexpr (FN == 2) sv_assert(l <= e && e < l + D, 5);
  else sv_assert(2 * (l - e) <= D && 2 * (e - l) <= D, 6);
  sv_done();
}
#define DEFS(P, R, RN) \
  extern "C" void H_trunc_##RN##_##P() { red<R, ops::P, 0, 0>(); } \
  extern "C" void H_ceil_##RN##_##P() { red<R, ops::P, 1, 0>(); } \
  extern "C" void H_floor_##RN##_##P() { red<R, ops::P, 2, 0>(); } \
  extern "C" void H_round_##RN##_##P() { red<R, ops::P, 3, 0>(); } \
  extern "C" void H_mtrunc_##RN##_##P() { red<R, ops::P, 0, 1>(); } \
  extern "C" void H_mceil_##RN##_##P() { red<R, ops::P, 1, 1>(); } \
  extern "C" void H_mfloor_##RN##_##P() { red<R, ops::P, 2, 1>(); } \
  extern "C" void H_mround_##RN##_##P() { red<R, ops::P, 3, 1>(); } \
  extern "C" void H_dround_##RN##_##P() { red<R, ops::P, 3, 2>(); }
SV_POLICIES(DEFS, int, i32)
SV_POLICIES(DEFS, long, i64)
DEFS(fast, unsigned, u32) DEFS(safe_reduced_io, unsigned, u32) DEFS(fast, unsigned long, u64)
// the whole range, as far as the rescaled fraction stays within a quarter of it
#define DEFW(P, R, RN, AS) \
  extern "C" void AS##_wtrunc_##RN##_##P() { red<R, ops::P, 0, 0, true>(); } \
  extern "C" void AS##_wceil_##RN##_##P() { red<R, ops::P, 1, 0, true>(); } \
  extern "C" void AS##_wfloor_##RN##_##P() { red<R, ops::P, 2, 0, true>(); } \
  extern "C" void AS##_wround_##RN##_##P() { red<R, ops::P, 3, 0, true>(); } \
  extern "C" void AS##_wdround_##RN##_##P() { red<R, ops::P, 3, 2, true>(); }
SV_POLICIES(DEFW, int, i32, T)
DEFW(fast, long, i64, H) DEFW(fast_reduced_o, long, i64, H) DEFW(safe, long, i64, H) DEFW(safe_reduced_io, long, i64, H)
DEFW(fast_reduced_i, long, i64, T) DEFW(fast_reduced_io, long, i64, T) DEFW(safe_reduced_i, long, i64, T) DEFW(safe_reduced_o, long, i64, T)
