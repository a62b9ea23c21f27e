// trunc / ceil / floor / round, by name and by mode.
#include "sv.hpp"
using namespace sv;
using namespace ieme;
// FN 0 trunc 1 ceil 2 floor 3 round; MODE: 0 named function, 1 to_whole(mode), 2 to_whole default
template <class R, class Ops, int FN, int MODE, int RANGE> void whole()
{
  // RANGE 0: half the width, 1: the full range, 2: a quarter of it
  R a = RANGE ? xnum<R>() : num<R>(), b = RANGE ? xden<R>() : den<R>();
  if constexpr (RANGE == 2) sv_assume(wabs(a) <= rng<R>::full / 4 && wabs(b) <= rng<R>::full / 4);
  auto x = fr<Ops>(a, b);
  R r;
  if constexpr (MODE == 2) r = to_whole(x);
  else if constexpr (MODE == 1) r = to_whole(x, FN == 0 ? round_mode::trunc : FN == 1 ? round_mode::ceil : FN == 2 ? round_mode::floor : round_mode::round);
  else if constexpr (FN == 0) r = trunc(x);
  else if constexpr (FN == 1) r = ceil(x);
  else if constexpr (FN == 2) r = floor(x);
  else r = round(x);
  sv_out((long)r);
  W D = b < 0 ? -(W)b : (W)b, N = b < 0 ? -(W)a : (W)a, w = (W)r * D;
  if constexpr (FN == 0) {
    if (N >= 0) sv_assert(w >= 0 && w <= N && N < w + D, 1);
    else sv_assert(w <= 0 && w >= N && N > w - D, 2);
  }
  else if constexpr (FN == 1) sv_assert(w >= N && w - D < N, 3);
  else if constexpr (FN == 2) sv_assert(w <= N && N < w + D, 4);
  else sv_assert(2 * (w - N) <= D && 2 * (N - w) <= D, 5);
  sv_done();
}
#define DEFS(P, R, RN) \
  extern "C" void H_trunc_##RN##_##P() { whole<R, ops::P, 0, 0, 1>(); } \
  extern "C" void H_ceil_##RN##_##P() { whole<R, ops::P, 1, 0, 1>(); } \
  extern "C" void H_floor_##RN##_##P() { whole<R, ops::P, 2, 0, 1>(); } \
  extern "C" void H_round_##RN##_##P() { whole<R, ops::P, 3, 0, 0>(); } \
  extern "C" void H_mtrunc_##RN##_##P() { whole<R, ops::P, 0, 1, 1>(); } \
  extern "C" void H_mceil_##RN##_##P() { whole<R, ops::P, 1, 1, 1>(); } \
  extern "C" void H_mfloor_##RN##_##P() { whole<R, ops::P, 2, 1, 1>(); } \
  extern "C" void H_mround_##RN##_##P() { whole<R, ops::P, 3, 1, 0>(); } \
  extern "C" void H_dround_##RN##_##P() { whole<R, ops::P, 3, 2, 0>(); }
SV_POLICIES(DEFS, int, i32)
SV_POLICIES(DEFS, long, i64)
DEFS(safe_reduced_io, unsigned, u32)
DEFS(fast, unsigned, u32)
DEFS(safe_reduced_io, unsigned long, u64)
DEFS(fast, unsigned long, u64)
#define DEFW(P, R, RN) \
  extern "C" void H_wround_##RN##_##P() { whole<R, ops::P, 3, 0, 2>(); } \
  extern "C" void H_wmround_##RN##_##P() { whole<R, ops::P, 3, 1, 2>(); } \
  extern "C" void H_wdround_##RN##_##P() { whole<R, ops::P, 3, 2, 2>(); }
SV_POLICIES(DEFW, int, i32)
SV_POLICIES(DEFW, long, i64)
SV_POLICIES(DEFW, unsigned, u32)
DEFW(fast, unsigned long, u64) DEFW(safe_reduced_io, unsigned long, u64)
