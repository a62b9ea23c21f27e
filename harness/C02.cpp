// Arithmetic between a fraction and an integer, both orders.
#include "sv.hpp"
using namespace sv;
using namespace ieme;
template <class R, class Ops, int OP, bool LF, bool RF, bool WIDE = false> void bin()
{
  R a = operand_num<R, WIDE>(), c = operand_num<R, WIDE>(), b = LF ? operand_den<R, WIDE>() : R(1), d = RF ? operand_den<R, WIDE>() : R(1);
  auto x = operand<LF, R, Ops>(a, b);
  auto y = operand<RF, R, Ops>(c, d);
  W en, ed = (W)b * d;
  if constexpr (OP == 0) en = (W)a * d + (W)c * b;
  else if constexpr (OP == 1) en = (W)a * d - (W)c * b;
  else if constexpr (OP == 2) en = (W)a * c;
  else { en = (W)a * d; ed = (W)b * c; }
  if constexpr (OP == 1 && !rng<R>::sg) sv_assume(en >= 0);
  if constexpr (WIDE) {
    if constexpr (OP < 2) sv_assume(fits<R>((W)a * d) && fits<R>((W)c * b));
    sv_assume(fits<R>(en) && fits<R>(ed));
  }
  auto r = [&] { if constexpr (OP == 0) return x + y; else if constexpr (OP == 1) return x - y;
                 else if constexpr (OP == 2) return x * y; else return x / y; }();
  out(r);
  if (OP == 3 && c == 0) sv_assert(r.den() == 0, 1);
  else {
    sv_assert(r.den() != 0, 2);
    sv_assert((W)r.num() * ed == en * (W)r.den(), 3);
  }
  sv_done();
}
#define K(P, R, RN, OP, ON) \
  extern "C" void H_##ON##_fi_##RN##_##P() { bin<R, ops::P, OP, true, false>(); } \
  extern "C" void H_##ON##_if_##RN##_##P() { bin<R, ops::P, OP, false, true>(); }
#define DEFS(P, R, RN) K(P, R, RN, 0, plus) K(P, R, RN, 1, minus) K(P, R, RN, 2, times) K(P, R, RN, 3, over)
SV_POLICIES(DEFS, int, i32)
SV_POLICIES(DEFS, long, i64)
SV_POLICIES(DEFS, unsigned, u32)
DEFS(fast, unsigned long, u64) DEFS(safe_reduced_io, unsigned long, u64)
// the whole range of the representation, as far as the cross products fit
#define KW(P, R, RN, OP, ON) \
  extern "C" void H_w##ON##_fi_##RN##_##P() { bin<R, ops::P, OP, true, false, true>(); } \
  extern "C" void H_w##ON##_if_##RN##_##P() { bin<R, ops::P, OP, false, true, true>(); }
#define DEFW(P, R, RN) KW(P, R, RN, 0, plus) KW(P, R, RN, 1, minus) KW(P, R, RN, 2, times) KW(P, R, RN, 3, over)
SV_POLICIES(DEFW, int, i32)
SV_POLICIES(DEFW, long, i64)
SV_POLICIES(DEFW, unsigned, u32)
DEFW(fast, unsigned long, u64)
