// x % y == x - y*trunc(x/y)
#include "sv.hpp"
using namespace sv;
using namespace ieme;
template <class R, class Ops, bool LF, bool RF, bool WIDE = false> void mod()
{
  R a = operand_num<R, WIDE>(), c = operand_num<R, WIDE>(), b = LF ? operand_num<R, WIDE>() : R(1), d = RF ? operand_num<R, WIDE>() : R(1);
  if constexpr (WIDE) sv_assume(fits<R>((W)a * d) && fits<R>((W)c * b) && fits<R>((W)b * d));
  auto x = operand<LF, R, Ops>(a, b);
  auto y = operand<RF, R, Ops>(c, d);
  auto r = x % y;
  out(r);
  if (b == 0 || d == 0 || c == 0) sv_assert(r.den() == 0, 1);
  else {
    W p = (W)a * d, q = (W)c * b;           // x/y = p/q
    W rem = p % q;                          // p - q*trunc(p/q)
    sv_assert(r.den() != 0, 2);
    sv_assert((W)r.num() * ((W)b * d) == rem * (W)r.den(), 3);
  }
  sv_done();
}
#define DEFS(P, R, RN) \
  extern "C" void H_ff_##RN##_##P() { mod<R, ops::P, true, true>(); } \
  extern "C" void H_fi_##RN##_##P() { mod<R, ops::P, true, false>(); } \
  extern "C" void H_if_##RN##_##P() { mod<R, ops::P, false, true>(); }
SV_POLICIES(DEFS, int, i32)
SV_POLICIES(DEFS, long, i64)
SV_POLICIES(DEFS, unsigned, u32)
DEFS(fast, unsigned long, u64) DEFS(safe_reduced_io, unsigned long, u64)
// the whole range of the representation, as far as the cross products fit
#define DEFW(P, R, RN, AS) \
  extern "C" void AS##_wff_##RN##_##P() { mod<R, ops::P, true, true, true>(); } \
  extern "C" void H_wfi_##RN##_##P() { mod<R, ops::P, true, false, true>(); } \
  extern "C" void H_wif_##RN##_##P() { mod<R, ops::P, false, true, true>(); }
SV_POLICIES(DEFW, int, i32, H)
SV_POLICIES(DEFW, unsigned, u32, H)
DEFW(fast, unsigned long, u64, H)
DEFW(fast, long, i64, H) DEFW(fast_reduced_i, long, i64, H) DEFW(fast_reduced_o, long, i64, H) DEFW(fast_reduced_io, long, i64, H)
DEFW(safe, long, i64, H) DEFW(safe_reduced_o, long, i64, H) DEFW(safe_reduced_i, long, i64, T) DEFW(safe_reduced_io, long, i64, T)
