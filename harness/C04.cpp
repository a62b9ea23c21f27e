// Comparisons are the order of the rational numbers.
#include "sv.hpp"
using namespace sv;
using namespace ieme;
template <class R, class Ops, bool LF, bool RF, bool WIDE = false> void cmp()
{
  R a = operand_num<R, WIDE>(), c = operand_num<R, WIDE>(), b = LF ? operand_den<R, WIDE>() : R(1), d = RF ? operand_den<R, WIDE>() : R(1);
  if constexpr (WIDE) sv_assume(fits<R>((W)a * d) && fits<R>((W)c * b) && fits<R>((W)b * d));
  auto x = operand<LF, R, Ops>(a, b);
  auto y = operand<RF, R, Ops>(c, d);
  W l = (W)a * d, r = (W)c * b;
  if ((b < 0) != (d < 0)) { l = -l; r = -r; }     // multiply by |b*d|
  bool lt = x < y, le = x <= y, gt = x > y, ge = x >= y, eq = x == y, ne = x != y;
  sv_out(lt + 2 * le + 4 * gt + 8 * ge + 16 * eq + 32 * ne);
  sv_assert(lt == (l < r), 1);
  sv_assert(le == (l <= r), 2);
  sv_assert(gt == (l > r), 3);
  sv_assert(ge == (l >= r), 4);
  sv_assert(eq == (l == r), 5);
  sv_assert(ne == (l != r), 6);
  sv_done();
}
#define DEFS(P, R, RN) \
  extern "C" void H_ff_##RN##_##P() { cmp<R, ops::P, true, true>(); } \
  extern "C" void H_fi_##RN##_##P() { cmp<R, ops::P, true, false>(); } \
  extern "C" void H_if_##RN##_##P() { cmp<R, ops::P, false, true>(); }
SV_POLICIES(DEFS, int, i32)
SV_POLICIES(DEFS, long, i64)
SV_POLICIES(DEFS, unsigned, u32)
DEFS(fast, unsigned long, u64) DEFS(safe_reduced_io, unsigned long, u64)
// the whole range of the representation, as far as the cross products fit
#define DEFW(P, R, RN) \
  extern "C" void H_wff_##RN##_##P() { cmp<R, ops::P, true, true, true>(); } \
  extern "C" void H_wfi_##RN##_##P() { cmp<R, ops::P, true, false, true>(); } \
  extern "C" void H_wif_##RN##_##P() { cmp<R, ops::P, false, true, true>(); }
SV_POLICIES(DEFW, int, i32)
SV_POLICIES(DEFW, long, i64)
SV_POLICIES(DEFW, unsigned, u32)
DEFW(fast, unsigned long, u64)
