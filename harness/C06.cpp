// Reduced-output policies return canonical results.
#include "sv.hpp"
#include <numeric>
using namespace sv;
using namespace ieme;
template <class R, class Ops, int OP, bool LF, bool RF, bool WIDE = false> void canon()
{
  R a = operand_num<R, WIDE>(), c = operand_num<R, WIDE>(), b = LF ? operand_den<R, WIDE>() : R(1), d = RF ? operand_den<R, WIDE>() : R(1);
  if constexpr (WIDE) {
    if constexpr (OP != 2) sv_assume(fits<R>((W)a * d) && fits<R>((W)c * b)); else sv_assume(fits<R>((W)a * c));
    if constexpr (OP != 3) sv_assume(fits<R>((W)b * d));
    if constexpr (OP == 0) sv_assume(fits<R>((W)a * d + (W)c * b));
    if constexpr (OP == 1) sv_assume(fits<R>((W)a * d - (W)c * b));
  }
  auto x = operand<LF, R, Ops>(a, b);
  auto y = operand<RF, R, Ops>(c, d);
  if constexpr (OP >= 3) sv_assume(c != 0);
  if constexpr (OP == 1 && !rng<R>::sg) sv_assume((W)a * d >= (W)c * b);
  auto r = [&] { if constexpr (OP == 0) return x + y; else if constexpr (OP == 1) return x - y;
                 else if constexpr (OP == 2) return x * y; else if constexpr (OP == 3) return x / y;
                 else return x % y; }();
  out(r);
  sv_assert(r.den() > 0, 1);
  sv_assert(std::gcd(r.num(), r.den()) == R(1), 2);
  sv_assert(r.num() != 0 || r.den() == 1, 3);
  sv_done();
}
template <class R, class Ops> void neg()
{
  R a = num<R>(), b = den<R>();
  auto r = -fr<Ops>(a, b);
  out(r);
  sv_assert(r.den() > 0, 1);
  sv_assert(std::gcd(r.num(), r.den()) == R(1), 2);
  sv_assert(r.num() != 0 || r.den() == 1, 3);
  sv_done();
}
#define K(P, R, RN, OP, ON) \
  extern "C" void H_##ON##_ff_##RN##_##P() { canon<R, ops::P, OP, true, true>(); } \
  extern "C" void H_##ON##_fi_##RN##_##P() { canon<R, ops::P, OP, true, false>(); } \
  extern "C" void H_##ON##_if_##RN##_##P() { canon<R, ops::P, OP, false, true>(); }
#define DEFS(P, R, RN) K(P, R, RN, 0, plus) K(P, R, RN, 1, minus) K(P, R, RN, 2, times) K(P, R, RN, 3, over) K(P, R, RN, 4, mod)
#define ALL(R, RN) DEFS(safe_reduced_o, R, RN) DEFS(safe_reduced_io, R, RN) DEFS(fast_reduced_o, R, RN) DEFS(fast_reduced_io, R, RN)
ALL(int, i32)
ALL(long, i64)
ALL(unsigned, u32)
DEFS(fast_reduced_o, unsigned long, u64)
#define N(P, R, RN) extern "C" void H_neg_##RN##_##P() { neg<R, ops::P>(); }
#define NALL(R, RN) N(safe_reduced_o, R, RN) N(safe_reduced_io, R, RN) N(fast_reduced_o, R, RN) N(fast_reduced_io, R, RN)
NALL(int, i32)
NALL(long, i64)
// the whole range of the representation, as far as the cross products fit
#define KW(P, R, RN, OP, ON) \
  extern "C" void H_w##ON##_ff_##RN##_##P() { canon<R, ops::P, OP, true, true, true>(); } \
  extern "C" void H_w##ON##_fi_##RN##_##P() { canon<R, ops::P, OP, true, false, true>(); } \
  extern "C" void H_w##ON##_if_##RN##_##P() { canon<R, ops::P, OP, false, true, true>(); }
#define DEFW(P, R, RN) KW(P, R, RN, 0, plus) KW(P, R, RN, 1, minus) KW(P, R, RN, 2, times) KW(P, R, RN, 3, over) KW(P, R, RN, 4, mod)
#define ALLW(R, RN) DEFW(safe_reduced_o, R, RN) DEFW(safe_reduced_io, R, RN) DEFW(fast_reduced_o, R, RN) DEFW(fast_reduced_io, R, RN)
ALLW(int, i32)
ALLW(long, i64)
ALLW(unsigned, u32)
