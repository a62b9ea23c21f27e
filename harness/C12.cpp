// Floating-point to fraction: exact whenever the value fits, undefined for NaN and infinities.
#include "sv.hpp"
using namespace sv;
using namespace ieme;
template <class F> struct fmt;
template <> struct fmt<float> { using U = unsigned; static constexpr int m = 23, e = 8; };
template <> struct fmt<double> { using U = unsigned long; static constexpr int m = 52, e = 11; };
template <class F, class U> F value(U bits) { F f; __builtin_memcpy(&f, &bits, sizeof f); return f; }
template <class F, class R, class Ops> ieme::fraction<R, Ops> conv(typename fmt<F>::U bits) { return to_fraction<R, Ops>(value<F>(bits)); }
// finite nonzero values: 2^ex * sig, sig odd after removing trailing zeros; LO..HI range of the biased exponent field
template <class F, class R, class Ops, int LO, int HI> void finite()
{
  using U = typename fmt<F>::U; using M = fmt<F>;
  constexpr int bias = (1 << (M::e - 1)) - 1, digits = std::numeric_limits<R>::digits;
  long e = sv_case(LO, HI);
  U mant = static_cast<U>(sv_urange(0, (1ul << M::m) - 1));
  U sgn = static_cast<U>(sv_urange(0, 1));
  if (!std::numeric_limits<R>::is_signed) sv_assume(sgn == 0);
  U bits = (sgn << (M::m + M::e)) | (static_cast<U>(e) << M::m) | mant;
  U sig = mant | (U(1) << M::m);
  int ex = static_cast<int>(e) - bias - M::m;
  // exact components: |num| and den
  unsigned __int128 n = sig, d = 1;
  bool fits = true;
  if (ex >= 0) { if (ex >= digits) fits = false; else n <<= ex; }
  else {
    int k = -ex;
    if (k > M::m) k = M::m + 1;              // at most m trailing zeros can be cancelled
    U low = sig & (U(0) - sig);
    U lim = U(1) << (k > M::m ? M::m : k);
    U g = low < lim ? low : lim;               // gcd(sig, 2^k)
    if (-ex - M::m >= digits) fits = false;
    else {
      n = sig;
      // divide by g: shift right while the quotient is even, without a loop over the symbolic count
      int t = __builtin_ctzl(g);
      n >>= t;
      if (-ex - t >= digits) fits = false; else d = (unsigned __int128)1 << (-ex - t);
    }
  }
  if (fits && n > (unsigned __int128)std::numeric_limits<R>::max()) fits = false;
  sv_assume(fits);
  auto r = conv<F, R, Ops>(bits);
  out(r);
  W N = sgn ? -(W)n : (W)n;
  sv_assert(r.num() == (R)N && r.den() == (R)d, 1);
  sv_done();
}
template <class F, class R, class Ops> void special()
{
  using U = typename fmt<F>::U; using M = fmt<F>;
  U mant = static_cast<U>(sv_urange(0, (1ul << M::m) - 1));
  U sgn = static_cast<U>(sv_urange(0, 1));
  auto r = conv<F, R, Ops>((sgn << (M::m + M::e)) | (((U(1) << M::e) - 1) << M::m) | mant);
  out(r);
  sv_assert(is_undefined(r) && r.den() == 0, 2);
  sv_done();
}
template <class F, class R, class Ops> void zero()
{
  using U = typename fmt<F>::U; using M = fmt<F>;
  U sgn = static_cast<U>(sv_urange(0, 1));
  auto r = conv<F, R, Ops>(sgn << (M::m + M::e));
  out(r);
  sv_assert(r.num() == 0 && r.den() != 0, 3);
  sv_done();
}
#define FIN(P, F, R, N, S, LO, HI) extern "C" void H_finite##S##_##N##_##P() { finite<F, R, ops::P, LO, HI>(); }
#define DEFS(P, F, R, N, LO, HI) \
  FIN(P, F, R, N, 1, LO, LO + (HI - LO) / 4) \
  FIN(P, F, R, N, 2, LO + (HI - LO) / 4 + 1, LO + (HI - LO) / 2) \
  FIN(P, F, R, N, 3, LO + (HI - LO) / 2 + 1, LO + (HI - LO) * 3 / 4) \
  FIN(P, F, R, N, 4, LO + (HI - LO) * 3 / 4 + 1, HI) \
  extern "C" void H_special_##N##_##P() { special<F, R, ops::P>(); } \
  extern "C" void H_zero_##N##_##P() { zero<F, R, ops::P>(); }
// the biased exponents for which some value fits
#define ALL(P) \
  DEFS(P, float, int, f_i32, 97, 157) DEFS(P, float, long, f_i64, 65, 189) \
  DEFS(P, double, int, d_i32, 993, 1053) DEFS(P, double, long, d_i64, 961, 1085)
ALL(fast)
ALL(safe_reduced_io)
DEFS(safe, double, int, d_i32, 993, 1053)
DEFS(fast_reduced_io, float, int, f_i32, 97, 157)
DEFS(fast, float, unsigned, f_u32, 96, 158)
DEFS(safe_reduced_o, double, unsigned, d_u32, 992, 1054)
DEFS(fast, float, unsigned long, f_u64, 64, 190)
DEFS(safe_reduced_io, double, unsigned long, d_u64, 960, 1086)
