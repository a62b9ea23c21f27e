// Fraction to floating-point: the exact value rounded once.
#include "sv.hpp"
#include <numeric>
using namespace sv;
using namespace ieme;
template <class F, class X> F conv(X const& x) { if constexpr (sizeof(F) == 4) return to_float(x); else if constexpr (sizeof(F) == 8) return to_double(x); else return to_long_double(x); }
// components exactly representable in F, not necessarily reduced
template <class F, class R, class Ops> void rounded()
{
  constexpr long p = std::numeric_limits<F>::digits, full = rng<R>::full, B = p >= 62 || full < (1l << p) ? full : (1l << p);
  constexpr long lo = rng<R>::sg ? -B : 0;
  R a, b;
  if constexpr (!rng<R>::sg && sizeof(R) == 8 && p >= 64) { a = xnum<R>(); b = xnum<R>(); } else { a = in<R>(lo, B); b = in<R>(lo, B); }
  sv_assume(b != 0);
  F r = conv<F>(fr<Ops>(a, b));
  sv_assert(r == (F)a / (F)b, 1);
  sv_done();
}
// any components whose quotients by their gcd are exactly representable
template <class F, class R, class Ops> void scaled()
{
  constexpr long p = std::numeric_limits<F>::digits, full = rng<R>::full, B = full < (1l << (p < 62 ? p : 62)) ? full : (1l << (p < 62 ? p : 62));
  R n = xnum<R>(), d = xden<R>();
  R g = std::gcd(n, d);
  R a = n / g, b = d / g;
  sv_assume((W)a <= B && -(W)a <= B && (W)b <= B && -(W)b <= B);
  F r = conv<F>(fr<Ops>(n, d));
  sv_assert(r == (F)a / (F)b, 2);
  sv_done();
}
// two fractions with the same value convert to the same number
template <class F, class R, class Ops> void equal()
{
  constexpr long p = std::numeric_limits<F>::digits, B = rng<R>::half < (1l << p) ? rng<R>::half : (1l << p);
  constexpr long lo = rng<R>::sg ? -B : 0;
  R a = in<R>(lo, B), b = in<R>(lo, B), c = in<R>(lo, B), d = in<R>(lo, B);
  sv_assume(b != 0 && d != 0 && (W)a * d == (W)c * b);
  sv_assert(conv<F>(fr<Ops>(a, b)) == conv<F>(fr<Ops>(c, d)), 3);
  sv_done();
}
template <class F, class R, class Ops> void undef()
{
  R a = xnum<R>();
  F r = conv<F>(fr<Ops>(a, R(0)));
  sv_assert(r != r, 4);
  sv_done();
}
#define DEFS(P, F, R, N) \
  extern "C" void H_rounded_##N##_##P() { rounded<F, R, ops::P>(); } \
  extern "C" void H_scaled_##N##_##P() { scaled<F, R, ops::P>(); } \
  extern "C" void H_equal_##N##_##P() { equal<F, R, ops::P>(); } \
  extern "C" void H_undef_##N##_##P() { undef<F, R, ops::P>(); }
#define ALL(P) DEFS(P, float, int, f_i32) DEFS(P, double, int, d_i32) DEFS(P, float, long, f_i64) DEFS(P, double, long, d_i64) DEFS(P, float, unsigned, f_u32) DEFS(P, double, unsigned, d_u32)
ALL(safe_reduced_io)
ALL(fast)
ALL(safe)
#define LD(P, R, N) extern "C" void H_rounded_##N##_##P() { rounded<long double, R, ops::P>(); } extern "C" void H_undef_##N##_##P() { undef<long double, R, ops::P>(); }
DEFS(fast, double, unsigned long, d_u64) LD(fast, unsigned long, x_u64) LD(safe_reduced_io, int, x_i32) LD(safe_reduced_io, long, x_i64) LD(fast, long, x_i64) LD(fast, unsigned, x_u32)

// float -> fraction -> float is the identity where the value fits
template <class R, class Ops, int LO, int HI> void trip()
{
  long e = sv_case(LO, HI);
  unsigned mant = (unsigned)sv_urange(0, (1u << 23) - 1), sgn = (unsigned)sv_urange(0, 1);
  unsigned bits = sgn << 31 | (unsigned)e << 23 | mant, sig = mant | 1u << 23;
  int ex = (int)e - 150;
  constexpr int digits = std::numeric_limits<R>::digits;
  if (ex >= 0) sv_assume(ex + 24 <= digits);
  else if (-ex >= digits) sv_assume((sig & ((1u << (-ex - digits + 1)) - 1)) == 0);
  float x; __builtin_memcpy(&x, &bits, 4);
  auto f = to_fraction<R, Ops>(x);
  float r = to_float(f);
  sv_assert(r == x, 5);
  sv_done();
}
extern "C" void H_trip1_i32_fast() { trip<int, ops::fast, 97, 126>(); }
extern "C" void H_trip2_i32_fast() { trip<int, ops::fast, 127, 157>(); }
