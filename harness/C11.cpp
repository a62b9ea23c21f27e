// Integer powers.
#include "sv.hpp"
#include <limits>
using namespace sv;
using namespace ieme;
// largest b >= 0 with b^e <= limit (e >= 1)
inline long root(unsigned __int128 limit, int e)
{
  long lo = 1, hi = 9223372036854775807;
  if (e == 1) return limit > (unsigned __int128)hi ? hi : (long)limit;
  hi = e == 2 ? 3037000500l : e == 3 ? 2097152l : 65536l;
  while (lo < hi) {
    long mid = lo + (hi - lo + 1) / 2;
    unsigned __int128 p = 1; bool ok = true;
    for (int i = 0; i < e && ok; ++i) { p *= (unsigned long)mid; ok = p <= limit; }
    if (ok) lo = mid; else hi = mid - 1;
  }
  return lo;
}
template <class R, class F> void check(F r, R b, int e)
{
  out(r);
  W p = 1;
  long n = e < 0 ? -(long)e : (long)e;
  if (n <= 64) { for (long i = 0; i < n; ++i) p *= b; }
  else p = b == R(0) ? W(0) : (b == R(1) || n % 2 == 0) ? W(1) : W(-1);
  if (e >= 0) { sv_assert(r.den() != 0, 1); sv_assert((W)r.num() == p * (W)r.den(), 2); }
  else if (b == 0) sv_assert(r.den() == 0, 3);
  else { sv_assert(r.den() != 0, 4); sv_assert((W)r.num() * p == (W)r.den(), 5); }
  sv_done();
}
template <class R, class Ops> void ipow()
{
  int e = (int)sv_case(-64, 64);
  int n = e < 0 ? -e : e;
  unsigned __int128 mx = (unsigned __int128)std::numeric_limits<R>::max();
  long hi, lo;
  if (n == 0) { hi = rng<R>::full; lo = rng<R>::sg ? -hi : 0; }
  else {
    hi = root(mx, n);
    lo = !rng<R>::sg ? 0 : -(n % 2 == 1 && e > 1 ? root(mx + 1, n) : hi);     // odd powers reach the minimum value
  }
  R b = (R)sv_range(lo, hi);
  check(pow<R, Ops>(b, e), b, e);
}
// exponents so large that only the bases -1, 0 and 1 have representable powers
template <class R, class Ops> void extreme()
{
  constexpr int es[] = {65, 127, 1000, 65535, 1 << 30, 2147483646, 2147483647, -65, -100, -65536, -2147483647, -2147483647 - 1};
  int e = es[sv_case(0, 11)];
  R b = (R)sv_case(rng<R>::sg ? -1 : 0, 1);
  check(pow<R, Ops>(b, e), b, e);
}
template <class R, class Ops> void p2()
{
  constexpr int m = std::numeric_limits<R>::digits - 1;
  int e = (int)sv_range(-m, m);
  auto r = pow2<R, Ops>(e);
  out(r);
  sv_assert(r.den() != 0 && r.num() != 0, 1);
  unsigned __int128 one = 1;
  if (e >= 0) sv_assert((W)r.num() == (W)((one << e) * (unsigned __int128)r.den()), 2);
  else sv_assert((W)((one << -e) * (unsigned __int128)r.num()) == (W)r.den(), 3);
  auto q = pow<R, Ops>(R(2), 3);
  sv_done();
}
// powers of two agree with pow
template <class R, class Ops> void agree()
{
  constexpr int m = std::numeric_limits<R>::digits - 1;
  int e = (int)sv_case(-m, m);
  auto r = pow2<R, Ops>(e), s = pow<R, Ops>(R(2), e);
  sv_assert((W)r.num() * s.den() == (W)s.num() * r.den() && r.den() != 0 && s.den() != 0, 1);
  sv_done();
}
// the integer helpers
template <class R> void helper()
{
  int n = (int)sv_case(0, 63);
  long hi = n == 0 ? rng<R>::full : root((unsigned __int128)std::numeric_limits<R>::max(), n);
  R b = (R)sv_range(rng<R>::sg ? -hi : 0, hi);
  R r = math_utilities::pow(b, R(n));
  sv_out((long)r);
  W p = 1;
  for (int i = 0; i < n; ++i) p *= b;
  sv_assert((W)r == p, 1);
  if (n < std::numeric_limits<R>::digits) sv_assert((unsigned __int128)math_utilities::pow2(R(n)) == (unsigned __int128)1 << n, 2);
  sv_done();
}
#define DEFS(P, R, RN) \
  extern "C" void H_pow_##RN##_##P() { ipow<R, ops::P>(); } \
  extern "C" void H_extreme_##RN##_##P() { extreme<R, ops::P>(); } \
  extern "C" void H_pow2_##RN##_##P() { p2<R, ops::P>(); } \
  extern "C" void H_agree_##RN##_##P() { agree<R, ops::P>(); }
#define QUICK(R, RN) DEFS(safe_reduced_io, R, RN) DEFS(fast, R, RN) extern "C" void H_ipow_##RN() { helper<R>(); }
QUICK(int, i32)
QUICK(long, i64)
QUICK(unsigned, u32)
QUICK(unsigned long, u64)
