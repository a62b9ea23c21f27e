// Mixed numbers: normalised, and exactly the value they were built from.
#include "sv.hpp"
#include <numeric>
using namespace sv;
using namespace ieme;
// exact value of a mixed number is (N / D) with D = den: checks normal form and value en / ed
template <class M> void normal(M const& m, int id)
{
  W w = m.whole(), n = m.fractional().num(), d = m.fractional().den();
  sv_assert(d != 0, id);
  sv_assert(wabs(n) < wabs(d), id + 1);
  if (d != 0) {
    bool pos = (n > 0 && d > 0) || (n < 0 && d < 0), neg = (n > 0 && d < 0) || (n < 0 && d > 0);
    sv_assert(!(w > 0 && neg) && !(w < 0 && pos), id + 2);
  }
}
template <class M> void value(M const& m, W en, W ed, int id)
{
  W w = m.whole(), n = m.fractional().num(), d = m.fractional().den();
  sv_assert((w * d + n) * ed == en * d, id);
}
// fraction components whose whole part fits the whole representation too
template <class WR, class FR> FR fnumw() { constexpr long b = sizeof(FR) > sizeof(WR) ? rng<WR>::half : rng<FR>::half; return in<FR>(rng<FR>::sg ? -b : 0, b); }
// 64-bit parts beyond the range of a 32-bit integer (the check itself must not overflow 128 bits)
template <class T> T bnum() { constexpr long b = sizeof(T) == 8 ? (1L << 40) - 1 : rng<T>::full / 2; return in<T>(rng<T>::sg ? -b : 0, b); }
template <class T> T bden() { T x = bnum<T>(); sv_assume(x != 0); return x; }
template <class WR, class FR> FR fdenw() { FR x = fnumw<WR, FR>(); sv_assume(x != 0); return x; }
template <class M> void mout(M const& m) { sv_out((long)m.whole()); out(m.fractional()); }
template <class WR, class FR, class Ops, bool WIDE = false> void ctor()
{
  WR w = WIDE ? bnum<WR>() : num<WR>(); FR n = WIDE ? bnum<FR>() : fnumw<WR, FR>(), d = WIDE ? bden<FR>() : fdenw<WR, FR>();
  if constexpr (WIDE) sv_assume(fits<WR>((W)n / d) && wabs(w) + wabs((W)n / d) <= rng<WR>::full);
  mixed_number<WR, FR, Ops> m(w, fr<Ops>(n, d));
  mout(m);
  normal(m, 1);
  value(m, (W)w * d + n, d, 4);
  sv_done();
}
template <class WR, class FR, class R, class Ops, class Ops2, bool WIDE = false> void conv()
{
  R n = WIDE ? fnum<R>() : num<R>(), d = WIDE ? fden<R>() : den<R>();
  if constexpr (WIDE && sizeof(WR) < sizeof(R)) sv_assume(fits<WR>((W)n / d));
  else if constexpr (sizeof(FR) < sizeof(R)) { sv_assume(n >= -32767 && n <= 32767 && d >= -32767 && d <= 32767); }
  mixed_number<WR, FR, Ops> m(fr<Ops2>(n, d));
  mout(m);
  normal(m, 1);
  value(m, n, d, 4);
  sv_done();
}
// a fraction of a wider representation, whose own components need not fit as long as the parts do
template <class Ops, class Ops2> void narrow()
{
  long n = fnum<long>(), d = in<long>(-2147483647, 2147483647);
  sv_assume(d != 0 && fits<int>((W)n / d));
  mixed_number<int, int, Ops> m(fr<Ops2>(n, d));
  mout(m);
  normal(m, 1);
  value(m, n, d, 4);
  sv_done();
}
// the parts fit only once they are reduced
template <class Ops> void narrow_reduced()
{
  long n = fnum<long>(), d = fden<long>(), g = std::gcd(n, d);
  sv_assume(fits<int>(d / g) && fits<int>(n / d));
  mixed_number<int, int, Ops> m(fr<Ops>(n, d));
  mout(m);
  normal(m, 1);
  value(m, n, d, 4);
  sv_done();
}
// assigning a fraction to an existing mixed number (implicit conversion)
template <class WR, class FR, class Ops, bool WIDE = false> void assign()
{
  WR w = WIDE ? bnum<WR>() : num<WR>(); FR n = WIDE ? bnum<FR>() : fnumw<WR, FR>(), d = WIDE ? bden<FR>() : fdenw<WR, FR>();
  if constexpr (WIDE) sv_assume(fits<WR>((W)n / d));
  mixed_number<WR, FR, Ops> m(w);
  sv_assert(m.whole() == w && m.fractional().num() == 0 && m.fractional().den() != 0, 5);
  m = fr<Ops>(n, d);
  mout(m);
  normal(m, 1);
  value(m, n, d, 4);
  sv_done();
}
template <class WR, class FR, class Ops, bool WIDE = false> void back()
{
  WR w = WIDE ? bnum<WR>() : num<WR>(); FR n = WIDE ? bnum<FR>() : fnumw<WR, FR>(), d = WIDE ? bden<FR>() : fdenw<WR, FR>();
  if constexpr (WIDE) sv_assume(fits<std::common_type_t<WR, FR>>((W)w * d + n) && fits<std::common_type_t<WR, FR>>((W)w * d));
  auto m = any<WR, FR, Ops>(w, n, d);
  auto f = m.as_fraction();
  sv_assert(f.den() != 0, 1);
  sv_assert((W)f.num() * d == ((W)w * d + n) * (W)f.den(), 2);
  fraction<std::common_type_t<WR, FR>, Ops> g = m;
  sv_assert((W)g.num() * d == ((W)w * d + n) * (W)g.den() && g.den() != 0, 3);
  sv_assert(g.num() == f.num() && g.den() == f.den(), 4);
  auto p = +m;
  sv_assert(p.whole() == m.whole() && p.fractional().num() == m.fractional().num() && p.fractional().den() == m.fractional().den(), 5);
  out(f);
  sv_done();
}
template <class WR, class FR, class Ops, bool WIDE = false> void neg()
{
  WR w = WIDE ? bnum<WR>() : num<WR>(); FR n = WIDE ? bnum<FR>() : fnumw<WR, FR>(), d = WIDE ? bden<FR>() : fdenw<WR, FR>();
  auto m = any<WR, FR, Ops>(w, n, d);
  auto r = -m;
  mout(r);
  normal(r, 1);
  value(r, -((W)w * d + n), d, 4);
  sv_done();
}
#define DEFS(P, WR, FR, N) \
  extern "C" void H_ctor_##N##_##P() { ctor<WR, FR, ops::P>(); } \
  extern "C" void H_conv_##N##_##P() { conv<WR, FR, FR, ops::P, ops::P>(); } \
  extern "C" void H_assign_##N##_##P() { assign<WR, FR, ops::P>(); } \
  extern "C" void H_back_##N##_##P() { back<WR, FR, ops::P>(); }
#define DEFN(P, WR, FR, N) extern "C" void H_neg_##N##_##P() { neg<WR, FR, ops::P>(); }
SV_POLICIES(DEFS, int, int, i32)
SV_POLICIES(DEFN, int, int, i32)
DEFS(safe_reduced_io, long, long, i64) DEFS(fast, long, long, i64) DEFN(safe_reduced_io, long, long, i64) DEFN(safe, long, long, i64)
DEFS(safe_reduced_io, unsigned, unsigned, u32) DEFS(fast, unsigned, unsigned, u32) DEFS(fast, unsigned long, unsigned long, u64)
DEFS(safe_reduced_io, long, int, li) DEFN(fast, long, int, li) DEFS(fast, int, long, il)
#define CONV(N, P, WR, FR, R, Q) extern "C" void H_conv2_##N##_##P##_##Q() { conv<WR, FR, R, ops::P, ops::Q>(); }
CONV(i32, safe_reduced_io, int, int, int, fast) CONV(i32, fast, int, int, int, safe_reduced_io) CONV(iil, fast, int, int, long, fast)
CONV(iil, safe_reduced_io, int, int, long, safe_reduced_io) CONV(lli, safe, long, long, int, fast_reduced_i) CONV(lli, safe_reduced_o, long, long, int, safe_reduced_o)
#define NARROW(P, Q) extern "C" void H_narrow_##P##_##Q() { narrow<ops::P, ops::Q>(); }
NARROW(fast, fast) NARROW(safe, safe) NARROW(fast_reduced_i, fast_reduced_i) NARROW(fast_reduced_o, fast_reduced_o) NARROW(fast_reduced_io, fast_reduced_io)
NARROW(safe_reduced_i, safe_reduced_i) NARROW(safe_reduced_o, safe_reduced_o) NARROW(safe_reduced_io, safe_reduced_io) NARROW(fast, safe) NARROW(safe_reduced_io, fast)
#define NARROWR(P, AS) extern "C" void AS##_narrowr_##P() { narrow_reduced<ops::P>(); }
NARROWR(fast_reduced_o, T) NARROWR(fast_reduced_io, T) NARROWR(safe_reduced_o, T) NARROWR(safe_reduced_io, H)
// 64-bit representations with parts beyond the range of a 32-bit integer
#define DEFW(P, WR, FR, N, AS) \
  extern "C" void AS##_wctor_##N##_##P() { ctor<WR, FR, ops::P, true>(); } \
  extern "C" void H_wassign_##N##_##P() { assign<WR, FR, ops::P, true>(); } \
  extern "C" void H_wback_##N##_##P() { back<WR, FR, ops::P, true>(); } \
  extern "C" void H_wconv_##N##_##P() { conv<WR, FR, FR, ops::P, ops::P, true>(); }
#define DEFWN(P, WR, FR, N) extern "C" void H_wneg_##N##_##P() { neg<WR, FR, ops::P, true>(); }
#define DEFW2(WR, FR, N) DEFW(fast, WR, FR, N, H) DEFW(fast_reduced_o, WR, FR, N, H) DEFW(safe, WR, FR, N, H) DEFW(fast_reduced_i, WR, FR, N, T) \
  DEFW(fast_reduced_io, WR, FR, N, T) DEFW(safe_reduced_i, WR, FR, N, T) DEFW(safe_reduced_o, WR, FR, N, T) DEFW(safe_reduced_io, WR, FR, N, T)
DEFW2(long, long, i64)
SV_POLICIES(DEFWN, long, long, i64)
DEFW2(int, int, i32)
DEFW(fast, unsigned, unsigned, u32, H) DEFW(safe_reduced_io, unsigned, unsigned, u32, H)
DEFW(fast, int, long, il, H) DEFW(fast, long, int, li, H)
