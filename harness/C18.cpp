// Hashing agrees with equality.
#include "sv.hpp"
#include <ieme/hash.hpp>
using namespace sv;
using namespace ieme;
template <class R, class Ops, class Ops2> void eqhash()
{
  R n = xnum<R>(), d = xden<R>(), p = xnum<R>(), q = xden<R>();
  sv_assume((wide<R>)n * (wide<R>)q == (wide<R>)p * (wide<R>)d);
  auto a = fr<Ops>(n, d);
  auto b = fr<Ops2>(p, q);
  std::size_t ha = hash(a), hb = hash(b);
  sv_assert(ha == hb, 1);
  sv_assert(std::hash<fraction<R, Ops>>()(a) == ha, 2);
  sv_out((long)ha); sv_out((long)hb);
  sv_done();
}
// one value held in two forms, k (p / q) and l (p / q)
template <class R, class Ops> void scaled(long K)
{
  R p = in<R>(rng<R>::sg ? -K : 0, K), q = in<R>(rng<R>::sg ? -K : 0, K), k = in<R>(rng<R>::sg ? -K : 1, K);
  sv_assume(q != 0 && k != 0);
  auto a = fr<Ops>(p, q);
  auto b = fr<Ops>((R)(k * p), (R)(k * q));
  std::size_t ha = hash(a), hb = hash(b);
  sv_assert(ha == hb, 1);
  sv_out((long)ha); sv_out((long)hb);
  sv_done();
}
// all undefined fractions may hash to anything, but hashing them must not trap
template <class R, class Ops> void undef()
{
  R n = xnum<R>(), d = xnum<R>();
  auto a = fr<Ops>(n, d);
  std::size_t h = hash(a);
  sv_assert(h == std::hash<fraction<R, Ops>>()(a), 1);
  sv_out((long)h);
  sv_done();
}
template <class R> void raw()
{
  R n = xnum<R>(), d = xnum<R>(), p = xnum<R>(), q = xnum<R>();
  raw_fraction<R> a(n, d), b(p, q);
  std::size_t ha = hash(a), hb = hash(b);
  if (n == p && d == q) sv_assert(ha == hb, 1);
  sv_assert(std::hash<raw_fraction<R>>()(a) == ha, 2);
  sv_out((long)ha); sv_out((long)hb);
  sv_done();
}
// mixed numbers with equal whole parts and equal fractional parts
template <class WR, class FR, class Ops> void mixed()
{
  WR w = num<WR>();
  FR n = num<FR>(), d = den<FR>(), p = num<FR>(), q = den<FR>();
  sv_assume((W)n * q == (W)p * d);
  auto a = any<WR, FR, Ops>(w, n, d), b = any<WR, FR, Ops>(w, p, q);
  sv_assume(a.whole() == b.whole());
  W an = a.fractional().num(), ad = a.fractional().den(), bn = b.fractional().num(), bd = b.fractional().den();
  sv_assume(an * bd == bn * ad && ad != 0 && bd != 0);
  std::size_t ha = hash(a), hb = hash(b);
  sv_assert(ha == hb, 1);
  sv_assert((std::hash<mixed_number<WR, FR, Ops>>()(a)) == ha, 2);
  sv_out((long)ha); sv_out((long)hb);
  sv_done();
}
#define EQ(P, R, N) extern "C" void H_eq_##N##_##P() { eqhash<R, ops::P, ops::P>(); } \
  extern "C" void H_undef_##N##_##P() { undef<R, ops::P>(); }
SV_POLICIES(EQ, int, i32)
EQ(safe_reduced_io, long, i64) EQ(safe_reduced_io, unsigned, u32) EQ(fast, long, i64) EQ(safe, unsigned long, u64)
extern "C" void H_eqx_i32() { eqhash<int, ops::safe_reduced_io, ops::fast>(); }
#define SC(P, R, N, K) extern "C" void H_scaled_##N##_##P() { scaled<R, ops::P>(K); }
SC(safe_reduced_io, int, i32, 32767) SC(fast, int, i32, 32767) SC(fast, long, i64, 2147483647) SC(safe, unsigned, u32, 65535) SC(fast, unsigned long, u64, 4294967295)
extern "C" void H_raw_i32() { raw<int>(); }
extern "C" void H_raw_i64() { raw<long>(); }
extern "C" void H_raw_u32() { raw<unsigned>(); }
extern "C" void H_raw_u64() { raw<unsigned long>(); }
#define MIX(P, WR, FR, N) extern "C" void H_mixed_##N##_##P() { mixed<WR, FR, ops::P>(); }
SV_POLICIES(MIX, int, int, i32)
MIX(safe_reduced_io, long, int, li) MIX(fast, unsigned, unsigned, u32)
