// Construction, component access and assignment of raw fractions, fractions and mixed numbers.  The oracle is the two
// public members of raw_fraction.
#include "sv.hpp"
using namespace sv;
using namespace ieme;
template <class T> T anyv()
{
  if constexpr (!rng<T>::sg && sizeof(T) == 8) return (T)sv_urange(0, ~0ul);
  else return rng<T>::sg ? in<T>(sizeof(T) == 4 ? -2147483648L : -9223372036854775807L - 1, rng<T>::full) : in<T>(0, rng<T>::full);
}
template <class R> bool is(raw_fraction<R> const& f, R n, R d) { return f.numerator == n && f.denominator == d; }
template <class R> void rawf()
{
  R n = anyv<R>(), d = anyv<R>(), m = anyv<R>();
  raw_fraction<R> f(n, d), z;
  sv_out((long)f.numerator); sv_out((long)f.denominator);
  sv_assert(is(f, n, d), 1);
  sv_assert(is(z, R(0), R(0)), 2);
  raw_fraction<R> c = f;
  sv_assert(is(c, n, d), 3);
  c.numerator = m;
  sv_assert(is(c, m, d) && is(f, n, d), 4);
  c = f;
  c.denominator = m;
  sv_assert(is(c, n, m) && is(f, n, d), 5);
  sv_done();
}
template <class R, class O> void build()
{
  R n = anyv<R>(), d = anyv<R>();
  using F = fraction<R, O>;
  F z, f(n, d), g(raw_fraction<R>(n, d)), w(n), i = n;
  out(f);
  sv_assert(is(z.raw(), R(0), R(1)), 1);
  sv_assert(is(f.raw(), n, d), 2);
  sv_assert(is(g.raw(), n, d), 3);
  sv_assert(is(w.raw(), n, R(1)) && is(i.raw(), n, R(1)), 4);
  F c = f, e;
  e = f;
  sv_assert(is(c.raw(), n, d) && is(e.raw(), n, d), 5);
  F const& q = f;
  sv_assert(q.numerator() == n && q.num() == n && q.denominator() == d && q.den() == d && is(q.raw(), n, d), 6);
  sv_assert(f.numerator() == n && f.num() == n && f.denominator() == d && f.den() == d, 7);
  e = d;
  sv_assert(is(e.raw(), d, R(1)), 8);
  sv_done();
}
template <class R, class O> void write()
{
  R n = anyv<R>(), d = anyv<R>(), m = anyv<R>();
  using F = fraction<R, O>;
  F a(n, d), b = a, c = a, e = a, r = a, s = a;
  a.numerator() = m;
  sv_assert(is(a.raw(), m, d), 1);
  b.num() = m;
  sv_assert(is(b.raw(), m, d), 2);
  c.denominator() = m;
  sv_assert(is(c.raw(), n, m), 3);
  e.den() = m;
  sv_assert(is(e.raw(), n, m), 4);
  r.raw() = raw_fraction<R>(m, n);
  sv_assert(is(r.raw(), m, n), 5);
  s.raw().numerator = m;
  sv_assert(is(s.raw(), m, d) && s.num() == m && s.den() == d, 6);
  out(a);
  sv_done();
}
template <class WR, class FR, class O> void mixed()
{
  WR w = anyv<WR>();
  using M = mixed_number<WR, FR, O>;
  M z, m(w), i = w;
  sv_out((long)m.whole());
  sv_assert(z.whole() == 0 && is(z.fractional().raw(), FR(0), FR(1)), 1);
  sv_assert(m.whole() == w && m.fractional().num() == 0 && m.fractional().den() != 0, 2);
  sv_assert(i.whole() == w && i.fractional().num() == 0 && i.fractional().den() != 0, 3);
  z = m;
  sv_assert(z.whole() == w && z.fractional().num() == 0 && z.fractional().den() != 0, 4);
  sv_done();
}
#define RAW(N, R) extern "C" void H_raw_##N() { rawf<R>(); }
RAW(i32, int) RAW(u32, unsigned) RAW(i64, long) RAW(u64, unsigned long) RAW(ll, long long)
#define ONE(P, R, N) extern "C" void H_build_##N##_##P() { build<R, ops::P>(); } extern "C" void H_write_##N##_##P() { write<R, ops::P>(); }
SV_POLICIES(ONE, int, i32)
SV_POLICIES(ONE, long, i64)
ONE(safe_reduced_io, unsigned, u32) ONE(fast, unsigned long, u64) ONE(safe_reduced_io, long long, ll)
#define MIX(P, W, F, N) extern "C" void H_mixed_##N##_##P() { mixed<W, F, ops::P>(); }
SV_POLICIES(MIX, int, int, i32)
MIX(safe_reduced_io, long, long, i64) MIX(safe_reduced_io, long, int, li) MIX(fast, int, long, il) MIX(safe_reduced_io, unsigned, unsigned, u32) MIX(fast, long, long, i64)
