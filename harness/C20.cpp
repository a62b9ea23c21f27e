// Fraction literals: integer / literal is exactly that fraction.
#include "sv.hpp"
using namespace sv;
using namespace ieme;
using namespace ieme::literals;
// the value written before _fr: whatever fits the representation of the integer
template <class R> unsigned long long written() { return (unsigned long long)sv_urange(0, std::numeric_limits<R>::max()); }
template <class R> R anyv() { return rng<R>::sg ? in<R>(sizeof(R) == 4 ? -2147483648L : -9223372036854775807L - 1, rng<R>::full) : xnum<R>(); }
template <class F, class R> void is(F const& f, R n, W d, int id)
{
  static_assert(std::is_same_v<F, fraction<R, ops::defaults>>);
  sv_assert(f.num() == n, id);
  sv_assert((W)f.den() == d, id + 1);
}
template <class R> void plain()
{
  R n = anyv<R>();
  unsigned long long v = written<R>();
  auto l = operator""_fr(v);
  static_assert(!decltype(l)::is_signed);
  sv_assert(l.value() == v, 1);
  is(n / l, n, (W)v, 2);
  auto p = +l;
  sv_assert(p.value() == v, 4);
  is(n / p, n, (W)v, 5);
  auto pp = +(+l);
  is(n / pp, n, (W)v, 7);
  out(n / l);
  sv_done();
}
// the signed forms; for unsigned representations the negation is meaningless and is not used
template <class R> void negated()
{
  R n = anyv<R>();
  unsigned long long v = written<R>();
  auto l = operator""_fr(v);
  auto m = -l;
  static_assert(decltype(m)::is_signed);
  sv_assert((W)m.value() == -(W)v, 1);
  is(n / m, n, -(W)v, 2);
  auto q = +m;
  sv_assert((W)q.value() == -(W)v, 4);
  is(n / q, n, -(W)v, 5);
  auto b = -m;
  sv_assert((W)b.value() == (W)v, 7);
  is(n / b, n, (W)v, 8);
  auto s = -(+(-l));
  is(n / s, n, (W)v, 10);
  is(-(n == std::numeric_limits<R>::min() ? R(0) : n) / l, R(n == std::numeric_limits<R>::min() ? 0 : -n), (W)v, 12);
  out(n / m);
  sv_done();
}
// a fraction divided by a literal
template <class R, class Ops> void divided()
{
  R n = fnum<R>(), d = fden<R>();
  unsigned long long v = written<R>();
  sv_assume(wabs((W)d * (W)v) <= rng<R>::full);
  auto f = fr<Ops>(n, d);
  denominator_literal<false, Ops> l(v);
  auto r = f / l;
  static_assert(std::is_same_v<decltype(r), fraction<R, Ops>>);
  out(r);
  if (v == 0) sv_assert(r.den() == 0, 1);
  else {
    sv_assert(r.den() != 0, 2);
    sv_assert((W)r.num() * ((W)d * (W)v) == (W)n * (W)r.den(), 3);
  }
  if constexpr (rng<R>::sg) {
    auto q = f / -l;
    static_assert(std::is_same_v<decltype(q), fraction<R, Ops>>);
    if (v == 0) sv_assert(q.den() == 0, 4);
    else {
      sv_assert(q.den() != 0, 5);
      sv_assert((W)q.num() * ((W)d * (W)v) == -(W)n * (W)q.den(), 6);
    }
  }
  sv_done();
}
extern "C" void H_plain_i32() { plain<int>(); }
extern "C" void H_plain_i64() { plain<long>(); }
extern "C" void H_plain_ll() { plain<long long>(); }
extern "C" void H_plain_u32() { plain<unsigned>(); }
extern "C" void H_plain_u64() { plain<unsigned long>(); }
extern "C" void H_neg_i32() { negated<int>(); }
extern "C" void H_neg_i64() { negated<long>(); }
extern "C" void H_neg_ll() { negated<long long>(); }
#define DIV(P, R, N) extern "C" void H_div_##N##_##P() { divided<R, ops::P>(); }
SV_POLICIES(DIV, int, i32)
DIV(safe_reduced_io, long, i64) DIV(fast, long, i64) DIV(safe_reduced_io, unsigned, u32) DIV(fast, unsigned long, u64) DIV(safe, unsigned, u32)
