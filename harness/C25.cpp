// Absolute value and negation.
#include "sv.hpp"
using namespace sv;
using namespace ieme;
template <class R, class Ops> void ab()
{
  R a = xnum<R>(), b = xden<R>();
  auto x = fr<Ops>(a, b);
  auto r = abs(x);
  out(r);
  W D = b < 0 ? -(W)b : (W)b, N = b < 0 ? -(W)a : (W)a;
  sv_assert(r.den() != 0, 1);
  W rd = r.den() < 0 ? -(W)r.den() : (W)r.den(), rn = r.den() < 0 ? -(W)r.num() : (W)r.num();
  sv_assert(rn >= 0, 2);
  sv_assert((wide<R>)rn * (wide<R>)D == (wide<R>)wabs(N) * (wide<R>)rd, 3);
  sv_done();
}
template <class R, class Ops> void pn()
{
  R a = xnum<R>(), b = xden<R>();
  auto x = fr<Ops>(a, b);
  auto p = +x;
  out(p);
  sv_assert(p.num() == a && p.den() == b, 1);
  auto m = -x;
  auto d = -m;
  out(m); out(d);
  sv_assert(m.den() != 0 && d.den() != 0, 2);
  sv_assert((W)m.num() * b == -(W)a * (W)m.den(), 3);
  sv_assert((W)d.num() * b == (W)a * (W)d.den(), 4);
  sv_done();
}
template <class R> void iabs()
{
  R a = xnum<R>();
  R r = math_utilities::abs(a);
  sv_out((long)r);
  sv_assert((W)r == wabs(a), 1);
  sv_done();
}
#define DEFS(P, R, RN) \
  extern "C" void H_abs_##RN##_##P() { ab<R, ops::P>(); } \
  extern "C" void H_neg_##RN##_##P() { pn<R, ops::P>(); }
SV_POLICIES(DEFS, int, i32)
SV_POLICIES(DEFS, long, i64)
extern "C" void H_iabs_i32() { iabs<int>(); }
extern "C" void H_iabs_i64() { iabs<long>(); }
extern "C" void H_iabs_u32() { iabs<unsigned>(); }
extern "C" void H_iabs_ll() { iabs<long long>(); }
#define DEFU(P, R, RN) extern "C" void H_abs_##RN##_##P() { ab<R, ops::P>(); }
SV_POLICIES(DEFU, unsigned, u32)
DEFU(fast, unsigned long, u64) DEFU(safe_reduced_io, unsigned long, u64)
extern "C" void H_iabs_u64() { iabs<unsigned long>(); }
